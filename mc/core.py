"""Driver: compiles generated exploration programs against /repo's current headers, runs them exhaustively,
replays every disagreement, applies the known-findings list, writes evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 8)
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "0"))


class Prog:
    """One program of the alphabet.  body: C++ statements using `p` (const u64*) and `pr` (Probe&)."""
    __slots__ = ("id", "ref", "doms", "wide", "body", "cost", "pre", "mid")

    def __init__(self, id, ref, doms, body, wide=None, cost=1.0, pre="", mid=None):
        self.id, self.ref, self.doms, self.body, self.wide, self.cost, self.pre, self.mid = id, ref, doms, body, wide, cost, pre, mid

    def cpp(self, n):
        dom = "/".join("|".join(",".join(str(v) for v in d) for d in ds) for ds in (self.doms, self.mid) if ds is not None)
        wide = "|".join(",".join(str(v) + "" for v in d) for d in self.wide) if self.wide else ""
        return (f"{self.pre}\nstatic void prog_{n}([[maybe_unused]] const ref::u64 *p, [[maybe_unused]] rt::Probe &pr) {{\n{self.body}\n}}\n"
                f"static rt::Reg reg_{n}({json.dumps(self.id)}, {json.dumps(self.ref)}, \"{dom}\", \"{wide}\", prog_{n});\n")


class Check:
    def __init__(self, pid, tier, level="model_checking", budget=None):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.budget = budget or (780 if tier == "quick" else 6 * 3600)
        self.dir = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.tot = dict(programs=0, cases=0, skipped=0, states=0, transitions=0, nontrivial=0, schedules=0, outcomes=0)
        self.samples, self.violations, self.known, self.notes, self.assumptions = [], [], {}, [], []
        self.exhaustive = True
        self.extra = {}
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.findings = [f for f in load_findings() if f["property"] == pid and f["status"] == "known"]
        self.main_o = None
        self.emitted = []

    # ---- compilation -------------------------------------------------------------------------------------
    def flags(self, opt="-O0", extra=()):
        return ["-std=c++20", opt, "-w", f"-I{HARNESS}", f"-I{REPO}/include"] + list(extra)

    def cc(self, compiler, src, out, opt, extra, timeout=600):
        cmd = [compiler] + self.flags(opt, extra) + ["-c", src, "-o", out]
        if compiler == "clang++":
            cmd += ["-ferror-limit=3", "-ftemplate-backtrace-limit=2"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "compiler timeout"
        if r.returncode == 0:
            return True, ""
        err = r.stderr
        if re.search(r"\berror:", err):
            return False, err
        return None, err  # crashed / killed: infrastructure, not a verdict

    def compile(self, text, name, opt="-O0", extra=(), compilers=("clang++", "g++")):
        """True/object, False/error text, None/infrastructure"""
        src = os.path.join(self.dir, name + ".cpp")
        obj = os.path.join(self.dir, name + ".o")
        with open(src, "w") as f:
            f.write(text)
        last = (None, "no compiler")
        for c in compilers:
            if not shutil.which(c):
                continue
            for attempt in range(2):
                ok, err = self.cc(c, src, obj, opt, extra)
                if ok is not None:
                    break
            if ok:
                return obj, ""
            if last[0] is not False or ok is False:
                last = (ok, err)
        return (False if last[0] is False else None), last[1]

    def runtime(self):
        if self.main_o is None:
            obj = os.path.join(self.dir, "main.o")
            subprocess.run(["g++", "-std=c++20", "-O1", "-w", f"-I{HARNESS}", "-c", os.path.join(HARNESS, "main.cpp"), "-o", obj], check=True)
            self.main_o = obj
        return self.main_o

    def link(self, obj, exe, libs=()):
        r = subprocess.run(["g++", "-o", exe, obj, self.runtime()] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise RuntimeError("link failed: " + r.stderr[:2000])

    # ---- running -----------------------------------------------------------------------------------------
    def left(self):
        return self.budget - (time.time() - self.t0)

    def run_exe(self, exe, args=(), timeout=None, env=None):
        try:
            r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=timeout or max(60, self.left()), env=env)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""

    def absorb(self, out):
        fails = []
        summary = False
        for line in out.splitlines():
            if not line.startswith("{"):
                continue
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if "fail" in j:
                fails.append(j["fail"])
            elif "emit" in j:
                with self.lock:
                    self.emitted.append(j["emit"])
            elif "oracle_mismatch" in j:
                raise RuntimeError("internal: the two oracles disagree: " + line)
            elif "summary" in j:
                summary = True
                s = j["summary"]
                with self.lock:
                    for k in self.tot:
                        self.tot[k] += s.get(k, 0)
                    if len(self.samples) < 12:
                        self.samples += s["samples"][:1]
        return fails, summary

    def shard_text(self, progs, header):
        t = [f'#include "{h}"' for h in header]
        for i, p in enumerate(progs):
            t.append(p.cpp(i))
        return "\n".join(t) + "\n"

    def do_shard(self, idx, progs, header, opt, extra, libs, timeout=None, compilers=None, fallback=None):
        again = dict(timeout=timeout, compilers=compilers, fallback=fallback)
        if self.stop.is_set():
            return
        if self.left() < 20:
            self.exhaustive = False
            return
        obj, err = self.compile(self.shard_text(progs, header), f"s{idx}", opt, extra, compilers or ("clang++", "g++"))
        if obj is None:
            raise RuntimeError("compiler infrastructure failure: " + err[:1500])
        if obj is False:
            if len(progs) == 1 and fallback:
                # the stand-in library may lack something the code now uses: decide with the real library instead
                self.extra["programs_on_real_runtime"] = self.extra.get("programs_on_real_runtime", 0) + 1
                self.exhaustive = False
                self.do_shard(f"{idx}r", progs, header, opt, fallback["extra"], fallback["libs"], timeout, compilers)
            elif len(progs) == 1:
                self.compile_fail(progs[0], err, header, opt, extra, libs)
            else:  # isolate
                h = len(progs) // 2
                self.do_shard(f"{idx}a", progs[:h], header, opt, extra, libs, **again)
                self.do_shard(f"{idx}b", progs[h:], header, opt, extra, libs, **again)
            return
        exe = os.path.join(self.dir, f"s{idx}.exe")
        try:
            self.link(obj, exe, libs)
        except RuntimeError:
            if not fallback:
                raise
            self.exhaustive = False
            self.extra["programs_on_real_runtime"] = self.extra.get("programs_on_real_runtime", 0) + len(progs)
            return self.do_shard(f"{idx}r", progs, header, opt, fallback["extra"], fallback["libs"], timeout, compilers)
        os.unlink(obj)
        rc, out, serr = self.run_exe(exe, timeout=timeout)
        fails, summary = self.absorb(out)
        bp = {p.id: p for p in progs}
        for f in fails:
            self.report(bp.get(f["prog"]), f, exe, header, opt, extra, libs)
        if not summary and not fails and not self.stop.is_set():
            if rc == "timeout":
                if len(progs) > 1:
                    h = len(progs) // 2
                    self.do_shard(f"{idx}a", progs[:h], header, opt, extra, libs, **again)
                    self.do_shard(f"{idx}b", progs[h:], header, opt, extra, libs, **again)
                    return
                self.exhaustive = False
                self.notes.append(f"timeout in {progs[0].id}")
            else:
                raise RuntimeError(f"explorer ended with {rc}: {out[-500:]} {serr[-1500:]}")
        if os.path.exists(exe):
            os.unlink(exe)

    def shards(self, progs, per_tu):
        shards, cur, cost = [], [], 0.0
        for p in progs:
            cur.append(p)
            cost += p.cost
            if cost >= per_tu:
                shards.append(cur)
                cur, cost = [], 0.0
        if cur:
            shards.append(cur)
        return shards

    def explore_many(self, jobs):
        self.runtime()
        self.nrun = getattr(self, "nrun", 0) + 1
        todo = []
        for j in jobs:
            j = dict(dict(header=("probes.hpp",), opt="-O0", extra=(), libs=(), per_tu=32, timeout=None, compilers=None, fallback=None), **j)
            sh = self.shards(j["progs"], j["per_tu"])
            if len(jobs) == 1 and len(sh) < NCPU and len(j["progs"]) >= NCPU:  # enough shards to use every core
                k = max(1, (len(j["progs"]) + NCPU - 1) // NCPU)
                sh = [j["progs"][i:i + k] for i in range(0, len(j["progs"]), k)]
            todo += [(s, j) for s in sh]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.do_shard, f"{self.nrun}_{i}", s, j["header"], j["opt"], j["extra"], j["libs"], j["timeout"], j["compilers"], j["fallback"]) for i, (s, j) in enumerate(todo)]
            for f in futs:
                f.result()

    def explore(self, progs, **kw):
        self.explore_many([dict(progs=progs, **kw)])

    # ---- reporting ---------------------------------------------------------------------------------------
    def match_known(self, prog_id, what):
        for f in self.findings:
            if re.fullmatch(f["case"], prog_id) and re.search(f.get("what_re", ""), what):
                return f
        return None

    def compile_fail(self, prog, err, header, opt, extra, libs):
        line = next((l for l in err.splitlines() if "error:" in l), err[:300])
        self.add_violation(prog, dict(prog=prog.id, params="", wide=0, what="program no longer compiles: " + line.strip()[:400]),
                           header, opt, extra, libs)

    def report(self, prog, fail, exe, header, opt, extra, libs):
        # replay before report
        args = ["--prog", fail["prog"], "--params", fail["params"]] + (["--wide"] if fail.get("wide") else [])
        rc, out, serr = self.run_exe(exe, args, timeout=300)
        if '"fail"' not in out:
            raise RuntimeError(f"non-reproducible disagreement: {fail} -> rc={rc} {out[-300:]}")
        self.add_violation(prog, fail, header, opt, extra, libs)

    def add_violation(self, prog, fail, header=(), opt="-O0", extra=(), libs=()):
        k = self.match_known(fail["prog"], fail["what"])
        with self.lock:
            if k:
                self.known.setdefault(k["id"], (k, []))[1].append(fail)
                return
            self.violations.append(fail)
            n = len(self.violations)
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, fail=fail, reference_program=prog.ref if prog else "",
                               source=self.shard_text([prog], header) if prog else "", opt=opt,
                               extra=[x.replace(HARNESS, "@HARNESS@") for x in extra], libs=list(libs),
                               how="python3 /verif/replay.py " + path), f, indent=1)
            if n <= 5:
                print(f"# {fail['prog']} params=({fail['params']}): {fail['what']}", flush=True)
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            if n >= 5 or self.tier == "quick":
                self.stop.set()

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def finish(self):
        wall = time.time() - self.t0
        for kid, (k, fails) in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k['title']} ({len(fails)} failing cases, e.g. {fails[0]['prog']} params=({fails[0]['params']}))")
        cov = dict(states=self.tot["states"], transitions=self.tot["transitions"],
                   traces_validated_against_impl=self.tot["cases"], samples=self.samples[:8],
                   programs_compiled=self.tot["programs"], inputs_outside_precondition_skipped=self.tot["skipped"],
                   distinct_nontrivial=self.tot["nontrivial"],
                   exhaustive=bool(self.exhaustive and not self.stop.is_set()))
        if self.tot["schedules"]:
            cov["schedules"] = self.tot["schedules"]
            cov["distinct_outcomes"] = self.tot["outcomes"]
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2),
                  violations=len(self.violations), assumptions=self.assumptions + self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        print(f"{self.pid} {self.tier}: programs={self.tot['programs']} cases={self.tot['cases']} states={self.tot['states']} "
              f"transitions={self.tot['transitions']} schedules={self.tot['schedules']} violations={len(self.violations)} "
              f"known={len(self.known)} exhaustive={cov['exhaustive']} wall={wall:.1f}s")
        return 1 if self.violations else 0


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)
