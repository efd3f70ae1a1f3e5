#!/usr/bin/env python3
"""Makes and verifies planted bugs (never run by a check).
   seed.py gen ID...     writes seeded/ID from tools/seeds_src (patch against /repo HEAD)
   seed.py verify ID...  builds, tests and runs the demonstration in scratch copies
   seed.py check ID [PROP...]  runs the quick check(s) against the patched copy"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
W = "/tmp/w/seed"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -O1 -w FLAGS -I"$PWD/include" "$here/demo.cpp" -o "$d/demo" LIBS || exit 3
cd "$d" && timeout 120 ./demo
'''


def specs():
    out = {}
    d = os.path.join(V, "tools", "seeds_src")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            for b in m.BUGS:
                assert b["id"] not in out, b["id"]
                out[b["id"]] = b
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def gen(b):
    d = os.path.join(W, "gen-" + b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["git", "clone", "-q", REPO, d], check=True)
    for e in b["edits"]:
        f, old, new = e[:3]
        p = os.path.join(d, "include/noarr/structures", f)
        t = open(p).read()
        n = t.count(old)
        nth = e[3] if len(e) > 3 else None
        if n == 0 or (n > 1 and nth is None):
            raise SystemExit(f"{b['id']}: {n} matches in {f}: {old!r}")
        if nth is None:
            t = t.replace(old, new)
        else:
            pos = -1
            for _ in range(nth):
                pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
        open(p, "w").write(t)
    diff = sh(["git", "-C", d, "diff"]).stdout
    o = os.path.join(V, "seeded", b["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(DEMO_SH.replace("FLAGS", b.get("flags", "")).replace("LIBS", b.get("libs", "")))
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.cpp", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def scratch(i, patched=True):
    d = os.path.join(W, i)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["cp", "-a", REPO, d], check=True)
    if patched:
        r = sh(["git", "-C", d, "apply", os.path.join(V, "seeded", i, "patch.diff")])
        if r.returncode:
            raise SystemExit(r.stdout)
    return d


def demo(i, repo):
    return sh(["bash", os.path.join(V, "seeded", i, "demo.sh")], cwd=repo)


def verify(i, tests=True):
    r0 = demo(i, REPO)
    if r0.returncode:
        return f"{i}: demo FAILS on clean tree ({r0.returncode})\n{r0.stdout[-1500:]}"
    d = scratch(i)
    try:
        r1 = demo(i, d)
        if r1.returncode == 0:
            return f"{i}: demo passes with the patch\n{r1.stdout[-500:]}"
        if r1.returncode == 3:
            return f"{i}: demo does not compile with the patch\n{r1.stdout[-2500:]}"
        if not tests:
            return f"{i}: demo ok ({r1.returncode}) {r1.stdout[-150:].strip()}"
        vp = os.path.join(W, "vp-" + i)
        shutil.rmtree(vp, ignore_errors=True)
        shutil.copytree("/opt/vp", vp)
        for f in os.listdir(vp):
            p = os.path.join(vp, f)
            if f.endswith((".sh", ".py")):
                t = open(p).read().replace("/opt/vp", vp).replace("REPO=/repo", "REPO=" + d).replace('"/repo"', f'"{d}"')
                open(p, "w").write(t)
        shutil.rmtree(d + "/_build", ignore_errors=True)
        rb = sh(["bash", vp + "/build.sh"])
        if rb.returncode:
            return f"{i}: BUILD FAILS\n" + "\n".join(l for l in rb.stdout.splitlines() if "error" in l)[:2000]
        rt = sh(["bash", vp + "/test.sh", vp + "/out.json"])
        res = json.load(open(vp + "/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"] if "stable" in base else base["passed"])
        got = set(res.get("passed", []))
        miss = sorted(want - got)
        shutil.rmtree(vp)
        if miss:
            return f"{i}: TESTS FAIL {len(miss)}: {miss[:5]}"
        return f"{i}: VERIFIED demo={r1.returncode} {r1.stdout[-150:].strip()}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, props, tier="quick"):
    d = scratch(i)
    out = []
    for p in props:
        r = sh(["python3", V + "/check.py", p, tier], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER=tier))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append(f"{i} {p}: exit {r.returncode} {len(v)} violations {v[:1]}" + ("" if r.returncode in (0, 1) else r.stdout[-1500:]))
    shutil.rmtree(d)
    return "\n".join(out)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    S = specs()
    if cmd == "gen":
        for i in ids or S:
            gen(S[i])
    elif cmd in ("verify", "demo"):
        with ThreadPoolExecutor(3 if cmd == "verify" else 8) as ex:
            for r in ex.map(lambda i: verify(i, cmd == "verify"), ids or sorted(S)):
                print(r, flush=True)
    elif cmd == "check":
        print(check(ids[0], ids[1:] or [S[ids[0]]["property"]]))
    elif cmd == "checkall":
        for i in ids or sorted(S):
            print(check(i, [S[i]["property"]]), flush=True)


main()
