#!/usr/bin/env python3
"""Mutation campaign (not a check): applies small syntactic changes to the headers in a scratch copy, one at a time, and
reports those that no quick check notices.  usage: mutate.py FILE_REGEX [MAX_PER_FILE] [LOG]"""
import os, random, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
ORDER = {
    "structs/layouts.hpp": "P01 P23 P06 P05 P07 P19 P22 P24", "structs/scalar.hpp": "P01 P19 P23", "structs/bcast.hpp": "P02 P06 P23 P05 P19 P17",
    "structs/slice.hpp": "P02 P06 P23 P05 P17 P19 P18 P24", "structs/views.hpp": "P02 P07 P08 P23 P06 P05 P17 P19 P24", "structs/setters.hpp": "P02 P06 P23 P05 P18 P15 P19 P24",
    "structs/blocks.hpp": "P03 P06 P23 P05 P07 P08 P18 P19", "structs/zcurve.hpp": "P04 P05 P23 P19",
    "base/state.hpp": "P14 P06 P23 P08 P18 P01", "base/structs_common.hpp": "P22 P01 P02 P23 P15", "base/signature.hpp": "P05 P07 P08 P09 P01", "base/contain.hpp": "P01 P02 P22 P05", "base/utility.hpp": "P01 P02 P05 P03 P14 P17 P07 P19 P04",
    "extra/funcs.hpp": "P01 P23 P15 P18", "extra/mangle.hpp": "P19", "extra/planner.hpp": "P13 P11", "extra/shortcuts.hpp": "P18 P14 P08 P03", "extra/sig_utils.hpp": "P18 P07 P08 P09 P10 P24", "extra/struct_traits.hpp": "P23 P01 P15", "extra/struct_concepts.hpp": "P23",
    "extra/to_struct.hpp": "P07 P22 P09 P15", "extra/traverser.hpp": "P07 P08 P09 P10 P13 P22 P24",
    "interop/bag.hpp": "P15 P22 P16", "interop/omp.hpp": "P11", "interop/planner_iter.hpp": "P13 P11", "interop/serialize_data.hpp": "P16", "interop/std_para.hpp": "P11 P13", "interop/tbb.hpp": "P11 P12 P13", "interop/traverser_iter.hpp": "P10 P11 P12",
    "introspection/lower_bound_along.hpp": "P17", "introspection/offset_along.hpp": "P17", "introspection/stride_along.hpp": "P17", "interop/cuda_striped.cuh": "P20", "interop/cuda_traverser.cuh": "P21", "interop/cuda_step.cuh": "P21",
}
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\bindex_in<", "length_in<"), (r"\blength_in<", "index_in<"), (r"\bDimMajor\b", "DimMinor"), (r"\bDimMinor\b", "DimMajor"),
       (r"\bDimA\b", "DimB"), (r"\bget<0>\(\)", "get<1>()"), (r"\bget<1>\(\)", "get<0>()"), (r"\bsub_state\(state\)", "state"), (r"\breturn true;", "return false;"), (r"\breturn false;", "return true;"),
       (r"make_const<0>", "make_const<1>"), (r"make_const<1>", "make_const<2>"), (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"), (r"\bbegin\b", "end"), (r"\bstart\(\)", "0"), (r"!state_contains", "state_contains"), (r"\+\+", "--"), (r" \+= ", " -= "), (r"std::forward<", "std::move<"), (r"= false;", "= true;"), (r"= true;", "= false;"), (r"\bconst auto (\w+) = (\w+) - ", r"const auto \1 = 0 * \2 + ")]


def sites(path):
    out = []
    com = False
    for n, l in enumerate(open(path).read().split("\n")):
        t = l.strip()
        if t.startswith("/*"):
            com = True
        skip = com or t.startswith(("//", "*", "#", "static_assert", "template<", "namespace", "using namespace", "concept", "requires")) or "static_assert" in t
        if "*/" in t:
            com = False
        if skip:
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                out.append((n, m.start(), m.end(), re.sub(a, b, m.group(0)), a))
    return out


def main():
    pat, cap = re.compile(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 20
    work = tempfile.mkdtemp(prefix="mut-", dir="/tmp/w")
    shutil.copytree(R + "/include", work + "/include")
    env = dict(os.environ, VERIF_REPO=work, VERIF_TMP=work, VERIF_TIER="quick")
    surv = 0
    for f in ORDER:
        if not pat.search(f):
            continue
        path = f"{work}/include/noarr/structures/{f}"
        text = open(path).read()
        S = sites(path)
        S = sorted(random.Random(os.environ.get("MUT_SEED", "1")).sample(S, min(cap, len(S))))
        killed = 0
        for n, a, b, new, op in S:
            ls = text.split("\n")
            old = ls[n]
            ls[n] = old[:a] + new + old[b:]
            open(path, "w").write("\n".join(ls))
            hit = None
            for p in ORDER[f].split():
                r = subprocess.run([sys.executable, f"{V}/check.py", p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    hit = p + ("" if r.returncode == 1 else f"(rc {r.returncode})") + ("c" if "no longer compiles" in r.stdout else "")
                    break
            if hit:
                killed += 1
                print(f"killed {hit} {f}:{n+1} {op!r}", flush=True)
            else:
                surv += 1
                print(f"SURVIVED {f}:{n+1}\n-{old}\n+{ls[n]}", flush=True)
        open(path, "w").write(text)
        print(f"== {f}: {killed}/{len(S)} killed", flush=True)
    shutil.rmtree(work)


main()
