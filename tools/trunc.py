#!/usr/bin/env python3
"""Width campaign (not a check): cuts the run-time value of one expression at a time to 32 bits in a scratch copy of the
headers, and reports the places where no quick check notices.  usage: trunc.py FILE_REGEX [MAX_PER_FILE]"""
import os, random, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "structs/layouts.hpp": "P01 P27", "structs/bcast.hpp": "P02", "structs/slice.hpp": "P02 P17", "structs/views.hpp": "P02", "structs/setters.hpp": "P06 P02",
    "structs/blocks.hpp": "P03 P17", "structs/zcurve.hpp": "P04", "extra/shortcuts.hpp": "P18 P08", "extra/traverser.hpp": "P08 P07", "extra/mangle.hpp": "P19", "extra/planner.hpp": "P13",
    "interop/traverser_iter.hpp": "P10", "interop/planner_iter.hpp": "P13", "interop/tbb.hpp": "P11", "interop/bag.hpp": "P15", "interop/serialize_data.hpp": "P16",
    "introspection/lower_bound_along.hpp": "P17", "introspection/offset_along.hpp": "P17", "introspection/stride_along.hpp": "P17", "interop/cuda_striped.cuh": "P20", "interop/cuda_traverser.cuh": "P21",
}
HELP = """
#include <cstddef>
#include <type_traits>
namespace noarr { template<class T> constexpr auto cut_32(T t) noexcept { if constexpr (std::is_same_v<T, std::size_t>) return static_cast<std::size_t>(static_cast<unsigned>(t)); else return t; } }
"""
E = r"(?:[^;(){}]|\([^;{}]*\))*?"
PAT = [re.compile(r"const (?:auto|std::size_t) \w+ = (?P<e>[^;{}\[]+);"), re.compile(r"with<(?:index|length)_in<\w+>>\((?P<e>[^;]*?)\);"), re.compile(r"\breturn (?P<e>[^;{}\[]* [-+*/%] [^;{}\[]*);"), re.compile(r"\boffset_of<Sub>\([^;]*?, (?P<e>[^;,]* [*+] [^;,]*)\);")]


def main():
    pat, cap = re.compile(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 99
    work = tempfile.mkdtemp(prefix="cut-", dir="/tmp/w")
    shutil.copytree("/repo/include", work + "/include")
    env = dict(os.environ, VERIF_REPO=work, VERIF_TMP=work, VERIF_TIER="quick")
    for f in ORDER:
        if not pat.search(f):
            continue
        path = f"{work}/include/noarr/structures/{f}"
        text = open(path).read()
        S = []
        for p in PAT:
            for m in p.finditer(text):
                e = m.group("e")
                if "with<" not in e and "state" != e and e.count("(") == e.count(")") and e.count("<") == e.count(">") and not re.search(r"^\s*(//|\*)|sub_struct(ure)?\(\)$|sub_state\(state\)$|clean_state\(state\)$|get_\w+\(\)$|static_assert", e) and "//" not in e:
                    S.append((m.start("e"), m.end("e")))
        S = sorted(set(S))
        if len(S) > cap:
            S = sorted(random.Random(os.environ.get("MUT_SEED", "1")).sample(S, cap))
        n = 0
        for a, b in S:
            pre = "#pragma once"
            new = text[:a] + "noarr::cut_32(" + text[a:b] + ")" + text[b:]
            i = new.index("\n#include")
            new = new[:i] + HELP.replace("namespace noarr", "#ifndef CUT_32\n#define CUT_32\nnamespace noarr") + "#endif\n" + new[i:]
            open(path, "w").write(new)
            line = text.count("\n", 0, a) + 1
            hit = None
            for p in ORDER[f].split():
                r = subprocess.run([sys.executable, f"{V}/check.py", p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    hit = p + ("" if r.returncode == 1 else f"(rc {r.returncode})") + (" compile" if "no longer compiles" in r.stdout else "")
                    break
            n += bool(hit)
            print(f"killed {hit} {f}:{line}" if hit else f"SURVIVED {f}:{line} {' '.join(text[a:b].split())}", flush=True)
        open(path, "w").write(text)
        print(f"== {f}: {n}/{len(S)} killed", flush=True)
    shutil.rmtree(work)


main()
