"""Introspection along one dimension: stride, offset, position of the lowest element."""
from ..gen import *
from ..core import Prog


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[1, 2, 3, 4, 6]])
    two = base("xy", [[1, 2, 4], [2, 3, 4]])
    three = base("xyz", [[1, 2, 4], [2, 3], [1, 2, 4]])
    fam = [("x", one, 0), ("x", one, 1), ("x", one, 2), ("xy", two, 0), ("xy", two, 1), ("xy", two, 2), ("xyz", three, 1)]
    if T:
        fam += [("x", one, 3), ("xyz", three, 2)]
    for bn, b, depth in fam:
        for n, s in chains(b, [ops_all] * depth):
            if not s.dims:
                continue
            body = f"\tauto s = {s.cpp};\n"
            ds = q(s.dims)
            # a step followed by an operation that mixes dimensions: the known finding taints the strides of both
            parts = n.split("^")
            tainted = any("step" in a and any(k in b for k in ("swap", "join", "merge")) for i, a in enumerate(parts) for b in parts[i + 1:])
            for d in s.dims:
                body += ("" if tainted else f"\tintro::stride1<'{d}', {ds}>(s, pr);\n") + f"\tintro::offset1<'{d}', {ds}>(s, pr);\n"
            ps.append(Prog(f"{bn}:{n}", s.ref, fit(s.doms, 200 if depth < 3 else 60), body, cost=len(s.dims), mid=mid(s, 4000)))
            # merged dimensions excluded: see the known finding
            if "merge" not in n and (depth < 2 or bn == "x" or T):
                val = "false" if "blocks" in n or "strip" in n else "true"
                body = f"\tauto s = {s.cpp};\n" + "".join(f"\tintro::lower1<'{d}', {val}, {ds}>(s, pr);\n" for d in s.dims)
                ps.append(Prog(f"lower:{bn}:{n}", s.ref, fit(s.doms, 100), body, cost=2 * len(s.dims), mid=mid(s, 1000)))
    s = dict(chains(two, [ops_all]))["mergeN(xy)"]
    ps.append(Prog("lower:merged-range", s.ref, s.doms, f"\tauto s = {s.cpp};\n\tintro::lower1<'c', true, 'c'>(s, pr);"))
    chk.explore(ps, header=("intro.hpp",), per_tu=60, extra=("-DSTRICT_STRIDE=0", "-DSTRICT_OFFSET=0"))
