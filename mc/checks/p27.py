"""Parts of structures: place of the part + place in the part = place in the whole, for every part, element and partial knowledge."""
from ..gen import *
from ..core import Prog
from .p04 import zc
from .p03 import ops_partial
from .. import tupviews
import itertools, re


def layers(cpp):
    """the structures a chain goes through, as prefixes of its text"""
    out, depth, start = [], 0, 0
    for i, c in enumerate(cpp):
        if c in "(<{":
            depth += 1
        elif c in ")>}":
            depth -= 1
        elif c == "^" and depth == 0:
            out.append(cpp[:i].strip())
    return out + [cpp]


def pprog(name, s, elem="int", outer=None, partial=True, cap=400, wide=True):
    ls = layers(s.cpp)
    steps = [b[len(a):] for a, b in zip(ls, ls[1:])]
    Q = q(s.dims)
    Qc = ", " + Q if Q else ""
    c = f"\tauto s = {s.cpp};\n"
    for k, l in enumerate(ls[:-1]):
        c += f"\tauto p{k} = {l};\n"
    c += f"\tauto &p{len(ls) - 1} = s;\n"
    for k in range(0 if partial else 1, len(ls) - 1):
        o = outer[k] if outer else -1 if partial else -2
        up = ", ".join(f"p{j}" for j in range(k, len(ls)))
        lay = any("vector" in m or "array" in m or "bcast" in m for m in steps[k:])
        c += f"\tpart::check<{elem}, {o}, {'false' if lay else 'true'}{Qc}>(s, pr, {up});\n"
    for b in range(1, len(ls) - 1):
        for a in range(0 if partial else 1, b):
            if partial and a == 0 or b - a == 1:
                c += f"\tpart::check_nested<decltype(p{a}){Qc}>(s, pr, {', '.join(f'p{j}' for j in range(b, len(ls)))});\n"
    return Prog(name, s.ref, fit(s.doms, cap), c, fitw(s.wide, 40) if wide and s.wide is not None else None, cost=3 + len(ls), mid=None)


def tprog(name, b, u, pv):
    ls = layers(u.cpp)
    c = f"\tauto s = {u.cpp};\n"
    n0 = len(layers(b.cpp))
    todo = [k for k in range(len(ls))]
    parts = []
    for k in todo:
        if ls[k].startswith("noarr::pack") and "tuple<" not in ls[k]:
            continue
        parts.append(k)
        c += f"\tauto p{k} = {ls[k]};\n"
    fs = re.match(r"noarr::pack\((.*?)\) \^ noarr::tuple", u.cpp)[1]
    depth, cur, fl = 0, "", []
    for ch in fs + ",":
        if ch == "," and depth == 0:
            fl.append(cur.strip())
            cur = ""
            continue
        depth += ch in "(<"
        depth -= ch in ")>"
        cur += ch
    c += "".join(f"\tauto f{i} = {f};\n" for i, f in enumerate(fl))
    up = lambda k: ", ".join(f"p{j}" for j in parts if j >= k)
    for k in parts:
        c += f"\tpart::visited(s, pr, {up(k)});\n"
    c += f"\tpart::fields(s, pr, std::make_tuple({', '.join(f'f{i}' for i in range(len(fl)))}), {up(0)});\n"
    for k in parts:
        c += "".join(f"\tpart::visited_nested<decltype(f{i})>(s, pr, {up(k)});\n" for i in range(len(fl)))
        for a in parts:
            if a < k:
                c += f"\tpart::visited_nested<decltype(p{a})>(s, pr, {up(k)});\n"
    return Prog(name, "", [[v] for v in pv], c, cost=5)


def oprog(name, dims, doms, mask, tail="", tref="", out=None, tdims=None, ren=None, lit=False):
    """layouts of which the lengths in mask are missing, and a view that keeps lengths on top"""
    b = base(dims, doms)
    cpp = "noarr::scalar<int>()"
    for k in range(len(dims) - 1, -1, -1):
        cpp += f" ^ noarr::vector<'{dims[k]}'>(" + ("" if mask[k] else f"noarr::lit<{doms[k][0]}>" if lit else f"p[{len(dims) - 1 - k}]") + ")"
    cpp += tail
    ls = layers(cpp)
    ren = ren or {}
    op = [ren.get(d, d) for d, m in zip(dims, mask) if m]
    vals = ", ".join(f"p[{len(dims) - 1 - k}]" for k in range(len(dims)) if mask[k])
    D = q(tdims or dims)
    c = f"\tauto s = {cpp};\n" + "".join(f"\tpart::open<probe::dims<{q(op)}>, {D}>(s, pr, {l}, {{{vals}}});\n" for l in ls)
    return Prog(name, b.ref + tref, [d[:1] for d in b.doms] if lit else b.doms, c, cost=4 + len(ls) * 2 ** (len(dims) + len(op)) / 16)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[1, 2, 4]])
    two = base("xy", [[1, 2, 4], [1, 2, 3]])
    three = base("xyz", [[1, 2, 4], [2, 3], [1, 2]])
    four = base("wxyz", [[1, 2], [2, 3], [1, 2], [2]])
    # layouts: which indices a part needs is known
    for e, z in (("char", 1), ("int", 4), ("double", 8)):
        for dims, doms in (("x", [[0, 1, 3]]), ("xy", [[1, 3], [0, 2]]), ("xyz", [[1, 2], [2, 3], [1, 2]]), ("wxyz", [[1, 2], [2, 3], [1, 2], [2]])):
            b = base(dims, doms, e, z)
            ps.append(pprog(f"layout:{e}:{dims}", b, e, list(range(len(dims), -1, -1))))
            raw = St(b.dims, re.sub(r"noarr::vector<('.')>\((p\[\d\])\)", r"noarr::vector<\1>() ^ noarr::set_length<\1>(\2)", b.cpp), b.ref, b.doms, b.wide, b.used)
            out = [len(dims)] + [k for d in range(len(dims) - 1, -1, -1) for k in (d, d)]
            ps.append(pprog(f"raw:{e}:{dims}", raw, e, out))
            late = St(b.dims, "noarr::scalar<%s>()" % e + "".join(f" ^ noarr::vector<'{d}'>()" for d in dims[::-1]) + "".join(f" ^ noarr::set_length<'{d}'>(p[{len(dims) - 1 - k}])" for k, d in enumerate(dims)), b.ref, b.doms, b.wide, b.used)
            ps.append(pprog(f"late:{e}:{dims}", late, e, list(range(len(dims), -1, -1)) + [0] * len(dims)))
    for dims, doms in (("x", [[1, 2, 3]]), ("xy", [[1, 2, 3], [2, 1]]), ("xyz", [[2, 1], [2, 3], [1, 2]])):
        for mask in itertools.product((False, True), repeat=len(dims)):
            if not any(mask):
                continue
            w = "".join("o" if m else "s" for m in mask)
            for lit in (False, True):
                ps.append(oprog(f"open:{dims}:{w}:{int(lit)}", dims, doms, mask, lit=lit))
                ps.append(oprog(f"open:{dims}:{w}:{int(lit)}:rename", dims, doms, mask, f" ^ noarr::rename<'{dims[0]}', 'r'>()", f";rename {dims[0]} r", tdims="r" + dims[1:], ren={dims[0]: "r"}, lit=lit))
                if len(dims) > 1:
                    ps.append(oprog(f"open:{dims}:{w}:{int(lit)}:hoist", dims, doms, mask, f" ^ noarr::hoist<'{dims[-1]}'>()", f";hoist {dims[-1]}", tdims=dims[-1] + dims[:-1], lit=lit))
                    ps.append(oprog(f"open:{dims}:{w}:{int(lit)}:reverse", dims, doms, mask, f" ^ noarr::reverse<'{dims[-1]}'>()", f";reverse {dims[-1]}", lit=lit))
    for bn, b, d in (("x", one, 1), ("xy", two, 1), ("xyz", three, 1), ("x", one, 2), ("xy", two, 2)):
        for i, (n, s) in enumerate(chains(b, [ops_all] * d, maxdims=4)):
            if d == 2 and bn == "xy" and not T and i % 2:
                continue  # the quick tier takes every second composition
            if d == 2 and bn == "xy" and not T and (len(s.dims) > 3 or "(y" in n.split("^")[0]):
                continue  # the quick tier begins with operations on the outer dimension or on both
            ps.append(pprog(f"{bn}:{n}", s, cap=100 if d == 2 else 400, partial=T or bn != "xy" or d == 1))
    if T:
        for n, s in chains(three, [ops_all] * 2, maxdims=4):
            ps.append(pprog(f"xyz:{n}", s, cap=60))
    for bn, b in (("x", one), ("xy", two)):
        for n, s, pr, ta in ops_partial(b):
            if "border" not in pr:
                ps.append(pprog(f"{bn}:{n}", s))
    for bn, perms in (("xy", ("xy", "yx")), ("xyz", ("xyz", "zxy", "xz"))):
        for perm in perms:
            for mx, al, L in ((8, 1, [1, 3]), (8, 2, [2, 4])):
                ps.append(pprog(f"{bn}:zcurve({perm},{mx},{al})", zc(base(bn, [L] * len(bn)), perm, mx, al)))
    for kind, t, doms in tupviews.bases():
        pv = [d[-1] for d in doms]
        todo = [("", t)] + list(tupviews.ops(t)) + ([(a + "^" + n, u) for a, s in tupviews.ops(t) for n, u in tupviews.ops(s) if u is not s] if T or kind in "A" else [])
        for n, u in todo:
            ps.append(tprog(f"tuple{kind}:{n}", t, u, pv))
    chk.explore(ps, header=("parts.hpp",), per_tu=24)
