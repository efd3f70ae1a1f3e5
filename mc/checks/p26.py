"""Structures, transformations, states, orders, traversers and iterators are plain values, the same at compile time."""
from ..gen import *
from ..core import Prog
from .p03 import ops_partial
from .p04 import zc
from .. import tupviews
from .p19 import assignments
import re, itertools


def pinned(cpp, pv):
    """run-time parameters given as literal values (usable in a constant expression)"""
    return re.sub(r"p\[(\d+)\]", lambda m: f"std::size_t({pv[int(m[1])]})", cpp)


def rest(pv, mask):
    return [v for v, m in zip(pv, mask) if not m]


def vprog(name, s, pv, mask, probe, targs, opt, lens=True, oporder=True):
    t = literalize(s, pv, mask)
    left = rest(pv, mask)
    Q = q(t.dims)
    D = "digest" if lens else "digest_walk"
    c = f"\tconstexpr auto cs = {pinned(t.cpp, left)};\n\tconstexpr ref::u64 want = val::{D}<{Q}>(cs);\n"
    c += f"\tauto dig = [](const auto &s) {{ return val::{D}<{Q}>(s); }};\n\tauto check = [&](const auto &s) {{ {probe}<{targs}{Q}>(s, pr); }};\n"
    c += f"\tval::structure<{Q}>({t.cpp}, {len(left)}, want, dig, check, pr);\n\tval::structure<{Q}>(cs, {len(left)}, want, dig, check, pr);\n"
    if opt:
        b, o = opt     # base and operation as text over the same parameters
        lb = literalize(St(b.dims, b.cpp, "", b.doms, None, set()), pv[:len(b.doms)], mask[:len(b.doms)])
        off = len(lb.doms)
        bt = lb.cpp
        full = literalize(St(t.dims, o, "", s.doms, None, set()), pv, mask).cpp
        c += f"\tval::transformation({bt}, {full}, {len(left) - off}, want, dig, pr);\n"
        if oporder and "vector" not in o and "array" not in o:
            BQ = q(b.dims)
            c += f"\tconstexpr ref::u64 owant = val::walk<{BQ}>(noarr::traverser({pinned(bt, left)}) ^ ({pinned(full, left)}), {pinned(bt, left)});\n"
            c += f"\tval::order<{"true" if t.dims else "false"}, {BQ}>({bt}, {full}, {len(left)}, owant, pr);\n"
    return Prog(name, t.ref, t.doms, c, cost=4)


def tprog(name, b, u, pv):
    Q, n = q(u.order), len(re.findall(r"p\[\d+\]", u.cpp)) + 2 * u.cpp.count("(0, ")
    c = ""
    c += f"\tconstexpr auto cs = {pinned(u.cpp, pv)};\n\tconstexpr ref::u64 want = val::digest_walk<{Q}>(cs);\n"
    c += f"\tauto dig = [](const auto &s) {{ return val::digest_walk<{Q}>(s); }};\n\tauto check = [](const auto &) {{}};\n"
    c += f"\tval::structure<{Q}>({u.cpp}, {n}, want, dig, check, pr);\n"
    if u is not b:
        c += f"\tval::transformation({b.cpp}, {u.cpp[len(b.cpp) + 3:]}, {2 if '(0, ' in u.cpp else 0}, want, dig, pr);\n"
    return Prog(name, "", [[v] for v in pv], c, cost=4)


JOINT = [("x", "noarr::scalar<int>() ^ noarr::vector<'x'>(std::size_t(3))", "x"), ("y", "noarr::scalar<int>() ^ noarr::array<'y', 2>()", "y"),
         ("xy", "noarr::scalar<float>() ^ noarr::vector<'y'>(std::size_t(2)) ^ noarr::array<'x', 3>()", "xy"),
         ("yx", "noarr::scalar<float>() ^ noarr::vector<'x'>(std::size_t(3)) ^ noarr::vector<'y'>(std::size_t(2))", "yx"),
         ("z", "noarr::scalar<int>() ^ noarr::vector<'z'>(std::size_t(2))", "z"), ("s", "noarr::scalar<int>()", "")]


def jprog(name, a, ad, b, bd):
    Q = q(ad + "".join(d for d in bd if d not in ad))
    n = sum(e.count("std::size_t(") for e in (a, b))
    c = f"\tconstexpr auto a = {a};\n\tconstexpr auto b = {b};\n\tauto both = [](const auto &t, const auto &a, const auto &b) {{ return val::mix(val::walk<{Q}>(t, a), val::walk<{Q}>(t, b)); }};\n"
    c += "\tconstexpr ref::u64 want = both(noarr::traverser(a, b), a, b);\n\tauto t = noarr::traverser(a, b);\n\tusing T = decltype(t);\n\tval::plain_type<T>(pr, \"joint traverser\", false);\n"
    c += f"\tval::compact<T>(pr, {n}, \"joint traverser\");\n\tpr.eq(both(t, a, b), want, \"joint traversal at run time and in a constant expression\");\n\tval::moved<T> m(t);\n"
    c += "\tpr.eq(both(*m, a, b), want, \"a byte-wise copy of the joint traverser\");\n\tpr.ok(m.untouched(), \"traversing leaves the joint traverser as it was\");"
    return Prog(name, "", [], c, cost=3)


FT = {"e": ("std::integral_constant<std::size_t, 3>", "std::integral_constant<std::size_t, 3>()", "3"), "s": ("noarr::scalar<int>", "noarr::scalar<int>()", None),
      "u": ("std::size_t", "std::size_t(40 + p[0] + {k})", "40 + p[0] + {k}"), "c": ("char", "char(50 + p[0] + {k})", "50 + p[0] + {k}"), "v": ("V", "V(noarr::scalar<int>() ^ noarr::vector<'x'>(60 + p[0] + {k}))", None)}


def fields(fs, k0=0):
    return ", ".join(FT[f][0] for f in fs), ", ".join(FT[f][1].replace("{k}", str(k0 + k)) for k, f in enumerate(fs))


def fchecks(o, fs, what, k0=0):
    c = ""
    for k, f in enumerate(fs):
        g = f"{o}.template get<{k}>()"
        c += f"\t\tpr.state(); pr.ok(std::is_same_v<std::remove_cvref_t<decltype({g})>, {FT[f][0]}>, \"type of a field\", \"{what}:{k}\");\n"
        if f == "v":
            c += f"\t\tpr.eq({g} | noarr::get_length<'x'>(), 60 + p[0] + {k0 + k}, \"field\", \"{what}:{k}\");\n"
        elif f == "s":
            c += f"\t\tpr.eq({g} | noarr::get_size(), 4, \"field\", \"{what}:{k}\");\n"
        else:
            c += f"\t\tpr.eq(ref::u64({g}), {FT[f][2].replace('{k}', str(k0 + k))}, \"field\", \"{what}:{k}\");\n"
    return c


def contain_progs(T):
    """the storage behind every object: every sequence of empty and non-empty fields"""
    V = "\tusing V = decltype(noarr::scalar<int>() ^ noarr::vector<'x'>(std::size_t(1)));\n"
    seqs = [fs for n in (1, 2, 3, 4) for fs in itertools.product("esucv" if n < 4 or T else "euv", repeat=n)]
    out = []
    for i in range(0, len(seqs), 20):
        c = V
        for fs in seqs[i:i + 20]:
            ty, va = fields(fs)
            w = "".join(fs)
            big = sum(f in "uv" for f in fs)
            c += f"\t{{\n\t\tusing C = noarr::strict_contain<{ty}>;\n\t\tconst C c{{{va}}};\n\t\tval::plain_type<C>(pr, \"{w}\", true);\n"
            if "c" not in fs:
                c += f"\t\tval::compact<C>(pr, {big}, \"{w}\");\n"
            c += "\t\tval::moved<C> m(c);\n" + fchecks("(*m)", fs, w)
            c += "\t\tconst auto &[" + ", ".join(f"b{k}" for k in range(len(fs))) + "] = c;\n"
            c += "".join(f"\t\tpr.ok(std::is_same_v<std::remove_cvref_t<decltype(b{k})>, {FT[f][0]}>, \"binding\");\n" for k, f in enumerate(fs)) + "\t}\n"
        out.append(Prog(f"contain:{i}", "", [[0, 1, 5]], c, cost=8))
    short = [fs for n in (0, 1, 2) for fs in itertools.product("euv", repeat=n)]
    sets = list(itertools.product(short, repeat=2)) + [t for t in itertools.product(short, repeat=3) if sum(map(len, t)) <= (4 if T else 3)]
    for i in range(0, len(sets), 16):
        c = V
        for st in sets[i:i + 16]:
            w = "+".join("".join(fs) or "0" for fs in st)
            k0, args, all_ = 0, [], []
            for fs in st:
                ty, va = fields(fs, k0)
                args.append(f"noarr::strict_contain<{ty}>({va})" if fs else "noarr::strict_contain<>()")
                k0 += len(fs)
                all_ += fs
            c += f"\t{{\n\t\tconst auto c = noarr::contain_cat({', '.join(args)});\n\t\tpr.ok(std::is_same_v<std::remove_cvref_t<decltype(c)>, noarr::strict_contain<{fields(all_)[0]}>>, \"type of a concatenation\", \"{w}\");\n" + fchecks("c", all_, w) + "\t}\n"
        out.append(Prog(f"cat:{i}", "", [[0, 1, 5]], c, cost=8))
    return out


def run(chk, tier):
    T = tier == "thorough"
    ps, seen = [], set()
    one = base("x", [[1, 2, 4, 6]])
    two = base("xy", [[2, 4], [2, 4]])
    three = base("xyz", [[2, 3], [2], [2, 3]])

    def add(n, s, probe="probe::all", targs="", b=None, lens=True, oporder=True):
        k = len(s.doms)
        op = None
        if b is not None and s.cpp.startswith(b.cpp + " ^ "):
            op = (b, s.cpp[len(b.cpp) + 3:])
        for j, pv in enumerate(assignments(s, 3 if T else 2)):
            masks = {(False,) * k, (True,) * k} if T or j == 0 else {(False,) * k}
            if T:
                masks |= {tuple(i % 2 == 0 for i in range(k)), tuple(i % 2 == 1 for i in range(k))}
            if "join" in n:
                masks = [m for m in masks if len(set(m[:len(b.doms)])) == 1] if b is not None else [(False,) * k]
            for m in sorted(masks):
                nm = f"{n}:{','.join(map(str, pv))}:{''.join('s' if x else 'd' for x in m)}"
                if nm not in seen:
                    seen.add(nm)
                    ps.append(vprog(nm, s, list(pv), m, probe, targs, op, lens, oporder))
    for bn, b in (("x", one), ("xy", two), ("xyz", three)):
        add(bn, b)
        for n, s in ops_all(b):
            add(f"{bn}:{n}", s, b=b)
        if bn != "xyz":
            for n, s, pr, ta in ops_partial(b):
                add(f"{bn}:{n}", s, pr, ta, b, lens=False, oporder=False)
    for n, s in chains(one, [ops_all, ops_all], maxdims=3):
        add(f"x:{n}", s)
    if T:
        for n, s in chains(two, [ops_all, ops_all], maxdims=4):
            add(f"xy:{n}", s)
    # curves
    for bn, perms in (("xy", ("xy", "yx")), ("xyz", ("xyz", "zxy", "xz"))):
        for perm in perms:
            for mx, al, L in ((8, 1, [1, 3]), (8, 2, [2, 4])):
                b = base(bn, [L] * len(bn))
                add(f"{bn}:zcurve({perm},{mx},{al})", zc(b, perm, mx, al), b=b, oporder=True)
    # tuples: views of every dimension, joint traversals
    for kind, t, doms in tupviews.bases():
        pv = [d[-1] for d in doms]
        todo = [("", t)] + list(tupviews.ops(t))
        if T:
            todo += [(a + "^" + n, u) for a, s in tupviews.ops(t) for n, u in tupviews.ops(s)]
        for n, u in todo:
            ps.append(tprog(f"tuple{kind}:{n}", t, u, pv))
    ps += contain_progs(T)
    for (an, a, ad), (bn, b, bd) in itertools.product(JOINT, repeat=2):
        ps.append(jprog(f"joint:{an}+{bn}", a, ad, b, bd))
    chk.explore(ps, header=("values.hpp",), per_tu=30)
