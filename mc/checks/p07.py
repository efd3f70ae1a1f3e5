"""Traversal of one structure: every valid index exactly once, in nesting order; tuples included."""
from ..gen import *
from .p03 import ops_partial
from .p04 import zc
import itertools


def reduced(s):
    for n, t in ops_all(s):
        if not n.startswith(("slice1", "span1", "autostep", "fix2", "shift2", "reverse2", "hoist2", "blocksX", "vector", "mergeN")):
            yield n, t


def tuple_trav(T):
    """structures with tuple dimensions: reference sequence written as explicit nested loops over runtime integers"""
    out = []
    coll = "\tstd::vector<std::vector<ref::u64>> got, want;\n"
    fin = "\tpr.state(want.size());\n\tpr.ok(got == want, \"for_each over a tuple visits the fields in nesting order, every index once\");"
    sc = "noarr::scalar<int>()"
    for n in (1, 2, 3, 4):
        tp = f"noarr::pack({', '.join([sc] * n)}) ^ noarr::tuple<'t'>()"
        out.append(Prog(f"tuple{n}", "", [], coll + f"\tnoarr::traverser({tp}).for_each([&](auto st) {{ got.push_back({{noarr::get_index<'t'>(st)}}); }});\n\tfor (ref::u64 t = 0; t < {n}; t++) want.push_back({{t}});\n" + fin))
        out.append(Prog(f"aos{n}", "", [[0, 1, 2, 3]], coll + f"\tnoarr::traverser({tp} ^ noarr::vector<'x'>(p[0])).for_each([&](auto st) {{ got.push_back({{noarr::get_index<'x'>(st), noarr::get_index<'t'>(st)}}); }});\n\tfor (ref::u64 x = 0; x < p[0]; x++) for (ref::u64 t = 0; t < {n}; t++) want.push_back({{x, t}});\n" + fin))
        vs = ", ".join(f"{sc} ^ noarr::vector<'x'>(p[{i}])" for i in range(n))
        out.append(Prog(f"soa{n}", "", [[0, 1, 2, 3]] * n, coll + f"\tref::u64 len[] = {{{', '.join(f'p[{i}]' for i in range(n))}}};\n\tnoarr::traverser(noarr::pack({vs}) ^ noarr::tuple<'t'>()).for_each([&](auto st) {{ got.push_back({{noarr::get_index<'t'>(st), noarr::get_index<'x'>(st)}}); }});\n\tfor (ref::u64 t = 0; t < {n}; t++) for (ref::u64 x = 0; x < len[t]; x++) want.push_back({{t, x}});\n" + fin))
        if n >= 2:
            # hoist x above t
            vs1 = ", ".join(f"{sc} ^ noarr::vector<'x'>(p[0])" for i in range(n))
            # differently shaped fields
            out.append(Prog(f"shapes{n}", "", [[0, 1, 2, 3], [0, 1, 2]], coll +
                f"\tauto s = noarr::pack({', '.join([f'{sc} ^ noarr::vector<{chr(39)}x{chr(39)}>(p[0])', f'{sc} ^ noarr::vector<{chr(39)}y{chr(39)}>(p[1]) ^ noarr::vector<{chr(39)}x{chr(39)}>(p[0])'] + [sc] * (n - 2))}) ^ noarr::tuple<'t'>();\n"
                "\tnoarr::traverser(s).for_each([&](auto st) {\n\t\tstd::vector<ref::u64> v;\n\t\tconstexpr ref::u64 t = decltype(noarr::get_index<'t'>(st))::value;\n\t\tv.push_back(t);\n"
                "\t\tif constexpr (t < 2) v.push_back(noarr::get_index<'x'>(st));\n\t\tif constexpr (t == 1) v.push_back(noarr::get_index<'y'>(st));\n\t\tgot.push_back(v);\n\t});\n"
                f"\tfor (ref::u64 t = 0; t < {n}; t++) {{ if (t == 0) for (ref::u64 x = 0; x < p[0]; x++) want.push_back({{t, x}}); else if (t == 1) for (ref::u64 x = 0; x < p[0]; x++) for (ref::u64 y = 0; y < p[1]; y++) want.push_back({{t, x, y}}); else want.push_back({{t}}); }}\n" + fin))
            for op, idx in (("noarr::reverse<'t'>()", [n - 1 - i for i in range(n)]), (f"noarr::shift<'t'>(noarr::lit<1>)", list(range(1, n))),
                            (f"noarr::slice<'t'>(noarr::lit<{n - 2}>, noarr::lit<2>)", list(range(n - 2, n))), (f"noarr::span<'t'>(noarr::lit<0>, noarr::lit<{n - 1}>)", list(range(n - 1))),
                            ("noarr::step<'t'>(noarr::lit<0>, noarr::lit<2>)", list(range(0, n, 2))), ("noarr::step<'t'>(noarr::lit<1>, noarr::lit<2>)", list(range(1, n, 2))),
                            ("noarr::rename<'t', 'u'>()", list(range(n)))):
                el = ", ".join(f"noarr::scalar<std::array<char, {i + 1}>>()" for i in range(n))
                sizes = [i + 1 for i in range(n)]
                offs = [sum(sizes[:i]) for i in range(n)]
                dim = "u" if "rename" in op else "t"
                out.append(Prog(f"tview{n}:{op[7:]}", "", [[0, 1, 2]], coll +
                    f"\tauto s = noarr::pack({el}) ^ noarr::tuple<'t'>() ^ noarr::vector<'x'>(p[0]) ^ {op};\n"
                    f"\tnoarr::traverser(s).for_each([&](auto st) {{ got.push_back({{noarr::get_index<'x'>(st), noarr::get_index<'{dim}'>(st), s | noarr::offset(st)}}); }});\n"
                    f"\tconst ref::u64 off[] = {{{', '.join(str(offs[i]) for i in idx)}}};\n\tfor (ref::u64 x = 0; x < p[0]; x++) for (ref::u64 t = 0; t < {len(idx)}; t++) want.push_back({{x, t, x * {sum(sizes)} + off[t]}});\n" + fin))
    return out


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[0, 1, 2, 3, 4, 6]])
    two = base("xy", [[0, 1, 2, 3, 4], [0, 1, 2, 4]])
    three = base("xyz", [[0, 1, 2], [1, 2], [0, 1, 2, 3]])
    four = base("wxyz", [[1, 2], [1, 2], [1, 2], [1, 3]])
    add = lambda bn, b, fs, md=5: ps.extend(prog(f"{bn}:{n}", s, probe="probe::traverse_dims" if n.count("^") == 0 else "probe::traverse", cost=2.5, cap=1500, wcap=40) for n, s in chains(b, fs, maxdims=md))
    for bn, b in (("x", one), ("xy", two), ("xyz", three), ("wxyz", four)):
        ps.append(prog(f"{bn}:plain", b, probe="probe::traverse_dims", wcap=200))
    add("x", one, [ops_all])
    add("xy", two, [ops_all])
    add("xyz", three, [ops_all])
    add("x", one, [reduced, reduced])
    if T:
        add("xy", two, [ops_all, ops_all])
        add("x", one, [reduced, reduced, reduced])
        add("wxyz", four, [ops_all])
        add("xyz", three, [reduced, reduced])
    else:
        few = lambda s: ((n, t) for n, t in reduced(s) if n.startswith(("hoist", "blocks(", "merge(", "step(", "reverse(", "rename(", "join0", "slice(", "strip")))
        add("xy", two, [few, few])
    for bn, b in (("x", one), ("xy", two)):
        for n, t, pr, ta in ops_partial(b):
            ps.append(prog(f"{bn}:{n}", t, probe="probe::traverse", cost=2, wide=False))
    ps.append(prog("zc", zc(two, "xy", 4, 1), probe="probe::traverse", cost=2, wide=False))
    ps += tuple_trav(T)
    # loops longer than 16 bits, to the end
    for bn, d in (("x", [[65537]]), ("xy", [[65537], [2]]), ("xy", [[2], [65538]])):
        ps.append(prog(f"long:{bn}{d}", base(bn, d), probe="probe::traverse", wide=False))
    chk.explore(automid(ps, lambda p: "zcurve" not in p.ref), per_tu=40)
