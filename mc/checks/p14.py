"""States behave as finite maps from dimensions to numbers."""
from ..gen import *
from ..core import Prog
import itertools

D = "xyz"
SH = [p for k in range(0, 3) for p in itertools.permutations(D, k)] + list(itertools.permutations(D, 3))
BIG = 18446744073709551615


def mk(sh, k0, static=()):
    """state over the dims of sh (upper case letter: length), values p[k0..]"""
    tags = ", ".join(f"noarr::{'length' if d.isupper() else 'index'}_in<'{d.lower()}'>" for d in sh)
    vals = ", ".join(static[i] if i < len(static) and static[i] else f"p[{k0 + i}]" for i in range(len(sh)))
    return f"noarr::make_state<{tags}>({vals})"


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    V = [0, 4294967299, BIG]
    name = lambda s: "".join(s) or "-"
    for a, b in itertools.product(SH, SH):
        if not T and len(a) == 3 and len(b) == 3 and a != ("x", "y", "z"):
            continue
        doms = fit([V] * (len(a) + len(b)), 800)
        ps.append(Prog(f"pair:{name(a)}:{name(b)}", "", doms, f"\tst::algebra(pr, {mk(a, 0)}, {mk(b, len(a))});"))
    for a, b in ((("x", "X"), ("X",)), (("X", "y"), ("y", "X")), (("x", "Y"), ("Y", "z")), (("X", "x"), ("x", "X")), (("X",), ("x",)), (("Z", "y", "X"), ("X", "Z"))):
        ps.append(Prog(f"pair:{name(a)}:{name(b)}", "", [V] * (len(a) + len(b)), f"\tst::algebra(pr, {mk(a, 0)}, {mk(b, len(a))});"))
    # constant values: comparison and override
    for sa, sb in itertools.product([("noarr::lit<0>",), ("noarr::lit<1>",), ("noarr::lit<3>", None), (None, "noarr::lit<2>"), (None,)], repeat=2):
        for a, b in ((("x", "y"), ("y", "x")), (("x", "y"), ("x", "y")), (("x",), ("x", "y")), (("y", "x"), ("x",))):
            ps.append(Prog(f"static:{name(a)}{sa}:{name(b)}{sb}", "", [[0, 1, 2, 3]] * (len(a) + len(b)),
                           f"\tauto a = {mk(a, 0, sa)};\n\tauto b = {mk(b, len(a), sb)};\n\tst::relations(pr, a, b);\n\tauto m = st::map(a);\n\tfor (auto &k : st::map(b)) m[k.first] = k.second;\n\tst::same(pr, st::map(a & b), m, \"& with constants\");"))
    ps_static = ps
    # single-state operations
    for a in SH + [("x", "X"), ("Y", "x", "y")]:
        n = len(a)
        pre = f"\tauto a = {mk(a, 0)};\n\tconst auto m = st::map(a);\n"
        doms = [V] * n
        for r in [p for k in (1, 2, 3) for p in itertools.permutations(D, k)]:
            tags = ", ".join(f"noarr::index_in<'{d}'>" for d in r)
            c = pre + "\t{ auto w = m;\n" + "".join(f"\tw.erase('{d}');\n" for d in r) + f"\tst::same(pr, st::map(a.template remove<{tags}>()), w, \"remove\"); }}\n"
            c += "\t{ st::M w;\n" + "".join(f"\tif (m.count('{d}')) w['{d}'] = m.at('{d}');\n" for d in r) + f"\tst::same(pr, st::map(a.template filter<{tags}>()), w, \"filter\");\n\tst::same(pr, st::map(noarr::filter_indices<{q(r)}>(a)), w, \"filter_indices\"); }}\n"
            c += "\t{ auto w = m;\n" + "".join(f"\tw['{d}'] = {7 + i};\n" for i, d in enumerate(r)) + f"\tst::same(pr, st::map(a.template with<{tags}>({', '.join(f'std::size_t({7 + i})' for i in range(len(r)))})), w, \"with\"); }}\n"
            lo = [d for d in a if d.islower()]
            if all(d in lo for d in r):
                c += f"\t{{ auto t = noarr::get_indices<{q(r)}>(a);\n" + "".join(f"\tpr.eq(std::get<{i}>(t), m.at('{d}'), \"get_indices\");\n\tpr.eq(noarr::get_index<'{d}'>(a), m.at('{d}'), \"get_index\");\n" for i, d in enumerate(r)) + "\t}\n"
                for sgn in itertools.product(("1", "-1", "0") if len(r) > 1 else ("1", "-1", "0", "4294967297l", "-4294967297l", "std::size_t(1) << 63"), repeat=len(r)) if len(r) < 3 else [("1", "-1", "2"), ("-1", "-1", "-1")]:
                    c += "\t{ auto w = m;\n" + "".join(f"\tw['{d}'] += ref::u64({s});\n" for d, s in zip(r, sgn)) + f"\tst::same(pr, st::map(noarr::neighbor<{q(r)}>(a, {', '.join(sgn)})), w, \"neighbor\"); }}\n"
                if len(r) == 1:
                    c += f"\t{{ auto w = m;\n\tw['{r[0]}'] = w['{r[0]}'] * 3 + 1;\n\tst::same(pr, st::map(noarr::update_index<'{r[0]}'>(a, [](auto i) {{ return i * 3 + 1; }})), w, \"update_index\"); }}\n"
            ps.append(Prog(f"single:{name(a)}:{name(r)}", "", doms, c, cost=1.5))
    # lengths in states: the same operations, and they leave the indices of the same dimensions alone
    for a in [("X",), ("x", "X"), ("X", "x"), ("X", "y", "Y"), ("Y", "x", "y", "X"), ("X", "Y", "Z"), ("z", "Y", "X", "x")]:
        pre = f"\tauto a = {mk(a, 0)};\n\tconst auto m = st::map(a);\n"
        for r in [p for k in (1, 2, 3) for p in itertools.permutations("XYZ", k)]:
            lo = [d.lower() for d in r]
            tags = ", ".join(f"noarr::length_in<'{d}'>" for d in lo)
            c = pre + "\t{ auto w = m;\n" + "".join(f"\tw.erase('{d}');\n" for d in r) + f"\tst::same(pr, st::map(a.template remove<{tags}>()), w, \"remove of lengths\"); }}\n"
            c += "\t{ st::M w;\n" + "".join(f"\tif (m.count('{d}')) w['{d}'] = m.at('{d}');\n" for d in r) + f"\tst::same(pr, st::map(a.template filter<{tags}>()), w, \"filter of lengths\");\n\tst::same(pr, st::map(noarr::filter_lengths<{q(lo)}>(a)), w, \"filter_lengths\"); }}\n"
            c += "\t{ auto w = m;\n" + "".join(f"\tw['{d}'] = {7 + i};\n" for i, d in enumerate(r)) + f"\tst::same(pr, st::map(a.template with<{tags}>({', '.join(f'std::size_t({7 + i})' for i in range(len(r)))})), w, \"with of lengths\"); }}\n"
            if all(d in a for d in r):
                c += f"\t{{ auto t = noarr::get_lengths_in<{q(lo)}>(a);\n" + "".join(f"\tpr.eq(std::get<{i}>(t), m.at('{d}'), \"get_lengths_in\");\n\tpr.eq(noarr::get_length_in<'{d.lower()}'>(a), m.at('{d}'), \"get_length_in\");\n" for i, d in enumerate(r)) + "\t}\n"
            ps.append(Prog(f"lengths:{name(a)}:{name(r)}", "", [V[:5]] * len(a), c, cost=1.5))
    seen = {}
    ps = [seen.setdefault(p.id, p) for p in ps if p.id not in seen]
    chk.explore(automid(ps), header=("states.hpp",), per_tu=40)
