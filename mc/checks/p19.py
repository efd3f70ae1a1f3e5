"""The textual description of a structure is C++ source that rebuilds the structure."""
from ..gen import *
from ..core import Prog
from .p03 import ops_partial
from .p04 import zc
import itertools, re

ELEMS = [("float", 4, 1), ("double", 8, 1), ("std::int8_t", 1, 1), ("std::uint8_t", 1, 1), ("std::int16_t", 2, 1), ("std::uint16_t", 2, 1), ("std::int32_t", 4, 1),
         ("std::uint32_t", 4, 1), ("std::int64_t", 8, 1), ("std::uint64_t", 8, 1), ("long double", 16, 1), ("char", 1, 0), ("bool", 1, 0), ("long long", 8, 0), ("unsigned long long", 8, 0)]


def assignments(s, k):
    """up to k valid parameter vectors, spread over the enumeration of the domains"""
    v = [pv for pv in itertools.product(*s.doms) if s.ref.split(";")[-1].split()[0] in ("dblocks", "dblocksM", "sblocks", "zcurve") or py_valid(s.ref, pv) is not None]
    if len(v) <= k:
        return v
    return [v[(len(v) - 1) * i // (k - 1)] for i in range(k)] if k > 1 else [v[len(v) // 2]]


def run(chk, tier):
    T = tier == "thorough"
    src = []   # (id, St, probe, targs, same type expected)
    one = base("x", [[1, 2, 5, 12, 100]])
    two = base("xy", [[1, 3, 10], [2, 4, 11]])
    three = base("xyz", [[2, 30], [1, 4], [2, 6]])
    for el, sz, same in ELEMS:
        src.append((f"elem:{el}", base("xy", [[1, 10], [2, 3]], elem=el, esize=sz), "probe::all", "", same))
    for bn, b, dep in [("x", one, 0), ("xy", two, 0), ("xyz", three, 0), ("x", one, 1), ("xy", two, 1), ("x", one, 2)] + ([("xyz", three, 1), ("xy", two, 2)] if T else []):
        for n, s in chains(b, [ops_all] * dep, maxdims=3):
            src.append((f"{bn}:{n}", s, "probe::all", "", 1))
    for bn, b in (("x", one), ("xy", two)):
        for n, s, pr, ta in ops_partial(b):
            src.append((f"{bn}:{n}", s, pr, ta, 1))
    for perm in ("xy", "yx"):
        for mx, al in ((16, 1), (16, 2), ("(1 + (~std::size_t(0) >> 1))", 1)):
            src.append((f"zcurve:{perm}:{mx if isinstance(mx, int) else 'max'}:{al}", zc(base("xy", [[2, 4, 10], [2, 4, 6]]), perm, mx, al), "probe::all", "", 1))
    todo = []
    for n, s, pr, ta, same in src:
        k = len(s.doms)
        for j, pv in enumerate(assignments(s, 3 if T else 2)):
            masks = [(False,) * k] if j else [(False,) * k, (True,) * k]
            if T and not j:
                masks += [tuple(i % 2 == 0 for i in range(k)), tuple(i % 2 == 1 for i in range(k))]
            if "join" in n:   # joining needs both lengths constant or both not, which a split of a constant length does not give
                masks = [m for m in masks if not any(m)]
            for mask in masks:
                todo.append((f"{n}:{','.join(map(str, pv))}:{''.join('s' if m else 'd' for m in mask)}", literalize(s, pv, mask), pr, ta, same))
    # big constants and values
    for e, l in ((f"noarr::lit<{v}>", v) for v in (9, 10, 99, 2147483647, 2147483648, 4294967296, 10000000000, 999999999999)):
        todo.append((f"big-lit:{l}", St(["x"], f"noarr::scalar<float>() ^ noarr::vector<'x'>({e})", "", [], None, set()), None, l, 1))
        todo.append((f"big-val:{l}", St(["x"], f"noarr::scalar<float>() ^ noarr::vector<'x'>(std::size_t({l}))", "", [], None, set()), None, l, 1))
    # every printable character as the name of a dimension
    for ch in range(32, 127):
        d = f"'\\x{ch:02x}'"
        todo.append((f"dim-name:{ch}", St(["x"], f"noarr::scalar<float>() ^ noarr::array<{d}, 3>() ^ noarr::vector<'{'x' if ch != 120 else 'y'}'>(std::size_t(5))", "", [], None, set()), "name", d, 1))
    # tuples
    F = {"i": ("noarr::scalar<std::int32_t>()", 1), "v": ("(noarr::scalar<float>() ^ noarr::vector<'x'>(std::size_t(13)))", 13), "a": ("(noarr::scalar<std::int32_t>() ^ noarr::array<'x', 20>())", 20)}
    for n in (1, 2, 3):
        for fs in itertools.product("iva", repeat=n):
            t = f"noarr::pack({', '.join(F[f][0] for f in fs)}) ^ noarr::tuple<'t'>()"
            todo.append((f"tuple:{''.join(fs)}", St(["t"], t + " ^ noarr::vector<'v'>(std::size_t(12))", "", [], None, set()), "tuple", fs, 1))
    todo = list({t[0]: t for t in todo}.values())
    num = []
    for t, nm in (("std::int8_t", "int8_t"), ("std::uint8_t", "uint8_t"), ("std::int16_t", "int16_t"), ("std::uint16_t", "uint16_t"), ("int", "int32_t"), ("unsigned", "uint32_t"), ("long", "int64_t"), ("std::size_t", "uint64_t")):
        num.append(Prog(f"numbers:{nm}", "", [], f"\tmang::numbers<{t}>(pr, \"{nm}\");", cost=3))
    chk.explore([Prog(n, s.ref, s.doms, f"\tmang::emit({s.cpp}, pr);") for n, s, *_ in todo] + num, header=("mang.hpp",), per_tu=60)
    got = {e["id"]: e for e in chk.emitted}
    back = []
    texts = {}
    for n, s, pr, ta, same in todo:
        if n not in got:
            continue   # already reported
        e = got[n]
        texts.setdefault(e["expr"], []).append(n)
        c = f"\tauto s = {s.cpp};\n\tusing namespace noarr;\n\tusing M = {e['type']};\n\tconst auto t = {e['expr']};\n"
        if same:
            c += "\tpr.ok(std::is_same_v<M, decltype(s)>, \"the described type is the type of the structure\");\n\tpr.ok(std::is_same_v<std::remove_cv_t<decltype(t)>, decltype(s)>, \"the described value has the type of the structure\");\n"
        if pr is None:
            c += f"\tpr.state();\n\tpr.eq(t | noarr::get_length<'x'>(), {ta}ull, \"length of the rebuilt structure\");\n\tpr.eq(t | noarr::offset<'x'>({ta - 1}ull), {ta - 1}ull * 4, \"offset in the rebuilt structure\");"
        elif pr == "name":
            c += f"\tpr.state();\n\tpr.eq(t | noarr::get_length<{ta}>(), 3, \"length of the rebuilt structure\");\n\tpr.eq(t | noarr::get_size(), 60, \"size of the rebuilt structure\");"
        elif pr == "tuple":
            c += "\tpr.eq(t | noarr::get_size(), s | noarr::get_size(), \"size of the rebuilt structure\");\n\tpr.eq(t | noarr::get_length<'v'>(), 12, \"length of the rebuilt structure\");\n"
            for i, f in enumerate(ta):
                ix = "noarr::idx<'t', 'v'>(noarr::lit<%d>, v)" % i if f == "i" else "noarr::idx<'t', 'v', 'x'>(noarr::lit<%d>, v, x)" % i
                c += f"\tfor (ref::u64 v = 0; v < 12; v++) for (ref::u64 x = 0; x < {F[f][1]}; x++) {{ pr.state(); pr.eq(t | noarr::offset({ix}), s | noarr::offset({ix}), \"offset in the rebuilt structure\"); }}\n"
        else:
            c += f"\t{pr}<{ta}{q(s.dims)}>(t, pr);"
        back.append(Prog(n + ":rebuilt", s.ref, s.doms, c, cost=1.5))
    chk.explore(back, header=("mang.hpp",), per_tu=40)
    chk.extra["descriptions_rebuilt"] = len(back)
