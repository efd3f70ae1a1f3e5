"""Availability queries are truthful: what is claimed can be computed and is right for every completion of what is missing."""
from ..gen import *
from ..core import Prog
from .p06 import dbase, deferred
import itertools


def traits(s, closed):
    """compile-time facts about the structure"""
    hidden = [c for c in sorted(s.used) if c not in s.dims]
    D = q(s.dims)
    b = "\tusing S_ = decltype(s);\n"
    b += f"\tpr.eq(noarr::is_point<S_>::value, {int(not s.dims)}, \"is_point\");\n" + ("" if closed is None else f"\tpr.eq(noarr::is_cube<S_>::value, {int(closed)}, \"is_cube\");\n")
    b += "\tpr.ok(std::is_same_v<noarr::scalar_t<S_>, int>, \"scalar_t\");\n"
    for d in s.dims:
        b += f"\tpr.ok(noarr::HasDims<S_, '{d}'>, \"HasDims\", \"{d}\");\n"
    for d in hidden + ["*"]:
        b += f"\tpr.ok(!noarr::HasDims<S_, '{d}'>, \"a dimension that is not there\", \"{d}\");\n"
        if s.dims:
            b += f"\tpr.ok(!noarr::HasDims<S_, {D}, '{d}'>, \"dimensions of which one is not there\", \"{d}\");\n"
    if s.dims:
        b += f"\tpr.ok(noarr::HasDims<S_, {D}> && noarr::HasDims<S_, {q(s.dims[::-1])}>, \"all dimensions\");\n"
    return b


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[0, 1, 2, 3]])
    two = base("xy", [[0, 1, 2, 4], [1, 2, 3]])
    three = base("xyz", [[1, 2], [2, 3], [0, 1, 2]])
    for bn, b, dep in (("x", one, 0), ("xy", two, 0), ("xyz", three, 0), ("x", one, 1), ("xy", two, 1), ("x", one, 2)) + ((("xyz", three, 1), ("xy", two, 2)) if T else ()):
        for n, s in chains(b, [ops_all] * dep, maxdims=3):
            ps.append(Prog(f"closed:{bn}:{n}", s.ref, fit(s.doms, 60), f"\tauto s = {s.cpp};\n\tav::Known kn;\n\tav::truth<0, true{', ' if s.dims else ''}{q(s.dims)}>(s, noarr::empty_state, pr, kn);\n\tkn.monotone(pr, {len(s.dims)});\n" + traits(s, True), cost=1 + len(s.dims), mid=mid(s, 1500, 1)))
    for ds, depth in (("x", 0), ("xy", 0), ("xyz", 0), ("x", 1), ("xy", 1), ("x", 2)) + ((("xyz", 1), ("xy", 2)) if T else ()):
        for r in range(1, len(ds) + 1):
            for o in itertools.combinations(ds, r):
                for n, s in deferred(dbase(ds, set(o)), depth, f"{ds}-{''.join(o)}?"):
                    if not s.open or len(s.dims) > 3:
                        continue
                    op = sorted(s.open)
                    body = f"\tauto s = {s.cpp};\n\tav::Known kn;\n"
                    for m in range(1 << len(op)):
                        sel = [d for i, d in enumerate(op) if m >> i & 1]
                        st = "noarr::make_state<" + ", ".join(f"noarr::length_in<'{d}'>" for d in sel) + ">(" + ", ".join(f"std::size_t({s.expr[d]})" for d in sel) + ")" if sel else "noarr::empty_state"
                        body += f"\tav::truth<{m}, {'true' if len(sel) == len(op) else 'false'}, {q(s.dims)}>(s, {st}, pr, kn);\n"
                    body += f"\tkn.monotone(pr, {len(s.dims)});\n" + traits(s, None if "bcast?" in n else False)
                    ps.append(Prog(f"open:{n}", s.ref, fit(s.doms, 100), body, cost=(1 + len(s.dims)) * 2))
    ps += tuples(T) + partial(T)
    seen = {}
    ps = [seen.setdefault(p.id, p) for p in ps if p.id not in seen]
    chk.explore(automid(ps, lambda p: p.id.startswith("tuple:")), header=("avail.hpp",), per_tu=24)


def partial(T):
    """splits with incomplete blocks: what is known depends on the part of the structure the state selects"""
    ps = []
    def make(n, s, doms, ref, cpp, d, kind, opens, setlen=True):
        f = [c for c in "ABab" if c not in s.used and c not in s.dims]
        M, m, P = f[0], f[-1], "P"
        i = s.dims.index(d)
        k = len(doms)
        if kind == "s":
            dims = s.dims[:i] + [P, M, m] + s.dims[i + 1:]
            cpp, ref = cpp + f" ^ noarr::into_blocks_static<'{d}', '{P}', '{M}', '{m}'>(p[{k}])", ref + f";sblocks {d} {P} {M} {m} ${k}"
        elif kind == "d":
            dims = s.dims[:i] + [M, m, P] + s.dims[i + 1:]
            cpp, ref = cpp + f" ^ noarr::into_blocks_dynamic<'{d}', '{M}', '{m}', '{P}'>(p[{k}])", ref + f";dblocks {d} {M} {m} {P} ${k}"
        else:  # the length of one of the two dimensions comes later
            dims = s.dims[:i] + [M, m, P] + s.dims[i + 1:]
            cpp, ref = cpp + f" ^ noarr::into_blocks_dynamic<'{d}', '{M}', '{m}', '{P}'>()", ref + f";dblocks{'M' if kind == 'dM' else ''} {d} {M} {m} {P} ${k}"
        later = {x: s.expr[x] for x in opens if x != d} if opens else {}
        if kind in ("dm", "dM"):
            later[m if kind == "dm" else M] = f"p[{k}]"
        op = sorted(later)
        body = f"\tauto s = {cpp};\n" + "\tav::Known kn[2];\n"
        dead = d in opens  # never completed: the length of a split dimension cannot be given from outside
        for mask in range(1 << len(op)):
            sel = [x for j, x in enumerate(op) if mask >> j & 1]
            st = "noarr::make_state<" + ", ".join(f"noarr::length_in<'{x}'>" for x in sel) + ">(" + ", ".join(f"std::size_t({later[x]})" for x in sel) + ")" if sel else "noarr::empty_state"
            full = str(len(sel) == len(op) and not dead).lower()
            if kind == "s":
                body += "".join(f"\tav::truthp<{r}, {mask}, {full}, '{P}', '{M}', '{m}', {q(dims)}>(s, {st}, pr, kn[{r}]);\n" for r in (0, 1))
            else:
                body += f"\tav::truthd<{mask}, {full}, '{P}', '{M}', '{m}', {q(dims)}>(s, {st}, pr, kn[0]);\n"
        if kind == "s":
            body += f"\tkn[0].monotone(pr, {len(dims)});\n\tkn[1].monotone(pr, {len(dims)});\n"
        ps.append(Prog(f"partial:{n}^{kind}({d})", ref, fit(doms + [[1, 2, 3]], 80), body, cost=3 + 2 * len(dims)))
    for ds, depth in (("x", 0), ("xy", 0), ("x", 1)) + ((("xy", 1),) if T else ()):
        for r in range(0, len(ds) + 1):
            for o in itertools.combinations(ds, r):
                for n, s in deferred(dbase(ds, set(o)), depth, f"{ds}-{''.join(o)}?"):
                    if len(s.dims) > 2 or (T and depth and ds == "xy" and "bcast" in n):
                        continue
                    for d in s.dims:
                        for kind in ("s", "d", "dm", "dM"):
                            make(n, s, s.doms, s.ref, s.cpp, d, kind, s.open)
    return ps


FLD = {"i": ("noarr::scalar<int>()", "4", 4, ""), "c": ("noarr::scalar<char>()", "1", 1, ""), "o": ("noarr::scalar<int>() ^ noarr::vector<'x'>()", "p[0] * 4", 4, "x"), "u": ("noarr::scalar<char>() ^ noarr::vector<'x'>()", "p[0]", 1, "x"),
       "v": ("noarr::scalar<int>() ^ noarr::vector<'y'>(p[1])", "p[1] * 4", 4, "y"), "a": ("noarr::scalar<short>() ^ noarr::array<'y', 3>()", "6", 2, "y"), "w": ("noarr::scalar<int>() ^ noarr::vector<'x'>() ^ noarr::vector<'y'>(p[1])", "p[0] * p[1] * 4", 4, "xy"),
       "n": ("noarr::pack(noarr::scalar<char>(), noarr::scalar<int>() ^ noarr::vector<'x'>()) ^ noarr::tuple<'s'>()", "4 + p[0] * 4", 4, "*")}
LEN = {"x": "p[0]", "v": "p[1]", "w": "p[1]", "a": "3"}


def tuples(T):
    """tuples some of whose fields do not know their lengths: every combination of what is given"""
    ps = []
    shapes = ["".join(k) for n in ((2, 3) if not T else (2, 3)) for k in itertools.product("icouvawn", repeat=n)]
    for sh in shapes:
        if len(sh) == 3 and not T and (sh[0] > sh[2] or sh[1] in "ca"):
            continue
        fs = [FLD[k] for k in sh]
        opened = any(k in "ouwn" for k in sh)
        body = f"\tauto s = noarr::pack({', '.join(f[0] for f in fs)}) ^ noarr::tuple<'t'>();\n\tref::u64 pos[{len(sh) + 1}], end = 0;\n"
        for i, f in enumerate(fs):
            body += f"\tend = av::up(end, {f[2]}), pos[{i}] = end, end += {f[1]};\n"
        body += f"\tend = av::up(end, {max(f[2] for f in fs)});\n\t[[maybe_unused]] auto l = noarr::make_state<noarr::length_in<'x'>>(std::size_t(p[0]));\n"
        for given in ((0, 1) if opened else (0,)):
            full = str(bool(given or not opened)).lower()
            st = "l" if given else "noarr::empty_state"
            body += f"\tav::tsize<{full}>(s, {st}, end, pr, \"of the tuple\");\n\tav::tlen<true, 't'>(s, {st}, {len(sh)}, pr, \"of the tuple dimension\");\n"
            for i, k in enumerate(sh):
                d = FLD[k][3]
                si = f"({st} & noarr::idx<'t'>(noarr::lit<{i}>))"
                if d == "*":
                    for j, off in ((0, "0"), (1, "4 + x * 4")):
                        sj = f"({si} & noarr::idx<'s'>(noarr::lit<{j}>))"
                        if j:
                            body += f"\tav::tlen<{full}, 'x'>(s, {sj}, p[0], pr, \"of x in a nested field\");\n\tfor (ref::u64 x = 0; x < p[0]; x++) av::toff<{full}, int>(s, {sj} & noarr::idx<'x'>(x), pos[{i}] + {off}, pr, \"of a nested field\");\n"
                        else:
                            body += f"\tav::toff<{full}, char>(s, {sj}, pos[{i}], pr, \"of a nested field\");\n"
                    continue
                ty = "char" if k in "cu" else "short" if k == "a" else "int"
                es = {"char": 1, "short": 2, "int": 4}[ty]
                # lengths in the field
                for q in d:
                    ln = "p[0]" if q == "x" else LEN[k]
                    known = full if q == "x" else "true"
                    body += f"\tav::tlen<{known}, '{q}'>(s, {si}, {ln}, pr, \"of {q} in field {i}\");\n"
                if not d:
                    body += f"\tav::toff<{full}, {ty}>(s, {si}, pos[{i}], pr, \"of field {i}\");\n"
                elif len(d) == 1:
                    ln = "p[0]" if d == "x" else LEN[k]
                    body += f"\tfor (ref::u64 v = 0; v < {ln}; v++) av::toff<{full}, {ty}>(s, {si} & noarr::idx<'{d}'>(v), pos[{i}] + v * {es}, pr, \"in field {i}\");\n\tav::toff<false, {ty}>(s, {si}, ~ref::u64(0), pr, \"in field {i} without an index\");\n"
                else:
                    body += f"\tfor (ref::u64 y = 0; y < p[1]; y++) for (ref::u64 x = 0; x < p[0]; x++) av::toff<{full}, {ty}>(s, {si} & noarr::idx<'y', 'x'>(y, x), pos[{i}] + (y * p[0] + x) * {es}, pr, \"in field {i}\");\n"
        ps.append(Prog(f"tuple:{sh}", "", [[0, 1, 2, 3] if opened else [0], [1, 2, 3] if set(sh) & set("vw") else [0]], body, cost=2))
    return ps
