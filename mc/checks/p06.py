"""Lengths supplied later (set_length in any order, or in the query's state) act like lengths given at construction."""
from ..gen import *
import itertools

# name, proto chain without lengths, [(dim, value expr)], reference, dims(outermost first), doms, wide
V = [0, 1, 2, 3]
CASES = [
    ("vec", "noarr::vector<'x'>()", ["x"], "vector x $0", "x", [[0, 1, 2, 3, 5]]),
    ("bcast", "noarr::bcast<'x'>()", ["x"], "bcast x $0", "x", [V]),
    ("vec2", "noarr::vector<'x'>() ^ noarr::vector<'y'>()", ["x", "y"], "vector x $0;vector y $1", "yx", [V, V]),
    ("vec-bcast", "noarr::vector<'x'>() ^ noarr::bcast<'y'>()", ["x", "y"], "vector x $0;bcast y $1", "yx", [V, V]),
    ("bcast-vec", "noarr::bcast<'x'>() ^ noarr::vector<'y'>()", ["x", "y"], "bcast x $0;vector y $1", "yx", [V, V]),
    ("vec3", "noarr::vectors<'x', 'y', 'z'>()", ["x", "y", "z"], "vector x $0;vector y $1;vector z $2", "zyx", [[1, 2, 3], [1, 2], [0, 1, 3]]),
    ("shift", "noarr::vector<'x'>() ^ noarr::shift<'x'>({k})", ["x"], None, "x", None),
    ("rename", "noarr::vectors<'x', 'y'>() ^ noarr::rename<'x', 'u', 'y', 'v'>()", ["u", "v"], "vector u $0;vector v $1", "vu", [V, V]),
    ("swap", "noarr::vectors<'x', 'y'>() ^ noarr::rename<'x', 'y', 'y', 'x'>()", ["x", "y"], "vector y $1;vector x $0", "xy", [V, V]),
    ("hoist", "noarr::vectors<'x', 'y'>() ^ noarr::hoist<'x'>()", ["x", "y"], "vector x $0;vector y $1;hoist x", "xy", [V, V]),
    ("reorder", "noarr::vectors<'x', 'y', 'z'>() ^ noarr::reorder<'y', 'x', 'z'>()", ["x", "y", "z"], "vector x $0;vector y $1;vector z $2;reorder y x z", "yxz", [[1, 2], [0, 1, 3], [1, 2]]),
    ("join", "noarr::vectors<'x', 'y'>() ^ noarr::join<'x', 'y', 'd'>()", ["d"], "vector x $0;vector y $0;join x y d", "d", [[0, 1, 2, 3]]),
    ("joinK", "noarr::vectors<'x', 'y'>() ^ noarr::join<'x', 'y', 'x'>()", ["x"], "vector x $0;vector y $0;join x y x", "x", [[0, 1, 2, 3]]),
    ("merge-minor", "noarr::vectors<'m', 'M'>() ^ noarr::set_length<'m'>(p[0]) ^ noarr::merge_blocks<'M', 'm', 'd'>()", ["d:p[0] * p[1]"], "vector m $0;vector M $1;merge M m d", "d", [[1, 2, 3], [0, 1, 2, 3]]),
    ("merge-major", "noarr::vectors<'m', 'M'>() ^ noarr::set_length<'M'>(p[1]) ^ noarr::merge_blocks<'M', 'm', 'd'>()", ["d:p[0] * p[1]"], "vector m $0;vector M $1;merge M m d", "d", [[0, 1, 2, 3], [1, 2, 3]]),
    ("merge-short", "noarr::vectors<'m', 'M'>() ^ noarr::merge_blocks<'M', 'm', 'd'>(p[0])", ["d:p[0] * p[1]"], "vector m $0;vector M $1;merge M m d", "d", [[1, 2, 3], [0, 1, 2, 3]]),
    ("blocks2", "noarr::vector<'x'>() ^ noarr::into_blocks<'x', 'b', 'a'>()", ["b:p[1]", "a:p[0]"], "vector a $0;vector b $1", "ba", [[1, 2, 3], [0, 1, 2, 4]]),
    ("blocks-hoist", "noarr::vector<'x'>() ^ noarr::into_blocks<'x', 'b', 'a'>() ^ noarr::hoist<'a'>()", ["b:p[1]", "a:p[0]"], "vector a $0;vector b $1;hoist a", "ab", [[1, 2, 3], [0, 1, 2, 4]]),
    ("blocks-sized-by-size", "noarr::vector<'x'>(p[0] * p[1]) ^ noarr::into_blocks<'x', 'b', 'a'>()", ["a:p[0]"], "vector a $0;vector b $1", "ba", [[1, 2, 3], [0, 1, 2, 4]]),
    ("blocks-sized-by-count", "noarr::vector<'x'>(p[0] * p[1]) ^ noarr::into_blocks<'x', 'b', 'a'>()", ["b:p[1]"], "vector a $0;vector b $1", "ba", [[0, 1, 2, 3], [1, 2, 4]]),
    ("shift-k", "noarr::vector<'x'>() ^ noarr::shift<'x'>(p[1])", ["x:p[0]"], "vector x $2;shift x $1", "x", None),
    ("vec-fix", "noarr::vectors<'x', 'y'>() ^ noarr::fix<'y'>(p[2])", ["x:p[0]"], None, None, None),
    ("reverse", "noarr::vectors<'x', 'y'>() ^ noarr::reverse<'x'>()", ["x", "y"], "vector x $0;vector y $1;reverse x", "yx", [V, V]),
    ("rename-blocks", "noarr::vector<'x'>() ^ noarr::into_blocks<'x', 'b', 'a'>() ^ noarr::rename<'a', 'A', 'b', 'B'>()", ["B:p[1]", "A:p[0]"], "vector A $0;vector B $1", "BA", [[1, 2, 3], [0, 1, 2, 4]]),
    ("nested-blocks", "noarr::vector<'x'>() ^ noarr::into_blocks<'x', 'b', 'a'>() ^ noarr::into_blocks<'b', 'c', 'b'>()", ["c:p[2]", "b:p[1]", "a:p[0]"], "vector a $0;vector b $1;vector c $2", "cba", [[1, 2], [1, 3], [0, 1, 2]]),
    ("tuple-free", "noarr::vector<'x'>() ^ noarr::array<'q', 2>() ^ noarr::vector<'y'>()", ["x", "y"], "vector x $0;vector q #2;vector y $1", "yqx", [V, V]),
]


def mk(case, wide=True):
    name, chain, lens, ref, dims, doms = case
    if ref is None or dims is None or doms is None:
        return []
    pairs = []
    for i, l in enumerate(lens):
        pairs.append((l.split(":")[0], l.split(":")[1] if ":" in l else f"p[{i}]"))
    out = []
    pre = f"\tauto u = noarr::scalar<int>() ^ {chain};\n"
    D = q(dims)
    W = [[1, 3, 65537, 4294967297] for _ in doms]
    k = len(pairs)
    for r in range(k + 1):
        for sub in itertools.permutations(range(k), r):
            # sub: applied with set_length in this order; the rest in the state
            rest = [i for i in range(k) if i not in sub]
            for split in ((0, 1) if r > 1 else (0,)):
                if split:
                    sl = " ^ noarr::set_length<" + q([pairs[i][0] for i in sub]) + ">(" + ", ".join(pairs[i][1] for i in sub) + ")"
                else:
                    sl = "".join(f" ^ noarr::set_length<'{pairs[i][0]}'>({pairs[i][1]})" for i in sub)
                for rp in ([rest] if len(rest) < 2 else [rest, rest[::-1]]):
                    body = pre + f"\tauto s = u{sl};\n"
                    if rp:
                        body += "\tauto st = noarr::make_state<" + ", ".join(f"noarr::length_in<'{pairs[i][0]}'>" for i in rp) + ">(" + ", ".join(pairs[i][1] for i in rp) + ");\n"
                        body += f"\tprobe::with_state<{D}>(s, st, pr);"
                    else:
                        body += f"\tprobe::basic<{D}>(s, pr);\n\tif (!pr.wide) probe::traverse<{D}>(s, pr);"
                    nm = f"{name}:set({','.join(pairs[i][0] for i in sub)}{'*' if split else ''})state({','.join(pairs[i][0] for i in rp)})"
                    out.append(Prog(nm, "scalar #4;" + ref, doms, body, W))
                    if r == k and not split:
                        # the same lengths applied to the traverser instead of the structure
                        tb = pre + f"\tstd::vector<std::vector<ref::u64>> seq;\n\tnoarr::traverser(u).order(noarr::neutral_proto(){sl}).for_each([&](auto st) {{ seq.push_back({{{', '.join(f'(ref::u64)noarr::get_index<{c!r}>(st)' for c in dims)}}}); }});\n"
                        tb += f"\tprobe::compare_seq(pr, \"{''.join(dims)}\", {len(dims)}, seq, \"for_each\");"
                        out.append(Prog(nm + ":order", "scalar #4;" + ref, doms, tb))
    return out


def extra():
    out = []
    # shift of an unsized dimension: length set outside means the remaining length
    for how in ("set", "state"):
        body = "\tauto u = noarr::scalar<int>() ^ noarr::vector<'x'>() ^ noarr::shift<'x'>(p[1]);\n\tif (p[2] != p[0] + p[1]) return;\n"
        if how == "set":
            body += "\tauto s = u ^ noarr::set_length<'x'>(p[0]);\n\tprobe::all<'x'>(s, pr);"
        else:
            body += "\tprobe::with_state<'x'>(u, noarr::make_state<noarr::length_in<'x'>>(p[0]), pr);"
        out.append(Prog(f"shift-unsized:{how}", "scalar #4;vector x $2;shift x $1", [[0, 1, 2, 3], [0, 1, 2], [0, 1, 2, 3, 4, 5]], body))
    # lengths in one state for two dimensions, only one needed by the other structure
    return out


class Df:
    """a chain in which some dimensions are declared without a length; a length may be supplied at any later point where
    the outer dimension still stands for the whole original one (possibly shortened by a shift)"""
    def __init__(self, dims, expr, open_, cpp, ref, doms, used, n):
        self.dims, self.expr, self.open, self.cpp, self.ref, self.doms, self.used, self.n = dims, expr, open_, cpp, ref, doms, used, n

    def ext(self, cpp, ref, dims=None, expr=None, open_=None, doms=(), used=()):
        k = len(self.doms)
        a, b = [f"p[{k + i}]" for i in range(len(doms))], [f"${k + i}" for i in range(len(doms))]
        return Df(dims if dims is not None else self.dims, dict(self.expr if expr is None else expr), set(self.open if open_ is None else open_),
                  self.cpp + (" ^ " + cpp.format(*a) if cpp else ""), self.ref + (";" + ref.format(*b) if ref else ""), self.doms + [list(d) for d in doms], self.used | set(used), self.n)


def dops(s):
    """(name, Df): one transformation that keeps open dimensions settable (or does not touch them)"""
    for d in s.dims:
        k = f"p[{len(s.doms)}]"
        e = dict(s.expr)
        e[d] = f"({s.expr[d]} - {k})"
        yield f"shift({d})", s.ext(f"noarr::shift<'{d}'>({{0}})", f"shift {d} {{0}}", expr=e, doms=[[0, 1, 2]])
        f = next(c for c in "rstuvw" if c not in s.used)
        rn = lambda x: f if x == d else x
        yield f"rename({d})", s.ext(f"noarr::rename<'{d}', '{f}'>()", f"rename {d} {f}", [rn(x) for x in s.dims], {rn(x): v for x, v in s.expr.items()}, {rn(x) for x in s.open}, used=[f])
        if len(s.dims) > 1:
            yield f"hoist({d})", s.ext(f"noarr::hoist<'{d}'>()", f"hoist {d}", [d] + [x for x in s.dims if x != d])
        if d not in s.open:
            yield f"slice({d})", s.ext(f"noarr::slice<'{d}'>({{0}}, {{1}})", f"slice {d} {{0}} {{1}}", doms=[[0, 1], [0, 1, 2]])
            yield f"span({d})", s.ext(f"noarr::span<'{d}'>({{0}}, {{1}})", f"span {d} {{0}} {{1}}", doms=[[0, 1], [1, 2]])
            yield f"step({d})", s.ext(f"noarr::step<'{d}'>({{0}}, {{1}})", f"step {d} {{0}} {{1}}", doms=[[0, 1], [1, 2]])
            r = [x for x in s.dims if x != d]
            if r:
                yield f"fix({d})", s.ext(f"noarr::fix<'{d}'>({{0}})", f"fix {d} {{0}}", r, {x: s.expr[x] for x in r}, doms=[[0, 1, 2]])
            A = next(c for c in "ABCDEF" if c not in s.used)
            i = s.dims.index(d)
            e = dict(s.expr)
            e[A] = "0"
            yield f"blocks({d})", s.ext(f"noarr::into_blocks<'{d}', '{A}', '{d}'>({{0}})", f"blocks {d} {A} {d} {{0}}", s.dims[:i] + [A, d] + s.dims[i + 1:], e, doms=[[1, 2, 3]], used=[A])
        yield f"reverse({d})", s.ext(f"noarr::reverse<'{d}'>()", f"reverse {d}")
    if len(s.dims) == 2:
        a, b = s.dims
        sw = {a: b, b: a}
        yield "swap", s.ext(f"noarr::rename<'{a}', '{b}', '{b}', '{a}'>()", f"rename {a} {b} {b} {a}", [b, a], {sw[x]: v for x, v in s.expr.items()}, {sw[x] for x in s.open})
        yield "reorder", s.ext(f"noarr::reorder<'{b}', '{a}'>()", f"reorder {b} {a}", [b, a])
    n = next(c for c in "ijklmn" if c not in s.used)
    k = f"p[{len(s.doms)}]"
    for o in ("bcast", "vector"):
        e = dict(s.expr)
        e[n] = k
        yield o, s.ext(f"noarr::{o}<'{n}'>({{0}})", f"{o} {n} {{0}}", [n] + s.dims, e, doms=[[0, 1, 2]], used=[n])
        if s.n < 3:
            t = s.ext(f"noarr::{o}<'{n}'>()", f"{o} {n} {{0}}", [n] + s.dims, e, s.open | {n}, doms=[[0, 1, 2]], used=[n])
            yield o + "?", t


def sets(s):
    for d in sorted(s.open):
        yield d, s.ext(f"noarr::set_length<'{d}'>({s.expr[d]})", "", open_=s.open - {d})


def deferred(s, depth, name=""):
    """all interleavings of transformations and length settings; dimensions open at the end get lengths from the state"""
    def settle(s, name):
        yield name, s
        for d, t in sets(s):
            yield from settle(t, f"{name}^set({d})")
    seen = set()
    for n, t in settle(s, name):
        if t.cpp in seen:
            continue
        seen.add(t.cpp)
        if depth == 0:
            yield n, t
        else:
            for m, u in dops(t):
                yield from deferred(u, depth - 1, f"{n}^{m}")


def dbase(ds, opens):
    s = Df([], {}, set(), "noarr::scalar<int>()", "scalar #4", [], set(), 0)
    for d in ds[::-1]:
        e = dict(s.expr)
        e[d] = f"p[{len(s.doms)}]"
        arg = "" if d in opens else "{0}"
        s = s.ext(f"noarr::vector<'{d}'>({arg})", f"vector {d} {{0}}", [d] + s.dims, e, s.open | ({d} if d in opens else set()), doms=[[0, 1, 2, 3]], used=[d])
    return s


def dprogs(ds, depth):
    for r in range(1, len(ds) + 1):
        for o in itertools.combinations(ds, r):
            for n, s in deferred(dbase(ds, set(o)), depth, f"{ds}-{''.join(o)}?"):
                D = q(s.dims)
                body = f"\tauto s = {s.cpp};\n"
                if s.open:
                    op = sorted(s.open)
                    body += "\tauto st = noarr::make_state<" + ", ".join(f"noarr::length_in<'{d}'>" for d in op) + ">(" + ", ".join(s.expr[d] for d in op) + ");\n"
                    body += f"\tprobe::with_state<{D}>(s, st, pr);"
                else:
                    body += f"\tprobe::basic<{D}>(s, pr);\n\tif (!pr.wide) probe::traverse<{D}>(s, pr);"
                w = [[1, 3, 65537, 4294967297]] * len(ds) + [[x for x in d if x][:2] or [0] for d in s.doms[len(ds):]]
                m = St(s.dims, "", s.ref, s.doms, None, set(), "L" * len(ds) + "P" * (len(s.doms) - len(ds)), depth)
                yield Prog(n, s.ref, fit(s.doms, 600), body, fit(w, 60), mid=mid(m, 1500))


def joint():
    """the length of a dimension comes from another structure of a joint traversal"""
    out = []
    for nm, u, ref, dims, idx in (
            ("outer", "noarr::vector<'y'>(p[1]) ^ noarr::vector<'x'>()", "vector y $1;vector x $0", "xy", "'x', 'y'"),
            ("only", "noarr::vector<'x'>()", "vector x $0", "x", "'x'"),
            ("bcast", "noarr::vector<'y'>(p[1]) ^ noarr::bcast<'x'>()", "vector y $1;bcast x $0", "xy", "'x', 'y'"),
            ("shift", "noarr::vector<'y'>(p[1]) ^ noarr::vector<'x'>() ^ noarr::shift<'x'>(noarr::lit<0>)", "vector y $1;vector x $0", "xy", "'x', 'y'"),
            ("rename", "noarr::vector<'y'>(p[1]) ^ noarr::vector<'z'>() ^ noarr::rename<'z', 'x'>()", "vector y $1;vector x $0", "xy", "'x', 'y'")):
        body = (f"\tauto s = noarr::scalar<char>() ^ noarr::vector<'x'>(p[0]);\n\tauto u = noarr::scalar<int>() ^ {u};\n"
                f"\tstd::vector<std::vector<ref::u64>> seq; std::vector<ref::u64> offs;\n"
                f"\tnoarr::traverser(s, u).for_each([&](auto st) {{ seq.push_back({{{', '.join(f'(ref::u64)noarr::get_index<{c!r}>(st)' for c in dims)}}}); offs.push_back(u | noarr::offset(st & noarr::make_state<noarr::length_in<'x'>>(p[0]))); }});\n"
                f"\tint f = pr.fails; probe::compare_seq(pr, \"{dims}\", {len(dims)}, seq, \"joint for_each\");\n"
                f"\tif (pr.fails == f) for (size_t k = 0; k < offs.size(); k++) if (!pr.eq(offs[k], pr.r->rows[k].off, \"offset of visited state\")) break;")
        out.append(Prog("joint:" + nm, "scalar #4;" + ref + (";hoist y" if "y" in dims else ""), [[0, 1, 2, 3], [1, 2, 3]], body))
    return out


def run(chk, tier):
    T = tier == "thorough"
    CASES[:] = [c for c in CASES if c[3] and c[4] and c[5]]
    ps = []
    for c in CASES:
        ps += mk(c)
    ps += extra() + joint()
    for ds, depth in (("x", 1), ("xy", 1), ("x", 2)) + ((("xyz", 1), ("xy", 2), ("x", 3)) if T else ()):
        ps += list(dprogs(ds, depth))
    chk.explore(ps, per_tu=40)
