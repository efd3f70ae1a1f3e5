"""Alphabet of proto-structures and exhaustive generation of compositions (chains)."""
from .core import Prog

WIDE_LEN = [1, 3, 65537, 4294967297, 8589934595]


class St:
    """Symbolic shape while a chain is generated: ordered dimension names and used parameters."""
    def __init__(self, dims, cpp, ref, doms, wide, used, kinds="", nops=0):
        self.dims, self.cpp, self.ref, self.doms, self.wide, self.used = dims, cpp, ref, doms, wide, used
        self.nops = nops
        self.kinds = kinds  # per parameter: L (a length: multiplies the number of elements) or P (a parameter of a view)

    def fresh(self, pool):
        for c in pool:
            if c not in self.used:
                return c
        raise RuntimeError("no fresh dimension")

    def ext(self, cpp, ref, dims, doms=(), wide=None, used=()):
        """cpp/ref use {0},{1}.. for the op's own parameters"""
        n = len(self.doms)
        cp = [f"p[{n+i}]" for i in range(len(doms))]
        rp = [f"${n+i}" for i in range(len(doms))]
        w = list(wide) if wide is not None else [[1, 2]] * len(doms)
        return St(list(dims), self.cpp + " ^ " + cpp.format(*cp), self.ref + ";" + ref.format(*rp), self.doms + [list(d) for d in doms],
                  self.wide + w if self.wide is not None and wide != "no" else None, self.used | set(dims) | set(used),
                  self.kinds + ("L" if cpp.startswith(("noarr::vector", "noarr::bcast")) else "P") * len(doms), self.nops + 1)


def base(dims, lens, elem="int", esize=4, wide=None):
    """scalar ^ vector<dims[-1]> ... ; dims given outermost first, lens per dim (domains)"""
    s = St([], f"noarr::scalar<{elem}>()", f"scalar #{esize}", [], [], set())
    for d, l in list(zip(dims, lens))[::-1]:
        s = s.ext(f"noarr::vector<'{d}'>({{0}})", f"vector {d} {{0}}", [d] + s.dims, [l], [wide or WIDE_LEN])
    s.nops = 0
    return s


IDX = [0, 1, 2, 3]
WIDX = [0, 1, 65536, 4294967296]


def ops_views(s, full=True):
    """all single view applications on shape s: yields (name, St)"""
    ds = s.dims
    for d in ds:
        r = [x for x in ds if x != d]
        yield f"fix({d})", s.ext(f"noarr::fix<'{d}'>({{0}})", f"fix {d} {{0}}", r, [IDX], [WIDX])
        yield f"shift({d})", s.ext(f"noarr::shift<'{d}'>({{0}})", f"shift {d} {{0}}", ds, [IDX], [WIDX])
        yield f"slice({d})", s.ext(f"noarr::slice<'{d}'>({{0}}, {{1}})", f"slice {d} {{0}} {{1}}", ds, [IDX, IDX], [WIDX, [1, 2, 65535]])
        yield f"slice1({d})", s.ext(f"noarr::slice<'{d}'>({{0}})", f"slice1 {d} {{0}}", ds, [IDX], [[1, 65536, 4294967296]])
        yield f"span({d})", s.ext(f"noarr::span<'{d}'>({{0}}, {{1}})", f"span {d} {{0}} {{1}}", ds, [IDX, IDX], [[0, 2, 65535], [3, 65536, 4294967297]])
        yield f"span1({d})", s.ext(f"noarr::span<'{d}'>({{0}})", f"span1 {d} {{0}}", ds, [IDX], [[1, 65536, 4294967296]])
        yield f"step({d})", s.ext(f"noarr::step<'{d}'>({{0}}, {{1}})", f"step {d} {{0}} {{1}}", ds, [[0, 1, 2], [1, 2, 3]], [[0, 1, 65535], [2, 65536]])
        yield f"reverse({d})", s.ext(f"noarr::reverse<'{d}'>()", f"reverse {d}", ds)
        n = s.fresh("rstuvw")
        yield f"rename({d})", s.ext(f"noarr::rename<'{d}', '{n}'>()", f"rename {d} {n}", [n if x == d else x for x in ds])
        if len(ds) > 1:
            yield f"hoist({d})", s.ext(f"noarr::hoist<'{d}'>()", f"hoist {d}", [d] + r)
    if ds:
        d = ds[0]
        yield "autostep", s.ext("noarr::step({0}, {1})", f"step {d} {{0}} {{1}}", ds, [[0, 1, 2], [1, 2, 3]], [[0, 1, 65535], [2, 65536]])
    if len(ds) >= 2:
        a, b = ds[0], ds[-1]
        sw = {a: b, b: a}
        yield "swap", s.ext(f"noarr::rename<'{a}', '{b}', '{b}', '{a}'>()", f"rename {a} {b} {b} {a}", [sw.get(x, x) for x in ds])
        rv = ds[::-1]
        yield "reorder", s.ext("noarr::reorder<" + ", ".join(f"'{x}'" for x in rv) + ">()", "reorder " + " ".join(rv), rv)
        yield "hoist2", s.ext(f"noarr::hoist<'{b}', '{a}'>()", f"hoist {b} {a}", [b, a] + [x for x in ds if x not in (a, b)])
        yield "fix2", s.ext(f"noarr::fix<'{a}', '{b}'>({{0}}, {{1}})", f"fix {a} {{0}};fix {b} {{1}}", [x for x in ds if x not in (a, b)], [IDX, IDX], [WIDX, WIDX])
        yield "shift2", s.ext(f"noarr::shift<'{b}', '{a}'>({{0}}, {{1}})", f"shift {b} {{0}};shift {a} {{1}}", ds, [IDX, IDX], [WIDX, WIDX])
        yield "reverse2", s.ext(f"noarr::reverse<'{a}', '{b}'>()", f"reverse {a};reverse {b}", ds)
        yield "join0", s.ext(f"noarr::join<'{a}', '{b}'>()", f"join {a} {b} {a}", [a] + [x for x in ds if x not in (a, b)])
        c = s.fresh("cdefg")
        yield "joinN", s.ext(f"noarr::join<'{b}', '{a}', '{c}'>()", f"join {b} {a} {c}", [c] + [x for x in ds if x not in (a, b)])
    n = s.fresh("ijklmn")
    yield "bcast", s.ext(f"noarr::bcast<'{n}'>({{0}})", f"bcast {n} {{0}}", [n] + ds, [[0, 1, 2]], [[1, 4294967297]])
    n = s.fresh("ijklmn")
    yield "vector", s.ext(f"noarr::vector<'{n}'>({{0}})", f"vector {n} {{0}}", [n] + ds, [[0, 1, 2]], [[1, 3]])


def ops_blocks(s, dyn=False):
    ds = s.dims
    for d in ds:
        i = ds.index(d)
        M = s.fresh("ABCDEFGH")
        rep = lambda *n: ds[:i] + list(n) + ds[i + 1:]
        m2 = s.fresh("abopq")
        W = [[1, 2, 65536, 65537]]
        B = [[1, 2, 3, 4]]
        yield f"blocks({d})", s.ext(f"noarr::into_blocks<'{d}', '{M}', '{d}'>({{0}})", f"blocks {d} {M} {d} {{0}}", rep(M, d), B, W)
        yield f"blocksX({d})", s.ext(f"noarr::into_blocks<'{d}', '{d}', '{m2}'>({{0}})", f"blocks {d} {d} {m2} {{0}}", rep(d, m2), B, W)
        yield f"blocksN({d})", s.ext(f"noarr::into_blocks<'{d}', '{M}', '{m2}'>() ^ noarr::set_length<'{M}'>({{0}})", f"blocksM {d} {M} {m2} {{0}}", rep(M, m2), B, W)
        r = [x for x in ds if x != d]
        yield f"strip({d})", s.ext(f"noarr::strip_mine<'{d}', '{M}'>({{0}})", f"blocks {d} {M} {d} {{0}};hoist {M}", [M] + [x for x in rep(M, d) if x != M], B, W)
    for a in ds:
        for b in ds:
            if a == b:
                continue
            at = max(ds.index(a), ds.index(b)) - 1
            rest = [x for x in ds if x not in (a, b)]
            c = s.fresh("cdefg")
            yield f"merge({a}{b})", s.ext(f"noarr::merge_blocks<'{a}', '{b}'>()", f"merge {a} {b} {b}", rest[:at] + [b] + rest[at:])
            yield f"mergeN({a}{b})", s.ext(f"noarr::merge_blocks<'{a}', '{b}', '{c}'>()", f"merge {a} {b} {c}", rest[:at] + [c] + rest[at:])


def ops_all(s):
    yield from ops_views(s)
    yield from ops_blocks(s)


def chains(s, opfuncs, name="", maxdims=4):
    """all chains taking op k from opfuncs[k]"""
    if not opfuncs:
        yield name, s
        return
    for n, t in opfuncs[0](s):
        if len(t.dims) <= maxdims:
            yield from chains(t, opfuncs[1:], name + ("^" if name else "") + n, maxdims)


def fit(doms, cap):
    """shrink parameter domains (drop the largest values) until the product is below cap"""
    doms = [list(d) for d in doms]
    def prod():
        n = 1
        for d in doms:
            n *= max(1, len(d))
        return n
    while prod() > cap:
        k = max(range(len(doms)), key=lambda i: len(doms[i]))
        if len(doms[k]) <= 2:
            break
        doms[k].pop()
    return doms


def fitw(doms, cap):
    """as fit, for wide domains: keeps the extreme values, drops from the middle"""
    doms = [list(d) for d in doms]
    def prod():
        n = 1
        for d in doms:
            n *= max(1, len(d))
        return n
    while prod() > cap:
        k = max(range(len(doms)), key=lambda i: len(doms[i]))
        if len(doms[k]) <= 2:
            break
        doms[k].pop(len(doms[k]) // 2 - (len(doms[k]) > 3))
    return doms


MID_LEN = [5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]
MID_PAR = [4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65, 128]


def mid(s, budget=40000, maxops=2):
    """domains of medium lengths and parameters (thresholds, powers of two and their neighbours), fitted so that about
    `budget` elements are checked; None for chains of more than maxops operations"""
    if budget == 0 or "zcurve" in s.ref or not s.doms or len(s.kinds) != len(s.doms) or s.nops > maxops or "L" not in s.kinds:
        return None
    if any(len(d) == 1 for d in s.doms):
        return None  # pinned by the caller
    if s.nops > 1:
        budget //= 8
    doms = [list(MID_LEN if k == "L" else MID_PAR) for k in s.kinds]
    def est():
        n = 1
        for d, k in zip(doms, s.kinds):
            n *= sum(d) if k == "L" else len(d)
        return n
    while est() > budget:
        k = max(range(len(doms)), key=lambda i: (len(doms[i]), sum(doms[i])))
        d = doms[k]
        if len(d) <= 3:
            doms = [[5, 8] if k == "L" else [4, 5] for k in s.kinds]
            break
        d.pop(-1 if d[-1] > 17 else len(d) // 2)
    if est() > 4 * budget:
        doms = [[5] if k == "L" else [2, 5] for k in s.kinds]
    return doms


def q(dims):
    return ", ".join(f"'{d}'" for d in dims)


def prog(name, s, probe="probe::basic", cap=3000, wcap=300, wide=True, cost=1.0, targs="", budget=40000):
    return Prog(name, s.ref, fit(s.doms, cap), f"\tauto s = {s.cpp};\n\t{probe}<{targs}{q(s.dims)}>(s, pr);",
                fitw(s.wide, wcap) if wide and s.wide is not None else None, cost, mid=mid(s, budget))


def py_valid(ref, pv):
    """precondition check of an op chain for concrete parameters (lengths only); mirrors the documented preconditions"""
    ln = {}
    for o in ref.split(";"):
        w = o.split()
        if not w:
            continue
        n, ds, P = w[0], [x for x in w[1:] if x[0] not in "$#"], [pv[int(x[1:])] if x[0] == "$" else int(x[1:]) for x in w[1:] if x[0] in "$#"]
        d = ds[0] if ds else None
        if n in ("vector", "bcast"):
            ln[d] = P[0]
        elif n == "fix":
            if P[0] >= ln[d]: return None
            del ln[d]
        elif n == "shift":
            if P[0] > ln[d]: return None
            ln[d] -= P[0]
        elif n == "slice":
            if P[0] + P[1] > ln[d]: return None
            ln[d] = P[1]
        elif n in ("slice1", "span1"):
            if P[0] > ln[d]: return None
            ln[d] = P[0]
        elif n == "span":
            if P[0] > P[1] or P[1] > ln[d]: return None
            ln[d] = P[1] - P[0]
        elif n == "step":
            if P[1] == 0 or P[0] >= P[1]: return None
            ln[d] = (ln[d] - P[0] - 1) // P[1] + 1 if ln[d] > P[0] else 0
        elif n == "rename":
            m = dict(ln)
            for k in range(0, len(ds), 2): ln.pop(ds[k], None)
            for k in range(0, len(ds), 2): ln[ds[k + 1]] = m[ds[k]]
        elif n == "join":
            if ln[ds[0]] != ln[ds[1]]: return None
            L = ln[d]
            ln.pop(ds[0]), ln.pop(ds[1], None)
            ln[ds[2]] = L
        elif n == "blocks":
            if P[0] == 0 or ln[d] % P[0]: return None
            L = ln.pop(d)
            ln[ds[1]], ln[ds[2]] = L // P[0], P[0]
        elif n == "blocksM":
            if P[0] == 0 or ln[d] % P[0]: return None
            L = ln.pop(d)
            ln[ds[1]], ln[ds[2]] = P[0], L // P[0]
        elif n == "merge":
            a, b = ln.pop(ds[0]), ln.pop(ds[1])
            ln[ds[2]] = a * b
    return ln


import re as _re


def literalize(s, pv, mask):
    """St with the parameters selected by mask turned into compile-time constants; remaining parameters renumbered"""
    remap, k = {}, 0
    for i in range(len(pv)):
        if not mask[i]:
            remap[i] = k
            k += 1
    cpp = _re.sub(r"p\[(\d+)\]", lambda m: f"noarr::lit<{pv[int(m[1])]}>" if mask[int(m[1])] else f"p[{remap[int(m[1])]}]", s.cpp)
    ref = _re.sub(r"\$(\d+)", lambda m: f"#{pv[int(m[1])]}" if mask[int(m[1])] else f"${remap[int(m[1])]}", s.ref)
    return St(s.dims, cpp, ref, [[pv[i]] for i in range(len(pv)) if not mask[i]], None, s.used)


def automid(ps, only=lambda p: True):
    """adds a set of medium values to programs whose parameters are all small lengths (every element checked)"""
    V = {1: [5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33], 2: [5, 8, 9, 16, 17], 3: [5, 8], 4: [5, 6], 5: [5]}
    for p in ps:
        n = sum(len(d) > 1 for d in p.doms)
        if p.mid is None and n in V and only(p) and all(len(d) == 1 or max(d) <= 8 for d in p.doms):
            p.mid = [d if len(d) == 1 else [v for v in V[n] if v > max(d)] or [max(d)] for d in p.doms]
    return ps
