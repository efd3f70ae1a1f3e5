from ..gen import *

D1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12]
B = [[1, 2, 3, 4, 5]]


def ops_partial(s):
    """splits with incomplete blocks"""
    ds = s.dims
    for d in ds:
        i = ds.index(d)
        M, m, p = s.fresh("ABCD"), s.fresh("abopq"), s.fresh("PQRS")
        rep = lambda *n: ds[:i] + list(n) + ds[i + 1:]
        yield f"dblocks({d})", s.ext(f"noarr::into_blocks_dynamic<'{d}', '{M}', '{m}', '{p}'>({{0}})", f"dblocks {d} {M} {m} {p} {{0}}", rep(M, m, p), B, "no"), "probe::present", f"'{M}', '{m}', '{p}', "
        yield f"dblocksK({d})", s.ext(f"noarr::into_blocks_dynamic<'{d}', '{M}', '{d}', '{p}'>({{0}})", f"dblocks {d} {M} {d} {p} {{0}}", rep(M, d, p), B, "no"), "probe::present", f"'{M}', '{d}', '{p}', "
        yield f"dblocksL({d})", s.ext(f"noarr::into_blocks_dynamic<'{d}', '{M}', '{m}', '{p}'>() ^ noarr::set_length<'{M}'>({{0}})", f"dblocksM {d} {M} {m} {p} {{0}}", rep(M, m, p), B, "no"), "probe::present", f"'{M}', '{m}', '{p}', "
        yield f"sblocks({d})", s.ext(f"noarr::into_blocks_static<'{d}', '{p}', '{M}', '{m}'>({{0}})", f"sblocks {d} {p} {M} {m} {{0}}", rep(p, M, m), B, "no"), "probe::border", f"'{p}', '{M}', '{m}', "
        yield f"sblocksK({d})", s.ext(f"noarr::into_blocks_static<'{d}', '{p}', '{d}', '{m}'>({{0}})", f"sblocks {d} {p} {d} {m} {{0}}", rep(p, d, m), B, "no"), "probe::border", f"'{p}', '{d}', '{m}', "


def run(chk, tier):
    ps = []
    one = base("x", [D1])
    two = base("xy", [[0, 1, 2, 3, 4, 6, 8], [1, 2, 3, 4]])
    three = base("xyz", [[1, 2, 4], [2, 3], [1, 2, 4]])
    for bn, b, fs in (("x", one, [ops_blocks]), ("xy", two, [ops_blocks]), ("xyz", three, [ops_blocks]),
                      ("x", one, [ops_blocks, ops_all]), ("xy", two, [ops_blocks, ops_all]), ("xy", two, [ops_views, ops_blocks]),
                      ("x", one, [ops_blocks, ops_blocks, ops_blocks])):
        for n, s in chains(b, fs):
            ps.append(prog(f"{bn}:{n}", s))
    for bn, b, fs in (("x", one, []), ("xy", two, []), ("x", one, [ops_views]), ("xyz", three, []), ("x", one, [ops_blocks])):
        for n, s in chains(b, fs, maxdims=3):
            for n2, t, pr, ta in ops_partial(s):
                ps.append(prog(f"{bn}:{n}^{n2}", t, probe=pr, targs=ta, cost=2, wide=False))
    chk.explore(ps, per_tu=40)
