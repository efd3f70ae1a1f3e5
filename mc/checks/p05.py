"""Static (compile-time) and dynamic parameters are interchangeable."""
from ..gen import *
import itertools


def variants(name, s, vals, masks="all"):
    n = len(s.doms)
    for pv in itertools.product(*vals):
        ln = py_valid(s.ref, pv)
        if ln is None:
            continue
        for mask in itertools.product([1, 0], repeat=n) if masks == "all" else ([1] * n,):
            if not any(mask):
                continue
            # joining needs both lengths of the same kind (documented static requirement)
            if "join" in name and mask[0] != mask[1]:
                continue
            t = literalize(s, pv, mask)
            yield prog(f"{name}({','.join(('lit' if m else '') + str(v) for v, m in zip(pv, mask))})", t, probe="probe::all", wide=False, cost=1.5)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    two = base("xy", [[0], [0]])
    small = {0: [0, 2], 1: [1, 2], 2: [0, 1, 2]}
    for n, s in list(ops_all(two)):
        np_ = len(s.doms) - 2
        vals = [[4, 6] if T else [4], [2, 4] if (T or "join" in n) else [4]] + [[0, 1, 2] if np_ == 1 else [0, 1, 2]] * np_
        if "step" in n:
            vals = vals[:2] + [[0, 1], [1, 2, 3]]
        if "slice(" in n or "span(" in n:
            vals = vals[:2] + [[0, 1], [1, 2, 3]]
        if "blocks" in n or "strip" in n:
            vals = vals[:2] + [[1, 2, 4]]
        ps += variants(n, s, vals)
    one = base("x", [[0]])
    sub = lambda s: [o for o in ops_all(s) if not o[0].startswith(("fix2", "autostep", "slice1", "span1", "blocksX", "bcast"))]
    for n, s in chains(one, [sub, sub]):
        np_ = len(s.doms) - 1
        vals = [[6]] + [[1, 2] if d[0] == 0 or 1 in d else d[:2] for d in s.doms[1:]]
        ps += variants(n, s, vals, "all" if T else "static")
    # splits with incomplete blocks (a static block size larger than, equal to, dividing and not dividing a static length)
    from .p03 import ops_partial
    for n, t, pr, ta in ops_partial(one):
        for L in (range(8) if T else (0, 1, 3, 4, 5)):
            for b in ((1, 2, 3, 4, 5) if T else (1, 2, 4)):
                for mask in ((1, 1), (1, 0), (0, 1)):
                    ps.append(prog(f"{n}({L},{b}){mask}", literalize(t, (L, b), mask), probe=pr, targs=ta, wide=False, cost=2))
    if T:
        for n, s in chains(two, [sub, sub]):
            vals = [[4], [4]] + [[1, 2] for d in s.doms[2:]]
            ps += variants("xy:" + n, s, vals, "static")
    # queries with compile-time indices, and results usable in constant expressions
    ps += const_progs()
    chk.explore(ps, per_tu=40)


def const_progs():
    out = []
    for X, Y in itertools.product((1, 2, 3), (1, 2, 4)):
        b = [f"\tconstexpr auto s = noarr::scalar<int>() ^ noarr::array<'y', {Y}>() ^ noarr::array<'x', {X}>();",
             f"\tstatic_assert((s | noarr::get_size()) == {4 * X * Y});",
             f"\tstatic_assert((s | noarr::get_length<'x'>()) == {X} && (s | noarr::get_length<'y'>()) == {Y});"]
        for x in range(X):
            for y in range(Y):
                b.append(f"\tpr.state(); pr.eq(s | noarr::offset<'x', 'y'>(noarr::lit<{x}>, noarr::lit<{y}>), {(x * Y + y) * 4}, \"offset with compile-time indices\");")
                b.append(f"\tpr.eq(s | noarr::offset<'x', 'y'>(noarr::lit<{x}>, std::size_t({y})), {(x * Y + y) * 4}, \"offset with mixed indices\");")
                b.append(f"\tpr.eq(s | noarr::offset<'y', 'x'>({y}, noarr::lit<{x}>), {(x * Y + y) * 4}, \"offset with mixed indices\");")
        out.append(Prog(f"const:{X}x{Y}", "", [], "\n".join(b)))
    return out
