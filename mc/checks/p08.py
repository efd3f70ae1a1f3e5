"""Reordering a traversal changes only the order: order(), for_dims, for_sections, nesting; states stay in terms of the original structure."""
from ..gen import *
from .p07 import reduced
from .p03 import ops_partial
import itertools


def order_ops(s):
    for n, t in ops_all(s):
        if not n.startswith(("vector",)):
            yield n, t


def few(s):
    for n, t in reduced(s):
        if n.startswith(("hoist", "blocks(", "merge(", "step(", "reverse(", "rename(", "strip", "fix(", "slice(", "bcast", "shift(", "swap", "reorder")):
            yield n, t


def split(b, t):
    """(cpp of base, cpp of the order proto, proto list)"""
    assert t.cpp.startswith(b.cpp + " ^ ")
    return t.cpp[len(b.cpp) + 3:]


def order_prog(name, b, t, first=None):
    o = split(b, t)
    nest = "".join(t.dims)
    body = f"\tauto s = {b.cpp};\n"
    body += f"\ttrav::full(s, noarr::traverser(s).order({o}), pr, \"{nest}\", \"order().for_each\");\n"
    if first is not None:
        a = split(b, first)
        c = t.cpp[len(first.cpp) + 3:]
        body += f"\ttrav::full(s, noarr::traverser(s).order({a}).order({c}), pr, \"{nest}\", \"order(A).order(B)\");\n"
        body += f"\ttrav::full(s, noarr::traverser(s) ^ {a} ^ {c}, pr, \"{nest}\", \"traverser ^ A ^ B\");\n"
    return Prog(name, t.ref, fit(t.doms, 1200), body, fitw(t.wide, 40) if t.wide is not None else None, cost=3, mid=mid(t))


def nest_prog(name, b, t, first=None):
    """for_dims / for_sections over all ordered subsets of the (transformed) dimensions"""
    o = split(b, t) if t.cpp != b.cpp else ""
    body = f"\tauto s = {b.cpp};\n\tauto t = noarr::traverser(s){'.order(' + o + ')' if o else ''};\n"
    ds = t.dims
    for r in range(1, len(ds) + 1):
        for sub in itertools.permutations(ds, r):
            if first and sub[:2] != first[:r]:
                continue
            rest = [d for d in ds if d not in sub]
            body += f"\ttrav::dims<{q(sub)}>(s, t, pr, \"{''.join(list(sub) + rest)}\");\n"
        for sub in itertools.combinations(ds, r):
            rest = [d for d in ds if d not in sub]
            for wr in itertools.permutations(sub):
                if first and wr[:2] != first[:r]:
                    continue
                body += f"\ttrav::sections<{q(wr)}>(s, t, pr, \"{''.join(list(sub) + rest)}\", \"{''.join(sub)}\");\n"
    return Prog(name, t.ref, fit(t.doms, 300), body, fitw(t.wide, 30) if t.wide is not None else None, cost=16 if len(ds) >= 3 else 6, mid=mid(t, 8000))


def inner_progs(b):
    """reordering inside a section: for_dims<d>(inner.order(X).for_each)"""
    for d in b.dims:
        rest = [x for x in b.dims if x != d]
        for e in rest:
            # fixed d outside, reverse e inside
            t = b.ext(f"noarr::reverse<'{e}'>()", f"reverse {e}", b.dims)
            body = f"\tauto s = {b.cpp};\n\tstd::vector<ref::u64> got;\n\tnoarr::traverser(s).for_dims<'{d}'>([&](auto inner) {{ trav::collect(s, inner.order(noarr::reverse<'{e}'>()), got); }});\n\ttrav::same(pr, got, trav::expect(pr, \"{d}{''.join(rest)}\"), \"for_dims + inner order\");"
            yield Prog(f"inner:{d}:reverse({e})", t.ref, t.doms, body, cost=2)
            t = b.ext(f"noarr::hoist<'{e}'>()", f"hoist {e}", [e] + [x for x in b.dims if x != e])
            nest = d + e + "".join(x for x in rest if x != e)
            body = f"\tauto s = {b.cpp};\n\tstd::vector<ref::u64> got;\n\tnoarr::traverser(s).for_sections<'{d}'>([&](auto inner) {{ trav::collect(s, inner.order(noarr::hoist<'{e}'>()), got); }});\n\ttrav::same(pr, got, trav::expect(pr, \"{nest}\"), \"for_sections + inner order\");"
            yield Prog(f"inner:{d}:hoist({e})", t.ref, t.doms, body, cost=2)
            body = f"\tauto s = {b.cpp};\n\tstd::vector<ref::u64> got;\n\tnoarr::traverser(s).for_dims<'{d}'>([&](auto i1) {{ i1.template for_dims<'{e}'>([&](auto i2) {{ trav::collect(s, i2, got); }}); }});\n\ttrav::same(pr, got, trav::expect(pr, \"{nest}\"), \"nested for_dims\");"
            yield Prog(f"inner:{d}:for_dims({e})", b.ref, b.doms, body, cost=2)
            # partial states: state() of a section holds exactly the fixed indices
            body = f"\tauto s = {b.cpp};\n\tref::u64 n = 0;\n\tnoarr::traverser(s).for_dims<'{d}', '{e}'>([&](auto inner) {{ auto st = inner.state(); ref::u64 le = s | noarr::get_length<'{e}'>(); pr.eq(noarr::get_index<'{d}'>(st) * le + noarr::get_index<'{e}'>(st), n++, \"state of section\"); }});\n\tpr.state(n);\n\tpr.eq(n, (s | noarr::get_length<'{d}'>()) * (s | noarr::get_length<'{e}'>()), \"number of sections\");"
            yield Prog(f"inner:state:{d}{e}", b.ref, b.doms, body)
    # for_each over every subset of the dimensions: exactly the indices of these, in nesting order
    for r in range(1, len(b.dims) + 1):
        for sub in itertools.combinations(b.dims, r):
            loops = "".join(f"for (ref::u64 i{d} = 0; i{d} < pr.r->len['{d}']; i{d}++) " for d in sub)
            body = f"\tauto s = {b.cpp};\n\tstd::vector<st::M> got, want;\n\tnoarr::traverser(s).for_each<{q(sub[::-1])}>([&](auto st) {{ got.push_back(st::map(st)); }});\n\t{loops}want.push_back({{{', '.join(f'{{{chr(39)}{d}{chr(39)}, i{d}}}' for d in sub)}}});\n"
            body += "\tpr.state(want.size());\n\tpr.ok(got == want, \"for_each over some dimensions\");"
            yield Prog(f"for_each:{''.join(sub)}:{len(b.dims)}", b.ref, b.doms, body)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[0, 1, 2, 3, 4, 6]])
    two = base("xy", [[0, 1, 2, 3, 4], [1, 2, 4]])
    three = base("xyz", [[1, 2], [1, 2, 3], [0, 1, 2]])
    for bn, b in (("x", one), ("xy", two), ("xyz", three)):
        for n, t in order_ops(b):
            ps.append(order_prog(f"{bn}:order({n})", b, t))
    f2 = reduced if T else few
    for bn, b in (("x", one), ("xy", two)) if T else (("x", one),):
        for n1, m in f2(b):
            for n2, t in f2(m):
                if "vector" not in n1 + n2:
                    ps.append(order_prog(f"{bn}:order({n1})({n2})", b, t, m))
    lite = lambda s: ((n, t) for n, t in few(s) if n.startswith(("hoist", "blocks(", "merge(", "reverse(", "strip", "fix(")))
    if not T:
        for n1, m in lite(two):
            for n2, t in lite(m):
                if len(t.dims) <= 3:
                    ps.append(order_prog(f"xy:order({n1})({n2})", two, t, m))
    ps.append(nest_prog("xy:nest", two, two))
    ps.append(nest_prog("xyz:nest", three, three))
    four = base("wxyz", [[1, 2], [0, 2], [2, 3], [1, 2]])
    for f in itertools.permutations("wxyz", 2):
        ps.append(nest_prog(f"wxyz:nest:{''.join(f)}", four, four, f))
    for bn, b in (("x", one), ("xy", two)):
        for n, t in few(b):
            if 1 <= len(t.dims) <= (3 if T else 2):
                ps.append(nest_prog(f"{bn}:nest:{n}", b, t))
    for n, t in few(two):
        if n.startswith(("blocks(", "strip")):
            ps.append(nest_prog(f"xy:nest:{n}", two, t))
    for b in (two, three):
        ps += list(inner_progs(b))
    # incomplete blocks as an order
    for b in (one, two):
        for n, t, pr, ta in ops_partial(b):
            ps.append(order_prog(f"order:{n}:{len(b.dims)}", b, t))
    seen = {}
    ps = [seen.setdefault(p.id, p) for p in ps if p.id not in seen]
    chk.explore(ps, header=("trav.hpp",), per_tu=45)
