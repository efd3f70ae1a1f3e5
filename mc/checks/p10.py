"""Ranges and iterators."""
from ..gen import *
from .p07 import reduced
from .p08 import split


def rprog(name, b, t, d, top=False, hist=0):
    o = split(b, t) if t.cpp != b.cpp else ""
    nat = "".join(t.dims)
    nest = d + "".join(x for x in t.dims if x != d)
    body = f"\tauto s = {b.cpp};\n\tauto t = noarr::traverser(s){'.order(' + o + ')' if o else ''};\n"
    if hist:
        body += f"\titr::histories(s, t.range{'' if top else '<' + repr(d) + '>'}(), pr, '{d}', \"{nest}\", {hist});"
    else:
        body += f"\titr::range(s, t.range{'' if top else '<' + repr(d) + '>'}(), pr, '{d}', \"{nest}\", \"{nat}\");\n"
        if top:
            body += f"\tstd::vector<ref::u64> got;\n\tfor (auto e : t) trav::collect(s, e, got);\n\ttrav::same(pr, got, itr::part(pr, \"{nat}\", '{d}', 0, pr.r->len['{d}']), \"range-based for over the traverser\");\n"
            body += f"\tpr.eq(t.end() - t.begin(), pr.r->len['{d}'], \"traverser end - begin\");"
    return Prog(name, t.ref, fit(t.doms, 150), body, cost=6, mid=mid(t, 0 if hist else 1500))


def inner(b):
    """ranges of a section"""
    for d in b.dims:
        for e in b.dims:
            if d == e:
                continue
            rest = "".join(x for x in b.dims if x not in (d, e))
            body = f"\tauto s = {b.cpp};\n\tstd::vector<ref::u64> got;\n\tnoarr::traverser(s).for_dims<'{d}'>([&](auto inner) {{ for (auto x : inner.template range<'{e}'>()) trav::collect(s, x, got); }});\n\ttrav::same(pr, got, trav::expect(pr, \"{d}{e}{rest}\"), \"range inside a section\");"
            yield Prog(f"inner:{d}{e}:{len(b.dims)}", b.ref, b.doms, body, cost=3)
            body = f"\tauto s = {b.cpp};\n\tstd::vector<ref::u64> got;\n\tfor (auto x : noarr::traverser(s).range<'{d}'>()) for (auto y : x.template range<'{e}'>()) trav::collect(s, y, got);\n\ttrav::same(pr, got, trav::expect(pr, \"{d}{e}{rest}\"), \"nested ranges\");"
            yield Prog(f"nested:{d}{e}:{len(b.dims)}", b.ref, b.doms, body, cost=3)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[0, 1, 2, 3, 4, 6] if T else [0, 1, 2, 3, 4]])
    two = base("xy", [[0, 1, 2, 3, 4], [1, 2, 3]])
    three = base("xyz", [[1, 2, 3], [1, 2], [0, 1, 2]])
    for bn, b in (("x", one), ("xy", two), ("xyz", three)):
        ps.append(rprog(f"{bn}:top", b, b, b.dims[0], True))
        for d in b.dims:
            ps.append(rprog(f"{bn}:{d}", b, b, d))
            ps.append(rprog(f"{bn}:{d}:hist", b, b, d, False, (5 if T else 4) if bn == "x" else 3))
    for bn, b in (("x", one), ("xy", two)) + ((("xyz", three),) if T else ()):
        for n, t in reduced(b):
            if not t.dims or n.startswith("vector"):
                continue
            ps.append(rprog(f"{bn}:{n}:top", b, t, t.dims[0], True))
            for d in t.dims[1:]:
                if T or bn == "x" or n.startswith(("step", "reverse", "blocks", "merge", "slice", "hoist")):
                    ps.append(rprog(f"{bn}:{n}:{d}", b, t, d))
    WL = [3, 40000, 70000, 4294967297, 8589934595]
    for nm, e, el in (("char", "noarr::scalar<char>() ^ noarr::vector<'x'>(p[0])", 1), ("long", "noarr::scalar<long>() ^ noarr::vector<'x'>(p[0])", 8),
                      ("one", "noarr::scalar<char>() ^ noarr::vector<'y'>(noarr::lit<1>) ^ noarr::vector<'x'>(p[0])", 1)):
        ps.append(Prog(f"wide:{nm}", "", [WL], f"\tauto s = {e};\n\titr::wide<'x'>(s, noarr::traverser(s).range<'x'>(), pr, p[0], {el}, \"range\");\n\titr::wide<'x'>(s, noarr::traverser(s).range(), pr, p[0], {el}, \"top range\");\n\titr::wide<'x'>(s, noarr::traverser(s), pr, p[0], {el}, \"traverser\");", cost=6))
    ps += list(inner(two)) + list(inner(three))
    chk.explore(ps, header=("iter.hpp",), per_tu=48, opt="-O0")
