"""Views of structures with tuple dimensions: compile-time views of the tuple dimension, run-time views of the others.
The expected field, index and visiting order are computed here; the base tuple itself is decided by P01."""
from .core import Prog

TY = ["char", "int", "short", "double"]


class T:
    """cols: original field per tuple index (None: fixed to `one`); dims: nesting order; others: name -> (length, original index) as C++"""
    def __init__(self, kind, cpp, t, cols, order, oth, fixed=None):
        self.kind, self.cpp, self.t, self.cols, self.order, self.oth, self.fixed = kind, cpp, t, cols, order, oth, fixed

    def ext(self, cpp, **kw):
        d = dict(kind=self.kind, cpp=self.cpp + " ^ " + cpp, t=self.t, cols=self.cols, order=list(self.order), oth=dict(self.oth), fixed=self.fixed)
        d.update(kw)
        return T(**d)


def bases():
    sc = [f"noarr::scalar<{t}>()" for t in TY]
    yield "A", T("A", f"noarr::pack({', '.join(sc)}) ^ noarr::tuple<'t'>()", "t", [0, 1, 2, 3], ["t"], {}), []
    yield "B", T("B", f"noarr::pack({', '.join(sc)}) ^ noarr::tuple<'t'>() ^ noarr::vector<'v'>(p[0])", "t", [0, 1, 2, 3], ["v", "t"], {"v": ("p[0]", "i")}), [[0, 1, 2, 3]]
    fs = ", ".join(f"{s} ^ noarr::vector<'x'>(p[{k}])" for k, s in enumerate(sc))
    yield "C", T("C", f"noarr::pack({fs}) ^ noarr::tuple<'t'>()", "t", [0, 1, 2, 3], ["t", "x"], {"x": ("p[F]", "i")}), [[1, 2], [2, 3], [1, 3], [1, 2]]
    yield "D", T("D", f"noarr::pack({', '.join(sc)}) ^ noarr::tuple<'t'>() ^ noarr::vector<'v'>(p[0]) ^ noarr::vector<'w'>(p[1])", "t", [0, 1, 2, 3], ["w", "v", "t"], {"w": ("p[1]", "i"), "v": ("p[0]", "i")}), [[1, 2], [0, 1, 2]]


def ops(s):
    t, c = s.t, s.cols
    L = lambda k: f"noarr::lit<{k}>"
    if s.fixed is None:
        n = len(c)
        for k in sorted({0, 1, 2, n - 1}):
            if k < n:
                yield f"shift{k}", s.ext(f"noarr::shift<'{t}'>({L(k)})", cols=c[k:])
        for a, l in ((0, 2), (1, 2), (2, 2), (1, 1), (3, 1), (0, n), (1, 3)):
            if a + l <= n and l:
                yield f"slice{a},{l}", s.ext(f"noarr::slice<'{t}'>({L(a)}, {L(l)})", cols=c[a:a + l])
        for l in (1, 2, 3):
            if l <= n:
                yield f"slice1,{l}", s.ext(f"noarr::slice<'{t}'>({L(l)})", cols=c[:l])
                yield f"span1,{l}", s.ext(f"noarr::span<'{t}'>({L(l)})", cols=c[:l])
        for a, e in ((0, 2), (1, 3), (2, 4), (1, 2), (0, n), (2, 3)):
            if a < e <= n:
                yield f"span{a},{e}", s.ext(f"noarr::span<'{t}'>({L(a)}, {L(e)})", cols=c[a:e])
        for a, k in ((0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)):
            if c[a::k]:
                yield f"step{a},{k}", s.ext(f"noarr::step<'{t}'>({L(a)}, {L(k)})", cols=c[a::k])
        yield "reverse", s.ext(f"noarr::reverse<'{t}'>()", cols=c[::-1])
        u = "u" if t != "u" else "s"
        ren = lambda new: [new if d == t else d for d in s.order]
        yield "rename", s.ext(f"noarr::rename<'{t}', '{u}'>()", t=u, order=ren(u))
        for k in range(n):
            yield f"fix{k}", s.ext(f"noarr::fix<'{t}'>({L(k)})", fixed=c[k], order=[d for d in s.order if d != t])
        if s.order[0] != t and "x" not in s.order:
            for d in s.oth:
                sw = {t: d, d: t}
                yield f"swap{d}", s.ext(f"noarr::rename<'{t}', '{d}', '{d}', '{t}'>()", t=d, order=[sw.get(x, x) for x in s.order], oth={sw.get(x, x): v for x, v in s.oth.items()})
        if len(s.order) > 1 and s.order[-1] == t:  # dimensions nested in the tuple cannot be extracted (statically rejected)
            r = s.order[::-1]
            yield "reorder", s.ext("noarr::reorder<" + ", ".join(f"'{d}'" for d in r) + ">()", order=r)
        yield "bcast", s.ext("noarr::bcast<'q'>(noarr::lit<2>)", order=["q"] + s.order, oth=dict(s.oth, q=("2", "i"))) if "q" not in s.oth else s
    for d, (ln, orig) in s.oth.items():
        if d in ("q", "z"):
            continue
        f = lambda l, o: dict(s.oth, **{d: (l, o)})
        put = lambda e: orig.replace("i", f"({e})")
        yield f"rev({d})", s.ext(f"noarr::reverse<'{d}'>()", oth=f(ln, put(f"{ln} - 1 - i")))
        yield f"shift({d})", s.ext(f"noarr::shift<'{d}'>(noarr::lit<1>)", oth=f(f"({ln} - 1)", put("i + 1")))
        yield f"step({d})", s.ext(f"noarr::step<'{d}'>(0, 2)", oth=f(f"(({ln} + 1) / 2)", put("i * 2")))
        yield f"slice({d})", s.ext(f"noarr::slice<'{d}'>(0, 1)", oth=f("ref::u64(1)", orig))
        if s.kind != "C" or s.fixed is not None:
            if s.order[0] != d and (s.fixed is not None or s.order.index(d) < s.order.index(t)):
                yield f"hoist({d})", s.ext(f"noarr::hoist<'{d}'>()", order=[d] + [x for x in s.order if x != d])
        nd = d.upper()
        yield f"ren({d})", s.ext(f"noarr::rename<'{d}', '{nd}'>()", order=[nd if x == d else x for x in s.order], oth={(nd if x == d else x): v for x, v in s.oth.items()})


def chains(s, depth, name=""):
    if depth == 0:
        yield name, s
        return
    seen = set()
    for n, u in ops(s):
        if u is s or u.cpp in seen:
            continue
        seen.add(u.cpp)
        yield from chains(u, depth - 1, name + ("^" if name else "") + n)


def prog(bn, base, name, s, doms):
    """every element through its own index, and the visited sequence"""
    pre = [x for x in ("shift(", "slice(") if x in name]
    b = f"\tauto base = {base.cpp};\n\tauto s = {s.cpp};\n"
    minlen = 1 if pre else 0
    if minlen:
        b = f"\tif ({' || '.join(f'p[{k}] < {1 + name.count(pre[0])}' for k in range(len(doms))) or 'false'}) return;\n" + b
    b += "\tpr.eq(s | noarr::get_size(), base | noarr::get_size(), \"size\");\n\tstd::vector<std::vector<ref::u64>> want, got;\n\tstd::vector<ref::u64> woff, goff;\n"
    fixed = s.fixed is not None
    cols = [s.fixed] if fixed else s.cols
    if not fixed:
        pre_ix = [d for d in s.order[:s.order.index(s.t)]]
        b += f"\tpr.eq(s | noarr::get_length<'{s.t}'>(), {len(cols)}, \"length of the tuple dimension\");\n" if True else ""
    onames = {v: k for k, v in zip(base.oth, base.oth)}
    # other dims in the order of base.oth and s.oth (same insertion order; new ones last)
    sd = list(s.oth)
    order = s.order
    # loops in nesting order; the tuple loop is a run-time loop that dispatches on the index
    loops, closes = "", ""
    for d in order:
        if not fixed and d == s.t:
            loops += f"for (ref::u64 tt = 0; tt < {len(cols)}; tt++) "
        else:
            ln = s.oth[d][0]
            ln = ln.replace("p[F]", "p[fld]")
            pre_fld = ""
            loops += f"for (ref::u64 i{d} = 0; i{d} < {ln}; i{d}++) "
    b += f"\tconst ref::u64 cols[] = {{{', '.join(map(str, cols))}}};\n"
    # emit
    stmt = "{ want.push_back({" + ", ".join(("tt" if not fixed and d == s.t else f"i{d}") for d in order) + "});\n"
    for j, f in enumerate(cols):
        cond = f"if ({'true' if fixed else f'tt == {j}'}) "
        bix = f"noarr::idx<'t'>(noarr::lit<{f}>)"
        bo = list(base.oth)
        for d, bd in zip(sd, bo):
            e = s.oth[d][1].replace("p[F]", f"p[{f}]")
            import re
            e = re.sub(r"\bi\b", f"i{d}", e)
            bix += f" & noarr::idx<'{bd}'>({e})"
        six = "noarr::empty_state" if fixed else f"noarr::idx<'{s.t}'>(noarr::lit<{j}>)"
        for d in sd:
            six += f" & noarr::idx<'{d}'>(i{d})"
        stmt += f"\t\t{cond}{{ auto w = base | noarr::offset({bix}); woff.push_back(w); pr.state(); pr.eq(s | noarr::offset({six}), w, \"offset of an element\"); pr.ok(std::is_same_v<noarr::scalar_t<decltype(s), decltype({six})>, {TY[f]}>, \"element type\");"
        if "x" in base.oth:
            xd = sd[0]
            stq = "noarr::empty_state" if fixed else f"noarr::idx<'{s.t}'>(noarr::lit<{j}>)"
            stmt += f" pr.eq(s | noarr::get_length<'{xd}'>({stq}), {s.oth[xd][0].replace('p[F]', f'p[{f}]')}, \"length inside a field\");"
        stmt += " }\n"
    stmt += "\t}"
    if "p[fld]" in loops:
        loops = loops.replace("tt++) ", "tt++) if (ref::u64 fld = cols[tt]; true) ") if not fixed else f"if (ref::u64 fld = {cols[0]}; true) " + loops
    b += f"\t{loops}{stmt}\n"
    b += "\tnoarr::traverser(s).for_each([&](auto st) { got.push_back({" + ", ".join(f"ref::u64(noarr::get_index<'{d}'>(st))" for d in order) + "}); goff.push_back(s | noarr::offset(st)); });\n"
    b += "\tpr.ok(got == want, \"visited sequence\");\n\tpr.ok(goff == woff, \"offsets of the visited elements\");\n"
    for d in s.oth:
        if s.kind != "C":
            b += f"\tpr.eq(s | noarr::get_length<'{d}'>(), {s.oth[d][0]}, \"length of {d}\");\n"
    return Prog(f"tuple{bn}:{name}", "", doms, b, cost=3)


def programs(thorough):
    for bn, base, doms in bases():
        depth = 2 if thorough or bn in "A" else 1
        for k in range(0, depth + 1):
            for n, s in chains(base, k):
                yield prog(bn, base, n, s, doms)
        if not thorough and bn != "A":
            for n, s in chains(base, 2):
                a = n.split("^")
                if all(not x.startswith(("slice1", "span1", "fix")) for x in a) and sum("(" in x or x in ("reorder", "bcast", "rename") or x.startswith("swap") for x in a) == 1:
                    yield prog(bn, base, n, s, doms)
