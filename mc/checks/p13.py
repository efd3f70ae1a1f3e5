"""Planner: executes exactly the elements and sections that nested loops in the planned order would."""
from ..gen import *
from ..core import Prog
from .p09 import lay, off, P
import itertools


def mk(name, shapes, natural, order=None, loops=None, sections=(), mode="elem_state", via="method", exec_=".execute()", doms=None, sect_late=True):
    """natural: the loop nest the union has without order; loops: with order"""
    dims = sorted(set("".join(shapes)))
    loops = loops or natural
    n = len(shapes)
    b = "".join(f"\tauto s{i} = {lay(s)};\n\tstd::vector<int> m{i}((s{i} | noarr::get_size()) / 4 + 1);\n\tauto b{i} = noarr::make_bag(s{i}, (void *)m{i}.data());\n" for i, s in enumerate(shapes))
    b += "\tstd::vector<plan::row> got;\n\tbool addr = true;\n"
    b += "\tauto at = [&](auto st) { return plan::row{0" + "".join(f", ref::u64(noarr::get_index<'{d}'>(st))" for d in dims) + "}; };\n"
    elems = "".join(f", int &e{i}" for i in range(n))
    bind = "".join(f"\t\t[[maybe_unused]] ref::u64 i{d} = noarr::get_index<'{d}'>(st);\n" for d in dims)
    chk = "".join(f"\t\taddr = addr && ref::u64((char *)&e{i} - (char *)m{i}.data()) == {off(s)};\n" for i, s in enumerate(shapes))
    chkst = "".join(f"\t\taddr = addr && ref::u64((char *)&b{i}[st] - (char *)m{i}.data()) == {off(s)};\n" for i, s in enumerate(shapes))
    if mode == "elem_state":
        body, fn = f"[&](auto st{elems}) {{\n{bind}{chk}\t\tgot.push_back(at(st));\n\t}}", "for_each_elem"
    elif mode == "elem":
        # no state: the indices are recovered from the element addresses (the shapes must cover all dimensions)
        rec = ""
        for i, s in enumerate(shapes):
            rec += f"\t\t{{ ref::u64 o = ref::u64((char *)&e{i} - (char *)m{i}.data()) / 4;\n"
            for d in s[::-1]:
                rec += f"\t\t  {{ ref::u64 v = o % p[{P[d]}]; o /= p[{P[d]}]; if (i{d} == 99) i{d} = v; addr = addr && i{d} == v; }}\n"
            rec += "\t\t  addr = addr && o == 0; }\n"
        body, fn = f"[&]({elems[2:]}) {{\n" + "".join(f"\t\tref::u64 i{d} = 99;\n" for d in dims) + rec + "\t\tgot.push_back({0" + "".join(f", i{d}" for d in dims) + "});\n\t}", "for_each_elem"
    else:
        body, fn = f"[&](auto st) {{\n{bind}{chkst}\t\tgot.push_back(at(st));\n\t}}", "for_each"
    b += f"\tauto body = {body};\n"
    pl = "noarr::planner(" + ", ".join(f"b{i}" for i in range(n)) + ")"
    pl += f".{fn}(body)" if via == "method" else f" ^ noarr::{fn}(body)"
    for k, s in enumerate(sections):
        f = (f"[&](auto inner) {{ auto st = inner.state(); got.push_back({{{1000 + k}" + "".join(f", plan::maybe<'{d}'>(st)" for d in dims) + "}); inner" + ("()" if k % 2 == 0 else ".execute()") + "; }")
        pl += f".template for_sections<{q(s)}>({f})" if via == "method" else f" ^ noarr::for_sections<{q(s)}>({f})"
    if order:
        pl = f"({pl}) ^ {order}" if via != "method" else pl + f".order({order})"
    b += f"\tauto pl = {pl};\n\t{'pl | noarr::planner_execute()' if exec_ == '|' else 'pl' + exec_};\n"
    sec = ", ".join(f'"{"".join(s)}"' for s in sections)
    b += f"\tplan::Loops L{{\"{loops}\", \"{''.join(dims)}\", {{{', '.join(f'{{{chr(39)}{d}{chr(39)}, p[{P[d]}]}}' for d in dims)}}}, {{{sec}}}}};\n\tL.run();\n"
    b += f"\tplan::compare(pr, got, L.ev, \"{fn}\");\n\tpr.ok(addr, \"the references passed to the body are the elements at the visited indices\");"
    d = doms or [[0, 1, 2, 3], [1, 2, 3], [1, 2]]
    return Prog(name, "", [d[i] if "xyz"[i] in dims else [1] for i in range(3)], b, cost=2)


def union_order(shapes):
    """documented nesting of a union: the later structure's own dimensions go outside of the shared ones"""
    o = shapes[0]
    for s in shapes[1:]:
        o = "".join(d for d in s if d not in o) + o
    return o


def tuples():
    out = []
    pre = "\tstd::vector<plan::row> got, want;\n\tauto s = noarr::pack(noarr::scalar<int>() ^ noarr::vector<'y'>(p[1]), noarr::scalar<int>()) ^ noarr::tuple<'t'>() ^ noarr::vector<'x'>(p[0]);\n\tstd::vector<int> m((s | noarr::get_size()) / 4 + 1);\n\tauto b = noarr::make_bag(s, (void *)m.data());\n"
    want = "\tfor (ref::u64 x = 0; x < p[0]; x++) { %s for (ref::u64 y = 0; y < p[1]; y++) want.push_back({x, 0, y, x * (p[1] + 1) + y}); want.push_back({x, 1, 0, x * (p[1] + 1) + p[1]}); }\n\tplan::compare(pr, got, want, \"planner over a tuple\");"
    rec = "got.push_back({noarr::get_index<'x'>(st), noarr::get_index<'t'>(st), plan::maybe<'y'>(st), ref::u64(&e - m.data())}); if (got.back()[2] == 99) got.back()[2] = 0;"
    out.append(Prog("tuple:elem", "", [[0, 1, 2, 3], [0, 1, 2]], pre + f"\tnoarr::planner(b).for_each_elem([&](auto st, auto &e) {{ {rec} }}).execute();\n" + want % ""))
    out.append(Prog("tuple:each", "", [[0, 1, 2, 3], [0, 1, 2]], pre + f"\tnoarr::planner(b).for_each([&](auto st) {{ auto &e = b[st]; {rec} }}).execute();\n" + want % ""))
    out.append(Prog("tuple:sect", "", [[0, 1, 2, 3], [0, 1, 2]], pre + f"\tnoarr::planner(b).for_each_elem([&](auto st, auto &e) {{ {rec} }}).template for_sections<'x'>([&](auto in) {{ got.push_back({{noarr::get_index<'x'>(in)}}); in(); }}).execute();\n" + want % "want.push_back({x});"))
    return out


def iters(T):
    """begin/end/range of a planner: one inner planner per top index"""
    out = []
    for sh in ("x", "xy", "yx", "xyz"):
        dims = sorted(sh)
        rest = sh[1:]
        pre = f"\tauto s = {lay(sh)};\n\tstd::vector<int> m((s | noarr::get_size()) / 4 + 1);\n\tauto b = noarr::make_bag(s, (void *)m.data());\n\tstd::vector<plan::row> got, want;\n"
        pre += "\tauto f = [&](auto st) { got.push_back({0" + "".join(f", ref::u64(noarr::get_index<'{d}'>(st))" for d in dims) + "}); };\n\tauto pl = noarr::planner(b).for_each(f);\n\tconst ref::u64 L = p[" + str(P[sh[0]]) + "];\n"
        ref = "\tauto loops = [&](ref::u64 lo, ref::u64 hi) { " + f"for (ref::u64 i{sh[0]} = lo; i{sh[0]} < hi; i{sh[0]}++) " + "".join(f"for (ref::u64 i{d} = 0; i{d} < p[{P[d]}]; i{d}++) " for d in rest) + "want.push_back({0" + "".join(f", i{d}" for d in dims) + "}); };\n"
        fin = "\tplan::compare(pr, got, want, \"planner iteration\");"
        v = {"rangefor": "\tfor (auto in : pl) in();\n\tloops(0, L);\n",
             "index": "\tauto r = range(pl);\n\tpr.eq(r.size(), L, \"range size\");\n\tpr.ok(r.empty() == (L == 0), \"empty\");\n\tpr.ok(r.is_divisible() == (L > 1), \"divisible\");\n\tfor (ref::u64 i = 0; i < r.size(); i++) r[i]();\n\tloops(0, L);\n",
             "whole": "\trange(pl).as_planner().execute();\n\tloops(0, L);\n",
             "sub": "\tfor (ref::u64 a = 0; a <= L; a++) for (ref::u64 c = a; c <= L; c++) {\n\t\tauto r = range(pl);\n\t\tif (!plan::narrow(r, a, c)) continue;\n\t\tr.as_planner().execute();\n\t\tloops(a, c);\n\t\tpr.eq(r.size(), c - a, \"sub-range size\");\n\t\tfor (auto in : r) in();\n\t\tloops(a, c);\n\t\tfor (ref::u64 i = 0; i < r.size(); i++) r[i].execute();\n\t\tloops(a, c);\n\t}\n",
             "subord": "\tfor (ref::u64 a = 0; a <= L; a++) for (ref::u64 c = a; c <= L; c++) {\n\t\tauto r = range(pl);\n\t\tif (!plan::narrow(r, a, c)) continue;\n\t\tr.order(noarr::reverse<'" + sh[0] + "'>()).execute();\n\t\tfor (ref::u64 i = c; i-- > a;) loops(i, i + 1);\n\t}\n",
             "arith": "\tauto bg = begin(pl), en = end(pl);\n\tpr.eq(en - bg, L, \"distance\");\n\tfor (ref::u64 a = 0; a <= L; a++) for (ref::u64 c = 0; c <= L; c++) {\n\t\tauto i = bg + a, j = c + bg;\n\t\tpr.ok(j - i == std::ptrdiff_t(c) - std::ptrdiff_t(a), \"difference\");\n\t\tpr.ok((i == j) == (a == c) && (i != j) == (a != c) && (i < j) == (a < c) && (i <= j) == (a <= c) && (i > j) == (a > c) && (i >= j) == (a >= c), \"comparison\");\n"
                      "\t\tauto k = i;\n\t\tk += std::ptrdiff_t(c) - std::ptrdiff_t(a);\n\t\tpr.ok(k == j, \"advance\");\n\t\tk -= std::ptrdiff_t(c) - std::ptrdiff_t(a);\n\t\tpr.ok(k == i && en - (L - a) == i, \"retreat\");\n"
                      "\t\tif (a < L) { auto o = k++; pr.ok(o == i && k == i + 1, \"post-increment\"); pr.ok(--k == i, \"pre-decrement\"); pr.ok(++k == i + 1, \"pre-increment\"); o = k--; pr.ok(o == i + 1 && k == i, \"post-decrement\"); (*i)(); i[0](); loops(a, a + 1); loops(a, a + 1); }\n\t\tif (c < L) { i[std::ptrdiff_t(c) - std::ptrdiff_t(a)](); loops(c, c + 1); }\n\t}\n"}
        for n, code in v.items():
            if n == "arith":
                pre2 = pre.replace("noarr::planner(b).for_each(f)", "noarr::planner(b).for_each(std::function<void(const decltype(noarr::idx<" + q(sh) + ">(" + ", ".join("std::size_t()" for _ in sh) + ")) &)>())") if False else pre
                code = code.replace("auto o = k++;", "auto o = k++;").replace("o = k--; pr.ok(o ==", "auto o2 = k--; pr.ok(o2 ==")
                out.append(Prog(f"iter:{sh}:{n}", "", [[0, 1, 2, 3] if "xyz"[i] in dims else [1] for i in range(3)], pre2 + ref + code + fin, cost=2))
            else:
                out.append(Prog(f"iter:{sh}:{n}", "", [[0, 1, 2, 3] if "xyz"[i] in dims else [1] for i in range(3)], pre + ref + code + fin, cost=2))
    return out


def wide_iters():
    """positions far beyond 32 bits"""
    W = [3, 40000, 70000, 4294967297, 8589934595]
    pre = ("\tauto s = noarr::scalar<char>() ^ noarr::vector<'x'>(p[0]);\n\tauto b = noarr::make_bag(s, (void *)nullptr);\n\tstd::vector<ref::u64> got;\n\tauto pl = noarr::planner(b).for_each([&](auto st) { got.push_back(s | noarr::offset(st)); });\n"
           "\ttypedef std::ptrdiff_t P;\n\tconst ref::u64 n = p[0];\n\tstd::vector<ref::u64> w;\n\tfor (ref::u64 x : {ref::u64(0), ref::u64(1), ref::u64(255), ref::u64(256), ref::u64(32767), ref::u64(32768), ref::u64(65535), ref::u64(65536), (ref::u64(1) << 31) - 1, ref::u64(1) << 31, (ref::u64(1) << 32) - 1, ref::u64(1) << 32, n / 2, n - 1, n}) if (x <= n) w.push_back(x);\n"
           "\tauto bg = begin(pl), en = end(pl);\n\tauto r = range(pl);\n\tpr.eq(en - bg, n, \"distance\");\n\tpr.eq(r.size(), n, \"range size\");\n\tpr.eq(r.end() - r.begin(), n, \"range distance\");\n")
    code = ("\tfor (ref::u64 i : w) {\n\t\tpr.state();\n\t\tauto it = bg + P(i);\n\t\tpr.eq(it - bg, i, \"(begin + i) - begin\");\n\t\tpr.ok(en - P(n - i) == it && P(i) + bg == it && r.begin() + P(i) == it, \"end - (n - i), i + begin, range begin + i\");\n"
            "\t\tif (i < n) { got.clear(); (*it)(); bg[P(i)](); r[i](); pr.ok(got == std::vector<ref::u64>(3, i), \"the planner at a position executes that position\", std::to_string(i)); auto k = it; ++k; pr.eq(k - bg, i + 1, \"++it\"); }\n"
            "\t\tfor (ref::u64 j : w) {\n\t\t\tauto jt = bg;\n\t\t\tjt += P(j);\n\t\t\tpr.ok(jt - it == P(j) - P(i) && (it == jt) == (i == j) && (it < jt) == (i < j) && (it > jt) == (i > j), \"relations\", std::to_string(i) + \",\" + std::to_string(j));\n"
            "\t\t\tjt -= P(j) - P(i);\n\t\t\tpr.ok(jt == it, \"it -= n\");\n\t\t\tauto q = r;\n\t\t\tif (i < j && plan::narrow(q, i, j)) {\n\t\t\t\tpr.ok(q.size() == j - i && q.is_divisible() == (j - i > 1) && !q.empty(), \"sub-range\", std::to_string(i) + \"..\" + std::to_string(j));\n\t\t\t\tgot.clear(); q[0](); (*q.begin())(); pr.ok(got == std::vector<ref::u64>(2, i), \"first of a sub-range\");\n"
            "\t\t\t\tif (j - i < 40) { got.clear(); q.as_planner()(); pr.ok(got.size() == j - i && got.front() == i && got.back() == j - 1, \"execution of a sub-range\"); }\n\t\t\t}\n\t\t}\n\t}")
    return [Prog("iter:wide", "", [W], pre + code, cost=4)]


def orders(T):
    """any order applied to a planner: the same sequence as the traverser under the same order"""
    out = []
    bases = [("x", base("x", [[0, 1, 2, 3, 4, 6]])), ("xy", base("xy", [[0, 1, 2, 4], [1, 2, 3]]))]
    for bn, b in bases:
        todo = list(chains(b, [ops_all]))
        if T or bn == "x":
            todo += [(n, s) for n, s in chains(b, [ops_all, ops_all]) if not n.split("^")[0].startswith(("slice1", "span1", "autostep", "fix2", "shift2", "reverse2", "hoist2"))][::1 if T else 5]
        for n, s in todo:
            o = s.cpp[len(b.cpp) + 3:]
            if not s.dims or "bcast" in n or "vector" in n:  # loops over dimensions no structure has are not planned
                continue
            wide = (f"\tif (pr.wide) {{\n\t\tif (probe::wide_empty(pr)) return;\n\t\tauto s = {b.cpp};\n\t\tauto b = noarr::make_bag(s, (void *)nullptr);\n"
                    f"\t\tprobe::same_prefix(pr, probe::first_visits([&](auto visit) {{ noarr::planner(b).for_each([&](auto st) {{ visit(s | noarr::offset(st)); }}).order({o}).execute(); }}), probe::wide_prefix(pr, \"{''.join(s.dims)}\", {len(s.dims)}), \"planner\");\n\t\treturn;\n\t}}\n")
            body = wide + (f"\tauto s = {b.cpp};\n\tstd::vector<int> m((s | noarr::get_size()) / 4 + 1);\n\tauto b = noarr::make_bag(s, (void *)m.data());\n\tstd::vector<plan::row> got, want;\n"
                    f"\tnoarr::traverser(b).order({o}).for_each([&](auto st) {{ want.push_back({{{', '.join(f'noarr::get_index<{chr(39)}{d}{chr(39)}>(st)' for d in b.dims)}}}); }});\n"
                    f"\tnoarr::planner(b).for_each_elem([&](auto st, int &e) {{ got.push_back({{{', '.join(f'noarr::get_index<{chr(39)}{d}{chr(39)}>(st)' for d in b.dims)}}}); if (&e != &b[st]) got.push_back({{99}}); }}).order({o}).execute();\n"
                    "\tplan::compare(pr, got, want, \"planner under an order\");")
            out.append(Prog(f"order:{bn}:{n}", s.ref, fit(s.doms, 400), body, fitw(s.wide, 40) if s.wide is not None else None, cost=2, mid=mid(s, 10000)))
    for dims, o in (("x", "xy"), ("y", "yx"), ("yx", None), ("xy", None)):
        if o:
            out.append(Prog(f"for_dims:{dims}", "", [[0, 1, 2, 3], [0, 1, 2]], "\tauto s = noarr::scalar<int>() ^ noarr::vector<'y'>(p[1]) ^ noarr::vector<'x'>(p[0]);\n\tstd::vector<int> m((s | noarr::get_size()) / 4 + 1);\n\tauto b = noarr::make_bag(s, (void *)m.data());\n\tstd::vector<plan::row> got, want;\n"
                f"\tnoarr::planner(b) ^ noarr::for_dims<{q(dims)}>([&](auto in) {{ got.push_back({{noarr::get_index<'{dims}'>(in)}}); in ^ noarr::for_each_elem([&](auto st, int &e) {{ got.push_back({{noarr::get_index<'x'>(st), noarr::get_index<'y'>(st), ref::u64(&e - m.data())}}); }}) | noarr::planner_execute(); }}) | noarr::planner_execute();\n"
                f"\tfor (ref::u64 a = 0; a < p[{'xy'.index(o[0])}]; a++) {{ want.push_back({{a}}); for (ref::u64 c = 0; c < p[{'xy'.index(o[1])}]; c++) want.push_back({{{'a, c, a * p[1] + c' if o == 'xy' else 'c, a, c * p[1] + a'}}}); }}\n\tplan::compare(pr, got, want, \"for_dims\");"))
    return out


def run(chk, tier):
    T = tier == "thorough"
    ps = tuples() + iters(T) + wide_iters()
    sets = [("x",), ("xy",), ("yx",), ("xy", "yx"), ("xy", "y"), ("y", "xy"), ("xyz",), ("xy", "yz"), ("zx", "xy", "zy"), ("xy", "yz", "xz"), ("x", "y", "z"), ("zyx", "y")]
    if T:
        SH = [c for k in (1, 2, 3) for c in map("".join, itertools.permutations("xyz", k))]
        sets += [c for c in itertools.product(SH, SH) if c not in sets]
    for t in sets:
        nat = union_order(t)
        nm = ",".join(t)
        for mode in ("elem_state", "elem", "each"):
            for via, ex in (("method", ".execute()"), ("op", "|"), ("method", "()")):
                if via == "op" and mode == "each" and not T: pass
                ps.append(mk(f"{nm}:{mode}:{via}{ex}", list(t), nat, mode=mode, via=via, exec_=ex))
        for perm in itertools.permutations(nat):
            o = "".join(perm)
            ps.append(mk(f"{nm}:reorder({o})", list(t), nat, order=f"noarr::reorder<{q(o)}>()", loops=o, mode="elem_state", via="op" if o[0] == "x" else "method", exec_="|"))
            # sections at every level but the last
            for k in range(1, len(o)):
                ps.append(mk(f"{nm}:reorder({o}):sect({o[:k]})", list(t), nat, order=f"noarr::reorder<{q(o)}>()", loops=o, sections=[o[:k][::-1]]))
                if k == 1 and len(o) == 3:
                    ps.append(mk(f"{nm}:reorder({o}):sect({o[:1]}),sect({o[:2]})", list(t), nat, order=f"noarr::reorder<{q(o)}>()", loops=o, sections=[o[1::-1], o[:1]], via="op"))
                    ps.append(mk(f"{nm}:reorder({o}):sect({o[1]})", list(t), nat, order=f"noarr::reorder<{q(o)}>()", loops=o, sections=[o[1]]))
        for d in nat:
            ps.append(mk(f"{nm}:hoist({d})", list(t), nat, order=f"noarr::hoist<'{d}'>()", loops=d + nat.replace(d, ""), mode="each", exec_="|"))
    ps += orders(T)
    seen = {}
    ps = [seen.setdefault(p.id, p) for p in ps if p.id not in seen]
    chk.explore(automid(ps), header=("plan.hpp",), per_tu=30)
