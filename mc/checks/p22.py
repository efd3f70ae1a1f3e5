"""Composition: how transformations are grouped, packed or interleaved with neutral ones never matters."""
from ..gen import *
from ..core import Prog


def split(cpp):
    """operands of the top-level ^"""
    out, depth, cur = [], 0, ""
    for t in cpp.split(" "):
        if t == "^" and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += t.count("(") - t.count(")") + t.count("{") - t.count("}")
        cur += " " + t
    return out + [cur.strip()]


def trees(e):
    """every binary bracketing of the sequence"""
    if len(e) == 1:
        yield e[0]
        return
    for k in range(1, len(e)):
        for a in trees(e[:k]):
            for b in trees(e[k:]):
                yield f"({a} ^ {b})"


def fold(e, n):
    """e[0] ^ ... with all but the last n operands applied one by one"""
    return [f"({' ^ '.join(e[:-n])})"] + e[-n:] if n < len(e) - 1 else e


def grouped(name, s, n, cap):
    e = split(s.cpp)
    body = f"\tauto s = {s.cpp};\n\tusing S = decltype(s);\n\tauto one = [&](const auto &t, const char *how) {{\n\t\tif constexpr (!std::is_same_v<std::remove_cvref_t<decltype(t)>, S>) pr.fail(std::string(\"another structure type when grouped as \") + how);\n\t\telse {{ int f = pr.fails; probe::basic<{q(s.dims)}>(t, pr); if (pr.fails > f) pr.fail(std::string(\"in the grouping \") + how); }}\n\t}};\n"
    parts = fold(e, n)
    vs = []
    for k, t in enumerate(trees(parts)):
        body += f"\tone({t}, \"bracketing {k}\");\n"
    # neutral element at every position, and a run of transformations turned into one made from a function
    for i in range(1, len(e) + 1):
        body += f"\tone({' ^ '.join(e[:i] + ['noarr::neutral_proto()'] + e[i:])}, \"neutral at {i}\");\n"
    if len(e) > 1:
        body += f"\tone(({e[0]}) ^ (noarr::neutral_proto() ^ {' ^ '.join(e[1:])}), \"neutral first in a group\");\n"
        body += f"\tone(({e[0]}) ^ ({' ^ '.join(e[1:])} ^ noarr::neutral_proto()), \"neutral last in a group\");\n"
        for i in range(1, len(e)):
            a, b = " ^ ".join(e[:i]), " ^ ".join(e[i:])
            body += f"\tone(({a}) ^ noarr::make_proto([&](auto in) {{ return in ^ {b}; }}), \"function from {i}\");\n"
            body += f"\tone((noarr::pack({a}) ^ noarr::to_each({b if ' ^ ' not in b else '(' + b + ')'})).template get<0>(), \"to each of a pack from {i}\");\n" if len(e) - i == 1 else ""
            body += \
                f"\t{{ auto pk = ({a}) ^ noarr::pack({b}, noarr::neutral_proto(), noarr::neutral_proto() ^ {b});\n\t  one(pk.template get<0>(), \"first of a pack from {i}\");\n\t  pr.ok(std::is_same_v<std::remove_cvref_t<decltype(pk.template get<1>())>, std::remove_cvref_t<decltype({a})>>, \"the neutral member of a pack\");\n\t  one(pk.template get<2>(), \"last of a pack from {i}\"); }}\n"
    return Prog(f"group:{name}", s.ref, fit(s.doms, cap), body, cost=3, mid=mid(s, 5000))


def packed(name, s, cap):
    """two structures in a pack, transformed together, and joined into a tuple"""
    e = split(s.cpp)
    a, b = " ^ ".join(e[:-1]), e[-1]
    o = " ^ ".join(["noarr::scalar<short>()"] + e[1:-1])
    D, ix = q(s.dims), ", ".join(f"ix[{i}]" for i in range(len(s.dims)))
    body = (f"\tauto A = {a};\n\tauto B = {o};\n\tauto two = noarr::pack(A, B) ^ noarr::to_each({b});\n"
            f"\tauto tup = two ^ noarr::tuple<'*'>();\n\tauto many = noarr::pack(A, B) ^ noarr::pack(noarr::to_each({b}), noarr::to_each(noarr::neutral_proto()), noarr::tuple<'*'>());\n"
            f"\tauto first = two.template get<0>(), mfirst = many.template get<0>().template get<0>();\n\tauto second = two.template get<1>(), msecond = many.template get<0>().template get<1>();\n"
            f"\tpr.ok(std::is_same_v<decltype(first), decltype(A ^ {b})> && std::is_same_v<decltype(second), decltype(B ^ {b})>, \"types of the members\");\n"
            f"\tpr.ok(std::is_same_v<decltype(first), decltype(mfirst)> && std::is_same_v<decltype(second), decltype(msecond)>, \"types of the members of a pack of packs\");\n"
            f"\tpr.ok(std::is_same_v<std::remove_cvref_t<decltype(many.template get<1>().template get<0>())>, decltype(A)> && std::is_same_v<std::remove_cvref_t<decltype(many.template get<2>())>, decltype(noarr::pack(A, B) ^ noarr::tuple<'*'>())>, \"types of the other members\");\n"
            f"\tprobe::basic<{D}>(first, pr);\n\tprobe::basic<{D}>(mfirst, pr);\n"
            f"\tauto alone = noarr::pack(first);\n\tpr.size(alone | noarr::get_size());\n\tref::u64 nth = 0;\n\tnoarr::traverser(alone).for_each([&](auto st) {{ pr.ok((alone | noarr::offset(st)) == (first | noarr::offset(st)), \"a structure alone in a pack is that structure\"); nth++; }});\n\tpr.eq(nth, pr.r->rows.size(), \"elements of a structure alone in a pack\");\n"
            f"\tpr.eq(tup | noarr::get_size(), (pr.r->size / 2 * 3 + 3) / 4 * 4, \"size of the tuple\");\n"
            f"\tpr.eq(many.template get<2>() | noarr::get_size(), ((A | noarr::get_size()) / 2 * 3 + 3) / 4 * 4, \"size of the tuple of the untransformed\");\n"
            f"\tref::u64 ix[9];\n\tpr.begin(probe::dims<{D}>::names, {len(s.dims)});\n\twhile (pr.next(ix)) {{\n"
            f"\t\tauto st = noarr::idx<{D}>({ix});\n\t\tif (!pr.eq(second | noarr::offset(st), pr.want_off() / 2, \"offset in the second member\")) break;\n"
            f"\t\tif (!pr.eq(msecond | noarr::offset(st), pr.want_off() / 2, \"offset in the second member of a pack of packs\")) break;\n"
            f"\t\tif (!pr.off(tup | noarr::offset(st & noarr::idx<'*'>(noarr::lit<0>)), \"offset in the first field\")) break;\n"
            f"\t\tif (!pr.eq(tup | noarr::offset(noarr::idx<'*'>(noarr::lit<1>) & st), pr.r->size + pr.want_off() / 2, \"offset in the second field\")) break;\n\t}}\n")
    return Prog(f"pack:{name}", s.ref, fit(s.doms, cap), body, cost=2, mid=mid(s, 5000))


def ordered(name, b, e, ref, dims, doms):
    """orders applied to a traverser, one by one, grouped, or through order()"""
    body = f"\tauto s = {b};\n"
    D = q(dims)
    body += (f"\tauto one = [&](auto tr, const char *how) {{\n\t\tstd::vector<ref::u64> offs;\n\t\ttr.for_each([&](auto st) {{ offs.push_back(s | noarr::offset(st)); }});\n\t\tpr.state();\n"
             f"\t\tbool same = offs.size() == pr.r->rows.size();\n\t\tfor (size_t k = 0; same && k < offs.size(); k++) same = offs[k] == pr.r->rows[k].off;\n\t\tpr.ok(same, \"visited sequence\", how);\n\t}};\n")
    for k, t in enumerate(trees(["noarr::traverser(s)"] + e)):
        body += f"\tone({t}, \"bracketing {k}\");\n"
    body += "\tone(noarr::traverser(s)" + "".join(f".order({x})" for x in e) + ", \"order by order\");\n"
    body += f"\tone(noarr::traverser(s).order({' ^ '.join(e)}), \"order of the group\");\n"
    for i in range(len(e) + 1):
        body += "\tone(noarr::traverser(s) ^ " + " ^ ".join(e[:i] + ["noarr::neutral_proto()"] + e[i:]) + f", \"neutral at {i}\");\n"
    return Prog(f"order:{name}", ref, doms, body, cost=2)


def bags(name, s0, e, ref, dims, doms):
    """the same transformations applied to a bag"""
    D = q(dims)
    ix = ", ".join(f"ix[{i}]" for i in range(len(dims)))
    body = (f"\tauto s = {s0};\n\tstd::vector<char> buf(4096);\n\tauto bg = noarr::make_bag(s, buf.data());\n"
            f"\tauto one = [&](auto &&v, const char *how) {{\n\t\tref::u64 ix[9];\n\t\tpr.begin(probe::dims<{D}>::names, {len(dims)});\n\t\twhile (pr.next(ix)) if (!pr.off((char *)&v[noarr::idx<{D}>({ix})] - buf.data(), how)) break;\n\t}};\n")
    for k, t in enumerate(trees(["bg"] + e)):
        body += f"\tone({t}, \"bag, bracketing {k}\");\n"
    for i in range(len(e) + 1):
        body += "\tone(bg ^ " + " ^ ".join(e[:i] + ["noarr::neutral_proto()"] + e[i:]) + f", \"bag, neutral at {i}\");\n"
    return Prog(f"bag:{name}", ref, doms, body, cost=2)


def accepted(name, s0, e, doms):
    """a bag accepts a group exactly if it accepts its members, one by one"""
    keeps = not any(x.startswith(("noarr::vector", "noarr::array", "noarr::tuple")) for x in e)
    body = f"\tauto s = {s0};\n\tstd::vector<char> buf(4096);\n\tauto bg = noarr::make_bag(s, buf.data());\n\tusing B = const decltype(bg) &;\n\tusing U = decltype(noarr::make_unique_bag(s));\n"
    ts = list(trees(e))
    if len(e) <= 4:
        ts += [f"({' ^ '.join(e[:i] + ['noarr::neutral_proto()'] + e[i:])})" for i in range(len(e) + 1)]
    for t in ts:
        body += f"\t{{ auto g = {t}; pr.ok(bags::transformable<B, decltype(g)> == {str(keeps).lower()} && bags::transformable<U, decltype(g)> == {str(keeps).lower()}, \"a bag accepts a group exactly if it accepts its members\", {chr(34) + t.replace('noarr::', '').replace(chr(34), '') + chr(34)}); }}\n"
    return Prog(f"accept:{name}", "scalar #4", [d[:1] for d in doms], body, cost=2, mid=None)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[1, 2, 3, 4]])
    two = base("xy", [[1, 2, 4], [1, 2, 3]])
    three = base("xyz", [[1, 2], [2, 3], [1, 2]])
    for bn, b, dep in (("x", one, 0), ("xy", two, 0), ("xyz", three, 0), ("x", one, 1), ("xy", two, 1), ("x", one, 2)) + ((("xyz", three, 1), ("xy", two, 2)) if T else ()):
        for n, s in chains(b, [ops_all] * dep):
            if len(s.dims):
                ps.append(grouped(f"{bn}:{n}", s, 4 if dep < 2 else 3, 60))
            if dep == 1 and s.dims and len(split(s.cpp)) == len(split(b.cpp)) + 1:
                ps.append(packed(f"{bn}:{n}", s, 100))
            if dep:
                k = len(split(b.cpp))
                e = split(s.cpp)[k:]
                if "vector" not in n and len(e) < 5:
                    if "bcast" not in n and "fix" not in n and "join" not in n:
                        ps.append(ordered(f"{bn}:{n}", b.cpp, e, s.ref, s.dims, fit(s.doms, 60)))
                    if s.dims:
                        ps.append(bags(f"{bn}:{n}", b.cpp, e, s.ref, s.dims, fit(s.doms, 60)))
    Z = "noarr::scalar<int>()"
    for k, e in enumerate((["noarr::vector<'x'>()", "noarr::set_length<'x'>(std::size_t(2))"], ["noarr::vector<'x'>(std::size_t(2))"], ["noarr::array<'x', 2>()"],
                           ["noarr::array<'x', 2>()", "noarr::reverse<'x'>()"], ["noarr::bcast<'x'>(std::size_t(2))", "noarr::fix<'x'>(std::size_t(1))"],
                           ["noarr::bcast<'x'>(std::size_t(2))", "noarr::array<'y', 2>()", "noarr::hoist<'x'>()"], ["noarr::vector<'y'>()", "noarr::rename<'y', 'x'>()", "noarr::set_length<'x'>(std::size_t(2))", "noarr::fix<'x'>(std::size_t(1))"],
                           ["noarr::neutral_proto()"], ["noarr::bcast<'x'>(std::size_t(2))", "noarr::bcast<'y'>(std::size_t(2))", "noarr::merge_blocks<'x', 'y', 'z'>()", "noarr::fix<'z'>(std::size_t(1))"])):
        ps.append(accepted(f"scalar:{k}", Z, e, []))
    for bn, b, dep in (("x", one, 1), ("xy", two, 1), ("x", one, 2)) + ((("xyz", three, 1), ("xy", two, 2)) if T else ()):
        for n, s in chains(b, [ops_all] * dep):
            e = split(s.cpp)[len(split(b.cpp)):]
            if len(e) < 5 and (dep == 1 or "vector" in n or "bcast" in n):
                ps.append(accepted(f"{bn}:{n}", b.cpp, e, s.doms))
                if dep == 1 and "vector" not in n:
                    ps.append(accepted(f"{bn}:{n}:over a layout", b.cpp, ["noarr::array<'Q', 2>()"] + e, s.doms))
                    ps.append(accepted(f"{bn}:{n}:under a layout", b.cpp, e + ["noarr::array<'Q', 2>()"], s.doms))
    chk.explore(automid(ps), header=("bags.hpp",), per_tu=24)
