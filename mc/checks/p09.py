"""Joint traversal of several structures."""
from ..gen import *
from ..core import Prog
import itertools

SH = [c for k in (1, 2) for c in map("".join, itertools.permutations("xyz", k))]
SH3 = list(map("".join, itertools.permutations("xyz", 3)))
P = {"x": 0, "y": 1, "z": 2}


def lay(sh):
    return "noarr::scalar<int>()" + "".join(f" ^ noarr::vector<'{d}'>(p[{P[d]}])" for d in sh[::-1])


def off(sh):
    e = "0"
    for d in sh:
        e = f"({e} * p[{P[d]}] + i{d})"
    return f"4 * {e}"


def mk(name, shapes, order=None, bag=False, fd=None, doms=None):
    dims = sorted(set("".join(shapes)))
    body = "".join(f"\tauto s{i} = {lay(s)};\n" for i, s in enumerate(shapes))
    if bag:
        body += "".join(f"\tstd::vector<int> m{i}((s{i} | noarr::get_size()) / 4 + 1); auto b{i} = noarr::make_bag(s{i}, (void *)m{i}.data());\n" for i in range(len(shapes)))
        tr = "noarr::traverser(" + ", ".join(f"b{i}" for i in range(len(shapes))) + ")"
    else:
        tr = "noarr::traverser(" + ", ".join(f"s{i}" for i in range(len(shapes))) + ")"
    if order:
        tr += f".order({order})"
    body += "\tstd::vector<std::vector<ref::u64>> got;\n\tbool offs = true;\n"
    body += "\tauto f = [&](auto st) {\n" + "".join(f"\t\tref::u64 i{d} = noarr::get_index<'{d}'>(st);\n" for d in dims)
    body += f"\t\tgot.push_back({{{', '.join('i' + d for d in dims)}}});\n"
    for i, s in enumerate(shapes):
        if bag:
            body += f"\t\toffs = offs && ref::u64(reinterpret_cast<char *>(&b{i}[st]) - reinterpret_cast<char *>(m{i}.data())) == {off(s)};\n"
        else:
            body += f"\t\toffs = offs && (s{i} | noarr::offset(st)) == {off(s)};\n"
    body += "\t};\n"
    if fd:
        body += f"\t{tr}.template for_dims<{q(fd)}>([&](auto inner) {{ inner.for_each(f); }});\n"
    else:
        body += f"\t{tr}.for_each(f);\n"
    keep = ""
    for s in shapes:  # dimensions added by a later structure are traversed outside of the earlier ones
        keep = "".join(d for d in s if d not in keep) + keep
    first = "".join(fd) if fd else order[14] if order and order.startswith("noarr::hoist<'") else ""
    keep = first + "".join(d for d in keep if d not in first)
    if order and not first:
        keep = ""
    body += f"\tjoint::box(pr, got, \"{''.join(dims)}\", {{{', '.join(f'p[{P[d]}]' for d in dims)}}}, \"{keep}\", \"{name}\");\n\tpr.ok(offs, \"every visited state addresses the right element of every structure\");"
    d = doms or [[0, 1, 2, 3], [1, 2, 3], [1, 2, 3]]
    return Prog(name, "", [d[i] if "xyz"[i] in dims else [1] for i in range(3)], body, cost=2)


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    for a in SH + SH3:
        ps.append(mk(f"one:{a}", [a]))
    for a, b in itertools.product(SH, SH):
        ps.append(mk(f"two:{a},{b}", [a, b]))
    for a in SH3:
        for b in SH:
            ps.append(mk(f"two:{a},{b}", [a, b]))
            ps.append(mk(f"two:{b},{a}", [b, a]))
    tri = [("zx", "xy", "zy"), ("xy", "yz", "xz"), ("yx", "zy", "xz"), ("x", "y", "z"), ("z", "y", "x"), ("xy", "x", "y"), ("y", "xy", "z"), ("xz", "zx", "y"), ("xy", "xy", "xy")]
    if T:
        tri = list(itertools.product(SH, SH, SH))
    for t in tri:
        ps.append(mk(f"three:{','.join(t)}", list(t)))
        ps.append(mk(f"three-bags:{','.join(t)}", list(t), bag=True))
        dims = sorted(set("".join(t)))
        if len(dims) == 3:
            for d in dims:
                ps.append(mk(f"three:{','.join(t)}:hoist({d})", list(t), order=f"noarr::hoist<'{d}'>()"))
            if not T or t in tri[:60]:
                for fd in (("x",), ("z", "x"), ("y", "z", "x"), ("x", "y", "z")):
                    ps.append(mk(f"three:{','.join(t)}:for_dims({''.join(fd)})", list(t), fd=fd))
    # structures that disagree about a length: the first one that has the dimension decides
    for a, b, c in (("x", "xy", "zy"), ("xy", "y", "yx"), ("z", "y", "xyz"), ("y", "yx", "x")):
        g = mk(f"first-length:{a},{b},{c}", [a, b, c])
        owner = {d: min(i for i, s in enumerate((a, b, c)) if d in s) for d in set(a + b + c)}
        for i, s in enumerate((a, b, c)):
            for d in s:
                if owner[d] < i:  # later structures are longer
                    g.body = g.body.replace(f"auto s{i} = {lay(s)};", f"auto s{i} = {lay(s)};".replace(f"vector<'{d}'>(p[{P[d]}])", f"vector<'{d}'>(p[{P[d]}] + {i})"))
            if any(owner[d] < i for d in s):  # its offsets use its own (longer) lengths
                e = "0"
                for d in s:
                    e = f"({e} * (p[{P[d]}]{' + ' + str(i) if owner[d] < i else ''}) + i{d})"
                g.body = g.body.replace(f"(s{i} | noarr::offset(st)) == {off(s)};", f"(s{i} | noarr::offset(st)) == 4 * {e};")
                if len(s) > 1:
                    later = lay(s)
                    for d in s:
                        if owner[d] < i:
                            later = later.replace(f"vector<'{d}'>(p[{P[d]}])", f"vector<'{d}'>(p[{P[d]}] + {i})")
                    g.body = "\n".join(f"\tauto s{i} = {later};" if l.startswith(f"\tauto s{i} = ") else l for l in g.body.split("\n"))
        ps.append(g)
    for t in (("xy", "yz"), ("zx", "xy", "zy"), ("xyz", "y"), ("x", "zy")):
        dims = "xyz"
        for d in dims:
            if d in "".join(t):
                # strip-mining through the union: states still address all structures
                ps.append(mk(f"strip({d}):{','.join(t)}", list(t), order=f"noarr::strip_mine<'{d}', 'B'>(2)",
                             doms=[[2, 4] if c == d else [1, 2, 3] for c in dims]))
                ps[-1].body = ps[-1].body.replace("joint::box(", "std::sort(got.begin(), got.end());\n\tjoint::box(")
    ps += tup(T)
    seen = {}
    ps = [seen.setdefault(p.id, p) for p in ps if p.id not in seen]
    chk.explore(automid(ps, lambda p: not p.id.startswith("strip")), header=("joint.hpp",), per_tu=40)


FIELDS = {"s": ("noarr::scalar<int>()", ""), "x": ("noarr::scalar<int>() ^ noarr::vector<'x'>(p[0])", "x"), "y": ("noarr::scalar<int>() ^ noarr::vector<'y'>(p[1])", "y"),
          "d": ("noarr::scalar<int>() ^ noarr::vector<'y'>(p[1]) ^ noarr::vector<'x'>(p[0])", "xy"), "e": ("noarr::scalar<int>() ^ noarr::vector<'x'>(p[0]) ^ noarr::vector<'y'>(p[1])", "yx")}


def tup(T):
    """the first structure is a tuple whose fields have different dimensions; the others are longer in the common ones"""
    ps = []
    others = [("x",), ("y",), ("xy",), ("yx",), ("z",), ("zx",), ("y", "x"), ("z", "xy")] + ([("xz", "y"), ("zyx",), ("x", "y", "z")] if T else [])
    fields = ["".join(f) for n in ((2, 3) if T else (2,)) for f in itertools.product("sxyde", repeat=n)] + ([] if T else ["sxs", "xsy", "sde", "yxd", "exs"])
    for fs in fields:
        have = set("".join(FIELDS[k][1] for k in fs))
        for wrap in ("", "z") if T or len(fs) == 2 else ("",):
            for ot in others:
                own = have | set(wrap)
                body = f"\tauto s0 = noarr::pack({', '.join(FIELDS[k][0] for k in fs)}) ^ noarr::tuple<'t'>()" + (" ^ noarr::vector<'z'>(p[2])" if wrap else "") + ";\n"
                first = {d: f"p[{P[d]}]" for d in own}
                for i, o in enumerate(ot):
                    ln = {}
                    for d in o:
                        ln[d] = f"p[{P[d]}] + {i + 1}" if d in first else f"p[{P[d]}]"
                        first.setdefault(d, ln[d])
                    body += f"\tauto s{i + 1} = noarr::scalar<int>()" + "".join(f" ^ noarr::vector<'{d}'>({ln[d]})" for d in o[::-1]) + ";\n"
                    e = "0"
                    for d in o:
                        e = f"({e} * ({ln[d]}) + i{d})"
                    ot_off = e
                    body += f"\tauto o{i + 1} = [&]([[maybe_unused]] ref::u64 ix, [[maybe_unused]] ref::u64 iy, [[maybe_unused]] ref::u64 iz) {{ return 4 * {ot_off}; }};\n"
                # the element of the tuple itself
                szs = {"s": "1", "x": "p[0]", "y": "p[1]", "d": "p[0] * p[1]", "e": "p[0] * p[1]"}
                whole = " + ".join(szs[k] for k in fs)
                ex = {"s": "0", "x": "ix", "y": "iy", "d": "(ix * p[1] + iy)", "e": "(iy * p[0] + ix)"}
                body += "\tauto o0 = [&](int t, [[maybe_unused]] ref::u64 ix, [[maybe_unused]] ref::u64 iy, [[maybe_unused]] ref::u64 iz) -> ref::u64 {\n"
                for t, k in enumerate(fs):
                    pre = " + ".join([szs[j] for j in fs[:t]] + [ex[k]])
                    body += f"\t\tif (t == {t}) return 4 * ({'iz * (' + whole + ') + ' if wrap else ''}{pre});\n"
                body += "\t\treturn 0;\n\t};\n"
                body += f"\tstd::vector<std::vector<ref::u64>> got[{len(fs)}];\n\tbool offs = true, extra[{len(fs)}] = {{}}, missing = false;\n"
                body += "\tnoarr::traverser(" + ", ".join(f"s{i}" for i in range(len(ot) + 1)) + ").for_each([&](auto st) {\n\t\tusing St = decltype(st);\n\t\tconstexpr int t = decltype(noarr::get_index<'t'>(st))::value;\n\t\tref::u64 ix = 0, iy = 0, iz = 0;\n"
                for d in "xyz":
                    body += f"\t\tif constexpr (noarr::state_contains<St, noarr::index_in<'{d}'>>) i{d} = noarr::get_index<'{d}'>(st);\n"
                for t, k in enumerate(fs):
                    dims = sorted(set(FIELDS[k][1]) | set(wrap) | (set("".join(ot)) - have))
                    body += f"\t\tif constexpr (t == {t}) {{\n"
                    for d in "xyz":
                        if d in dims:
                            body += f"\t\t\tmissing = missing || !noarr::state_contains<St, noarr::index_in<'{d}'>>;\n"
                        else:
                            body += f"\t\t\textra[t] = extra[t] || noarr::state_contains<St, noarr::index_in<'{d}'>>;\n"
                    body += f"\t\t\tgot[t].push_back({{{', '.join('i' + d for d in dims)}}});\n\t\t\toffs = offs && (s0 | noarr::offset(st)) == o0(t, ix, iy, iz);\n\t\t}}\n"
                for i, o in enumerate(ot):
                    body += f"\t\tif constexpr (noarr::state_contains<St, {', '.join(f'noarr::index_in<{chr(39)}{d}{chr(39)}>' for d in o)}>) offs = offs && (s{i + 1} | noarr::offset(st)) == o{i + 1}(ix, iy, iz);\n"
                body += "\t});\n\tpr.ok(!missing, \"every dimension of a field is indexed in the states of that field\");\n\tpr.ok(offs, \"every visited state addresses the right element of every structure\");\n"
                for t, k in enumerate(fs):
                    dims = sorted(set(FIELDS[k][1]) | set(wrap) | (set("".join(ot)) - have))
                    body += f"\tif (extra[{t}]) joint::distinct(got[{t}]);\n\tjoint::box(pr, got[{t}], \"{''.join(dims)}\", {{{', '.join(first[d] for d in dims)}}}, \"\", \"field {t}\");\n"
                used = have | set(wrap) | set("".join(ot))
                ps.append(Prog(f"tuple:{fs}{wrap}:{','.join(ot)}", "", [[0, 1, 2] if d == "x" and d in used else [1, 2] if d in used else [1] for d in "xyz"], body, cost=3))
    return ps
