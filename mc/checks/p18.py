"""Shorthands mean their documented longhand."""
from ..gen import *
from ..core import Prog
from .p03 import ops_partial
import itertools


def like(name, s, cap):
    ds = s.dims
    c = f"\tauto s = {s.cpp};\n"
    n = len(ds)
    if n:
        c += f"\tsh::dense<{q(ds)}>(noarr::scalar<short>() ^ noarr::vectors_like(s), pr, 2, \"vectors_like(structure)\");\n"
        c += f"\tsh::dense<{q(ds)}>(noarr::scalar<char>() ^ noarr::vectors_like(noarr::traverser(s)), pr, 1, \"vectors_like(traverser)\");\n"
        subsets = [p for k in range(1, n + 1) for p in itertools.permutations(ds, k)]
        if n > 2:
            subsets = [p for p in subsets if len(p) in (1, n)] + [tuple(ds[:2]), tuple(ds[-1:] + ds[:1])]
        for p in subsets:
            inner = list(p)[::-1]  # applied innermost first
            c += f"\tsh::dense<{q(p)}>(noarr::scalar<double>() ^ noarr::vectors_like<{q(inner)}>(s), pr, 8, \"vectors_like<{''.join(inner)}>\");\n"
            c += f"\tsh::dense<{q(p)}>(noarr::scalar<int>() ^ noarr::vectors<{q(inner)}>() ^ noarr::lengths_like<{q(p)}>(s), pr, 4, \"lengths_like<{''.join(p)}>\");\n"
            if len(p) == 1:
                c += f"\tsh::dense<{q(p)}>(noarr::scalar<int>() ^ noarr::vector_like<{q(p)}>(s), pr, 4, \"vector_like\");\n"
                c += f"\tsh::dense<{q(p)}>(noarr::scalar<int>() ^ noarr::vector<{q(p)}>() ^ noarr::length_like<{q(p)}>(s), pr, 4, \"length_like\");\n"
            else:
                c += f"\tsh::dense<{q(p)}>(noarr::scalar<int>() ^ noarr::vectors_like<{q(inner)}>(noarr::traverser(s)), pr, 4, \"vectors_like<>(traverser)\");\n"
                c += f"\tsh::dense<{q(p)}>(noarr::scalar<int>() ^ noarr::vectors<{q(inner)}>() ^ noarr::lengths_like<{q(inner)}>(noarr::traverser(s)), pr, 4, \"lengths_like(traverser)\");\n"
        c += "\tif (sh::count(pr)) pr.eq(s | noarr::offset(noarr::fix_zeros(noarr::sig_dim_tree<typename decltype(s)::signature>())), pr.r->rows[0].off, \"offset of the first element\");\n"
    c += "\tpr.eq(noarr::index_space_size(s), sh::count(pr), \"index_space_size\");\n"
    return Prog("like:" + name, s.ref, fit(s.doms, cap), c, cost=1 + n, mid=mid(s, 5000))


def spans(s):
    """symmetric_span(s) of every subset of dimensions"""
    ds = s.dims
    for k in (1, 2, 3):
        for p in itertools.permutations(ds, k):
            if k == 1:
                yield f"symspan({p[0]})", s, f"s0 ^ noarr::symmetric_span<'{p[0]}'>(s0, {{0}})", f"symspan {p[0]} {{0}}", 1
                yield f"symspans({p[0]})", s, f"s0 ^ noarr::symmetric_spans<'{p[0]}'>(s0, {{0}})", f"symspan {p[0]} {{0}}", 1
            else:
                yield f"symspan({''.join(p)})", s, f"s0 ^ noarr::symmetric_span<{q(p)}>(s0, {{0}})", ";".join(f"symspan {d} {{0}}" for d in p), 1
                yield f"symspans({''.join(p)})", s, f"s0 ^ noarr::symmetric_spans<{q(p)}>(s0, {', '.join('{%d}' % i for i in range(k))})", ";".join(f"symspan {d} {{{i}}}" for i, d in enumerate(p)), k


def states(s):
    """selection by a state object"""
    ds = s.dims
    for k in (1, 2, 3):
        for p in itertools.permutations(ds, k):
            iv = ", ".join("{%d}" % i for i in range(k))
            ref = ";".join(f"fix {d} {{{i}}}" for i, d in enumerate(p))
            st = f"noarr::idx<{q(p)}>({iv})"
            yield f"fix(state {''.join(p)})", s, f"s0 ^ noarr::fix({st})", ref, k, p
            yield f"fix<>(state {''.join(p)})", s, f"s0 ^ noarr::fix<{q(p[::-1])}>({st} & noarr::idx<'*'>(std::size_t(5)))", ref, k, p
            if k == len(ds):
                yield f"fix(lengths too {''.join(p)})", s, f"s0 ^ noarr::fix(noarr::make_state<noarr::length_in<'{p[0]}'>>(std::size_t(7)) & {st})", ref, k, p


def build(name, s, e, ref, k, dims, probe="probe::all"):
    n = len(s.doms)
    pv = [f"p[{n + i}]" for i in range(k)]
    rv = [f"${n + i}" for i in range(k)]
    return Prog(name, s.ref + ";" + ref.format(*rv), fit(s.doms + [[0, 1, 2]] * k, 3000),
                f"\tauto s0 = {s.cpp};\n\tauto s = {e.format(*pv)};\n\t{probe}<{q(dims)}>(s, pr);")


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    one = base("x", [[0, 1, 2, 3, 5]])
    two = base("xy", [[0, 1, 2, 4], [1, 2, 3, 5]])
    three = base("xyz", [[1, 2, 3], [1, 2], [2, 4]])
    srcs = [("x", one, 0), ("xy", two, 0), ("xyz", three, 0), ("x", one, 1), ("xy", two, 1)] + ([("xyz", three, 1), ("x", one, 2)] if T else [])
    for bn, b, dep in srcs:
        for n, s in chains(b, [ops_all] * dep, maxdims=3):
            ps.append(like(f"{bn}:{n}", s, 400))
            if dep and not T and len(s.dims) > 2:
                continue
            for n2, t, e, ref, k in spans(s):
                ps.append(build(f"{n2}:{bn}:{n}", t, e, ref, k, t.dims))
            for n2, t, e, ref, k, p in states(s):
                ps.append(build(f"{n2}:{bn}:{n}", t, e, ref, k, [d for d in t.dims if d not in p]))
    # lengths taken from a state: open structures
    for perm in itertools.permutations("xyz", 2):
        i, o = perm
        L = f"noarr::make_state<noarr::length_in<'{o}'>, noarr::length_in<'{i}'>>(p[0], p[1])"
        ref = f"scalar #4;vector {i} $1;vector {o} $0"
        doms = [[0, 1, 2, 4], [1, 2, 3, 5]]
        op = f"noarr::scalar<int>() ^ noarr::vectors<'{i}', '{o}'>()"
        for nm, e in (("set_length(state)", f"{op} ^ noarr::set_length({L})"),
                      ("set_length(state with indices)", f"{op} ^ noarr::set_length(noarr::idx<'{i}'>(std::size_t(0)) & {L})"),
                      ("set_length<>(state)", f"{op} ^ noarr::set_length<'{i}', '{o}'>({L})"),
                      ("set_length<rev>(state)", f"{op} ^ noarr::set_length<'{o}', '{i}'>({L} & noarr::make_state<noarr::length_in<'w'>>(std::size_t(9)))"),
                      ("vectors_like(open)", f"noarr::scalar<int>() ^ noarr::vectors_like({op}, {L})"),
                      ("vectors_like<>(open)", f"noarr::scalar<int>() ^ noarr::vectors_like<'{i}', '{o}'>({op}, {L})"),
                      ("lengths_like<>(open)", f"{op} ^ noarr::lengths_like<'{o}', '{i}'>({op}, {L})"),
                      ("vector_like(open)", f"noarr::scalar<int>() ^ noarr::vector_like<'{i}'>({op}, {L}) ^ noarr::vector_like<'{o}'>({op}, {L})"),
                      ("length_like(open)", f"{op} ^ noarr::length_like<'{i}'>({op}, {L}) ^ noarr::length_like<'{o}'>({op}, {L})"),
                      ("vectors(lengths)", f"noarr::scalar<int>() ^ noarr::vectors<'{i}', '{o}'>(p[1], p[0])"),
                      ("sized_vector", f"noarr::scalar<int>() ^ noarr::sized_vector<'{i}'>(p[1]) ^ noarr::sized_vector<'{o}'>(p[0])"),
                      ("sized_vectors", f"noarr::scalar<int>() ^ noarr::sized_vectors<'{i}', '{o}'>(p[1], p[0])"),
                      ("vectors(pack)", f"noarr::scalar<int>() ^ (noarr::vector<'{i}'>(p[1]) ^ noarr::vector<'{o}'>(p[0]))")):
            ps.append(Prog(f"{nm}:{i}{o}", ref, doms, f"\tauto s = {e};\n\tprobe::all<'{o}', '{i}'>(s, pr);"))
        for nm, e, r2 in (("symspan", f"noarr::symmetric_span<'{o}', '{i}'>({op}, {L}, p[2])", f"symspan {o} $2;symspan {i} $2"),
                          ("symspans", f"noarr::symmetric_spans<'{o}', '{i}'>({op}, {L}, p[2], p[3])", f"symspan {o} $2;symspan {i} $3"),
                          ("symspans2", f"noarr::symmetric_spans<'{i}', '{o}'>({op}, {L}, p[2], p[3])", f"symspan {i} $2;symspan {o} $3")):
            ps.append(Prog(f"{nm}(open):{i}{o}", ref + ";" + r2, doms + [[0, 1, 2]] * 2, f"\tauto s = {op} ^ noarr::set_length({L}) ^ {e};\n\tprobe::all<'{o}', '{i}'>(s, pr);"))
    for a, b in itertools.product((0, 1, 2, 3), repeat=2):
        ps.append(Prog(f"array:{a}{b}", f"scalar #4;vector x #{a};vector y #{b}", [], f"\tauto s = noarr::scalar<int>() ^ noarr::array<'x', {a}>() ^ noarr::array<'y', {b}>();\n\tprobe::all<'y', 'x'>(s, pr);\n"
                       f"\tpr.ok(std::is_same_v<noarr::array_t<'y', {b}, noarr::array_t<'x', {a}, noarr::scalar<int>>>, decltype(s)>, \"array_t is the type of array\");"))
    # lengths beyond 2^32: a length that was taken over is the whole length
    big = [(1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 3, (1 << 40) + 7]
    S = "noarr::scalar<char>()"
    for i, o in (("x", "y"), ("y", "x")):
        src = {"vector": f"{S} ^ noarr::vector<'{i}'>(p[0]) ^ noarr::vector<'{o}'>(noarr::lit<2>)", "bcast": f"{S} ^ noarr::bcast<'{i}'>(p[0]) ^ noarr::vector<'{o}'>(2)",
               "shift": f"{S} ^ noarr::vector<'{i}'>(p[0] + 3) ^ noarr::shift<'{i}'>(3) ^ noarr::vector<'{o}'>(2)", "rename": f"{S} ^ noarr::vector<'q'>(p[0]) ^ noarr::vector<'{o}'>(2) ^ noarr::rename<'q', '{i}'>()"}
        L = f"noarr::make_state<noarr::length_in<'{o}'>, noarr::length_in<'{i}'>>(std::size_t(2), p[0])"
        op = f"noarr::scalar<int>() ^ noarr::vectors<'{i}', '{o}'>()"
        for sn, sc in src.items():
            c = f"\tauto s = {sc};\n\tauto two = [&](const auto &v, const char *how) {{ sh::large<'{i}'>(v, pr, p[0], how); pr.eq(v | noarr::get_length<'{o}'>(), 2, how); pr.eq(v | noarr::get_size(), p[0] * 2, how); pr.eq(v | noarr::offset<'{o}', '{i}'>(1, p[0] - 1), p[0] * 2 - 1, how); }};\n"
            for tr in ("s", "noarr::traverser(s)"):
                c += f"\ttwo({S} ^ noarr::vectors_like<'{i}', '{o}'>({tr}), \"vectors_like<>\");\n\ttwo({S} ^ noarr::vectors<'{i}', '{o}'>() ^ noarr::lengths_like<'{o}', '{i}'>({tr}), \"lengths_like<>\");\n"
            c += f"\ttwo({S} ^ noarr::vector_like<'{i}'>(s) ^ noarr::vector_like<'{o}'>(s), \"vector_like\");\n\ttwo({S} ^ noarr::vectors<'{i}', '{o}'>() ^ noarr::length_like<'{o}'>(s) ^ noarr::length_like<'{i}'>(s), \"length_like\");\n"
            c += f"\ttwo({S} ^ noarr::vectors<'{i}', '{o}'>(p[0], 2), \"vectors\");\n\ttwo({S} ^ noarr::vectors<'{i}', '{o}'>() ^ noarr::set_length({L}), \"set_length(state)\");\n\ttwo({S} ^ noarr::vectors<'{i}', '{o}'>() ^ noarr::set_length<'{i}', '{o}'>({L}), \"set_length<>(state)\");\n"
            for nm, e in (("vectors_like", f"noarr::vectors_like<'{i}', '{o}'>({op}, {L})"), ("vector_like", f"noarr::vector_like<'{i}'>({op}, {L}) ^ noarr::vector_like<'{o}'>({op}, {L})"),
                          ("lengths_like", f"noarr::vectors<'{i}', '{o}'>() ^ noarr::lengths_like<'{o}', '{i}'>({op}, {L})"), ("length_like", f"noarr::vectors<'{i}', '{o}'>() ^ noarr::length_like<'{i}'>({op}, {L}) ^ noarr::length_like<'{o}'>({op}, {L})")):
                c += f"\ttwo({S} ^ {e}, \"{nm} of an open structure\");\n"
            c += f"\tpr.eq(noarr::index_space_size(s), p[0] * 2, \"index_space_size\");\n"
            c += f"\tfor (ref::u64 off : {{ref::u64(0), ref::u64(1), p[0] / 3, p[0] / 2}}) {{\n"
            for e in (f"noarr::symmetric_span<'{i}'>(s, off)", f"noarr::symmetric_spans<'{i}'>(s, off)", f"noarr::symmetric_spans<'{o}', '{i}'>(s, 0, off)", f"noarr::symmetric_span<'{i}'>({op}, {L}, off)", f"noarr::symmetric_spans<'{i}', '{o}'>({op}, {L}, off, 0)"):
                c += f"\t\t{{ auto v = s ^ {e}; pr.eq(v | noarr::get_length<'{i}'>(), p[0] - 2 * off, \"length of a symmetric span\"); if (p[0] > 2 * off) pr.eq(v | noarr::offset<'{o}', '{i}'>(1, p[0] - 2 * off - 1), s | noarr::offset<'{o}', '{i}'>(1, p[0] - off - 1), \"last element of a symmetric span\"); }}\n"
            c += "\t}\n"
            c += f"\tfor (ref::u64 k : {{ref::u64(0), p[0] / 2, p[0] - 1}}) for (const auto off : {{(s ^ noarr::fix(noarr::idx<'{i}', '{o}'>(k, 1))) | noarr::offset(), (s ^ noarr::fix<'{o}', '{i}'>(noarr::idx<'{i}', '{o}'>(k, 1))) | noarr::offset(), s | noarr::offset(noarr::fix<'{i}', '{o}'>(k, 1) * 0)}}) pr.eq(off, s | noarr::offset<'{i}', '{o}'>(k, 1), \"selection by a state\");\n".replace(f", s | noarr::offset(noarr::fix<'{i}', '{o}'>(k, 1) * 0)", "")
            ps.append(Prog(f"large:{sn}:{i}", "scalar #1", [big], c, cost=4))
    # several dimensions broadcast at once; first listed innermost
    for bn, b in (("x", one), ("xy", two)):
        n = len(b.doms)
        ps.append(Prog(f"bcast3:{bn}", b.ref + f";bcast i ${n};bcast j ${n+1};bcast k ${n+2}", fit(b.doms + [[0, 1, 2]] * 3, 2000), f"\tauto s = {b.cpp} ^ noarr::bcast<'i', 'j', 'k'>(p[{n}], p[{n+1}], p[{n+2}]);\n\tprobe::all<'k', 'j', 'i', {q(b.dims)}>(s, pr);"))
        for d in b.dims:
            r = [x for x in b.dims if x != d]
            i = b.dims.index(d)
            rep = b.dims[:i] + ["m"] + b.dims[i + 1:]
            for nm, e in (("one", f"noarr::strip_mine<'{d}', 'M', 'm'>(p[{n}])"), ("two", f"noarr::strip_mine<'{d}', 'M', 'm'>() ^ noarr::set_length<'m'>(p[{n}])"),
                          ("into", f"noarr::into_blocks<'{d}', 'M', 'm'>(p[{n}]) ^ noarr::hoist<'M'>()"), ("pack", f"(noarr::into_blocks<'{d}', 'M', 'm'>() ^ noarr::set_length<'m'>(p[{n}]) ^ noarr::hoist<'M'>())")):
                ps.append(Prog(f"strip-{nm}:{bn}:{d}", b.ref + f";blocks {d} M m ${n};hoist M", b.doms + [[1, 2, 3, 4]], f"\tauto s = {b.cpp} ^ {e};\n\tprobe::all<'M', {q(rep)}>(s, pr);"))
            for nm, e in (("one", f"noarr::strip_mine_dynamic<'{d}', 'M', 'm', 'p'>(p[{n}])"), ("two", f"noarr::strip_mine_dynamic<'{d}', 'M', 'm', 'p'>() ^ noarr::set_length<'m'>(p[{n}])"),
                          ("into", f"noarr::into_blocks_dynamic<'{d}', 'M', 'm', 'p'>(p[{n}]) ^ noarr::hoist<'M'>()")):
                ps.append(Prog(f"stripdyn-{nm}:{bn}:{d}", b.ref + f";dblocks {d} M m p ${n};hoist M", b.doms + [[1, 2, 3, 4]], f"\tauto s = {b.cpp} ^ {e};\n\tprobe::present<'M', 'm', 'p', 'M', {q(b.dims[:i] + ['m', 'p'] + b.dims[i + 1:])}>(s, pr);"))
        if n == 2:
            for M, m in itertools.permutations(b.dims):
                e = f"noarr::scalar<int>() ^ noarr::vector<'{b.dims[1]}'>({'' if b.dims[1] == m else 'p[0]'}) ^ noarr::vector<'{b.dims[0]}'>({'' if b.dims[0] == m else 'p[1]'})"
                lm = f"p[{1 - b.dims.index(m)}]"
                ps.append(Prog(f"merge-len:{M}{m}", b.ref + f";merge {M} {m} g", b.doms, f"\tauto s = {e} ^ noarr::merge_blocks<'{M}', '{m}', 'g'>({lm});\n\tprobe::all<'g'>(s, pr);"))
    # tuples: the index space is the sum over the fields
    for sh_a, sh_b in itertools.product(("", "x", "xy"), repeat=2):
        def fld(dims, k0, el):
            return f"noarr::scalar<{el}>()" + "".join(f" ^ noarr::vector<'{d}'>(p[{k0 + i}])" for i, d in enumerate(dims))
        da, db = sh_a, sh_b.upper()
        ps.append(Prog(f"iss-tuple:{da}:{db}", "", [[0, 1, 2, 3]] * (len(da) + len(db) + 1),
                       f"\tauto s = noarr::pack({fld(da, 1, 'int')}, {fld(db, 1 + len(da), 'short')}) ^ noarr::tuple<'t'>() ^ noarr::vector<'v'>(p[0]);\n"
                       f"\tref::u64 k = 0;\n\tnoarr::traverser(s).for_each([&](auto) {{ k++; }});\n\tref::u64 want = p[0] * ({'*'.join(['1'] + [f'p[{1+i}]' for i in range(len(da))])} + {'*'.join(['1'] + [f'p[{1+len(da)+i}]' for i in range(len(db))])});\n"
                       f"\tpr.state();\n\tpr.eq(k, want, \"number of visited elements\");\n" + ("\tpr.eq(noarr::index_space_size(s), want, \"index_space_size of a tuple\");\n" if not da and not db else "")))
    seen = {}
    ps = [seen.setdefault(p.id, p) for p in ps if p.id not in seen]
    chk.explore(automid(ps), header=("short.hpp",), per_tu=40)
