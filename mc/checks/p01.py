"""Dense layouts."""
from ..gen import *
from ..core import Prog
import itertools

ELEMS = {"char": 1, "short": 2, "int": 4, "double": 8, "std::array<char, 3>": 3}


def layer_ops(s, d, T=False):
    """all ways to add one dense (or broadcast) dimension d"""
    dom = [0, 1, 2, 3, 5] if T else [0, 1, 2, 3]
    W = [[1, 2, 65537, 4294967296]]
    nd = [d] + s.dims
    yield "vec", s.ext(f"noarr::vector<'{d}'>({{0}})", f"vector {d} {{0}}", nd, [dom], W)
    yield "vecset", s.ext(f"noarr::vector<'{d}'>() ^ noarr::set_length<'{d}'>({{0}})", f"vector {d} {{0}}", nd, [dom], W)
    for L in ((0, 1, 3) if T else (0, 3)):
        yield f"arr{L}", s.ext(f"noarr::array<'{d}', {L}>()", f"vector {d} #{L}", nd, [], [])
    yield "bc", s.ext(f"noarr::bcast<'{d}'>({{0}})", f"bcast {d} {{0}}", nd, [dom], W)
    yield "bcst", s.ext(f"noarr::bcast<'{d}'>() ^ noarr::set_length<'{d}'>(noarr::lit<2>)", f"bcast {d} #2", nd, [], [])
    yield "veclit", s.ext(f"noarr::vector<'{d}'>(noarr::lit<2>)", f"vector {d} #2", nd, [], [])


def nest(s, dims, T, name=""):
    if not dims:
        yield name, s
        return
    for n, t in layer_ops(s, dims[0], T):
        yield from nest(t, dims[1:], T, name + "." + n)


FIELDS = {"c": ("char", 1, 1), "s": ("short", 2, 2), "i": ("int", 4, 4), "d": ("double", 8, 8), "L": ("long double", 16, 16), "a": ("std::array<char, 3>", 3, 1), "h": ("std::array<short, 3>", 6, 2)}


def up(n, a):
    return (n + a - 1) // a * a


def tuple_progs(T):
    """tuples of scalars / arrays / nested tuples, alone and inside / outside vectors; fields are placed as in a C struct"""
    shapes = []
    keys = "csid"
    for n in (1, 2, 3):
        shapes += ["".join(k) for k in itertools.product(keys, repeat=n)]
    shapes += ["".join(k) for k in itertools.product("Lahd", repeat=2)]
    shapes += ["".join(k) for k in itertools.product("cd", repeat=4)] + ["".join(k) for k in itertools.product("ci", repeat=5)]
    shapes += ["csidcsi", "dcdcdc", "cccccccc", "disdisd", "cLsaihd", "sssssc"]
    if T:
        shapes += ["".join(k) for k in itertools.product(keys, repeat=4)] + ["".join(k) for k in itertools.product("Lahc", repeat=3)]
    out = []
    for sh in dict.fromkeys(shapes):
        fs = [FIELDS[k] for k in sh]
        pos, end = [], 0
        for _, size, al in fs:
            pos.append(up(end, al))
            end = pos[-1] + size
        al = max(f[2] for f in fs)
        total = up(end, al)
        n = len(sh)
        sc = [f"noarr::scalar<{f[0]}>()" for f in fs]
        tp = f"noarr::pack({', '.join(sc)}) ^ noarr::tuple<'t'>()"
        arrs = ", ".join(x + " ^ noarr::vector<'x'>(p[0])" for x in sc)
        b1 = f"\tauto s = {tp};\n\ttup::Cells c(pr);\n"
        b = f"\tauto s = {tp} ^ noarr::vector<'x'>(p[0]);\n\ttup::Cells c(pr);\n\tfor (ref::u64 x = 0; x < p[0]; x++) {{\n"
        b2 = f"\tauto s = noarr::pack({arrs}) ^ noarr::tuple<'t'>();\n\ttup::Cells c(pr);\n\tref::u64 end = 0;\n"
        for i, (ty, sz, a) in enumerate(fs):
            b1 += f"\tc.at(s | noarr::offset<'t'>(noarr::lit<{i}>), {sz}, {a}, {pos[i]}, \"field {i}\");\n"
            b += f"\t\tc.at(s | noarr::offset<'x', 't'>(x, noarr::lit<{i}>), {sz}, {a}, x * {total} + {pos[i]}, \"field {i} of \" + std::to_string(x));\n"
            b2 += f"\tend = tup::up(end, {a});\n\tfor (ref::u64 x = 0; x < p[0]; x++) c.at(s | noarr::offset<'t', 'x'>(noarr::lit<{i}>, x), {sz}, {a}, end + x * {sz}, \"field {i} of \" + std::to_string(x));\n\tend += p[0] * {sz};\n"
        ln = f"\tpr.eq(s | noarr::get_length<'t'>(), {n}, \"length of the tuple dimension\");\n\tpr.eq(s.align(noarr::empty_state), {al}, \"alignment of the structure\");\n"
        b1 += f"\tc.check({n}, s | noarr::get_size());\n\tpr.eq(s | noarr::get_size(), {total}, \"size of the tuple\");\n" + ln
        b += f"\t}}\n\tc.check({n} * p[0], s | noarr::get_size());\n\tpr.eq(s | noarr::get_size(), {total} * p[0], \"size of the array of tuples\");\n" + ln
        b2 += f"\tc.check({n} * p[0], s | noarr::get_size());\n\tpr.eq(s | noarr::get_size(), tup::up(end, {al}), \"size of the tuple of arrays\");\n" + ln
        out.append(Prog(f"tuple:{sh}", "", [], b1))
        out.append(Prog(f"aos:{sh}", "", [[0, 1, 2, 3]], b))
        out.append(Prog(f"soa:{sh}", "", [[0, 1, 2, 3]], b2))
    # fields with different inner dimensions
    for a, la in (("char", 1), ("int", 4), ("double", 8)):
        for b_, lb in (("char", 1), ("short", 2), ("int", 4), ("double", 8)):
            body = (f"\tauto s = noarr::pack(noarr::scalar<{a}>() ^ noarr::vector<'x'>(p[0]), noarr::scalar<{b_}>() ^ noarr::vector<'y'>(p[1]) ^ noarr::vector<'x'>(p[2])) ^ noarr::tuple<'t'>();\n"
                    f"\ttup::Cells c(pr);\n\tfor (ref::u64 x = 0; x < p[0]; x++) c.add(s | noarr::offset<'t', 'x'>(noarr::lit<0>, x), {la}, {la}, \"t=0 x=\" + std::to_string(x));\n"
                    f"\tfor (ref::u64 x = 0; x < p[2]; x++) for (ref::u64 y = 0; y < p[1]; y++) c.add(s | noarr::offset<'t', 'x', 'y'>(noarr::lit<1>, x, y), {lb}, {lb}, \"t=1 x=\" + std::to_string(x) + \" y=\" + std::to_string(y));\n"
                    f"\tc.check(p[0] + p[1] * p[2], s | noarr::get_size());\n"
                    f"\tpr.eq(s | noarr::get_length<'x'>(noarr::idx<'t'>(noarr::lit<0>)), p[0], \"length of x in field 0\");\n"
                    f"\tpr.eq(s | noarr::get_length<'x'>(noarr::idx<'t'>(noarr::lit<1>)), p[2], \"length of x in field 1\");\n"
                    f"\tpr.eq(s | noarr::get_length<'y'>(noarr::idx<'t'>(noarr::lit<1>)), p[1], \"length of y in field 1\");\n")
            out.append(Prog(f"hetero:{a},{b_}", "", [[0, 1, 2, 3], [0, 1, 2], [0, 1, 3]], body))
            # nested tuple
            body = (f"\tauto in = noarr::pack(noarr::scalar<{a}>(), noarr::scalar<{b_}>()) ^ noarr::tuple<'u'>();\n"
                    f"\tauto s = noarr::pack(noarr::scalar<{b_}>(), in ^ noarr::vector<'x'>(p[0]), noarr::scalar<{a}>()) ^ noarr::tuple<'t'>();\n\ttup::Cells c(pr);\n"
                    f"\tc.add(s | noarr::offset<'t'>(noarr::lit<0>), {lb}, {lb}, \"t=0\");\n\tc.add(s | noarr::offset<'t'>(noarr::lit<2>), {la}, {la}, \"t=2\");\n"
                    f"\tfor (ref::u64 x = 0; x < p[0]; x++) {{ c.add(s | noarr::offset<'t', 'u', 'x'>(noarr::lit<1>, noarr::lit<0>, x), {la}, {la}, \"t=1 u=0\"); c.add(s | noarr::offset<'x', 't', 'u'>(x, noarr::lit<1>, noarr::lit<1>), {lb}, {lb}, \"t=1 u=1\"); }}\n"
                    f"\tc.check(2 + 2 * p[0], s | noarr::get_size());\n")
            out.append(Prog(f"nested:{a},{b_}", "", [[0, 1, 2, 3]], body))
    return out


def run(chk, tier):
    T = tier == "thorough"
    ps = []
    for el, sz in ELEMS.items():
        s0 = St([], f"noarr::scalar<{el}>()", f"scalar #{sz}", [], [], set())
        ps.append(prog(f"{el}:scalar", s0, probe="probe::layout", wide=False))
        depth = 3 if (T or el == "int") else 2
        for k in range(1, depth + 1):
            for n, s in nest(s0, "xyz"[:k], T and el == "int" and k < 3):
                ps.append(prog(f"{el}:{n}", s, probe="probe::layout"))
    if T:
        s0 = St([], "noarr::scalar<short>()", "scalar #2", [], [], set())
        for n, s in nest(s0, "wxyz", False):
            ps.append(prog(f"short4:{n}", s, probe="probe::basic"))
    # vectors<...>(...): first listed is innermost
    s0 = St([], "noarr::scalar<int>()", "scalar #4", [], [], set())
    s = s0.ext("noarr::vectors<'x', 'y', 'z'>({0}, {1}, {2})", "vector x {0};vector y {1};vector z {2}", "zyx", [[0, 1, 2, 3]] * 3, [WIDE_LEN] * 3)
    ps.append(prog("vectors3", s, probe="probe::layout"))
    s = s0.ext("noarr::vectors<'x', 'y'>() ^ noarr::set_length<'y', 'x'>({0}, {1})", "vector x {1};vector y {0}", "yx", [[0, 1, 2, 3]] * 2, [WIDE_LEN] * 2)
    ps.append(prog("vectors-set", s, probe="probe::layout"))
    s = s0.ext("noarr::bcast<'x', 'y'>({0}, {1}) ^ noarr::vector<'z'>({2})", "bcast x {0};bcast y {1};vector z {2}", "zyx", [[0, 1, 2, 3]] * 3, [WIDE_LEN] * 3)
    ps.append(prog("bcast2", s, probe="probe::layout"))
    ps += tuple_progs(T)
    chk.explore(automid(ps), header=("tuples.hpp",), per_tu=40)
