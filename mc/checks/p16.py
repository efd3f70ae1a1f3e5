"""Text serialisation round trips, with every cut point of the input and every failure point of the output."""
from ..gen import *
from ..core import Prog
from .p03 import *
import inspect


def tup():
    """tuples of different element types: order and text of the fields"""
    b = """	auto s = noarr::pack(noarr::scalar<double>() ^ noarr::vector<'x'>(p[0]), noarr::scalar<int>(), noarr::scalar<unsigned char>() ^ noarr::array<'y', 2>()) ^ noarr::tuple<'t'>()%s;
	const ref::u64 z = %s;
	std::vector<char> a((s | noarr::get_size()) + 8), c(a.size());
	auto at = [&](auto i, auto... st) -> auto & { return s | noarr::get_at(a.data(), (noarr::idx<'t'>(i) & ... & st)); };
	std::string w;
	for (ref::u64 k = 0; k < z; k++) {
		auto zi = noarr::idx<'z'>(k);
		for (ref::u64 x = 0; x < p[0]; x++) at(noarr::lit<0>, noarr::idx<'x'>(x), zi) = x * 1.5 - 1 + k, w += serial::text(x * 1.5 - 1 + k) + "\\n";
		at(noarr::lit<1>, zi) = -7 - int(k), w += serial::text(-7 - int(k)) + "\\n";
		at(noarr::lit<2>, noarr::idx<'y'>(0), zi) = 'a', at(noarr::lit<2>, noarr::idx<'y'>(1), zi) = char('b' + k), w += "a\\n", w += char('b' + k), w += "\\n";
	}
	std::stringstream o;
	noarr::serialize_data(o, s, (const void *)a.data());
	pr.ok(o.str() == w, "text of a tuple", o.str() + " want " + w);
	noarr::deserialize_data(o, s, (void *)c.data());
	pr.ok(!!o && a == c, "tuple read back");
	pr.state(z * (p[0] + 3));"""
    yield Prog("tuple", "", [[0, 1, 2, 3]], b % ("", "1"))
    yield Prog("tuple:vector", "", [[0, 1, 2, 3], [0, 1, 2, 3]], b % (" ^ noarr::vector<'z'>(p[1])", "p[1]"))


def run(chk, tier):
    T = tier == "thorough"
    ps = list(tup())
    types = [("int", 4), ("double", 8), ("short", 2), ("unsigned long", 8)] + ([("float", 4), ("long", 8), ("unsigned short", 2), ("unsigned", 4)] if T else [])
    k = 0
    for bn, dims in (("x", [[0, 1, 3]]), ("xy", [[0, 1, 3], [1, 2]]), ("xyz", [[2], [1, 3], [2]])):
        for ty, sz in types:
            b = base(bn, dims, ty, sz)
            ops = [("", b)] + list(ops_all(b))
            if T and bn == "xy" and ty == "int":
                ops += list(chains(b, [ops_all, ops_all]))
            for n, s in ops:
                k += 1
                if not T and ty not in ("int", types[k % len(types)][0]) and n:
                    continue
                ps.append(Prog(f"{bn}:{ty}:{n}", s.ref, fit(s.doms, 60), f"\tserial::check<{ty}>({s.cpp}, pr);", cost=2, mid=mid(s, 400)))
    chk.explore(automid(ps, lambda p: p.id.startswith("tuple")), header=("serial.hpp",), per_tu=20)
