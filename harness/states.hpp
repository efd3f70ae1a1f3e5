// States as finite maps from tags to numbers.
#pragma once
#include "probes.hpp"
namespace st {
using rt::Probe;
using ref::u64;
using M = std::map<char, u64>; // lower case: index in dimension, upper case: length in dimension
template<auto D, class S>
void one(const S &s, M &m) {
	if constexpr (S::template contains<noarr::index_in<D>>) m[probe::nm<D>] = s.template get<noarr::index_in<D>>();
	if constexpr (S::template contains<noarr::length_in<D>>) m[char(probe::nm<D> - 32)] = s.template get<noarr::length_in<D>>();
}
template<class S>
M map(const S &s) {
	M m;
#ifdef VERIF_NAMES
	one<D_x>(s, m), one<D_y>(s, m), one<D_z>(s, m), one<D_w>(s, m);
#else
	one<'x'>(s, m), one<'y'>(s, m), one<'z'>(s, m), one<'w'>(s, m);
#endif
	return m;
}
inline std::string str(const M &m) {
	std::string s = "{";
	for (auto &k : m) s += std::string(1, k.first) + ":" + std::to_string(k.second) + " ";
	return s + "}";
}
inline void same(Probe &pr, const M &got, const M &want, const char *what) {
	pr.state(1);
	pr.ok(got == want, what, got == want ? "" : ": got " + str(got) + ", reference says " + str(want));
}
inline bool le(const M &a, const M &b) {
	for (auto &k : a)
		if (!b.count(k.first) || k.second > b.at(k.first)) return false;
	return true;
}
template<class A, class B>
void relations(Probe &pr, const A &a, const B &b) {
	M x = map(a), y = map(b);
	pr.state(6);
	pr.ok((a == b) == (x == y), "==");
	pr.ok((a != b) == (x != y), "!=");
	pr.ok((a <= b) == le(x, y), "<=");
	pr.ok((a >= b) == le(y, x), ">=");
	pr.ok((a < b) == (le(x, y) && x != y), "<");
	pr.ok((a > b) == (le(y, x) && x != y), ">");
}
template<class A, class B>
void algebra(Probe &pr, const A &a, const B &b) {
	M x = map(a), y = map(b), s = x, d = x, n, u = x;
	for (auto &k : y) {
		s[k.first] += k.second;
		d[k.first] -= k.second;
		u[k.first] = k.second;
	}
	for (auto &k : x) n[k.first] = 0 - k.second;
	same(pr, map(a + b), s, "+");
	same(pr, map(b + a), s, "+ (swapped)");
	same(pr, map(a - b), d, "-");
	same(pr, map(-a), n, "unary -");
	same(pr, map(+a), x, "unary +");
	same(pr, map(a & b), u, "&");
	M back = x;
	for (auto &k : y) back.emplace(k.first, 0);
	same(pr, map((a + b) - b), back, "(a+b)-b");
	pr.ok((a + b) == (b + a), "+ commutes");
	relations(pr, a, b);
}
} // namespace st
