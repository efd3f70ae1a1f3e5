// Textual descriptions of structures.
#pragma once
#include "probes.hpp"
#include "tuples.hpp"
#include <noarr/structures/extra/mangle.hpp>
#include <limits>
namespace mang {
using rt::Probe;
using ref::u64;
// the weakest string type the documentation allows
struct Str {
	std::string s;
	constexpr void push_back(char c) { s.push_back(c); }
	constexpr void append(const char *p, std::size_t n) { s.append(p, n); }
};
template<char... C> std::string chars(std::integer_sequence<char, C...>) { return {C...}; }

template<class S> void emit(const S &s, Probe &pr) {
	pr.state();
	using M = noarr::mangle_to_str<S>;
	std::string type(M::c_str, M::length), e = noarr::mangle_expr<std::string>(s);
	pr.ok(type == M::c_str, "the sized and the null-terminated description agree");
	pr.ok(type == chars(noarr::mangle<S>()), "the description as a sequence agrees");
	pr.ok(e == noarr::mangle_expr<Str>(s).s, "the description does not depend on the string type");
	printf("{\"emit\":{\"id\":\"%s\",\"params\":\"%s\",\"type\":\"%s\",\"expr\":\"%s\"}}\n", rt::jesc(pr.prog->id).c_str(), pr.pstr().c_str(), rt::jesc(type).c_str(), rt::jesc(e).c_str());
}
template<class T> std::string dec(T v) {
	std::string s;
	bool neg = v < 0;
	do {
		int d = int(v % 10);
		s.insert(s.begin(), char('0' + (d < 0 ? -d : d)));
		v /= 10;
	} while (v);
	return neg ? "-" + s : s;
}
template<class T> void numbers(Probe &pr, const char *name) {
	auto one = [&](T v) {
		pr.state();
		auto got = noarr::mangle_expr<std::string>(v), want = std::string(name) + "{" + dec(v) + "}";
		pr.ok(got == want, "description of a number", "got " + got + ", expected " + want);
	};
	using L = std::numeric_limits<T>;
	// as a constant, where stepping outside of an array is not possible
	constexpr auto len = [](T v) { return noarr::mangle_expr<std::string>(v).size(); };
	constexpr std::size_t shortest = len(0), longest = len(L::max()), lowest = len(L::min());
	pr.eq(shortest, std::string(name).size() + 3, "length of the description of zero");
	pr.eq(longest, std::string(name).size() + 2 + dec(L::max()).size(), "length of the description of the highest number");
	pr.eq(lowest, std::string(name).size() + 2 + dec(L::min()).size(), "length of the description of the lowest number");
	if (sizeof(T) <= 2) {
		for (long v = L::min(); v <= long(L::max()); v++) one(T(v));
		return;
	}
	for (int k = 0; k < int(sizeof(T) * 8); k++)
		for (int d = -2; d <= 2; d++) {
			one(T((u64(1) << k) + u64(d)));
			one(T(-(u64(1) << k) + u64(d)));
		}
	T x = 1;
	for (int k = 0; k <= L::digits10; k++, x = T(u64(x) * 10))
		for (int m = 1; m <= 9; m++)
			for (int d = -1; d <= 1; d++) {
				one(T(u64(x) * m + d));
				one(T(-(u64(x) * m + d)));
			}
	for (int v = 0; v < 100000; v++) one(T(v)), one(T(-v));
	one(L::min());
	one(L::max());
}
} // namespace mang
