// Shorthands: each derived structure / value must be what its definition says, computed from the table model of the source.
#pragma once
#include "probes.hpp"

namespace sh {
using rt::Probe;
using ref::u64;
using probe::dims;

// v is expected to be the dense layout over exactly the dims D (listed outermost first) with the model's lengths
template<auto... D, class V, std::size_t... I>
void dense_(const V &v, Probe &pr, u64 elem, const char *what, std::index_sequence<I...>) {
	constexpr int n = sizeof...(D);
	constexpr auto names = dims<D...>{};
	u64 len[n + 1], total = 1;
	for (int k = 0; k < n; k++) len[k] = pr.r->len[(int)names.names[k]], total *= len[k];
	pr.eq(v | noarr::get_size(), total * elem, what, "(size)");
	(pr.eq(v | noarr::template get_length<D>(), len[I], what, std::string("(length of ") + probe::nm<D> + ")"), ...);
	u64 ix[n + 1];
	for (u64 k = 0; k < total; k++) {
		u64 q = k;
		for (int d = n; d-- > 0;) ix[d] = q % len[d], q /= len[d];
		pr.state();
		if (!pr.eq(v | noarr::offset(noarr::idx<D...>(ix[I]...)), k * elem, what, "(offset of element " + std::to_string(k) + ")")) break;
	}
	// the order of the dimensions
	u64 k = 0;
	bool good = true;
	noarr::traverser(v).for_each([&](auto st) { good = good && (v | noarr::offset(st)) == k * elem, k++; });
	pr.ok(good && k == total, what, "(traversal order)");
}
template<auto... D, class V>
void dense(const V &v, Probe &pr, u64 elem, const char *what) { dense_<D...>(v, pr, elem, what, std::make_index_sequence<sizeof...(D)>()); }

// a dense dimension of a huge length, at its corners
template<auto D, class V>
void large(const V &v, Probe &pr, u64 len, const char *how) {
	pr.eq(v | noarr::get_length<D>(), len, how, std::string("(length)"));
	pr.state();
}
inline u64 count(Probe &pr) { return pr.r->rows.size(); }
} // namespace sh
