// Introspection of a layout along one dimension, compared with brute force over the model's rows.
#pragma once
#include "probes.hpp"
#include <noarr/structures/introspection/contiguous.hpp>
#include <noarr/structures/introspection/lower_bound_along.hpp>
#include <noarr/structures/introspection/offset_along.hpp>
#include <noarr/structures/introspection/stride_along.hpp>
#include <noarr/structures/introspection/uniform_along.hpp>

namespace intro {
using ref::u64;
using rt::Probe;
using i64 = long long;

// all index tuples (other dimensions) and, for each, the offsets along dimension number K
template<auto Q, class F>
void lines(Probe &pr, const char *ds, int n, F f) {
	std::map<std::vector<u64>, std::vector<u64>> m;
	int k = 0;
	while (ds[k] != Q) k++;
	for (auto &r : pr.r->rows) {
		std::vector<u64> key;
		for (int i = 0; i < n; i++)
			if (i != k) key.push_back(r.ix[pr.r->sl(ds[i])]);
		auto &v = m[key];
		u64 i = r.ix[pr.r->sl(Q)];
		if (v.size() <= i) v.resize(i + 1);
		v[i] = r.off;
	}
	for (auto &x : m) f(x.first, x.second);
}
inline std::string show(char q, const char *ds, int n, const std::vector<u64> &key) {
	std::string s = std::string("along ") + q + " at";
	int j = 0;
	for (int i = 0; i < n; i++)
		if (ds[i] != q) s += std::string(" ") + ds[i] + "=" + std::to_string(key[j++]);
	return s;
}
// state of all dimensions but Q
template<auto Q, auto D, auto... Ds>
auto others(const u64 *k) {
	if constexpr (D == Q) {
		if constexpr (sizeof...(Ds) == 0) return noarr::idx<>();
		else return others<Q, Ds...>(k);
	} else {
		if constexpr (sizeof...(Ds) == 0) return noarr::idx<D>(*k);
		else return noarr::idx<D>(*k) & others<Q, Ds...>(k + 1);
	}
}
// strides of the step views along other dimensions than q
inline std::vector<u64> foreign_steps(Probe &pr, char q) {
	std::vector<u64> v;
	for (auto &o : ref::parse(pr.prog->ops))
		if (o.name == "step" && o.d[0] != q) v.push_back(o.p(pr.p, 1));
	return v;
}
inline bool stride_eq(Probe &pr, char q, u64 got, u64 want, const char *what, const std::string &ctx) {
	if (got != want) {
		auto v = foreign_steps(pr, q);
		for (unsigned m = 1; m < (1u << v.size()); m++) {
			u64 f = 1;
			for (size_t i = 0; i < v.size(); i++)
				if (m >> i & 1) f *= v[i];
			if (got == want * f) {
				pr.note("stride is multiplied by the step of another dimension: " + ctx + ": got " + std::to_string(got) + ", reference says " + std::to_string(want));
				return true;
			}
		}
	}
	return pr.eq(got, want, what, ctx);
}
template<auto Q, auto... D, class S>
void stride1(const S &s, Probe &pr) {
	constexpr auto ds = probe::dims<D...>::names;
	constexpr int n = sizeof...(D);
	using ST0 = noarr::state<>;
	if constexpr (noarr::HasStrideAlong<S, Q, ST0>) {
		i64 st = (i64)(u64)noarr::stride_along<Q>(s, noarr::state<>());
		lines<Q>(pr, ds, n, [&](auto &key, auto &v) {
			for (size_t i = 0; i + 1 < v.size(); i++)
				if (!stride_eq(pr, Q, (u64)st, v[i + 1] - v[i], "stride", show(Q, ds, n, key))) return;
			pr.state();
		});
	}
	u64 dummy[8] = {};
	using SO = decltype(others<Q, D...>(dummy));
	if constexpr (noarr::HasStrideAlong<S, Q, SO>) {
		lines<Q>(pr, ds, n, [&](auto &key, auto &v) {
			u64 k[8] = {};
			std::copy(key.begin(), key.end(), k);
			u64 st = (u64)(i64)noarr::stride_along<Q>(s, others<Q, D...>(k));
			for (size_t i = 0; i + 1 < v.size(); i++)
				if (!stride_eq(pr, Q, st, v[i + 1] - v[i], "stride (other indices given)", show(Q, ds, n, key))) return;
			pr.state();
		});
	} else if constexpr (STRICT_STRIDE) pr.ok(false, "stride is known", std::string(1, Q));
}
template<auto Q, auto... D, class S>
void uniform1(const S &s, Probe &pr) {
	constexpr auto ds = probe::dims<D...>::names;
	constexpr int n = sizeof...(D);
	u64 dummy[8] = {};
	using SO = decltype(others<Q, D...>(dummy));
	if constexpr (noarr::IsUniformAlong<S, Q, SO>) {
		lines<Q>(pr, ds, n, [&](auto &key, auto &v) {
			for (size_t i = 0; i + 2 < v.size(); i++)
				if (!pr.eq(v[i + 2] - v[i + 1], v[1] - v[0], "uniform step", show(Q, ds, n, key))) return;
			pr.state();
		});
	}
	if constexpr (noarr::IsUniformAlong<S, Q, noarr::state<>>) {
		bool first = true;
		u64 d = 0;
		lines<Q>(pr, ds, n, [&](auto &key, auto &v) {
			for (size_t i = 0; i + 1 < v.size(); i++) {
				if (first) d = v[i + 1] - v[i], first = false;
				if (!pr.eq(v[i + 1] - v[i], d, "uniform step everywhere", show(Q, ds, n, key))) return;
			}
			pr.state();
		});
	}
}
template<auto Q, auto... D, class S>
void offset1(const S &s, Probe &pr) {
	constexpr auto ds = probe::dims<D...>::names;
	constexpr int n = sizeof...(D);
	u64 dummy[8] = {};
	using SF = decltype(others<Q, D...>(dummy) & noarr::idx<Q>(dummy[0]));
	if constexpr (noarr::HasOffsetAlong<S, Q, SF>) {
		// the question only makes sense if the contribution of the dimension does not depend on the other indices
		bool additive = true, first = true;
		std::vector<u64> v0;
		lines<Q>(pr, ds, n, [&](auto &, auto &v) {
			std::vector<u64> d;
			for (u64 o : v) d.push_back(o - v[0]);
			if (first) v0 = d, first = false;
			else if (d != v0) additive = false;
		});
		if (!additive) return;
		lines<Q>(pr, ds, n, [&](auto &key, auto &v) {
			u64 k[8] = {};
			std::copy(key.begin(), key.end(), k);
			u64 o0 = 0;
			for (size_t i = 0; i < v.size(); i++) {
				u64 o = noarr::offset_along<Q>(s, others<Q, D...>(k) & noarr::idx<Q>(u64(i)));
				if (i == 0) o0 = o;
				if (!pr.eq(o - o0, v[i] - v[0], "offset along", show(Q, ds, n, key) + " index " + std::to_string(i))) return;
			}
			pr.state();
		});
	} else if constexpr (STRICT_OFFSET) pr.ok(false, "offset along is known", std::string(1, Q));
}
template<auto Q, bool Value, auto... D, class S>
void lower1(const S &s, Probe &pr) {
	constexpr auto ds = probe::dims<D...>::names;
	constexpr int n = sizeof...(D);
	u64 dummy[8] = {};
	using SO = decltype(others<Q, D...>(dummy));
	if constexpr (noarr::HasLowerBoundAlong<S, Q, SO>) {
		lines<Q>(pr, ds, n, [&](auto &key, auto &v) {
			if (v.empty()) return;
			u64 k[8] = {};
			std::copy(key.begin(), key.end(), k);
			u64 mn = *std::min_element(v.begin(), v.end());
			u64 at = noarr::lower_bound_at<Q>(s, others<Q, D...>(k));
			if (!pr.ok(at < v.size() && v[at] == mn, "position of the lowest element", show(Q, ds, n, key) + " said " + std::to_string(at))) return;
			u64 lb = noarr::lower_bound_along<Q>(s, others<Q, D...>(k));
			u64 o = noarr::offset_along<Q>(s, others<Q, D...>(k) & noarr::idx<Q>(u64(at)));
			if (Value && !pr.eq(lb, o, "lowest offset", show(Q, ds, n, key))) return;
			for (size_t a = 0; a < v.size(); a++)
				for (size_t b = a + 1; b <= v.size(); b++) {
					u64 m2 = *std::min_element(v.begin() + a, v.begin() + b);
					u64 p2 = noarr::lower_bound_at<Q>(s, others<Q, D...>(k), a, b);
					std::string c = show(Q, ds, n, key) + " in [" + std::to_string(a) + "," + std::to_string(b) + ") said ";
					if (!pr.ok(p2 >= a && p2 < b && v[p2] == m2, "position of the lowest element in a range", c + std::to_string(p2))) return;
					u64 l2 = noarr::lower_bound_along<Q>(s, others<Q, D...>(k), a, b);
					u64 o2 = noarr::offset_along<Q>(s, others<Q, D...>(k) & noarr::idx<Q>(u64(p2)));
					if (Value && !pr.eq(l2, o2, "lowest offset in a range", c)) return;
				}
			pr.state();
		});
	}
}
} // namespace intro
