// Ranges and iterators over a traverser.
#pragma once
#include "trav.hpp"
#include <noarr/structures/interop/traverser_iter.hpp>
namespace itr {
using rt::Probe;
using ref::u64;

// rows of the model with dimension d restricted to [b,e), nested as `nest`
inline std::vector<u64> part(Probe &pr, const std::string &nest, char d, u64 b, u64 e) {
	auto rows = pr.r->rows;
	int sd = pr.r->sl(d);
	rows.erase(std::remove_if(rows.begin(), rows.end(), [&](const ref::Row &r) { return r.ix[sd] < b || r.ix[sd] >= e; }), rows.end());
	std::vector<int> s;
	for (char c : nest) s.push_back(pr.r->sl(c));
	std::sort(rows.begin(), rows.end(), [&](const ref::Row &x, const ref::Row &y) {
		for (int k : s)
			if (x.ix[k] != y.ix[k]) return x.ix[k] < y.ix[k];
		return false;
	});
	std::vector<u64> o;
	for (auto &r : rows) o.push_back(r.off);
	return o;
}
template<class S, class T>
std::vector<u64> els(const S &s, const T &t) {
	std::vector<u64> v;
	trav::collect(s, t, v);
	return v;
}

// range r over dimension d of traverser t; nest: d first; natural: nesting of the traverser itself
template<class S, class R>
void range(const S &s, R r, Probe &pr, char d, const std::string &nest, const std::string &natural, bool sub = true) {
	u64 n = pr.r->len[(int)d];
	pr.eq(r.size(), n, "size of range");
	pr.eq(r.empty(), n == 0, "empty()");
	pr.eq(r.is_divisible(), n > 1, "is_divisible()");
	if (pr.fails) return;
	std::vector<u64> got;
	for (auto e : r) trav::collect(s, e, got);
	trav::same(pr, got, part(pr, nest, d, 0, n), "range-based for");
	got.clear();
	for (u64 k = 0; k < n; k++) trav::collect(s, r[k], got);
	trav::same(pr, got, part(pr, nest, d, 0, n), "range[i]");
	got.clear();
	r.for_each([&](auto st) { got.push_back(s | noarr::offset(st)); });
	trav::same(pr, got, part(pr, natural, d, 0, n), "range.for_each");
	// iterator laws over all pairs of positions
	auto b = r.begin(), e = r.end();
	pr.eq(e - b, n, "end - begin");
	pr.ok(b == r.cbegin() && e == r.cend(), "cbegin/cend");
	for (u64 i = 0; i <= n; i++) {
		auto it = b + (std::ptrdiff_t)i;
		auto it2 = (std::ptrdiff_t)i + b;
		pr.ok(it == it2, "n + it == it + n");
		pr.ok(e - (std::ptrdiff_t)(n - i) == it, "end - n");
		if (i < n) pr.ok(els(s, *it) == part(pr, nest, d, i, i + 1), "*(begin + i)", std::to_string(i));
		for (u64 j = 0; j <= n; j++) {
			auto jt = b;
			jt += (std::ptrdiff_t)j;
			pr.ok((it == jt) == (i == j) && (it != jt) == (i != j), "iterator equality", std::to_string(i) + "," + std::to_string(j));
			pr.ok((it < jt) == (i < j) && (it <= jt) == (i <= j) && (it > jt) == (i > j) && (it >= jt) == (i >= j), "iterator ordering", std::to_string(i) + "," + std::to_string(j));
			pr.ok(jt - it == (std::ptrdiff_t)j - (std::ptrdiff_t)i, "iterator difference", std::to_string(i) + "," + std::to_string(j));
			if (j < n) pr.ok(els(s, it[(std::ptrdiff_t)j - (std::ptrdiff_t)i]) == part(pr, nest, d, j, j + 1), "it[n]", std::to_string(i) + "," + std::to_string(j));
			jt -= (std::ptrdiff_t)j - (std::ptrdiff_t)i;
			pr.ok(jt == it, "it -= n");
		}
	}
	if (!sub) return;
	// every sub-range
	for (u64 x = 0; x <= n; x++)
		for (u64 y = x; y <= n; y++) {
			auto q = r;
			q.begin_idx = x, q.end_idx = y;
			std::string c = "[" + std::to_string(x) + "," + std::to_string(y) + ")";
			pr.eq(q.size(), y - x, "size of sub-range", c);
			pr.eq(q.empty(), x == y, "empty() of sub-range", c);
			pr.eq(q.is_divisible(), y - x > 1, "is_divisible() of sub-range", c);
			pr.ok(els(s, q) == part(pr, natural, d, x, y), "sub-range for_each", c);
			pr.ok(els(s, q.as_traverser()) == part(pr, natural, d, x, y), "sub-range as_traverser", c);
			pr.ok(els(s, q.order(noarr::neutral_proto())) == part(pr, natural, d, x, y), "sub-range order(neutral)", c);
			std::vector<u64> g;
			for (auto el : q) trav::collect(s, el, g);
			pr.ok(g == part(pr, nest, d, x, y), "iteration of a sub-range", c);
			g.clear();
			for (u64 k = 0; k < y - x; k++) trav::collect(s, q[k], g);
			pr.ok(g == part(pr, nest, d, x, y), "sub-range[i]", c);
			pr.eq(q.end() - q.begin(), y - x, "sub-range end - begin", c);
		}
}

// all sequences of iterator operations up to a depth, the model is an integer position
template<class S, class R>
void histories(const S &s, R r, Probe &pr, char d, const std::string &nest, int depth) {
	u64 n = pr.r->len[(int)d];
	auto b = r.begin();
	using It = decltype(b);
	std::function<void(It, long, int, std::string)> go = [&](It it, long pos, int left, std::string h) {
		pr.state();
		if (!pr.eq(it - b, (u64)pos, "position after", h)) return;
		if (pos < (long)n && !pr.ok(els(s, *it) == part(pr, nest, d, pos, pos + 1), "element after", h)) return;
		if (!left || pr.fails) return;
		auto in = [&](long p) { return p >= 0 && p <= (long)n; };
		if (in(pos + 1)) {
			It a = it; It &ra = ++a; pr.ok(&ra == &a, "++it returns itself"); go(a, pos + 1, left - 1, h + " ++it");
			It c = it; It old = c++; pr.ok(old == it && c - it == 1, "it++ returns the old position", h); go(c, pos + 1, left - 1, h + " it++");
		}
		if (in(pos - 1)) {
			It a = it; It &ra = --a; pr.ok(&ra == &a, "--it returns itself"); go(a, pos - 1, left - 1, h + " --it");
			It c = it; It old = c--; pr.ok(old == it && it - c == 1, "it-- returns the old position", h); go(c, pos - 1, left - 1, h + " it--");
		}
		for (long k : {2l, -2l, 0l}) {
			if (!in(pos + k)) continue;
			It a = it; a += k; go(a, pos + k, left - 1, h + " it+=" + std::to_string(k));
			It c = it; c -= -k; go(c, pos + k, left - 1, h + " it-=" + std::to_string(-k));
			go(it + k, pos + k, left - 1, h + " it+" + std::to_string(k));
			go(it - (-k), pos + k, left - 1, h + " it-" + std::to_string(-k));
		}
	};
	go(b, 0, depth, "");
}
} // namespace itr
namespace itr {
// positions far beyond 32 bits: a structure over d with p[0] elements of e bytes each (never traversed as a whole)
template<auto D, class S, class R>
void wide(const S &s, R r, Probe &pr, u64 n, u64 e, const char *what) {
	typedef std::ptrdiff_t P;
	std::vector<u64> w;
	for (u64 x : {u64(0), u64(1), u64(255), u64(256), u64(32767), u64(32768), u64(65535), u64(65536), (u64(1) << 31) - 1, u64(1) << 31, (u64(1) << 32) - 1, u64(1) << 32, (u64(1) << 32) + 1, n / 2, n - 1, n})
		if (x <= n && std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x);
	auto b = r.begin(), z = r.end();
	pr.eq(z - b, n, what, "end - begin");
	for (u64 i : w) {
		pr.state();
		auto it = b + P(i);
		pr.eq(it - b, i, what, "(begin + i) - begin");
		pr.ok(z - P(n - i) == it && P(i) + b == it, what, "end - (n - i) and i + begin");
		if (i < n) pr.ok(els(s, *it) == std::vector<u64>{i * e}, what, "*(begin + " + std::to_string(i) + ")");
		for (u64 j : w) {
			auto jt = b;
			jt += P(j);
			std::string c = std::to_string(i) + "," + std::to_string(j);
			pr.ok(jt - it == P(j) - P(i), what, "difference " + c);
			pr.ok((it == jt) == (i == j) && (it != jt) == (i != j) && (it < jt) == (i < j) && (it <= jt) == (i <= j) && (it > jt) == (i > j) && (it >= jt) == (i >= j), what, "relations " + c);
			if (j < n) pr.ok(els(s, it[P(j) - P(i)]) == std::vector<u64>{j * e}, what, "it[n] " + c);
			jt -= P(j) - P(i);
			pr.ok(jt == it, what, "it -= n " + c);
			auto kt = it;
			if (i < n) ++kt, pr.eq(kt - b, i + 1, what, "++it");
			if constexpr (requires { r.begin_idx; }) {
				if (i > j) continue;
				auto q = r;
				q.begin_idx = i, q.end_idx = j;
				pr.eq(q.size(), j - i, what, "size of sub-range " + c);
				pr.eq(q.empty(), i == j, what, "empty() of sub-range " + c);
				pr.eq(q.is_divisible(), j - i > 1, what, "is_divisible() of sub-range " + c);
				pr.eq(q.end() - q.begin(), j - i, what, "end - begin of sub-range " + c);
				if (i < j) pr.ok(els(s, q[0]) == std::vector<u64>{i * e} && els(s, q[j - i - 1]) == std::vector<u64>{(j - 1) * e} && els(s, *q.begin()) == std::vector<u64>{i * e}, what, "first and last element of sub-range " + c);
				if (j - i < 3) {
					std::vector<u64> want;
					for (u64 k = i; k < j; k++) want.push_back(k * e);
					pr.ok(els(s, q) == want && els(s, q.as_traverser()) == want, what, "elements of sub-range " + c);
				}
			}
		}
	}
}
} // namespace itr
