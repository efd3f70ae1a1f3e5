// Traversal probes: the sequence of visited elements (as offsets in the *original* structure) against the model.
#pragma once
#include "probes.hpp"
#include "states.hpp"
#include <noarr/structures/interop/bag.hpp>
#include <type_traits>
namespace trav {
using rt::Probe;
using ref::u64;

// offsets of the model's rows sorted by the given nesting (outermost first)
inline std::vector<u64> expect(Probe &pr, const std::string &nest) {
	auto rows = pr.r->rows;
	std::vector<int> s;
	for (char c : nest) s.push_back(pr.r->sl(c));
	std::stable_sort(rows.begin(), rows.end(), [&](const ref::Row &a, const ref::Row &b) {
		for (int k : s)
			if (a.ix[k] != b.ix[k]) return a.ix[k] < b.ix[k];
		return false;
	});
	std::vector<u64> o;
	for (auto &r : rows) o.push_back(r.off);
	return o;
}
inline bool same(Probe &pr, const std::vector<u64> &got, const std::vector<u64> &want, const char *what) {
	pr.t->states += want.size();
	pr.t->transitions += got.size();
	if (got == want) return true;
	size_t k = 0;
	while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
	auto str = [&](const std::vector<u64> &v) { return k < v.size() ? std::to_string(v[k]) : std::string("end of traversal"); };
	pr.fail(std::string(what) + ": step " + std::to_string(k) + " visits element at offset " + str(got) + " but the reference order has " + str(want));
	return false;
}
template<class S, class T>
void collect(const S &s, const T &t, std::vector<u64> &out) {
	t.for_each([&](auto st) { out.push_back(s | noarr::offset(st)); });
}
// the whole traversal, nesting = signature order of the transformed structure
template<class S, class T>
void full(const S &s, const T &t, Probe &pr, const std::string &nest, const char *what = "for_each") {
	if (pr.wide) {
		using namespace probe;
		if (wide_empty(pr)) return;
		same_prefix(pr, first_visits([&](auto visit) { t.for_each([&](auto st) { visit(s | noarr::offset(st)); }); }), wide_prefix(pr, nest, nest.size()), what);
		return;
	}
	std::vector<u64> got;
	collect(s, t, got);
	same(pr, got, expect(pr, nest), what);
	std::vector<u64> g1, g2;
	t | [&](auto st) { g1.push_back(s | noarr::offset(st)); };
	t | noarr::for_each([&](auto st) { g2.push_back(s | noarr::offset(st)); });
	pr.ok(g1 == got && g2 == got, "pipe forms of for_each visit the same sequence", what);
}
// for_dims<D...>: listed dimensions become the outer loops, in the listed order
template<auto... D, class S, class T>
void dims(const S &s, const T &t, Probe &pr, const std::string &nest) {
	if (pr.wide) {
		using namespace probe;
		if (wide_empty(pr)) return;
		same_prefix(pr, first_visits([&](auto visit) { t.template for_dims<D...>([&](auto in) { for (u64 o : first_visits([&](auto v) { in.for_each([&](auto st) { v(s | noarr::offset(st)); }); }, 1)) visit(o); }); }), wide_prefix(pr, nest, sizeof...(D)), "for_dims");
		return;
	}
	std::vector<u64> got;
	t.template for_dims<D...>([&](auto inner) { collect(s, inner, got); });
	same(pr, got, expect(pr, nest), "for_dims");
	std::vector<u64> got2;
	t | noarr::for_dims<D...>([&](auto inner) { collect(s, inner, got2); });
	pr.ok(got2 == got, "pipe form of for_dims visits the same sequence");
}
// for_sections<D...>: listed dimensions become the outer loops, in the structure's order
template<auto... D, class S, class T>
void sections(const S &s, const T &t, Probe &pr, const std::string &nest, const std::string &outer) {
	if (pr.wide) {
		using namespace probe;
		if (wide_empty(pr)) return;
		same_prefix(pr, first_visits([&](auto visit) { t.template for_sections<D...>([&](auto in) { for (u64 o : first_visits([&](auto v) { in.for_each([&](auto st) { v(s | noarr::offset(st)); }); }, 1)) visit(o); }); }), wide_prefix(pr, nest, sizeof...(D)), "for_sections");
		return;
	}
	std::vector<u64> got;
	u64 calls = 0;
	t.template for_sections<D...>([&](auto inner) {
		calls++;
		collect(s, inner, got);
	});
	same(pr, got, expect(pr, nest), "for_sections");
	u64 want = 1;
	for (char c : outer) want *= pr.r->len[(int)c];
	pr.eq(calls, want, "number of sections");
	// for_each over some dimensions: the states of the sections
	std::vector<st::M> ms, me, mp;
	t.template for_sections<D...>([&](auto inner) { ms.push_back(st::map(inner.state())); });
	t.template for_each<D...>([&](auto x) { me.push_back(st::map(x)); });
	t | noarr::for_each<D...>([&](auto x) { mp.push_back(st::map(x)); });
	pr.t->states += ms.size();
	pr.ok(ms == me && ms == mp, "for_each over some dimensions gets the states of the sections, in order");
	u64 calls2 = 0;
	std::vector<u64> got2;
	t | noarr::for_sections<D...>([&](auto inner) {
		calls2++;
		collect(s, inner, got2);
	});
	pr.ok(got2 == got && calls2 == calls, "pipe form of for_sections visits the same sequence");
}
} // namespace trav
