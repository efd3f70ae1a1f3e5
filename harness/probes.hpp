// Type-directed probes: the only place where library structures meet the reference model.
#pragma once
#include <noarr/structures_extended.hpp>
#include <noarr/traversers.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include "rt.hpp"

namespace probe {
using rt::Probe;
using ref::u64;

// the letter the reference model uses for a dimension (other names than characters: names.hpp)
template<auto D>
inline constexpr char nm = D;

template<auto... D>
struct dims {
	static constexpr char names[sizeof...(D) + 1] = {nm<D>..., 0};
	static constexpr int n = sizeof...(D);
};

template<class S, auto... D, std::size_t... I>
void basic_(const S &s, Probe &pr, dims<D...>, std::index_sequence<I...>) {
	pr.size(s | noarr::get_size());
	(pr.len(nm<D>, s | noarr::template get_length<D>()), ...);
	u64 ix[sizeof...(D) + 1];
	pr.begin(dims<D...>::names, sizeof...(D));
	while (pr.next(ix)) {
		if (!pr.off(s | noarr::offset(noarr::idx<D...>(ix[I]...)))) break;
	}
}
// size, every length, the offset of every element
template<auto... D, class S>
void basic(const S &s, Probe &pr) {
	basic_(s, pr, dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
}

// same, for structures some of whose lengths are index-dependent: no length queries
template<class S, auto... D, std::size_t... I>
void offsets_(const S &s, Probe &pr, dims<D...>, std::index_sequence<I...>) {
	pr.size(s | noarr::get_size());
	u64 ix[sizeof...(D) + 1];
	pr.begin(dims<D...>::names, sizeof...(D));
	while (pr.next(ix)) {
		if (!pr.off(s | noarr::offset(noarr::idx<D...>(ix[I]...)))) break;
	}
}
template<auto... D, class S>
void offsets(const S &s, Probe &pr) {
	offsets_(s, pr, dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
}

// visited sequence of a traversal, in terms of dims D, must equal the model rows in order
inline void compare_seq(Probe &pr, const char *ds, int n, const std::vector<std::vector<u64>> &seq, const char *what, bool ordered = true) {
	auto &rows = pr.r->rows;
	pr.t->states += rows.size();
	pr.t->transitions += seq.size();
	std::vector<std::vector<u64>> want;
	for (auto &r : rows) {
		std::vector<u64> v;
		for (int k = 0; k < n; k++) v.push_back(r.ix[pr.r->sl(ds[k])]);
		want.push_back(v);
	}
	if (!ordered) {
		auto a = seq;
		std::sort(a.begin(), a.end());
		std::sort(want.begin(), want.end());
		if (a == want) return;
		pr.fail(std::string(what) + ": visited set differs from the valid indices (visited " + std::to_string(seq.size()) + ", valid " +
		        std::to_string(want.size()) + ")");
		return;
	}
	size_t k = 0;
	while (k < seq.size() && k < want.size() && seq[k] == want[k]) k++;
	if (k == seq.size() && k == want.size()) return;
	auto str = [&](const std::vector<std::vector<u64>> &v) {
		if (k >= v.size()) return std::string("end");
		std::string t;
		for (int i = 0; i < n; i++) t += std::string(1, ds[i]) + "=" + std::to_string(v[k][i]) + " ";
		return t;
	};
	pr.fail(std::string(what) + ": step " + std::to_string(k) + " visits " + str(seq) + " but reference order has " + str(want));
}

// ---- traversals too long to finish: the first visits, then the body aborts the traversal with an exception ----
struct enough {};
inline constexpr u64 prefix_len = 5;
// offsets of the first `max` index tuples of the loop nest (outermost first); dimensions past `outer` stay at 0
inline std::vector<u64> wide_prefix(Probe &pr, const std::string &nest, std::size_t outer, u64 max = prefix_len) {
	std::vector<u64> out;
	std::vector<u64> ix(nest.size(), 0);
	for (char c : nest)
		if (!pr.pt->len.at(c)) return out;
	while (out.size() < max) {
		std::map<char, ref::u128> m;
		for (std::size_t k = 0; k < nest.size(); k++) m[nest[k]] = ix[k];
		out.push_back((u64)pr.pt->offset(m));
		std::size_t k = outer;
		while (k > 0 && ++ix[k - 1] >= pr.pt->len.at(nest[k - 1])) ix[--k] = 0;
		if (k == 0) break;
	}
	return out;
}
// nothing to visit, but the loops around may run for ages
inline bool wide_empty(Probe &pr) {
	for (auto &kv : pr.pt->len)
		if (!kv.second) return true;
	return false;
}
// runs body(visit) where visit(offset) is to be called for every visited element
template<class F>
std::vector<u64> first_visits(F run, u64 max = prefix_len) {
	std::vector<u64> got;
	try {
		run([&](u64 off) {
			got.push_back(off);
			if (got.size() >= max) throw enough{};
		});
	} catch (const enough &) {}
	return got;
}
inline void same_prefix(Probe &pr, const std::vector<u64> &got, const std::vector<u64> &want, const char *what) {
	pr.t->states += want.size();
	pr.t->transitions += got.size();
	if (got == want) return;
	std::size_t k = 0;
	while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
	auto str = [&](const std::vector<u64> &v) { return k < v.size() ? std::to_string(v[k]) : std::string("the end"); };
	pr.fail(std::string(what) + " (first visits of a long traversal): step " + std::to_string(k) + " is at offset " + str(got) + ", the reference has " + str(want));
}

// traversal: the visited sequence must be the model's rows in order, and every state must address its row's offset
template<auto... D, class S>
void traverse(const S &s, Probe &pr) {
	if (pr.wide) {
		const std::string nest = {nm<D>...};
		if (wide_empty(pr)) return;
		same_prefix(pr, first_visits([&](auto visit) { noarr::traverser(s).for_each([&](auto st) { visit(s | noarr::offset(st)); }); }), wide_prefix(pr, nest, nest.size()), "for_each");
		return;
	}
	std::vector<std::vector<u64>> seq;
	std::vector<u64> offs;
	noarr::traverser(s).for_each([&](auto st) {
		seq.push_back({(u64)noarr::get_index<D>(st)...});
		offs.push_back(s | noarr::offset(st));
	});
	constexpr auto ds = dims<D...>{};
	int f = pr.fails;
	compare_seq(pr, ds.names, ds.n, seq, "for_each");
	if (pr.fails == f)
		for (size_t k = 0; k < offs.size(); k++)
			if (!pr.eq(offs[k], pr.r->rows[k].off, "offset of visited state", pr.r->row_str(pr.r->rows[k]))) break;
}
// the same; long traversals also by every single dimension
template<auto... D, class S>
void traverse_dims(const S &s, Probe &pr) {
	traverse<D...>(s, pr);
	if constexpr (sizeof...(D) > 1) {
		if (!pr.wide || wide_empty(pr)) return;
		const std::string nest = {nm<D>...};
		// loops over one dimension only, the others pinned to 0
		((same_prefix(pr, first_visits([&](auto visit) { noarr::traverser(s).template for_sections<D>([&](auto in) { for (u64 o : first_visits([&](auto v) { in.for_each([&](auto st) { v(s | noarr::offset(st)); }); }, 1)) visit(o); }); }),
		  wide_prefix(pr, std::string(1, nm<D>) + [&] { std::string r; for (char c : nest) if (c != nm<D>) r += c; return r; }(), 1), "for_sections")), ...);
	}
}
// lengths promised by the type of the structure are the lengths measured
template<class Sig> struct sigwalk;
template<class V> struct sigwalk<noarr::scalar_sig<V>> {
	template<class S, class St> static void go(const S &, St, Probe &) {}
};
template<auto D, class L, class R> struct sigwalk<noarr::function_sig<D, L, R>> {
	template<class S, class St> static void go(const S &s, St st, Probe &pr) {
		if constexpr (requires { L::value; }) {
			if constexpr (S::template has_length<D, St>()) {
				pr.state();
				pr.eq(s.template length<D>(st), L::value, "run-time length vs the length in the type", std::string("of ") + nm<D>);
			}
		}
		sigwalk<R>::go(s, st.template with<noarr::index_in<D>>(std::size_t(0)), pr);
	}
};
template<auto D, class... R> struct sigwalk<noarr::dep_function_sig<D, R...>> {
	template<class S, class St, std::size_t... N> static void each(const S &s, St st, Probe &pr, std::index_sequence<N...>) {
		(sigwalk<R>::go(s, st.template with<noarr::index_in<D>>(noarr::lit<N>), pr), ...);
	}
	template<class S, class St> static void go(const S &s, St st, Probe &pr) {
		if constexpr (S::template has_length<D, St>()) pr.eq(s.template length<D>(st), sizeof...(R), "run-time length vs the number of fields in the type", std::string("of ") + nm<D>);
		each(s, st, pr, std::index_sequence_for<R...>());
	}
};
template<class S> void sig_lengths(const S &s, Probe &pr) { sigwalk<typename S::signature>::go(s, noarr::empty_state, pr); }
// lengths + offsets + traversal
template<auto... D, class S>
void all(const S &s, Probe &pr) {
	basic<D...>(s, pr);
	sig_lengths(s, pr);
	if (!pr.wide) traverse<D...>(s, pr);
}
// structures with a static body/border dimension P (its index must be a compile-time constant)
template<auto P, std::size_t B, auto D>
auto mk(u64 v) {
	if constexpr (D == P) return noarr::idx<D>(noarr::lit<B>);
	else return noarr::idx<D>(v);
}
template<auto P, class S, auto... D, std::size_t... I>
void border_(const S &s, Probe &pr, dims<D...>, std::index_sequence<I...>) {
	pr.size(s | noarr::get_size());
	u64 ix[sizeof...(D) + 1];
	pr.begin(dims<D...>::names, sizeof...(D));
	while (pr.next(ix)) {
		u64 b = 0;
		((b = D == P ? ix[I] : b), ...);
		if (!pr.off(b ? u64(s | noarr::offset((mk<P, 1, D>(ix[I]) & ...))) : u64(s | noarr::offset((mk<P, 0, D>(ix[I]) & ...))))) break;
	}
}
template<auto P, auto M, auto m, auto... D, class S>
void border(const S &s, Probe &pr) {
	border_<P>(s, pr, dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
	pr.eq(s | noarr::get_length<P>(), 2, "length of border flag");
	pr.eq(s | noarr::get_length<M>(noarr::idx<P>(noarr::lit<0>)), pr.r->border_q, "body: block count");
	pr.eq(s | noarr::get_length<m>(noarr::idx<P>(noarr::lit<0>)), pr.r->border_b, "body: block size");
	pr.eq(s | noarr::get_length<M>(noarr::idx<P>(noarr::lit<1>)), 1, "border: block count");
	pr.eq(s | noarr::get_length<m>(noarr::idx<P>(noarr::lit<1>)), pr.r->border_r, "border: block size");
	sig_lengths(s, pr);
	traverse<D...>(s, pr);
}
// presence dimension p of dynamic blocks: length 1 where the element exists, 0 where it does not
template<auto M, auto m, auto p, auto... D, class S>
void present(const S &s, Probe &pr) {
	offsets<D...>(s, pr);
	u64 lM = s | noarr::get_length<M>(), lm = s | noarr::get_length<m>();
	pr.eq(lM, pr.r->len[(int)nm<M>], "block count");
	pr.eq(lm, pr.r->len[(int)nm<m>], "block size");
	if (pr.fails) return;
	for (u64 a = 0; a < lM; a++)
		for (u64 b = 0; b < lm; b++)
			pr.eq(s | noarr::get_length<p>(noarr::idx<M, m>(a, b)), a * lm + b < pr.r->border_q ? 1 : 0, "presence",
			      "at " + std::to_string(a) + "," + std::to_string(b));
	sig_lengths(s, pr);
	traverse<D...>(s, pr);
}
// structures with index-dependent lengths: size + offsets + traversal
template<auto... D, class S>
void dep(const S &s, Probe &pr) {
	offsets<D...>(s, pr);
	sig_lengths(s, pr);
	traverse<D...>(s, pr);
}
} // namespace probe

namespace probe {
// layout: size, lengths, offsets (also with the indices given in reverse order), typed element access through a real buffer
template<std::size_t N, class F>
void with_rev(const u64 (&ix)[N], F f) { f(ix); }

template<class S, auto... D, std::size_t... I>
void access_(const S &s, Probe &pr, dims<D...>, std::index_sequence<I...>) {
	constexpr std::size_t n = sizeof...(D);
	constexpr auto names = std::make_tuple(D..., 0);
	u64 ix[n + 1];
	std::vector<unsigned char> buf(pr.r->size + 64);
	unsigned char *base = buf.data() + 16;
	pr.begin(dims<D...>::names, n);
	while (pr.next(ix)) {
		u64 w = pr.want_off();
		// indices named in the opposite order
		u64 o = s | noarr::offset<std::get<n - 1 - I>(names)...>(ix[n - 1 - I]...);
		if (!pr.off(o, "offset (indices given innermost first)")) break;
		auto &e = s | noarr::get_at(static_cast<void *>(base), noarr::idx<D...>(ix[I]...));
		if (!pr.eq(reinterpret_cast<unsigned char *>(&e) - base, w, "address of the element", pr.ctx())) break;
		if (!pr.ok(w + sizeof(e) <= pr.r->size, "element lies inside the structure", pr.ctx())) break;
	}
}
template<auto... D, class S>
void layout(const S &s, Probe &pr) {
	basic<D...>(s, pr);
	if (!pr.wide) access_(s, pr, dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
}
} // namespace probe

namespace probe {
// as basic, but (some) lengths come from a state passed with each query
template<class S, class St, auto... D, std::size_t... I>
void with_state_(const S &s, St st, Probe &pr, dims<D...>, std::index_sequence<I...>) {
	pr.size(s | noarr::get_size(st));
	(pr.len(nm<D>, s | noarr::template get_length<D>(st)), ...);
	u64 ix[sizeof...(D) + 1];
	pr.begin(dims<D...>::names, sizeof...(D));
	while (pr.next(ix)) {
		if (!pr.off(s | noarr::offset(st & noarr::idx<D...>(ix[I]...)))) break;
		if (!pr.off(s | noarr::offset(noarr::idx<D...>(ix[I]...) & st), "offset (state order swapped)")) break;
	}
}
template<auto... D, class S, class St>
void with_state(const S &s, St st, Probe &pr) {
	with_state_(s, st, pr, dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
}
} // namespace probe
