// Availability queries: whatever a structure says it can tell, it tells, correctly, for every way to complete what is missing.
#pragma once
#include "probes.hpp"
#include <noarr/structures/extra/struct_concepts.hpp>

namespace av {
using rt::Probe;
using ref::u64;

template<auto D, bool Use>
auto ix(u64 v) {
	if constexpr (Use) return noarr::idx<D>(v);
	else return noarr::empty_state;
}
template<class S, class State>
constexpr bool can_offset() {
	if constexpr (requires { noarr::scalar<noarr::scalar_t<S, State>>(); }) return noarr::has_offset_of<noarr::scalar<noarr::scalar_t<S, State>>, S, State>();
	else return false;
}

template<class S, class State, auto D, bool Fixed>
constexpr unsigned lbit(std::size_t k) {
	if constexpr (Fixed) return 0;
	else return S::template has_length<D, State>() ? 4u << k : 0u;
}

struct Known { // what was claimed per (mask of indices, mask of lengths); bits: size, offset, length of dim k
	std::map<std::pair<unsigned, unsigned>, unsigned> seen;
	void monotone(Probe &pr, int nd) {
		for (auto &[a, x] : seen)
			for (auto &[b, y] : seen) {
				if ((a.first & b.first) != a.first || (a.second & b.second) != a.second) continue;
				unsigned lose = x & ~y;
				for (int k = 0; k < nd; k++)
					if (b.first >> k & 1) lose &= ~(4u << k); // the length of an indexed dimension is gone
				pr.state();
				pr.ok(lose == 0, "more information makes a known quantity unknown", "(what " + std::to_string(lose) + ", indices " + std::to_string(a.first) + "->" + std::to_string(b.first) + ", lengths " + std::to_string(a.second) + "->" + std::to_string(b.second) + ")");
			}
	}
};

// one kind of state: IM selects the dimensions that are indexed, the lengths in `len` are those of LM
template<unsigned IM, unsigned LM, bool Full, class S, class St, auto... D, std::size_t... I>
void one(const S &s, St len, Probe &pr, Known &kn, probe::dims<D...>, std::index_sequence<I...>) {
	constexpr unsigned all = (1u << sizeof...(D)) - 1;
	auto mk = [&](const u64 *v) { return (len & ... & ix<D, (IM >> I & 1)>(v[I])); };
	using State = decltype(mk(nullptr));
	const std::string ctx = "with indices " + std::to_string(IM) + " lengths " + std::to_string(LM);
	unsigned bits = 0;
	u64 v[sizeof...(D) + 1] = {};
	auto length = [&]<auto Q, std::size_t K>(auto st) {
		if constexpr (!(IM >> K & 1)) { // lengths of indexed dimensions are not asked for (some structures reject the question)
			constexpr bool has = S::template has_length<Q, State>();
			pr.state();
			pr.eq(s | noarr::has_length<Q, State>(), has, "has_length", ctx);
			if constexpr (has) pr.eq(s | noarr::get_length<Q>(st), pr.r->len[(int)probe::nm<Q>], "claimed length", std::string("of ") + probe::nm<Q> + " " + ctx);
			else if (Full) pr.fail(std::string("length of ") + probe::nm<Q> + " is unavailable although everything is given " + ctx);
		}
	};
	auto size = [&](auto st) {
		constexpr bool has = S::template has_size<State>();
		pr.eq(s | noarr::has_size<State>(), has, "has_size", ctx);
		if constexpr (has) pr.eq(s | noarr::get_size(st), pr.r->size, "claimed size", ctx);
		else if (Full) pr.fail("size is unavailable although everything is given " + ctx);
	};
	constexpr bool off = can_offset<S, State>();
	pr.eq(s | noarr::has_offset<State>(), off, "has_offset", ctx);
	if (off) bits |= 2;
	if (!off && Full && IM == all) pr.fail("offset is unavailable although everything is given " + ctx);
	bits |= ((S::template has_size<State>() ? 1u : 0u) | ... | lbit<S, State, D, (IM >> I & 1)>(I));
	if constexpr (IM == 0) { // with indices, only valid ones are used
		(length.template operator()<D, I>(mk(v)), ...);
		size(mk(v));
	}
	pr.begin(probe::dims<D...>::names, sizeof...(D));
	while (pr.next(v)) {
		auto st = mk(v);
		pr.state();
		if constexpr (IM) {
			u64 before = pr.fails;
			(length.template operator()<D, I>(st), ...);
			size(st);
			if (pr.fails > before) break;
		}
		if constexpr (off)
			if (!pr.off(s | noarr::offset(st), ("offset claimed " + ctx).c_str())) break;
	}
	kn.seen[{IM, LM}] = bits;
}
template<unsigned LM, bool Full, class S, class St, auto... D, std::size_t... M>
void indices(const S &s, St len, Probe &pr, Known &kn, probe::dims<D...> d, std::index_sequence<M...>) {
	(one<M, LM, Full>(s, len, pr, kn, d, std::make_index_sequence<sizeof...(D)>()), ...);
}
// all index subsets with the given lengths
template<unsigned LM, bool Full, auto... D, class S, class St>
void truth(const S &s, St len, Probe &pr, Known &kn) {
	indices<LM, Full>(s, len, pr, kn, probe::dims<D...>{}, std::make_index_sequence<(1u << sizeof...(D))>());
}

// ---- structures with a static body/border dimension P (its index is a compile-time constant R) ----------------------------
template<auto D, bool Use, auto P, std::size_t R>
auto ixp(u64 v) {
	if constexpr (!Use) return noarr::empty_state;
	else if constexpr (D == P) return noarr::idx<D>(noarr::lit<R>);
	else return noarr::idx<D>(v);
}
template<class S, class State, auto D, bool Ask>
constexpr unsigned lbitp(std::size_t k) {
	if constexpr (!Ask) return 0;
	else return S::template has_length<D, State>() ? 4u << k : 0u;
}
template<std::size_t R, unsigned IM, unsigned LM, bool Full, auto P, auto M, auto m, class S, class St, auto... D, std::size_t... I>
void onep(const S &s, St len, Probe &pr, Known &kn, probe::dims<D...>, std::index_sequence<I...>) {
	constexpr unsigned all = (1u << sizeof...(D)) - 1;
	constexpr bool pinned = (false || ... || (D == P && (IM >> I & 1)));
	auto mk = [&](const u64 *v) { return (len & ... & ixp<D, (IM >> I & 1), P, R>(v[I])); };
	using State = decltype(mk(nullptr));
	const std::string ctx = "with indices " + std::to_string(IM) + " lengths " + std::to_string(LM) + (!pinned ? "" : R ? " in the border" : " in the body");
	auto length = [&]<auto Q, std::size_t K>(auto st) {
		if constexpr (!(IM >> K & 1) && (pinned || (Q != M && Q != m))) {
			constexpr bool has = S::template has_length<Q, State>();
			pr.state();
			pr.eq(s | noarr::has_length<Q, State>(), has, "has_length", ctx);
			u64 want = Q == P ? 2 : Q == M ? (R ? 1 : pr.r->border_q) : Q == m ? (R ? pr.r->border_r : pr.r->border_b) : pr.r->len[(int)probe::nm<Q>];
			if constexpr (has) pr.eq(s | noarr::get_length<Q>(st), want, "claimed length", std::string("of ") + probe::nm<Q> + " " + ctx);
			else if (Full || Q == P || (Q == M && R) || (Q == m && !R)) pr.fail(std::string("length of ") + probe::nm<Q> + " is unavailable although everything it depends on is given " + ctx);
		}
	};
	auto size = [&](auto st) {
		constexpr bool has = S::template has_size<State>();
		pr.eq(s | noarr::has_size<State>(), has, "has_size", ctx);
		if constexpr (has) pr.eq(s | noarr::get_size(st), pr.r->size, "claimed size", ctx);
		else if (Full) pr.fail("size is unavailable although everything is given " + ctx);
	};
	constexpr bool off = noarr::has_offset_of<noarr::scalar<int>, S, State>();
	if constexpr (pinned) pr.eq(s | noarr::has_offset<State>(), off, "has_offset", ctx);
	if (!off && Full && IM == all) pr.fail("offset is unavailable although everything is given " + ctx);
	unsigned bits = (off ? 2u : 0u);
	bits |= ((S::template has_size<State>() ? 1u : 0u) | ... | lbitp<S, State, D, !(IM >> I & 1) && (pinned || (D != M && D != m))>(I));
	u64 v[sizeof...(D) + 1] = {};
	if constexpr ((IM & ~(pinned ? ((0u | ... | (D == P ? 1u << I : 0u))) : 0u)) == 0) {
		(length.template operator()<D, I>(mk(v)), ...);
		size(mk(v));
	}
	pr.begin(probe::dims<D...>::names, sizeof...(D));
	while (pr.next(v)) {
		u64 b = 0;
		((b = D == P ? v[I] : b), ...);
		if (b != R) continue;
		auto st = mk(v);
		pr.state();
		if constexpr (IM) {
			u64 before = pr.fails;
			(length.template operator()<D, I>(st), ...);
			size(st);
			if (pr.fails > before) break;
		}
		if constexpr (off)
			if (!pr.off(noarr::offset_of<noarr::scalar<int>>(s, st), ("offset claimed " + ctx).c_str())) break;
	}
	kn.seen[{IM, LM}] = bits;
}
template<std::size_t R, unsigned LM, bool Full, auto P, auto M, auto m, class S, class St, auto... D, std::size_t... X>
void indicesp(const S &s, St len, Probe &pr, Known &kn, probe::dims<D...> d, std::index_sequence<X...>) {
	(onep<R, X, LM, Full, P, M, m>(s, len, pr, kn, d, std::make_index_sequence<sizeof...(D)>()), ...);
}
template<std::size_t R, unsigned LM, bool Full, auto P, auto M, auto m, auto... D, class S, class St>
void truthp(const S &s, St len, Probe &pr, Known &kn) {
	indicesp<R, LM, Full, P, M, m>(s, len, pr, kn, probe::dims<D...>{}, std::make_index_sequence<(1u << sizeof...(D))>());
}

// ---- splits with an incomplete last block: the length of the presence dimension depends on the two indices -----------------
template<unsigned IM, unsigned LM, bool Full, auto P, auto M, auto m, class S, class St, auto... D, std::size_t... I>
void oned(const S &s, St len, Probe &pr, Known &kn, probe::dims<D...>, std::index_sequence<I...>) {
	constexpr unsigned all = (1u << sizeof...(D)) - 1;
	auto mk = [&](const u64 *v) { return (len & ... & ix<D, (IM >> I & 1)>(v[I])); };
	using State = decltype(mk(nullptr));
	constexpr bool hM = (false || ... || (D == M && (IM >> I & 1))), hm = (false || ... || (D == m && (IM >> I & 1)));
	const std::string ctx = "with indices " + std::to_string(IM) + " lengths " + std::to_string(LM);
	auto length = [&]<auto Q, std::size_t K>(auto st, const u64 *v) {
		if constexpr (!(IM >> K & 1)) {
			constexpr bool has = S::template has_length<Q, State>();
			pr.state();
			pr.eq(s | noarr::has_length<Q, State>(), has, "has_length", ctx);
			u64 want = pr.r->len[(int)probe::nm<Q>];
			if (Q == P) {
				u64 a = 0, b = 0;
				((a = D == M ? v[I] : a, b = D == m ? v[I] : b), ...);
				want = a * pr.r->len[(int)probe::nm<m>] + b < pr.r->border_q;
			}
			if constexpr (has) pr.eq(s | noarr::get_length<Q>(st), want, "claimed length", std::string("of ") + probe::nm<Q> + " " + ctx);
			else if (Full && (Q != P || (hM && hm))) pr.fail(std::string("length of ") + probe::nm<Q> + " is unavailable although everything is given " + ctx);
			if (Q == P && has && !(hM && hm)) pr.fail("the presence of an unknown element is claimed " + ctx);
		}
	};
	auto size = [&](auto st) {
		constexpr bool has = S::template has_size<State>();
		pr.eq(s | noarr::has_size<State>(), has, "has_size", ctx);
		if constexpr (has) pr.eq(s | noarr::get_size(st), pr.r->size, "claimed size", ctx);
		else if (Full) pr.fail("size is unavailable although everything is given " + ctx);
	};
	constexpr bool off = can_offset<S, State>();
	pr.eq(s | noarr::has_offset<State>(), off, "has_offset", ctx);
	if (!off && Full && IM == all) pr.fail("offset is unavailable although everything is given " + ctx);
	unsigned bits = (off ? 2u : 0u);
	bits |= ((S::template has_size<State>() ? 1u : 0u) | ... | lbitp<S, State, D, !(IM >> I & 1)>(I));
	u64 v[sizeof...(D) + 1] = {};
	if constexpr (IM == 0) {
		(length.template operator()<D, I>(mk(v), v), ...);
		size(mk(v));
	}
	pr.begin(probe::dims<D...>::names, sizeof...(D));
	while (pr.next(v)) {
		auto st = mk(v);
		pr.state();
		if constexpr (IM) {
			u64 before = pr.fails;
			(length.template operator()<D, I>(st, v), ...);
			size(st);
			if (pr.fails > before) break;
		}
		if constexpr (off)
			if (!pr.off(s | noarr::offset(st), ("offset claimed " + ctx).c_str())) break;
	}
	if constexpr (hM && hm && IM == ((0u | ... | (D == M || D == m ? 1u << I : 0u)))) // elements that do not exist
		for (u64 a = 0; a < pr.r->len[(int)probe::nm<M>]; a++)
			for (u64 b = 0; b < pr.r->len[(int)probe::nm<m>]; b++) {
				((v[I] = D == M ? a : D == m ? b : 0), ...);
				(length.template operator()<D, I>(mk(v), v), ...);
			}
	kn.seen[{IM, LM}] = bits;
}
template<unsigned LM, bool Full, auto P, auto M, auto m, class S, class St, auto... D, std::size_t... X>
void indicesd(const S &s, St len, Probe &pr, Known &kn, probe::dims<D...> d, std::index_sequence<X...>) {
	(oned<X, LM, Full, P, M, m>(s, len, pr, kn, d, std::make_index_sequence<sizeof...(D)>()), ...);
}
template<unsigned LM, bool Full, auto P, auto M, auto m, auto... D, class S, class St>
void truthd(const S &s, St len, Probe &pr, Known &kn) {
	indicesd<LM, Full, P, M, m>(s, len, pr, kn, probe::dims<D...>{}, std::make_index_sequence<(1u << sizeof...(D))>());
}

// ---- tuples: their values are computed by the caller ------------------------------------------------------------------------
inline u64 up(u64 n, u64 a) { return (n + a - 1) / a * a; }
template<bool Full, class S, class St>
void tsize(const S &s, St st, u64 want, Probe &pr, const char *what) {
	pr.state();
	constexpr bool has = S::template has_size<St>();
	pr.eq(s | noarr::has_size<St>(), has, "has_size", what);
	if constexpr (has) pr.eq(s | noarr::get_size(st), want, "claimed size", what);
	else if (Full) pr.fail(std::string("size is unavailable although everything is given ") + what);
}
template<bool Full, auto Q, class S, class St>
void tlen(const S &s, St st, u64 want, Probe &pr, const char *what) {
	pr.state();
	constexpr bool has = S::template has_length<Q, St>();
	pr.eq(s | noarr::has_length<Q, St>(), has, "has_length", what);
	if constexpr (has) pr.eq(s | noarr::get_length<Q>(st), want, "claimed length", what);
	else if (Full) pr.fail(std::string("length is unavailable although everything is given ") + what);
}
template<bool Full, class T, class S, class St>
void toff(const S &s, St st, u64 want, Probe &pr, const char *what) {
	pr.state();
	constexpr bool has = noarr::has_offset_of<noarr::scalar<T>, S, St>();
	if constexpr (has) pr.eq(noarr::offset_of<noarr::scalar<T>>(s, st), want, "claimed offset", what);
	else if (Full) pr.fail(std::string("offset is unavailable although everything is given ") + what);
}
} // namespace av
