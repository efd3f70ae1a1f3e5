// Parts of structures: where a part lies in the whole, which element of the part an index of the whole means.
#pragma once
#include "probes.hpp"
#include <tuple>
namespace part {
using rt::Probe;
using ref::u64;

template<class T> inline constexpr bool is_index = false;
template<auto D, class V> inline constexpr bool is_index<noarr::state_item<noarr::index_in<D>, V>> = true;
// the lengths of a state, without its indices
template<class... I>
constexpr auto lengths(noarr::state<I...> st) {
	auto one = [&]<class T>(T *) {
		if constexpr (is_index<T>) return noarr::empty_state;
		else return st.template filter<typename T::tag>();
	};
	return (noarr::empty_state & ... & one(static_cast<I *>(nullptr)));
}
template<auto D, bool Use>
auto ix(u64 v) {
	if constexpr (Use) return noarr::idx<D>(v);
	else return noarr::empty_state;
}
// indices of a state stay within the lengths of the part (where it can tell them)
template<class S, class All, class... I>
void in_range(const S &s, All st, noarr::state<I...>, Probe &pr) {
	auto one = [&]<auto D, class V>(noarr::state_item<noarr::index_in<D>, V> *) {
		auto rest = st.template remove<noarr::index_in<D>>();
		using R = decltype(rest);
		if constexpr (S::template has_length<D, R>()) {
			pr.state();
			pr.ok(u64(st.template get<noarr::index_in<D>>()) < u64(s.template length<D>(rest)), "index in the part is below the length of the part", pr.ctx());
		}
	};
	auto any = [&]<class T>(T *p) {
		if constexpr (is_index<T>) one(p);
	};
	(any(static_cast<I *>(nullptr)), ...);
}

// what remains of a state inside a part that was reached through a layout: indices and lengths of the dimensions of the part
template<class P, class... I>
auto inside(noarr::state<I...> st) {
	auto keep = [&]<template<auto> class Tag, auto D, class V>(std::type_identity<noarr::state_item<Tag<D>, V>>) {
		if constexpr (P::signature::template any_accept<D>) return st.template filter<Tag<D>>();
		else return noarr::empty_state;
	};
	return (noarr::empty_state & ... & keep(std::type_identity<I>()));
}
// the state of `p` for the state `st` of the outermost of the layers around it
template<class P, class St>
auto reach(St st, const P &) { return st; }
template<class P, class St, class L, class... Ls>
auto reach(St st, const P &p, const L &l, const Ls &...ls) {
	const auto at = reach(st, l, ls...);
	using At = std::remove_const_t<decltype(at)>;
	if constexpr (noarr::has_state_at<P, L, At>()) return noarr::state_at<P>(l, at);
	else return inside<P>(at);
}
template<class... A, class... B>
bool same_state(noarr::state<A...> a, noarr::state<B...> b) {
	if constexpr (sizeof...(A) != sizeof...(B)) return false;
	else if constexpr ((... && noarr::state_contains<noarr::state<B...>, typename A::tag>)) return (... && (u64(a.template get<typename A::tag>()) == u64(b.template get<typename A::tag>())));
	else return false;
}

// `P` is one part of `S`, `ls` are the layers around it up to `S` (innermost first); E: type of elements
template<class E, bool Must, class S, class P, class St, class... Ls>
bool one(const S &s, St st, Probe &pr, u64 want, bool strict, unsigned char *mem, const P &p, const Ls &...ls) {
	static_assert(noarr::has_offset_of<P, S, St>(), "the place of a part is known when all indices are");
	static_assert(!Must || noarr::has_state_at<P, S, St>(), "an index of the whole means an index of the part");
	pr.state();
	const u64 o = noarr::offset_of<P>(s, st);
	const auto in = reach(st, p, ls...);
	if constexpr (noarr::has_state_at<P, S, St>()) pr.ok(same_state(noarr::state_at<P>(s, st), in), "the index in the part, asked from the whole and layer by layer", pr.ctx());
	const u64 i = noarr::offset_of<noarr::scalar<E>>(p, in);
	if (!pr.eq(o, s | noarr::offset<P>(st), "offset of the part, asked by |", pr.ctx())) return false;
	if (!pr.eq(u64(o + i), want, "place of the part + place in the part", pr.ctx())) return false;
	if (!pr.eq(i, p | noarr::offset(in), "place in the part, asked by |", pr.ctx())) return false;
	const auto len = lengths(in);
	if constexpr (P::template has_size<std::remove_const_t<decltype(len)>>()) {
		const u64 sz = p.size(len);
		if (!pr.ok(i + sizeof(E) <= sz, "the element lies inside the part", pr.ctx() + " offset " + std::to_string(i) + " size " + std::to_string(sz))) return false;
		if (strict && !pr.ok(o % sz == 0, "the place of the part is a multiple of its size", pr.ctx() + " offset " + std::to_string(o) + " size " + std::to_string(sz))) return false;
	}
	in_range(p, in, in, pr);
	if (mem) {
		void *v = mem + o;
		const void *cv = v;
		volatile void *vv = v;
		const volatile void *cvv = v;
		static_assert(std::is_same_v<decltype(p | noarr::get_at(v, in)), E &> && std::is_same_v<decltype(p | noarr::get_at(cv, in)), const E &>);
		static_assert(std::is_same_v<decltype(p | noarr::get_at(vv, in)), volatile E &> && std::is_same_v<decltype(p | noarr::get_at(cvv, in)), const volatile E &>);
		auto *w = &(s | noarr::get_at(static_cast<void *>(mem), st));
		pr.ok(&(p | noarr::get_at(v, in)) == w && &(p | noarr::get_at(cv, in)) == w && &(p | noarr::get_at(vv, in)) == w && &(p | noarr::get_at(cvv, in)) == w, "the element accessed through the part", pr.ctx());
	}
	return true;
}
// a part of a part
template<class A, class S, class B, class St, class... Ls>
void nested(const S &s, St st, Probe &pr, const B &b, const Ls &...ls) {
	pr.state();
	const auto in = reach(st, b, ls...);
	pr.eq(noarr::offset_of<A>(s, st), noarr::offset_of<B>(s, st) + noarr::offset_of<A>(b, in), "a part of a part is a part of the whole", pr.ctx());
}

// knowledge from some of the indices is right for every completion
template<unsigned IM, bool Must, class S, class P, auto... D, std::size_t... I>
void partial(const S &s, const P &, Probe &pr, probe::dims<D...>, std::index_sequence<I...>) {
	using State = decltype((noarr::empty_state & ... & ix<D, (IM >> I & 1)>(0)));
	constexpr bool has = noarr::has_offset_of<P, S, State>();
	pr.state();
	pr.eq(s | noarr::has_offset<P, State>(), has, "has_offset of a part");
	if constexpr (Must) pr.ok(has, "the place of a part is known from the indices around it", std::to_string(IM));
	if constexpr (has) {
		u64 v[sizeof...(D) + 1] = {};
		pr.begin(probe::dims<D...>::names, sizeof...(D));
		while (pr.next(v)) {
			pr.state();
			if (!pr.eq(noarr::offset_of<P>(s, (noarr::empty_state & ... & ix<D, (IM >> I & 1)>(v[I]))), noarr::offset_of<P>(s, noarr::idx<D...>(v[I]...)), "place of the part from some of the indices", pr.ctx() + " known " + std::to_string(IM))) break;
		}
	}
}

// Outer: how many of the dimensions D (outermost first) surround the part; -1: unknown (views); -2: partial knowledge is not asked for
template<class E, int Outer, bool Must, auto... D, class S, class P, class... Ls>
void check(const S &s, Probe &pr, const P &p, const Ls &...ls) {
	constexpr std::size_t n = sizeof...(D);
	static_assert(!noarr::has_offset_of<noarr::vector_t<'?', P>, S, noarr::state<>>(), "not a part");
	std::vector<unsigned char> buf(pr.wide ? 0 : pr.r->size + 64);
	unsigned char *mem = nullptr;
	if (!pr.wide) {
		mem = buf.data();
		while (reinterpret_cast<std::uintptr_t>(mem) % 32) mem++;
	}
	u64 v[n + 1] = {};
	pr.begin(probe::dims<D...>::names, n);
	[&]<std::size_t... I>(std::index_sequence<I...> is) {
		while (pr.next(v)) {
			if (!one<E, Must>(s, noarr::idx<D...>(v[I]...), pr, pr.want_off(), true, mem, p, ls...)) break;
			if constexpr (n > 0) pr.eq(s | noarr::offset<P, D...>(v[I]...), noarr::offset_of<P>(s, noarr::idx<D...>(v[I]...)), "offset of the part, asked with plain indices", pr.ctx());
		}
		if constexpr (Outer > -2) [&]<std::size_t... M>(std::index_sequence<M...>) {
			(partial<M, Outer >= 0 && (M & ((1u << (Outer < 0 ? 0 : Outer)) - 1)) == (1u << (Outer < 0 ? 0 : Outer)) - 1>(s, p, pr, probe::dims<D...>{}, is), ...);
		}(std::make_index_sequence<(1u << n)>());
	}(std::make_index_sequence<n>());
}
// A: a part of b, which is a part of s
template<class A, auto... D, class S, class B, class... Ls>
void check_nested(const S &s, Probe &pr, const B &b, const Ls &...ls) {
	constexpr std::size_t n = sizeof...(D);
	u64 v[n + 1] = {};
	pr.begin(probe::dims<D...>::names, n);
	[&]<std::size_t... I>(std::index_sequence<I...>) {
		while (pr.next(v)) nested<A>(s, noarr::idx<D...>(v[I]...), pr, b, ls...);
	}(std::make_index_sequence<n>());
}

// ---- structures some of whose lengths are not set: whatever is claimed can be asked, and is right --------------------------------
template<auto D, bool Use>
auto ln(u64 v) {
	if constexpr (Use) return noarr::empty_state.template with<noarr::length_in<D>>(std::size_t(v));
	else return noarr::empty_state;
}
template<unsigned IM, unsigned LM, class S, class P, auto... D, std::size_t... I, auto... O, std::size_t... J>
void open_one(const S &s, const P &, Probe &pr, const u64 *len, probe::dims<D...>, std::index_sequence<I...>, probe::dims<O...>, std::index_sequence<J...>) {
	auto mk = [&](const u64 *v) { return ((noarr::empty_state & ... & ix<D, (IM >> I & 1)>(v[I])) & ... & ln<O, (LM >> J & 1)>(len[J])); };
	using State = decltype(mk(nullptr));
	constexpr bool has = noarr::has_offset_of<P, S, State>();
	pr.state();
	pr.eq(s | noarr::has_offset<P, State>(), has, "has_offset of a part");
	constexpr bool all = IM == (1u << sizeof...(D)) - 1 && LM == (1u << sizeof...(O)) - 1;
	static_assert(!all || has, "the place of a part is known when everything is");
	u64 v[sizeof...(D) + 1] = {};
	pr.begin(probe::dims<D...>::names, sizeof...(D));
	while (pr.next(v)) {
		const auto full = (noarr::idx<D...>(v[I]...) & ... & ln<O, true>(len[J]));
		const std::string ctx = "indices " + std::to_string(IM) + " lengths " + std::to_string(LM);
		if constexpr (has) {
			pr.state();
			if (!pr.eq(noarr::offset_of<P>(s, mk(v)), noarr::offset_of<P>(s, full), "claimed place of the part", pr.ctx() + ctx)) break;
		}
		if constexpr (noarr::has_state_at<P, S, State>()) {
			pr.state();
			const auto a = noarr::state_at<P>(s, mk(v)), b = noarr::state_at<P>(s, full);
			bool same = true;
			[&]<class... A>(noarr::state<A...>) { ((same = same && u64(a.template get<typename A::tag>()) == u64(b.template get<typename A::tag>())), ...); }(a);
			if (!pr.ok(same, "claimed index in the part", pr.ctx() + ctx)) break;
		}
	}
}
// Lens: the dimensions whose lengths are missing, `len` their lengths; every subset of them, every subset of the indices D
template<class Lens, auto... D, class S, class P>
void open(const S &s, Probe &pr, const P &p, std::initializer_list<u64> len) {
	[&]<auto... O>(probe::dims<O...> o) {
		[&]<std::size_t... M>(std::index_sequence<M...>) {
			auto each = [&]<std::size_t LM>(std::integral_constant<std::size_t, LM>) {
				(open_one<M, LM>(s, p, pr, len.begin(), probe::dims<D...>{}, std::make_index_sequence<sizeof...(D)>(), o, std::make_index_sequence<sizeof...(O)>()), ...);
			};
			[&]<std::size_t... L>(std::index_sequence<L...>) { (each(std::integral_constant<std::size_t, L>()), ...); }(std::make_index_sequence<(1u << sizeof...(O))>());
		}(std::make_index_sequence<(1u << sizeof...(D))>());
	}(Lens{});
}

// ---- structures with tuple dimensions: states come from a traversal (what it visits is decided by P24) -------------------------
template<class S, class P, class... Ls>
void visited(const S &s, Probe &pr, const P &p, const Ls &...ls) {
	noarr::traverser(s).for_each([&](auto st) {
		using St = decltype(st);
		using E = noarr::scalar_t<S, St>;
		one<E, false>(s, st, pr, s | noarr::offset(st), false, nullptr, p, ls...);
	});
}
template<class A, class S, class B, class... Ls>
void visited_nested(const S &s, Probe &pr, const B &b, const Ls &...ls) {
	noarr::traverser(s).for_each([&](auto st) {
		if constexpr (noarr::has_offset_of<A, S, decltype(st)>()) nested<A>(s, st, pr, b, ls...);
	});
}
// fields: exactly the field of the visited element is a part
template<class S, class... F, class... Ls>
void fields(const S &s, Probe &pr, const std::tuple<F...> &f, const Ls &...ls) {
	noarr::traverser(s).for_each([&](auto st) {
		using St = decltype(st);
		using E = noarr::scalar_t<S, St>;
		int hits = 0;
		auto each = [&]<class P>(const P &p) {
			if constexpr (noarr::has_offset_of<P, S, St>()) {
				hits++;
				one<E, false>(s, st, pr, s | noarr::offset(st), false, nullptr, p, ls...);
			}
		};
		std::apply([&](const auto &...p) { (each(p), ...); }, f);
		pr.eq(u64(hits), 1, "fields the element is in");
	});
}
} // namespace part
