// Plain values: byte-wise copies, sizes of objects, constant evaluation.
#pragma once
#include "probes.hpp"
#include <noarr/structures/interop/traverser_iter.hpp>
#include <cstdlib>
#include <cstring>
#include <new>
#include <type_traits>
namespace val {
using rt::Probe;
using ref::u64;

constexpr u64 mix(u64 h, u64 v) { return (h ^ v) * 1099511628211ull + (h >> 29); }
constexpr u64 seed = 14695981039346656037ull;

// everything a traversal shows: visited indices and offsets, in order
template<auto... D, class T, class S>
constexpr u64 walk(const T &t, const S &s) {
	u64 h = seed, n = 0;
	t.for_each([&](auto st) {
		((h = mix(h, u64(noarr::get_index<D>(st)))), ...);
		h = mix(h, u64(s | noarr::offset(st)));
		n++;
	});
	return mix(h, n);
}
template<auto... D, class S>
constexpr u64 digest(const S &s) {
	u64 h = u64(s | noarr::get_size());
	((h = mix(h, u64(s | noarr::get_length<D>()))), ...);
	return mix(h, walk<D...>(noarr::traverser(s), s));
}
// lengths that depend on other indices are not asked
template<auto... D, class S>
constexpr u64 digest_walk(const S &s) {
	return mix(u64(s | noarr::get_size()), walk<D...>(noarr::traverser(s), s));
}

// a byte-wise copy in fresh memory; the object it was copied from is destroyed
template<class T>
struct moved {
	unsigned char *mem = nullptr, *raw = nullptr;
	std::vector<unsigned char> before;
	explicit moved(const T &src) {
		static_assert(alignof(T) <= 16);
		auto *tmp = static_cast<unsigned char *>(std::malloc(sizeof(T)));
		T *mid = ::new (static_cast<void *>(tmp)) T(src);
		raw = static_cast<unsigned char *>(std::malloc(sizeof(T) + 32));
		std::memset(raw, 0x5A, sizeof(T) + 32);
		mem = raw + 16;
		std::memcpy(mem, static_cast<const void *>(mid), sizeof(T));
		std::memset(tmp, 0xEE, sizeof(T));
		std::free(tmp);
		before.assign(raw, raw + sizeof(T) + 32);
	}
	moved(const moved &) = delete;
	~moved() { std::free(raw); }
	const T &operator*() const { return *std::launder(reinterpret_cast<const T *>(mem)); }
	bool untouched() const { return std::equal(before.begin(), before.end(), raw); }
};

template<class T>
void plain_type(Probe &pr, const char *what, bool layout) {
	pr.state();
	pr.ok(std::is_trivially_copyable_v<T> && std::is_trivially_copy_constructible_v<T> && std::is_trivially_move_constructible_v<T> && std::is_trivially_destructible_v<T>, "can be copied byte by byte:", what);
	if (layout) pr.ok(std::is_standard_layout_v<T>, "has a standard layout:", what);
	pr.ok(!std::is_empty_v<T> || std::is_trivially_default_constructible_v<T>, "an empty type can be created from nothing:", what);
}
// no more memory than the run-time parameters need
template<class T>
void compact(Probe &pr, u64 params, const char *what) {
	pr.ok(params ? sizeof(T) <= params * sizeof(std::size_t) : std::is_empty_v<T>, "stores only what is given at run time:", std::string(what) + " of " + std::to_string(sizeof(T)) + " bytes for " + std::to_string(params) + " parameters");
}

// `s` was built at run time, `want` is its digest computed by the compiler; `check` compares a structure with the model
template<auto... D, class S, class Dig, class Check>
void structure(const S &s, u64 params, u64 want, Dig dig, Check check, Probe &pr) {
	plain_type<S>(pr, "structure", true);
	compact<S>(pr, params, "structure");
	pr.eq(dig(s), want, "size, lengths, offsets and traversal at run time and in a constant expression");
	{
		moved<S> m(s);
		check(*m);
		pr.eq(dig(*m), want, "a byte-wise copy of the structure");
		pr.ok(m.untouched(), "queries leave the structure as it was");
	}
	const auto t = noarr::traverser(s);
	using T = std::remove_const_t<decltype(t)>;
	plain_type<T>(pr, "traverser", false);
	compact<T>(pr, params, "traverser");
	{
		moved<T> m(t);
		pr.eq(mix(u64(s | noarr::get_size()), walk<D...>(*m, s)), digest_walk<D...>(s), "a byte-wise copy of the traverser");
		pr.ok(m.untouched(), "traversing leaves the traverser as it was");
	}
	u64 n = 0;
	t.for_each([&](auto st) {
		if (n++ > 20) return;
		using St = decltype(st);
		plain_type<St>(pr, "state", true);
		compact<St>(pr, sizeof...(D), "state");
		moved<St> m(st);
		pr.eq(u64(s | noarr::offset(*m)), u64(s | noarr::offset(st)), "a byte-wise copy of the state");
		pr.ok(((u64(noarr::get_index<D>(*m)) == u64(noarr::get_index<D>(st))) && ...), "indices in a byte-wise copy of the state");
		pr.ok(m.untouched(), "queries leave the state as it was");
	});
}
// a transformation applied after having been copied
template<class B, class P, class Dig>
void transformation(const B &b, const P &p, u64 params, u64 want, Dig dig, Probe &pr) {
	plain_type<P>(pr, "transformation", true);
	compact<P>(pr, params, "transformation");
	moved<P> m(p);
	pr.eq(dig(b ^ *m), want, "a structure made by a byte-wise copy of the transformation");
	pr.eq(dig(b ^ *m), want, "a structure made by the same transformation again");
	pr.ok(m.untouched(), "applying leaves the transformation as it was");
}
template<bool Top, auto... D, class B, class P>
void order(const B &b, const P &p, u64 params, u64 want, Probe &pr) {
	const auto t = noarr::traverser(b) ^ p;
	using T = std::remove_const_t<decltype(t)>;
	plain_type<T>(pr, "ordered traverser", false);
	compact<T>(pr, params, "ordered traverser");
	moved<T> m(t);
	pr.eq(walk<D...>(*m, b), want, "a byte-wise copy of the ordered traverser");
	pr.ok(m.untouched(), "traversing leaves the ordered traverser as it was");
	if constexpr (Top) {
		const auto r = t.range();   // over the topmost dimension
		using R = std::remove_const_t<decltype(r)>;
		moved<R> mr(r);
		u64 h1 = seed, h2 = seed;
		for (const auto &in : r) h1 = mix(h1, walk<>(in, b));
		auto e = (*mr).end();
		for (auto i = (*mr).begin();; ++i) {
			moved<decltype(i)> mi(i), me(e);
			if (*mi == *me) break;
			h2 = mix(h2, walk<>(**mi, b));
			pr.ok(mi.untouched() && me.untouched(), "reading through an iterator leaves it as it was");
		}
		plain_type<R>(pr, "range", false);
		plain_type<decltype(e)>(pr, "iterator", false);
		pr.eq(h2, h1, "byte-wise copies of a range and its iterators");
		pr.ok(mr.untouched(), "iterating leaves the range as it was");
	}
}
} // namespace val
