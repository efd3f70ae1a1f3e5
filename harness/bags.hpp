// Bags: exhaustive exploration of ownership histories against a model of blocks and handles.
#pragma once
#include "probes.hpp"
#include <noarr/structures/interop/bag.hpp>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <optional>

namespace bags {
using ref::u64;
using rt::Probe;

// ---- tracked heap (operator new/delete of the whole program; tracked only between arm() and disarm()) --------------------------
struct blk {
	std::size_t size;
	bool live;
};
struct heap {
	std::map<void *, blk> b;
	std::string error;
	u64 frees = 0;
};
inline heap &hp() {
	static heap *h = ::new (std::malloc(sizeof(heap))) heap;
	return *h;
}
inline bool inside = false, armed = false;
inline void *take(std::size_t n) {
	void *p = std::malloc(n + 32);
	if (!p) std::abort();
	std::memset(p, 0xA5, n + 32);
	if (!inside && armed) {
		inside = true;
		hp().b[p] = blk{n, true};
		inside = false;
	}
	return p;
}
inline void give(void *p) {
	if (!p) return;
	if (!inside && armed) {
		inside = true;
		auto it = hp().b.find(p);
		bool mine = it != hp().b.end();
		if (mine) {
			if (!it->second.live) hp().error = "block freed twice";
			it->second.live = false;
			hp().frees++;
			std::memset(p, 0xDD, it->second.size);
		}
		inside = false;
		if (mine) return;   // quarantined until disarm()
	}
	std::free(p);
}
inline void arm() { inside = true, hp().b.clear(), hp().error.clear(), hp().frees = 0, inside = false, armed = true; }
inline void disarm() {
	armed = false;
	for (auto &x : hp().b)
		if (!x.second.live) std::free(x.first);
	hp().b.clear();
}
struct quiet {   // bookkeeping of the explorer itself is not tracked
	bool o = inside;
	quiet() { inside = true; }
	~quiet() { inside = o; }
};

// ---- one structure with elements numbered by the model's rows ------------------------------------------------------------------
// S: structure, V: layout-preserving proto; list: calls f(k, state) for the k-th element of S; listv: same elements through S ^ V
template<class S, class V, class List, class ListV>
struct world {
	S s;
	V v;
	List list;
	ListV listv;
	using UB = noarr::unique_bag<S>;
	using RB = noarr::raw_bag<S>;
	using CB = noarr::const_raw_bag<S>;
	using UW = std::remove_cvref_t<decltype(std::declval<UB>() ^ std::declval<V>())>;
	using RW = std::remove_cvref_t<decltype(std::declval<RB>() ^ std::declval<V>())>;
	std::optional<UB> u[2];
	std::optional<RB> r[2];
	std::optional<CB> c;
	std::optional<UW> w;
	std::optional<RW> rw;
	// model: what each handle points to (-2 = no handle, -1 = null, k = block number)
	int mu[2] = {-2, -2}, mr[2] = {-2, -2}, mc = -2, mw = -2, mrw = -2;
	struct mblk {
		char *base;
		bool live;
		std::vector<int> val;
		bool tracked;
		bool init;
	};
	std::vector<mblk> m;
	u64 n, bytes;
	int stamp = 1;
	Probe *pr;
	const char *last = "";

	world(S s, V v, List l, ListV lv, u64 n, u64 bytes, Probe &pr) : s(s), v(v), list(l), listv(lv), n(n), bytes(bytes), pr(&pr) {}

	bool usable(int b) const { return b >= 0 && m[b].live; }
	void made(UB &x, int &h) {
		quiet q;
		char *b = (char *)x.data();
		auto it = hp().b.find(b);
		bool tr = it != hp().b.end() && it->second.live;
		if (tr && !pr->ok(it->second.size >= bytes, "allocation of a bag is large enough", last)) return;
		m.push_back(mblk{b, true, std::vector<int>(n, 0), tr, false});
		h = int(m.size()) - 1;
	}
	void dropped(int b) {
		if (b >= 0) m[b].live = false;
	}
	template<class B>
	void write(B &b, int blk, bool through_view) {
		auto &val = m[blk].val;
		int st = stamp++;
		auto f = [&](auto k, auto state) {
			b[state] = int(st * 100 + int(k));
			quiet q;
			val[k] = int(st * 100 + int(k));
		};
		if constexpr (std::is_same_v<B, UW> || std::is_same_v<B, RW>) listv(f);
		else list(f);
		m[blk].init = true;
	}
	template<class B>
	void look(const B &b, int blk, const char *who) {
		if (blk == -2) return;
		if (blk == -1) {
			pr->ok((const void *)b.data() == nullptr, "a moved-from bag is null", std::string(who) + last);
			return;
		}
		if (!pr->ok((const void *)b.data() == (const void *)m[blk].base, "bag points to its data", std::string(who) + last)) return;
		if (!m[blk].live) return;   // dangling reference: nothing may be said about the content
		pr->eq(b.size(), bytes, "size of the bag", std::string(who) + last);
		if (!m[blk].init) return;
		auto f = [&](auto k, auto state) {
			auto &e = b[state];
			if (pr->fails) return;
			pr->eq((u64)e, (u64)m[blk].val[k], "value", std::string(who) + last);
		};
		if constexpr (std::is_same_v<B, UW> || std::is_same_v<B, RW>) listv(f);
		else list(f);
	}
	void check() {
		quiet q;
		if (u[0]) look(*u[0], mu[0], "u0 after ");
		if (u[1]) look(*u[1], mu[1], "u1 after ");
		if (r[0]) look(*r[0], mr[0], "r0 after ");
		if (r[1]) look(*r[1], mr[1], "r1 after ");
		if (c) look(*c, mc, "c after ");
		if (w) look(*w, mw, "w after ");
		if (rw) look(*rw, mrw, "rw after ");
		pr->ok(hp().error.empty(), hp().error.c_str(), last);
		for (auto &b : m)
			if (b.tracked) {
				bool live = hp().b.at(b.base).live;
				pr->ok(live == b.live, live ? "memory of a destroyed or overwritten bag is freed" : "memory is kept as long as a bag owns it", last);
			}
		pr->state();
	}
	// reassigning a handle that owns a block releases the block
	static constexpr int nops = 27;
	// returns false if the operation is not applicable in the current state
	bool op(int k) {
		switch (k) {
		case 0: case 1: {   // construct
			int i = k;
			if (mu[i] != -2) return false;
			last = "make_bag";
			u[i].emplace(noarr::make_bag(s));
			made(*u[i], mu[i]);
			write(*u[i], mu[i], false);
			return true;
		}
		case 2: {   // assign a new bag
			if (mu[0] == -2) return false;
			last = "assignment of a new bag";
			int old = mu[0];
			u[0] = noarr::make_bag(s);
			made(*u[0], mu[0]);
			dropped(old);
			write(*u[0], mu[0], false);
			return true;
		}
		case 3: case 4: {   // move assignment
			int i = k - 3, j = 1 - i;
			if (mu[i] == -2 || mu[j] == -2) return false;
			last = "move assignment";
			*u[i] = std::move(*u[j]);
			dropped(mu[i]);
			mu[i] = mu[j], mu[j] = -1;
			return true;
		}
		case 5: case 6: {   // move construction
			int i = k - 5, j = 1 - i;
			if (mu[i] != -2 || mu[j] == -2) return false;
			last = "move construction";
			u[i].emplace(std::move(*u[j]));
			mu[i] = mu[j], mu[j] = -1;
			return true;
		}
		case 7: {
			if (mu[0] == -2 || mu[1] == -2) return false;
			last = "swap";
			std::swap(*u[0], *u[1]);
			std::swap(mu[0], mu[1]);
			return true;
		}
		case 8: case 9: {   // destruction
			int i = k - 8;
			if (mu[i] == -2) return false;
			last = "destruction";
			u[i].reset();
			dropped(mu[i]);
			mu[i] = -2;
			return true;
		}
		case 10: case 11: {   // reference to a unique bag
			int i = k - 10;
			if (mu[i] < 0) return false;
			last = "get_ref of a unique bag";
			r[0] = u[i]->get_ref();
			mr[0] = mu[i];
			return true;
		}
		case 12: {
			if (mr[0] < 0) return false;
			last = "copy of a reference";
			r[1] = *r[0];
			mr[1] = mr[0];
			return true;
		}
		case 13: {
			if (mr[0] < 0) return false;
			last = "get_ref of a reference";
			r[1] = r[0]->get_ref();
			mr[1] = mr[0];
			return true;
		}
		case 14: {
			if (mr[1] < 0) return false;
			last = "move of a reference";
			r[0] = std::move(*r[1]);
			mr[0] = mr[1];
			return true;
		}
		case 15: {
			if (mr[0] < 0) return false;
			last = "read-only bag";
			c.emplace(noarr::make_bag(s, (const void *)r[0]->data()));
			mc = mr[0];
			return true;
		}
		case 16: case 17: {   // a unique bag seen through a proto-structure: ownership moves
			int i = k - 16;
			if (mu[i] < 0) return false;
			last = "^ on a moved unique bag";
			dropped(mw);
			if (mw >= 0) w.reset();
			w.emplace(std::move(*u[i]) ^ v);
			mw = mu[i], mu[i] = -1;
			return true;
		}
		case 18: {   // temporary
			last = "^ on a temporary bag";
			if (mw != -2) return false;
			UB t = noarr::make_bag(s);
			int h = -2;
			made(t, h);
			write(t, h, false);
			w.emplace(std::move(t) ^ v);
			mw = h;
			return true;
		}
		case 19: {
			if (mr[0] < 0) return false;
			last = "^ on a reference bag";
			rw.emplace(*r[0] ^ v);
			mrw = mr[0];
			return true;
		}
		case 20: {
			if (mw < 0) return false;
			last = "get_ref of a transformed unique bag";
			rw.emplace(w->get_ref());
			mrw = mw;
			return true;
		}
		case 21: {
			if (mw == -2) return false;
			last = "destruction of a transformed bag";
			w.reset();
			dropped(mw);
			mw = -2;
			return true;
		}
		case 22:
			if (!usable(mu[0])) return false;
			last = "write through a unique bag";
			write(*u[0], mu[0], false);
			return true;
		case 23:
			if (!usable(mr[1])) return false;
			last = "write through a reference";
			write(*r[1], mr[1], false);
			return true;
		case 24:
			if (!usable(mw)) return false;
			last = "write through a transformed unique bag";
			write(*w, mw, true);
			return true;
		case 25:
			if (!usable(mrw)) return false;
			last = "write through a transformed reference";
			write(*rw, mrw, true);
			return true;
		case 26: {   // moving onto a transformed bag
			if (mw < 0 || mu[1] < 0) return false;
			last = "move assignment of a transformed bag";
			*w = std::move(*u[1]) ^ v;
			dropped(mw);
			mw = mu[1], mu[1] = -1;
			return true;
		}
		}
		return false;
	}
	void finish() {
		last = "end of scope";
		u[0].reset(), u[1].reset(), w.reset();
		quiet q;
		for (auto &b : m)
			if (b.tracked) pr->ok(!hp().b.at(b.base).live, "all memory is freed at the end", last);
		pr->ok(hp().error.empty(), hp().error.c_str(), last);
	}
};

// every sequence of operations of exactly `depth` applicable steps (prefixes are checked on the way), starting with one bag
template<class S, class V, class L, class LV>
void histories(S s, V v, L l, LV lv, u64 n, u64 bytes, Probe &pr, int depth) {
	using W = world<S, V, L, LV>;
	std::vector<int> path;
	u64 count = 0;
	std::string why;
	// stateless search: replay the prefix on fresh objects, then extend by every applicable operation
	std::function<void()> go = [&]() {
		if (pr.fails) return;
		for (int k = 0; k < W::nops && !pr.fails; k++) {
			bool app;
			{
				arm();
				{
					W w(s, v, l, lv, n, bytes, pr);
					w.op(0);
					if (path.empty() && k == 0) w.check();
					for (int o : path) w.op(o);
					app = w.op(k);
					if (app) w.check();
					w.finish();
				}
				disarm();
			}
			if (!app) continue;
			count++;
			if (pr.fails) {
				std::string h = "history: 0";
				for (int o : path) h += " " + std::to_string(o);
				h += " " + std::to_string(k);
				pr.fail(h);
				return;
			}
			if ((int)path.size() + 1 < depth) {
				path.push_back(k);
				go();
				path.pop_back();
			}
		}
	};
	go();
	pr.t->schedules += count;
}
} // namespace bags

namespace bags {
// a bag addresses exactly the elements its structure says, through every access path
template<class B, auto... D, std::size_t... I>
void access_(const B &b, const char *base, Probe &pr, probe::dims<D...>, std::index_sequence<I...>) {
	constexpr std::size_t n = sizeof...(D);
	constexpr auto names = std::array<char, n + 1>{D..., 0};
	pr.size(b.size());
	pr.size(b | noarr::get_size());
	pr.ok((const char *)b.data() == base, "data()");
	(pr.len(D, b.template length<D>()), ...);
	(pr.len(D, b | noarr::template get_length<D>()), ...);
	pr.ok((B::template has_length<D>() && ...), "has_length");
	pr.ok(B::has_size(), "has_size");
	u64 ix[n + 1];
	pr.begin(probe::dims<D...>::names, n);
	while (pr.next(ix)) {
		auto st = noarr::idx<D...>(ix[I]...);
		if (!pr.off((const char *)&b[st] - base, "address of bag[state]")) break;
		if (!pr.off((const char *)&b.template at<D...>(ix[I]...) - base, "address of bag.at()")) break;
		if (!pr.off((const char *)&b.template at<names[n - 1 - I]...>(ix[n - 1 - I]...) - base, "address of bag.at(), indices reversed")) break;
		if (!pr.off(b.template offset<D...>(ix[I]...), "bag.offset()")) break;
		if (!pr.off(b | noarr::offset(st), "offset of a bag")) break;
		if (!pr.off((const char *)&(b | noarr::get_at(b.data(), st)) - base, "get_at on a bag")) break;
	}
}
template<auto... D, class B>
void access(const B &b, const void *base, Probe &pr) {
	access_(b, (const char *)base, pr, probe::dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
}
// a bag of a structure whose lengths come from the state given with each query
template<class B, class L, auto... D, std::size_t... I>
void open_access_(const B &b, const L &l, const char *base, Probe &pr, probe::dims<D...>, std::index_sequence<I...>) {
	constexpr std::size_t n = sizeof...(D);
	using S = std::remove_cvref_t<decltype(b.structure())>;
	pr.eq(B::template has_size<L>(), true, "a bag knows its size from the state");
	pr.eq(B::has_size(), S::template has_size<noarr::state<>>(), "has_size of a bag without a state");
	if constexpr (B::template has_size<L>()) pr.size(b.size(l)), pr.size(b | noarr::get_size(l));
	((pr.eq(B::template has_length<D, L>(), true, "a bag knows its length from the state", std::string(1, D)),
	  pr.eq(B::template has_length<D>(), S::template has_length<D, noarr::state<>>(), "has_length of a bag without a state", std::string(1, D))), ...);
	([&] { if constexpr (B::template has_length<D, L>()) pr.len(D, b.template length<D>(l)), pr.len(D, b | noarr::template get_length<D>(l)); }(), ...);
	pr.ok((const char *)b.data() == base, "data()");
	u64 ix[n + 1];
	pr.begin(probe::dims<D...>::names, n);
	while (pr.next(ix)) {
		auto st = l & noarr::idx<D...>(ix[I]...);
		if (!pr.off((const char *)&b[st] - base, "address of bag[state] with lengths")) break;
		if (!pr.off((const char *)&b[noarr::idx<D...>(ix[I]...) & l] - base, "address of bag[state], lengths last")) break;
		if (!pr.off(b | noarr::offset(st), "offset of a bag with lengths")) break;
		if (!pr.off((const char *)&(b | noarr::get_at(b.data(), st)) - base, "get_at on a bag with lengths")) break;
	}
}
template<auto... D, class B, class L>
void open_access(const B &b, const L &l, const void *base, Probe &pr) {
	open_access_(b, l, (const char *)base, pr, probe::dims<D...>{}, std::make_index_sequence<sizeof...(D)>{});
}
template<class B, class P>
concept transformable = requires(B b, P p) { std::forward<B>(b) ^ p; };
} // namespace bags

#ifdef VERIF_BAG_HEAP
void *operator new(std::size_t n) { return bags::take(n); }
void *operator new[](std::size_t n) { return bags::take(n); }
void operator delete(void *p) noexcept { bags::give(p); }
void operator delete[](void *p) noexcept { bags::give(p); }
void operator delete(void *p, std::size_t) noexcept { bags::give(p); }
void operator delete[](void *p, std::size_t) noexcept { bags::give(p); }
#endif
