// Parallel loops and reductions under every schedule of the controlled scheduler.
#pragma once
#include "probes.hpp"
#include "vsched.hpp"
#include <noarr/structures/interop/bag.hpp>
#include <malloc.h>
#include <mutex>
#include <algorithm>

namespace par {
using rt::Probe;
using ref::u64;
using row = std::vector<u64>;

// configurations explored for a loop of `top` iterations
inline std::vector<vsched::Config> configs(u64 top, u64 elems) {
	std::vector<vsched::Config> v;
	vsched::Config c;
	c.max_threads = 3, c.max_preempt = elems <= 4 ? 2 : (elems <= 6 ? 1 : 0), c.all_orders = top <= 4, c.all_splits = true;
	if (top > 5) c.max_threads = 2;
	if (top > 8) c.max_threads = 1;
	if (top <= 16) v.push_back(c);
	c = {};
	c.max_threads = 2, c.max_preempt = 0, c.all_orders = false, c.all_splits = false; // splitting to single elements
	if (top > 5) c.max_threads = 1;
	v.push_back(c);
	return v;
}

// callable that can be copy-assigned whatever it wraps (some algorithms assign iterators holding it)
template<class F>
struct assignable {
	std::shared_ptr<F> f;
	assignable(const F &g) : f(std::make_shared<F>(g)) {}
	template<class... A>
	void operator()(A &&...a) const { (*f)(std::forward<A>(a)...); }
};

inline void note(Probe &pr, const vsched::Stats &st) {
	pr.t->schedules += st.schedules;
	pr.t->transitions += st.points + st.regions;
	if (!st.error.empty()) pr.fail(st.error + " [schedule " + st.path + "]");
}

// par_loop(f): runs the parallel loop with body f; serial(f): the serial traversal
template<auto... D, class L, class S>
void loop(Probe &pr, u64 top, S &&serial, L &&par_loop) {
	std::vector<row> want, got;
	serial([&](auto st) { want.push_back(row{u64(noarr::get_index<D>(st))...}); });
	std::sort(want.begin(), want.end());
	pr.state(want.size());
	std::mutex m;
	for (auto &cfg : configs(top, want.size())) {
		auto st = vsched::explore(cfg, [&]() -> std::string {
			got.clear();
			par_loop([&](auto state) {
				row r{u64(noarr::get_index<D>(state))...};
				{
					std::lock_guard<std::mutex> g(m);
					if (got.size() < 100000) got.push_back(r);
				}
				vsched::point();
			});
			auto a = got;
			std::sort(a.begin(), a.end());
			if (a == want) return "";
			for (size_t i = 1; i < a.size(); i++)
				if (a[i] == a[i - 1]) return "an index is visited more than once by the parallel loop";
			return "the parallel loop visits " + std::to_string(a.size()) + " indices, not exactly the " + std::to_string(want.size()) + " of the serial loop";
		});
		note(pr, st);
		if (!st.error.empty()) return;
	}
}

// par_sections(g): parallel sections with g(inner traverser); serial_sections(g): one call per top-level index in order
template<auto... D, class L, class S>
void sections(Probe &pr, u64 top, S &&serial, L &&par_sections) {
	std::vector<std::vector<row>> want, got;
	serial([&](auto t) {
		std::vector<row> s;
		t.for_each([&](auto st) { s.push_back(row{u64(noarr::get_index<D>(st))...}); });
		want.push_back(s);
	});
	auto sorted = want;
	std::sort(sorted.begin(), sorted.end());
	u64 n = 0;
	for (auto &s : want) n += s.size();
	pr.state(n);
	pr.eq(want.size(), top, "number of serial sections");
	std::mutex m;
	for (auto &cfg : configs(top, n)) {
		auto st = vsched::explore(cfg, [&]() -> std::string {
			got.clear();
			par_sections([&](auto t) {
				std::vector<row> s;
				t.for_each([&](auto state) {
					s.push_back(row{u64(noarr::get_index<D>(state))...});
					vsched::point();
				});
				std::lock_guard<std::mutex> g(m);
				if (got.size() < 100000) got.push_back(s);
			});
			auto a = got;
			std::sort(a.begin(), a.end());
			if (a == sorted) return "";
			return "the parallel sections (" + std::to_string(a.size()) + ") are not exactly the serial sections (" + std::to_string(want.size()) + ")";
		});
		note(pr, st);
		if (!st.error.empty()) return;
	}
}

// ---- reductions --------------------------------------------------------------------------------------------------
// every input element k adds weight(k); a lost, repeated or misplaced contribution changes the sum of its output cell
inline u64 weight(u64 k) { return k < 12 ? u64(1) << (5 * k) : (k * 0x9E3779B97F4A7C15ull | 1); }

// in: traverser; out: structure of u64 elements; key(state): output index (a state for `out`)
// reduce(neut, acc, join, out_bag) calls the library
template<class In, class Out, class Num, class Key, class R>
void reduce(Probe &pr, const In &in, const Out &out, u64 top, Num &&num, Key &&key, R &&reduce_call) {
	mallopt(M_PERTURB, 0xA5);
	const std::size_t n = out | noarr::get_size();
	std::vector<u64> want(n / 8 + 1), got(n / 8 + 1);
	u64 elems = 0;
	// two initial contents: neutral, and something to be accumulated onto
	for (u64 init : {u64(0), u64(1000003)}) {
		std::fill(want.begin(), want.end(), 77);
		noarr::traverser(out).for_each([&](auto st) { *reinterpret_cast<u64 *>((char *)want.data() + (out | noarr::offset(st))) = init; });
		elems = 0;
		in.for_each([&](auto st) {
			*reinterpret_cast<u64 *>((char *)want.data() + (out | noarr::offset(key(st)))) += weight(num(st));
			elems++;
		});
		pr.state(elems);
		for (auto &cfg : configs(top, elems)) {
			auto st = vsched::explore(cfg, [&]() -> std::string {
				std::fill(got.begin(), got.end(), 77);
				noarr::traverser(out).for_each([&](auto st) { *reinterpret_cast<u64 *>((char *)got.data() + (out | noarr::offset(st))) = init; });
				auto neut = [](auto st, const auto &o) {
					u64 &x = o[st];
					x = 0;
					vsched::wrote(&x);
				};
				auto acc = [&](auto st, const auto &o) {
					u64 &x = o[key(st)];
					u64 v = x; // read ... write: not atomic, as in any user code
					vsched::wrote(&x);
					vsched::point();
					x = v + weight(num(st));
				};
				auto join = [](auto st, const auto &l, const auto &r) { l[st] += r[st]; };
				auto b = noarr::make_bag(out, (char *)got.data());
				reduce_call(neut, acc, join, b);
				if (got == want) return "";
				for (size_t i = 0; i < got.size(); i++)
					if (got[i] != want[i]) return "output word " + std::to_string(i) + " is " + std::to_string(got[i]) + ", serial reduction gives " + std::to_string(want[i]);
				return "?";
			});
			note(pr, st);
			if (!st.error.empty()) return;
		}
	}
}
} // namespace par
