// Device code run on a simulated device: the threads of a launch are run one after another, in any order.
#pragma once
#ifndef __device__
#define __device__
#endif
#ifndef __host__
#define __host__
#endif
typedef unsigned uint;
struct dim3 { uint x = 1, y = 1, z = 1; };
inline dim3 threadIdx, blockIdx, blockDim, gridDim;
namespace dev {
inline unsigned long long block_rank() { return threadIdx.x + blockDim.x * (threadIdx.y + (unsigned long long)blockDim.y * threadIdx.z); }
inline unsigned long long block_threads() { return (unsigned long long)blockDim.x * blockDim.y * blockDim.z; }
inline unsigned long long block_index() { return blockIdx.x + gridDim.x * (blockIdx.y + (unsigned long long)gridDim.y * blockIdx.z); }
inline unsigned long long blocks() { return (unsigned long long)gridDim.x * gridDim.y * gridDim.z; }
// every device thread of a launch, once
template<class F> void launch(dim3 g, dim3 b, F f) {
	gridDim = g, blockDim = b;
	for (uint bz = 0; bz < g.z; bz++) for (uint by = 0; by < g.y; by++) for (uint bx = 0; bx < g.x; bx++)
		for (uint tz = 0; tz < b.z; tz++) for (uint ty = 0; ty < b.y; ty++) for (uint tx = 0; tx < b.x; tx++) {
			blockIdx = {bx, by, bz}, threadIdx = {tx, ty, tz};
			f();
		}
}
} // namespace dev
#include "probes.hpp"
#include <noarr/structures/interop/cuda_striped.cuh>
#include <noarr/structures/interop/cuda_step.cuh>
#include <noarr/structures/interop/cuda_traverser.cuh>

namespace stripe {
using rt::Probe;
using ref::u64;
template<int N> struct bytes { unsigned char c[N]; };
template<int N> struct alignas(8) quads { double d[N / 8]; };

// structures too large to enumerate: the pattern of the first rows repeats, and there is room for all copies
template<class MK>
void wide(MK mk, Probe &pr, u64 n, u64 ns, u64 esize) {
	auto small = mk(u64(2000));
	auto at = [](const auto &s, u64 i, u64 j) -> u64 { return s | noarr::offset(noarr::idx<'x'>(i) & noarr::cuda_stripe_idx(j)); };
	u64 k = 1; // elements of a stripe in one row
	while (k < 1000 && at(small, k, 0) == at(small, k - 1, 0) + esize) k++;
	u64 row = at(small, k, 0) - at(small, 0, 0);
	auto s = mk(n);
	u64 size = s | noarr::get_size();
	pr.ok(ref::u128(size) >= ref::u128(n) * ns * esize, "room for all copies", std::to_string(size));
	for (u64 i : {u64(0), u64(1), n / 3, n / 2, n - 2, n - 1})
		for (u64 j : {u64(0), ns / 2, ns - 1}) {
			if (i >= n) continue;
			pr.state();
			u64 o = at(s, i, j);
			pr.eq(o, i / k * row + at(small, i % k, j), "offset in a large striped structure", "element " + std::to_string(i) + " stripe " + std::to_string(j));
			threadIdx = {uint(j + 2 * ns), 0, 0};
			pr.eq(s | noarr::offset(noarr::idx<'x'>(i)), o, "offset seen by a thread");
			threadIdx = {0, 0, 0};
			pr.ok(o + esize <= size, "element inside the structure");
		}
}
struct Piece { u64 b, e; int stripe; u64 row; };

template<std::size_t NS, std::size_t BC, std::size_t BW, auto... D, class S, std::size_t... I>
void go(const S &s, Probe &pr, u64 esize, u64 align, u64 piece, std::index_sequence<I...>) {
	using P = probe::dims<D...>;
	u64 size = s | noarr::get_size();
	auto *r = pr.r;
	(pr.eq(s | noarr::template get_length<D>(), r->len[(int)D], "length of", std::string(1, char(D))), ...);
	std::vector<Piece> v;
	for (u64 k = 0; k < r->rows.size(); k++) {
		u64 ix[sizeof...(D) + 1];
		for (int d = 0; d < P::n; d++) ix[d] = r->rows[k].ix[r->sl(P::names[d])];
		u64 prev = 0, gap = 0;
		for (u64 j = 0; j < NS; j++) {
			pr.state();
			u64 o = s | noarr::offset(noarr::idx<D...>(ix[I]...) & noarr::cuda_stripe_idx(j));
			threadIdx = {uint(j), 0, 0};
			pr.eq(s | noarr::offset(noarr::idx<D...>(ix[I]...)), o, "offset seen by thread " , std::to_string(j));
			threadIdx = {uint(j + 3 * NS), 5, 1};
			pr.eq(s | noarr::offset(noarr::idx<D...>(ix[I]...)), o, "offset seen by thread ", std::to_string(j + 3 * NS));
			if (j == 1) gap = o - prev;
			if (j > 1 && !pr.eq(o - prev, gap, "distance of neighbouring stripes", "stripe " + std::to_string(j))) return;
			prev = o;
			if (!pr.ok(o + esize <= size, "element inside the structure", "stripe " + std::to_string(j) + " at " + r->row_str(r->rows[k]))) return;
			if (!pr.ok(o % align == 0, "element is aligned", "stripe " + std::to_string(j) + " at " + r->row_str(r->rows[k]) + " offset " + std::to_string(o))) return;
			v.push_back({o, o + esize, int(j), k});
		}
	}
	threadIdx = {0, 0, 0};
	std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.b < b.b; });
	for (size_t k = 1; k < v.size(); k++) {
		if (!pr.ok(v[k - 1].e <= v[k].b, "elements do not overlap")) return;
		if (v[k - 1].stripe != v[k].stripe && !pr.ok((v[k - 1].e - 1) / BW != v[k].b / BW, "no cell holds data of two stripes", "offset " + std::to_string(v[k].b))) return;
	}
	// banks
	std::vector<std::vector<bool>> used(BC, std::vector<bool>(NS));
	for (auto &p : v)
		for (u64 b = p.b; b < p.e; b++) used[b / BW % BC][p.stripe] = true;
	u64 worst = 0;
	for (auto &b : used) worst = std::max<u64>(worst, std::count(b.begin(), b.end(), true));
	if (NS * ((piece + BW - 1) / BW) <= BC) pr.ok(worst <= 1, "no bank holds data of two stripes although that is possible");
	pr.ok(worst <= s.max_conflict_size, "the promised bound on bank conflicts holds", std::to_string(worst) + " stripes in a bank, promised " + std::to_string(s.max_conflict_size));
}
template<std::size_t NS, std::size_t BC, std::size_t BW, auto... D, class S>
void check(const S &s, Probe &pr, u64 esize, u64 align, u64 piece) { go<NS, BC, BW, D...>(s, pr, esize, align, piece, std::make_index_sequence<sizeof...(D)>()); }

// threads of a block are divided among the stripes
template<class S> void groups(Probe &pr, u64 ns) {
	pr.eq(S::num_stripes(), ns, "number of stripes");
	for (uint n = 1; n <= 70; n++) {
		std::vector<std::vector<u64>> ranks(ns);
		std::vector<u64> cnt(ns, ~u64(0));
		dev::launch({1, 1, 1}, {n, 1, 1}, [&] {
			pr.state();
			u64 j = S::current_stripe_index();
			if (!pr.ok(j < ns, "stripe index of a thread")) return;
			auto cg = S::current_stripe_cg();
			ranks[j].push_back(cg.thread_rank());
			if (cnt[j] != ~u64(0)) pr.eq(cg.num_threads(), cnt[j], "threads of a stripe agree on their number");
			cnt[j] = cg.num_threads();
		});
		for (u64 j = 0; j < ns; j++) {
			std::sort(ranks[j].begin(), ranks[j].end());
			if (ranks[j].size()) pr.eq(cnt[j], ranks[j].size(), "number of threads of a stripe", std::to_string(j) + " of a block of " + std::to_string(n));
			for (u64 k = 0; k < ranks[j].size(); k++) pr.eq(ranks[j][k], k, "ranks in a stripe are consecutive");
		}
	}
}
} // namespace stripe

namespace cud {
using rt::Probe;
using ref::u64;
// device threads partition the traversal: every element exactly once, each thread in the order of the serial loop
struct Tally {
	std::vector<u64> all;
	Probe &pr;
	explicit Tally(Probe &p) : pr(p) {}
	template<class S, class T> void thread(const S &s, const T &t) {
		pr.state();
		std::vector<u64> mine;
		t.for_each([&](auto st) { mine.push_back(s | noarr::offset(st)); });
		// order: positions in the serial sequence increase
		size_t k = 0;
		for (auto &r : pr.r->rows)
			if (k < mine.size() && mine[k] == r.off) k++;
		if (!dup) pr.ok(k == mine.size(), "a thread visits its elements in the order of the serial traversal");
		all.insert(all.end(), mine.begin(), mine.end());
	}
	// the part of the structure a thread sees is a structure of its own: the same elements in the same order, the same size
	template<class S, class T, class P> void part(const S &s, const T &t, const P &top) {
		pr.state();
		std::vector<u64> mine, seen;
		t.for_each([&](auto st) { mine.push_back(s | noarr::offset(st)); });
		noarr::traverser(top).for_each([&](auto st) { seen.push_back(top | noarr::offset(st)); });
		pr.ok(mine == seen, "elements of the part a thread sees", std::to_string(mine.size()) + " and " + std::to_string(seen.size()));
		pr.eq(top | noarr::get_size(), s | noarr::get_size(), "size of the structure a thread sees");
		auto two = top ^ noarr::vector<'Q'>() ^ noarr::set_length<'Q'>(2);
		for (auto &o : mine) o += s | noarr::get_size();
		seen.clear();
		noarr::traverser(top).for_each([&](auto st) { seen.push_back(two | noarr::offset(st & noarr::idx<'Q'>(1))); });
		pr.ok(mine == seen, "elements of the second of two such parts");
	}
	bool dup = false;
	void done(const char *what) {
		std::vector<u64> want;
		for (auto &r : pr.r->rows) want.push_back(r.off);
		std::sort(want.begin(), want.end());
		std::sort(all.begin(), all.end());
		pr.ok(all == want, what, "threads together visited " + std::to_string(all.size()) + " elements, the serial traversal " + std::to_string(want.size()));
	}
};
struct Group {
	u64 r, n;
	u64 thread_rank() const { return r; }
	u64 num_threads() const { return n; }
};
} // namespace cud
namespace stripe {
// a view of stripes: the view selects elements, the stripes place them (plain: the same without stripes, pv: its view)
template<std::size_t NS, auto... D, class In, class S, class B, class V, std::size_t... I>
void view_(const In &in, const S &s, const B &plain, const V &pv, Probe &pr, std::index_sequence<I...>) {
	using P = probe::dims<D...>;
	auto *r = pr.r;
	pr.eq(s | noarr::get_size(), in | noarr::get_size(), "size of a view");
	(pr.eq(s | noarr::template get_length<D>(), r->len[(int)D], "length of", std::string(1, char(D))), ...);
	std::map<std::pair<u64, u64>, u64> where; // (offset without stripes, stripe) -> offset with stripes
	noarr::traverser(plain).for_each([&](auto st) {
		for (u64 j = 0; j < NS; j++) where[{plain | noarr::offset(st), j}] = in | noarr::offset(st & noarr::cuda_stripe_idx(j));
	});
	for (auto &row : r->rows) {
		u64 ix[sizeof...(D) + 1];
		for (int d = 0; d < P::n; d++) ix[d] = row.ix[r->sl(P::names[d])];
		for (u64 j = 0; j < NS; j++) {
			pr.state();
			u64 o = s | noarr::offset(noarr::idx<D...>(ix[I]...) & noarr::cuda_stripe_idx(j));
			auto w = where.find({row.off, j});
			if (!pr.ok(w != where.end() && w->second == o, "view of a striped structure addresses the same element", r->row_str(row) + " stripe " + std::to_string(j))) return;
		}
	}
}
template<std::size_t NS, auto... D, class In, class S, class B, class V>
void view(const In &in, const S &s, const B &plain, const V &pv, Probe &pr) { view_<NS, D...>(in, s, plain, pv, pr, std::make_index_sequence<sizeof...(D)>()); }
} // namespace stripe
