// Tuples: every field of every index lies inside the structure, fields do not overlap, fields follow one another in order;
// when no padding can arise, the layout is exactly the concatenation.
#pragma once
#include "probes.hpp"
namespace tup {
using ref::u64;
inline u64 up(u64 n, u64 a) { return (n + a - 1) / a * a; }
struct Cell { u64 off, size; std::string name; };
struct Cells {
	std::vector<Cell> v;
	rt::Probe &pr;
	explicit Cells(rt::Probe &p) : pr(p) {}
	void add(u64 off, u64 size, u64 align, const std::string &n) {
		v.push_back({off, size, n});
		pr.state();
		pr.ok(off % align == 0, "element aligned for its type", n + " offset " + std::to_string(off));
	}
	void at(u64 off, u64 size, u64 align, u64 expected, const std::string &n) {
		add(off, size, align, n);
		pr.eq(off, expected, "place of the element", n);
	}
	// expected: number of cells; total: structure size; sum: exact size when packed (0: unknown)
	void check(u64 expected, u64 total) {
		pr.eq(v.size(), expected, "number of addressable elements");
		u64 sum = 0;
		for (auto &c : v) {
			sum += c.size;
			if (!pr.ok(c.off + c.size <= total, "element inside the structure", c.name + " offset " + std::to_string(c.off) + " size " + std::to_string(total))) return;
		}
		pr.ok(sum <= total, "structure is large enough for all its elements");
		auto w = v;
		std::sort(w.begin(), w.end(), [](auto &a, auto &b) { return a.off < b.off; });
		for (size_t k = 1; k < w.size(); k++)
			if (!pr.ok(w[k - 1].off + w[k - 1].size <= w[k].off, "distinct elements do not overlap", w[k - 1].name + " and " + w[k].name)) return;
	}
};
} // namespace tup
