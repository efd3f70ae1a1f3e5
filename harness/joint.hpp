// Joint traversal of several structures.
#pragma once
#include "trav.hpp"
namespace joint {
using rt::Probe;
using ref::u64;
// visited index tuples over dims `ds` (lengths len[]): exactly the box, each once, nested like loops (some nesting in which
// the dimensions of the first structure keep their order `keep`)
inline void box(Probe &pr, const std::vector<std::vector<u64>> &got, const std::string &ds, const std::vector<u64> &len, const std::string &keep, const char *what) {
	u64 total = 1;
	for (u64 l : len) total *= l;
	pr.state(total);
	pr.t->transitions += got.size();
	if (got.size() != total) { pr.fail(std::string(what) + ": visits " + std::to_string(got.size()) + " states, the index space has " + std::to_string(total)); return; }
	std::vector<int> perm;
	for (size_t k = 0; k < ds.size(); k++) perm.push_back(k);
	do {
		std::string o;
		for (int k : perm) o += ds[k];
		size_t at = 0;
		for (char c : o) if (at < keep.size() && keep[at] == c) at++;
		if (at != keep.size()) continue;
		std::vector<std::vector<u64>> want;
		std::vector<u64> ix(ds.size(), 0);
		for (u64 n = 0; n < total; n++) {
			u64 r = n;
			for (size_t k = perm.size(); k-- > 0;) ix[perm[k]] = r % len[perm[k]], r /= len[perm[k]];
			want.push_back(ix);
		}
		if (want == got) return;
	} while (std::next_permutation(perm.begin(), perm.end()));
	auto s = got;
	std::sort(s.begin(), s.end());
	bool dup = std::adjacent_find(s.begin(), s.end()) != s.end();
	pr.fail(std::string(what) + (dup ? ": some state is visited twice" : ": states are not visited in any nesting of the dimensions"));
}
// keeps the first visit of each index tuple (the states have more dimensions than are of interest)
inline void distinct(std::vector<std::vector<u64>> &got) {
	std::vector<std::vector<u64>> out;
	for (auto &g : got)
		if (std::find(out.begin(), out.end(), g) == out.end()) out.push_back(g);
	got = out;
}
} // namespace joint
