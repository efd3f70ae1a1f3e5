// Planner: sequence of executed elements and sections compared with explicit nested loops.
#pragma once
#include "trav.hpp"
#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
namespace plan {
using rt::Probe;
using ref::u64;
using row = std::vector<u64>;
// expected events: loops over `order` (outermost first); section k fires as soon as all its dimensions have an index
// (row: 1000+k, then per dimension of `all` the index or 99 if not set yet); an element is row: 0, indices
struct Loops {
	std::string order, all;
	std::map<char, u64> len;
	std::vector<std::string> sections;
	std::vector<row> ev;
	void rec(size_t depth, std::map<char, u64> &ix, std::vector<bool> fired) {
		for (size_t k = 0; k < sections.size(); k++) {
			if (fired[k]) continue;
			bool on = true;
			for (char c : sections[k]) on = on && ix.count(c);
			if (!on) continue;
			row r{1000 + k};
			for (char c : all) r.push_back(ix.count(c) ? ix[c] : 99);
			ev.push_back(r);
			fired[k] = true;
		}
		if (depth == order.size()) {
			row r{0};
			for (char c : all) r.push_back(ix[c]);
			ev.push_back(r);
			return;
		}
		char d = order[depth];
		for (u64 i = 0; i < len[d]; i++) {
			ix[d] = i;
			rec(depth + 1, ix, fired);
		}
		ix.erase(d);
	}
	void run() {
		std::map<char, u64> ix;
		rec(0, ix, std::vector<bool>(sections.size()));
	}
};
template<auto D, class S>
u64 maybe(const S &st) {
	if constexpr (S::template contains<noarr::index_in<D>>) return noarr::get_index<D>(st);
	else return 99;
}
// cut a range down to [a, b); not possible by other means than its public members
template<class R>
bool narrow(R &r, u64 a, u64 b) {
	if constexpr (requires { r.begin_idx = a; r.end_idx = b; }) {
		r.begin_idx = a, r.end_idx = b;
		return true;
	} else return false;
}
inline void compare(Probe &pr, const std::vector<row> &got, const std::vector<row> &want, const char *what) {
	pr.state(want.size());
	pr.t->transitions += got.size();
	if (got == want) return;
	size_t k = 0;
	while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
	auto str = [&](const std::vector<row> &v) {
		if (k >= v.size()) return std::string("end");
		std::string s;
		for (u64 x : v[k]) s += std::to_string(x) + " ";
		return s;
	};
	pr.fail(std::string(what) + ": event " + std::to_string(k) + " is " + str(got) + "but nested loops give " + str(want));
}
} // namespace plan
