// Reference model of a structure: an explicit table of (index tuple -> byte offset) rows.
// Every operation transforms the table by its *definition* (documented in /repo/docs), never by re-using
// library code.  A second, independent, point-wise evaluator handles lengths too large to tabulate.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace ref {
typedef std::uint64_t u64;
constexpr int MAXD = 10;

struct Op {
	std::string name;
	std::vector<char> d;   // dimension names
	std::vector<int> par;  // parameter references; >=0: index into parameter vector, <0: literal -(v)-1
	u64 p(const u64 *pv, int k) const { int x = par[k]; return x >= 0 ? pv[x] : u64(-(x)-1); }
};

// "vector x $0;slice x $1 #3" -> ops
inline std::vector<Op> parse(const std::string &s) {
	std::vector<Op> ops;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find(';', i);
		if (j == std::string::npos) j = s.size();
		std::string t = s.substr(i, j - i);
		i = j + 1;
		Op op;
		size_t a = 0;
		int k = 0;
		while (a < t.size()) {
			while (a < t.size() && t[a] == ' ') a++;
			size_t b = t.find(' ', a);
			if (b == std::string::npos) b = t.size();
			if (b > a) {
				std::string w = t.substr(a, b - a);
				if (k == 0) op.name = w;
				else if (w[0] == '$') op.par.push_back(atoi(w.c_str() + 1));
				else if (w[0] == '#') op.par.push_back(-atoi(w.c_str() + 1) - 1);
				else op.d.push_back(w[0]);
				k++;
			}
			a = b;
		}
		if (!op.name.empty()) ops.push_back(op);
	}
	return ops;
}

struct Row {
	u64 off;
	std::array<u64, MAXD> ix; // by slot
};

struct Ref {
	bool valid = true;            // false: the parameters violate a documented precondition -> not a case
	std::vector<char> order;      // dimensions, outermost first
	std::array<u64, 128> len{};   // current lengths (dimension name -> length)
	std::array<int, 128> slot{};  // dimension name -> slot in Row::ix (0 = none, else slot+1)
	std::array<bool, 128> dep{};  // length depends on other indices (presence / border parts)
	std::vector<Row> rows;
	u64 size = 0, elem = 0;
	u64 limit = 200000;
	bool has_rows = true;

	bool has(char d) const { return slot[(int)d] != 0; }
	int sl(char d) const { return slot[(int)d] - 1; }
	void add(char d, u64 l) {
		bool used[MAXD] = {};
		for (char c : order) used[sl(c)] = true;
		int s = 0;
		while (used[s]) s++;
		if (s >= MAXD) abort();
		slot[(int)d] = s + 1;
		len[(int)d] = l;
		dep[(int)d] = false;
	}
	void del(char d) {
		order.erase(std::find(order.begin(), order.end(), d));
		slot[(int)d] = 0;
		dep[(int)d] = false;
	}
	size_t pos(char d) const { return std::find(order.begin(), order.end(), d) - order.begin(); }
	void fail() { valid = false; rows.clear(); }
	template<class F> void filter(F f) {
		rows.erase(std::remove_if(rows.begin(), rows.end(), [&](Row &r) { return !f(r); }), rows.end());
	}

	void apply(const Op &o, const u64 *pv) {
		const std::string &n = o.name;
		auto P = [&](int k) { return o.p(pv, k); };
		if (!valid) return;
		if (n == "scalar") {
			elem = size = P(0);
			rows.assign(1, Row{0, {}});
			return;
		}
		if (n == "vector") { // new outermost dimension, copies one after another
			char d = o.d[0];
			u64 l = P(0);
			add(d, l);
			if (rows.size() * std::max<u64>(l, 1) > limit) has_rows = false;
			if (has_rows) {
				std::vector<Row> nr;
				nr.reserve(rows.size() * l);
				for (u64 k = 0; k < l; k++)
					for (auto &r : rows) {
						Row q = r;
						q.off += k * size;
						q.ix[sl(d)] = k;
						nr.push_back(q);
					}
				rows.swap(nr);
			}
			size *= l;
			order.insert(order.begin(), d);
			return;
		}
		if (n == "bcast") {
			char d = o.d[0];
			u64 l = P(0);
			add(d, l);
			if (rows.size() * std::max<u64>(l, 1) > limit) has_rows = false;
			if (has_rows) {
				std::vector<Row> nr;
				for (u64 k = 0; k < l; k++)
					for (auto &r : rows) {
						Row q = r;
						q.ix[sl(d)] = k;
						nr.push_back(q);
					}
				rows.swap(nr);
			}
			order.insert(order.begin(), d);
			return;
		}
		if (n == "nop") return;
		if (n == "fix") {
			char d = o.d[0];
			u64 k = P(0);
			if (dep[(int)d] || k >= len[(int)d]) return fail();
			int s = sl(d);
			filter([&](Row &r) { return r.ix[s] == k; });
			del(d);
			return;
		}
		if (n == "fixborder") { // select body (0) or border (1) of a static split: fixborder b M m  value
			char d = o.d[0];
			u64 k = P(0);
			int s = sl(d);
			filter([&](Row &r) { return r.ix[s] == k; });
			char M = o.d[1], m = o.d[2];
			if (has(M)) { dep[(int)M] = false; len[(int)M] = k ? 1 : border_q; }
			if (has(m)) { dep[(int)m] = false; len[(int)m] = k ? border_r : border_b; }
			del(d);
			return;
		}
		if (n == "shift" || n == "slice" || n == "slice1" || n == "span" || n == "span1") {
			char d = o.d[0];
			if (dep[(int)d]) return fail();
			u64 L = len[(int)d], b, e;
			if (n == "shift") b = P(0), e = L;
			else if (n == "slice") b = P(0), e = b + P(1);
			else if (n == "slice1") b = 0, e = P(0);
			else if (n == "span") b = P(0), e = P(1);
			else b = 0, e = P(0);
			if (b > e || e > L) return fail();
			int s = sl(d);
			filter([&](Row &r) { return r.ix[s] >= b && r.ix[s] < e; });
			for (auto &r : rows) r.ix[s] -= b;
			len[(int)d] = e - b;
			return;
		}
		if (n == "symspan") { // drop P elements on both sides
			char d = o.d[0];
			if (dep[(int)d]) return fail();
			u64 L = len[(int)d], h = P(0);
			if (2 * h > L) return fail();
			int s = sl(d);
			filter([&](Row &r) { return r.ix[s] >= h && r.ix[s] < L - h; });
			for (auto &r : rows) r.ix[s] -= h;
			len[(int)d] = L - 2 * h;
			return;
		}
		if (n == "step") { // keep indices == start (mod stride)
			char d = o.d.empty() ? order.front() : o.d[0];
			if (dep[(int)d]) return fail();
			u64 st = P(0), sr = P(1), L = len[(int)d];
			if (sr == 0 || st >= sr) return fail();
			int s = sl(d);
			filter([&](Row &r) { return r.ix[s] % sr == st; });
			for (auto &r : rows) r.ix[s] = (r.ix[s] - st) / sr;
			len[(int)d] = L > st ? (L - st - 1) / sr + 1 : 0;
			return;
		}
		if (n == "reverse") {
			char d = o.d[0];
			if (dep[(int)d]) return fail();
			int s = sl(d);
			for (auto &r : rows) r.ix[s] = len[(int)d] - 1 - r.ix[s];
			return;
		}
		if (n == "rename") { // pairs old new ..., simultaneous
			std::map<char, char> m;
			for (size_t k = 0; k + 1 < o.d.size(); k += 2) m[o.d[k]] = o.d[k + 1];
			auto ol = len;
			auto os = slot;
			auto od = dep;
			for (auto &kv : m) slot[(int)kv.first] = 0;
			for (auto &kv : m) {
				slot[(int)kv.second] = os[(int)kv.first];
				len[(int)kv.second] = ol[(int)kv.first];
				dep[(int)kv.second] = od[(int)kv.first];
			}
			for (auto &c : order)
				if (m.count(c)) c = m[c];
			return;
		}
		if (n == "hoist") { // first listed ends up outermost
			for (size_t k = o.d.size(); k-- > 0;) {
				char d = o.d[k];
				order.erase(order.begin() + pos(d));
				order.insert(order.begin(), d);
			}
			return;
		}
		if (n == "reorder") {
			order.assign(o.d.begin(), o.d.end());
			return;
		}
		if (n == "join") { // diagonal: a and b driven by one index c (outermost)
			char a = o.d[0], b = o.d[1], c = o.d[2];
			if (dep[(int)a] || dep[(int)b] || len[(int)a] != len[(int)b]) return fail();
			int sa = sl(a), sb = sl(b);
			u64 L = len[(int)a];
			filter([&](Row &r) { return r.ix[sa] == r.ix[sb]; });
			std::vector<u64> tmp;
			for (auto &r : rows) tmp.push_back(r.ix[sa]);
			del(a);
			del(b);
			add(c, L);
			for (size_t k = 0; k < rows.size(); k++) rows[k].ix[sl(c)] = tmp[k];
			order.insert(order.begin(), c);
			return;
		}
		if (n == "blocks" || n == "blocksM" || n == "dblocks" || n == "dblocksM" || n == "sblocks") {
			// blocks  d M m    block size      (length must be divisible)
			// blocksM d M m    block count
			// dblocks d M m p  block size      (last block may be incomplete; p present/absent)
			// sblocks d b M m  block size      (b: 0 body, 1 border)
			char d = o.d[0];
			if (dep[(int)d]) return fail();
			u64 L = len[(int)d], B;
			u64 q = P(0);
			if (q == 0) return fail();
			bool dyn = n[0] == 'd', sta = n[0] == 's';
			if (n == "blocksM") {
				if (L % q) return fail();
				B = L / q;
			} else if (n == "dblocksM") {
				B = (L + q - 1) / q;
			} else {
				B = q;
				if (n == "blocks" && L % B) return fail();
			}
			u64 nb = n == "blocksM" || n == "dblocksM" ? q : dyn ? (L + B - 1) / B : L / B;
			size_t at = pos(d);
			int s = sl(d);
			std::vector<u64> tmp;
			for (auto &r : rows) tmp.push_back(r.ix[s]);
			del(d);
			if (sta) {
				char b = o.d[1], M = o.d[2], m = o.d[3];
				add(b, 2), order.insert(order.begin() + at, b);
				add(M, nb), order.insert(order.begin() + at + 1, M);
				add(m, B), order.insert(order.begin() + at + 2, m);
				dep[(int)M] = dep[(int)m] = true;
				dep[(int)b] = false;
				border_q = nb, border_r = L % B, border_b = B;
				for (size_t k = 0; k < rows.size(); k++) {
					bool bd = tmp[k] >= nb * B;
					rows[k].ix[sl(b)] = bd;
					rows[k].ix[sl(M)] = bd ? 0 : tmp[k] / B;
					rows[k].ix[sl(m)] = bd ? tmp[k] - nb * B : tmp[k] % B;
				}
			} else {
				char M = o.d[1], m = o.d[2];
				add(M, nb), order.insert(order.begin() + at, M);
				add(m, B), order.insert(order.begin() + at + 1, m);
				for (size_t k = 0; k < rows.size(); k++) {
					rows[k].ix[sl(M)] = tmp[k] / B;
					rows[k].ix[sl(m)] = tmp[k] % B;
				}
				if (dyn) {
					char p = o.d[3];
					add(p, 1), order.insert(order.begin() + at + 2, p);
					for (auto &r : rows) r.ix[sl(p)] = 0;
					dep[(int)p] = true;
					border_q = L;
				}
			}
			return;
		}
		if (n == "merge") { // merge M m d : d = M*len(m)+m ; takes the place of the inner of the two
			char M = o.d[0], m = o.d[1], d = o.d[2];
			if (dep[(int)M] || dep[(int)m]) return fail();
			u64 lM = len[(int)M], lm = len[(int)m];
			std::vector<u64> tmp;
			for (auto &r : rows) tmp.push_back(r.ix[sl(M)] * lm + r.ix[sl(m)]);
			size_t at = std::max(pos(M), pos(m)) - 1;
			del(M);
			del(m);
			add(d, lM * lm), order.insert(order.begin() + at, d);
			for (size_t k = 0; k < rows.size(); k++) rows[k].ix[sl(d)] = tmp[k];
			return;
		}
		if (n == "zcurve") { // zcurve d1..dk z : rank of the point in Z-order among all valid points
			std::vector<char> ds(o.d.begin(), o.d.end() - 1);
			char z = o.d.back();
			u64 L = 1;
			for (char d : ds) {
				if (dep[(int)d]) return fail();
				L *= len[(int)d];
			}
			// order all points of the box by interleaved bits; first listed dimension is the least significant
			size_t nd = ds.size();
			std::vector<std::vector<u64>> pts(1);
			for (size_t k = 0; k < nd; k++) {
				std::vector<std::vector<u64>> np;
				for (auto &p : pts)
					for (u64 i = 0; i < len[(int)ds[k]]; i++) {
						auto q = p;
						q.push_back(i);
						np.push_back(q);
					}
				pts.swap(np);
			}
			auto key = [&](const std::vector<u64> &p) {
				u64 r = 0;
				for (int bit = 0; bit < 12; bit++)
					for (size_t k = 0; k < nd; k++) r |= ((p[k] >> bit) & 1) << (bit * nd + zrank(nd, k));
				return r;
			};
			std::sort(pts.begin(), pts.end(), [&](auto &a, auto &b) { return key(a) < key(b); });
			std::map<std::vector<u64>, u64> rank;
			for (size_t k = 0; k < pts.size(); k++) rank[pts[k]] = k;
			std::vector<u64> tmp;
			for (auto &r : rows) {
				std::vector<u64> p;
				for (char d : ds) p.push_back(r.ix[sl(d)]);
				tmp.push_back(rank[p]);
			}
			size_t at = 0;
			for (char d : ds) at = std::max(at, pos(d));
			at -= nd - 1;
			for (char d : ds) del(d);
			add(z, L), order.insert(order.begin() + at, z);
			for (size_t k = 0; k < rows.size(); k++) rows[k].ix[sl(z)] = tmp[k];
			return;
		}
		fprintf(stderr, "ref: unknown op %s\n", n.c_str());
		abort();
	}
	static size_t zrank(size_t nd, size_t k) { return nd - 1 - k; }
	u64 border_q = 0, border_r = 0, border_b = 0;

	void sort_rows() {
		std::vector<int> s;
		for (char c : order) s.push_back(sl(c));
		std::sort(rows.begin(), rows.end(), [&](const Row &a, const Row &b) {
			for (int k : s)
				if (a.ix[k] != b.ix[k]) return a.ix[k] < b.ix[k];
			return false;
		});
	}
	std::string row_str(const Row &r) const {
		std::string t;
		for (char c : order) t += (t.empty() ? "" : ",") + std::string(1, c) + "=" + std::to_string(r.ix[sl(c)]);
		return t;
	}
};

inline Ref build(const std::vector<Op> &ops, const u64 *pv, u64 limit = 200000) {
	Ref r;
	r.limit = limit;
	for (auto &o : ops) r.apply(o, pv);
	if (r.valid) r.sort_rows();
	return r;
}

// ---- point-wise evaluator (independent of the table): index tuple of the outermost view -> byte offset ----
typedef unsigned __int128 u128;
struct Point {
	bool valid = true;
	std::map<char, u128> len; // lengths in the final view
	u128 size = 0;
	std::vector<Op> ops;
	std::vector<std::map<char, u128>> lens; // lengths *before* each op
	std::vector<u128> sizes;                // size before each op
	const u64 *pv;

	Point(const std::vector<Op> &o, const u64 *p) : ops(o), pv(p) {
		for (auto &op : ops) {
			lens.push_back(len);
			sizes.push_back(size);
			step(op);
			if (!valid) return;
		}
	}
	void step(const Op &o) {
		const std::string &n = o.name;
		auto P = [&](int k) { return (u128)o.p(pv, k); };
		auto &l = len;
		if (n == "scalar") size = P(0);
		else if (n == "vector") l[o.d[0]] = P(0), size *= P(0);
		else if (n == "bcast") l[o.d[0]] = P(0);
		else if (n == "fix") { if (P(0) >= l[o.d[0]]) valid = false; l.erase(o.d[0]); }
		else if (n == "shift") { if (P(0) > l[o.d[0]]) valid = false; else l[o.d[0]] -= P(0); }
		else if (n == "slice") { if (P(0) + P(1) > l[o.d[0]]) valid = false; l[o.d[0]] = P(1); }
		else if (n == "slice1" || n == "span1") { if (P(0) > l[o.d[0]]) valid = false; l[o.d[0]] = P(0); }
		else if (n == "span") { if (P(0) > P(1) || P(1) > l[o.d[0]]) valid = false; else l[o.d[0]] = P(1) - P(0); }
		else if (n == "symspan") { if (2 * P(0) > l[o.d[0]]) valid = false; else l[o.d[0]] -= 2 * P(0); }
		else if (n == "step" && !o.d.empty()) {
			if (P(1) == 0 || P(0) >= P(1)) { valid = false; return; }
			u128 L = l[o.d[0]];
			l[o.d[0]] = L > P(0) ? (L - P(0) - 1) / P(1) + 1 : 0;
		} else if (n == "reverse" || n == "hoist" || n == "reorder" || n == "nop") {}
		else if (n == "rename") {
			auto m = l;
			for (size_t k = 0; k + 1 < o.d.size(); k += 2) l.erase(o.d[k]);
			for (size_t k = 0; k + 1 < o.d.size(); k += 2) l[o.d[k + 1]] = m[o.d[k]];
		} else if (n == "join") {
			u128 L = l[o.d[0]];
			if (L != l[o.d[1]]) valid = false;
			l.erase(o.d[0]), l.erase(o.d[1]);
			l[o.d[2]] = L;
		} else if (n == "blocks") {
			u128 L = l[o.d[0]];
			if (P(0) == 0 || L % P(0)) { valid = false; return; }
			l.erase(o.d[0]);
			l[o.d[1]] = L / P(0), l[o.d[2]] = P(0);
		} else if (n == "blocksM") {
			u128 L = l[o.d[0]];
			if (P(0) == 0 || L % P(0)) { valid = false; return; }
			l.erase(o.d[0]);
			l[o.d[1]] = P(0), l[o.d[2]] = L / P(0);
		} else if (n == "merge") {
			u128 a = l[o.d[0]], b = l[o.d[1]];
			l.erase(o.d[0]), l.erase(o.d[1]);
			l[o.d[2]] = a * b;
		} else valid = false; // not supported point-wise
	}
	u128 offset(std::map<char, u128> ix) const {
		u128 off = 0;
		for (size_t q = ops.size(); q-- > 0;) {
			const Op &o = ops[q];
			const std::string &n = o.name;
			auto &l = lens[q];
			auto P = [&](int k) { return (u128)o.p(pv, k); };
			auto L = [&](char c) { return l.at(c); };
			if (n == "vector") off += ix[o.d[0]] * sizes[q], ix.erase(o.d[0]);
			else if (n == "bcast") ix.erase(o.d[0]);
			else if (n == "fix") ix[o.d[0]] = P(0);
			else if (n == "shift" || n == "slice" || n == "span" || n == "symspan") ix[o.d[0]] += P(0);
			else if (n == "step") ix[o.d[0]] = ix[o.d[0]] * P(1) + P(0);
			else if (n == "reverse") ix[o.d[0]] = L(o.d[0]) - 1 - ix[o.d[0]];
			else if (n == "rename") {
				auto m = ix;
				for (size_t k = 0; k + 1 < o.d.size(); k += 2) ix.erase(o.d[k + 1]);
				for (size_t k = 0; k + 1 < o.d.size(); k += 2) ix[o.d[k]] = m[o.d[k + 1]];
			} else if (n == "join") {
				u128 v = ix[o.d[2]];
				ix.erase(o.d[2]);
				ix[o.d[0]] = ix[o.d[1]] = v;
			} else if (n == "blocks") {
				u128 v = ix[o.d[1]] * P(0) + ix[o.d[2]];
				ix.erase(o.d[1]), ix.erase(o.d[2]);
				ix[o.d[0]] = v;
			} else if (n == "blocksM") {
				u128 v = ix[o.d[1]] * (L(o.d[0]) / P(0)) + ix[o.d[2]];
				ix.erase(o.d[1]), ix.erase(o.d[2]);
				ix[o.d[0]] = v;
			} else if (n == "merge") {
				u128 v = ix[o.d[2]], b = L(o.d[1]);
				ix.erase(o.d[2]);
				ix[o.d[0]] = v / b, ix[o.d[1]] = v % b;
			}
		}
		return off;
	}
};
} // namespace ref
