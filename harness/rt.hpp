// Run-time of the exhaustive explorer: program registry, parameter enumeration, comparison, reporting.
#pragma once
#include "ref.hpp"
#include <csignal>
#include <csetjmp>
#include <functional>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace rt {
using ref::u64;

inline std::string jesc(const std::string &s) {
	std::string o;
	for (char c : s) {
		if (c == '"' || c == '\\') o += '\\', o += c;
		else if (c == '\n') o += "\\n";
		else if ((unsigned char)c < 32) o += ' ';
		else o += c;
	}
	return o;
}

struct Probe;
typedef void (*Fn)(const u64 *p, Probe &pr);
struct Prog {
	const char *id;
	const char *ops;      // reference program ("" when the harness brings its own oracle)
	const char *doms;     // parameter domains "0,1,2|1,2", several sets "0,1|1,2/5,8|4,6"
	const char *wide;     // wide domains or ""
	Fn fn;
};
inline std::vector<Prog> &progs() {
	static std::vector<Prog> v;
	return v;
}
struct Reg {
	Reg(const char *id, const char *ops, const char *doms, const char *wide, Fn fn) {
		progs().push_back(Prog{id, ops, doms, wide, fn});
	}
};

struct Totals {
	u64 cases = 0, skipped = 0, states = 0, transitions = 0, nontrivial = 0, fails = 0, programs = 0, outcomes = 0, schedules = 0;
};

struct Probe {
	const Prog *prog = nullptr;
	const u64 *p = nullptr;
	size_t np = 0;
	const ref::Ref *r = nullptr;     // table model
	const ref::Point *pt = nullptr;  // wide mode
	bool wide = false;
	Totals *t = nullptr;
	int fails = 0;
	std::string sample;
	static constexpr int max_fails = 3;

	std::string pstr() const {
		std::string s;
		for (size_t i = 0; i < np; i++) s += (i ? "," : "") + std::to_string(p[i]);
		return s;
	}
	void fail(const std::string &what) {
		fails++;
		t->fails++;
		if (fails <= max_fails)
			printf("{\"fail\":{\"prog\":\"%s\",\"params\":\"%s\",\"wide\":%d,\"what\":\"%s\"}}\n", jesc(prog->id).c_str(), pstr().c_str(),
			       int(wide), jesc(what).c_str());
		fflush(stdout);
	}
	// a recognised disagreement (listed finding): reported once per program, exploration goes on
	void note(const std::string &what) {
		static const Prog *last = nullptr;
		if (last == prog) return;
		last = prog;
		printf("{\"fail\":{\"prog\":\"%s\",\"params\":\"%s\",\"wide\":%d,\"what\":\"%s\"}}\n", jesc(prog->id).c_str(), pstr().c_str(),
		       int(wide), jesc(what).c_str());
		fflush(stdout);
	}
	bool eq(u64 got, u64 want, const char *what, const std::string &ctx = "") {
		t->transitions++;
		if (got == want) return true;
		fail(std::string(what) + " " + ctx + ": got " + std::to_string(got) + ", reference says " + std::to_string(want));
		return false;
	}
	bool ok(bool c, const char *what, const std::string &ctx = "") {
		t->transitions++;
		if (c) return true;
		fail(std::string(what) + " " + ctx);
		return false;
	}
	void state(u64 n = 1) { t->states += n; }

	// ---- queries against the structure model -----------------------------------------------------------
	// length of dimension d (independent dimensions only)
	bool len(char d, u64 got) {
		u64 want = wide ? (u64)pt->len.at(d) : r->len[(int)d];
		return eq(got, want, "length of", std::string(1, d));
	}
	bool size(u64 got) { return eq(got, wide ? (u64)pt->size : r->size, "size"); }

	// enumerate index tuples for dims ds[0..n)
	const char *ds = nullptr;
	int nd = 0;
	size_t cur = 0;
	std::vector<std::vector<u64>> corners;
	void begin(const char *dims, int n) {
		ds = dims, nd = n, cur = 0;
		if (wide) {
			corners.assign(1, {});
			for (int k = 0; k < n; k++) {
				u64 L = (u64)pt->len.at(dims[k]);
				std::vector<u64> c;
				for (u64 v : {u64(0), u64(1), L / 2, L - 1})
					if (v < L && std::find(c.begin(), c.end(), v) == c.end()) c.push_back(v);
				std::vector<std::vector<u64>> nc;
				for (auto &x : corners)
					for (u64 v : c) {
						auto y = x;
						y.push_back(v);
						nc.push_back(y);
					}
				corners.swap(nc);
			}
		}
	}
	bool next(u64 *ix) {
		if (wide) {
			if (cur >= corners.size()) return false;
			for (int k = 0; k < nd; k++) ix[k] = corners[cur][k];
		} else {
			if (cur >= r->rows.size()) return false;
			for (int k = 0; k < nd; k++) ix[k] = r->rows[cur].ix[r->sl(ds[k])];
		}
		cur++;
		t->states++;
		return true;
	}
	u64 want_off() const {
		if (wide) {
			std::map<char, ref::u128> m;
			for (int k = 0; k < nd; k++) m[ds[k]] = corners[cur - 1][k];
			return (u64)pt->offset(m);
		}
		return r->rows[cur - 1].off;
	}
	std::string ctx() const {
		std::string s = "at ";
		for (int k = 0; k < nd; k++)
			s += std::string(1, ds[k]) + "=" + std::to_string(wide ? corners[cur - 1][k] : r->rows[cur - 1].ix[r->sl(ds[k])]) + " ";
		return s;
	}
	bool off(u64 got, const char *what = "offset") {
		t->transitions++;
		u64 w = want_off();
		if (got == w) return true;
		fail(std::string(what) + " " + ctx() + ": got " + std::to_string(got) + ", reference says " + std::to_string(w));
		return false;
	}

	// ---- traversal sequence comparison -----------------------------------------------------------------
	std::vector<std::vector<u64>> seq;
	size_t seq_limit = 100000;
	void visit(std::vector<u64> v) {
		if (seq.size() < seq_limit) seq.push_back(std::move(v));
	}
};

inline std::vector<std::vector<u64>> parse_doms(const char *s) {
	std::vector<std::vector<u64>> out;
	if (!*s) return out;
	out.emplace_back();
	const char *c = s;
	while (*c) {
		if (*c == '|') {
			out.emplace_back();
			c++;
		} else if (*c == ',') c++;
		else {
			char *e;
			u64 v = strtoull(c, &e, 10);
			out.back().push_back(v);
			c = e;
		}
	}
	return out;
}

inline int case_cpu_limit = 30;
// current case, for the crash handler
inline const Prog *g_prog;
inline const u64 *g_p;
inline size_t g_np;
inline bool g_wide;
inline void on_crash(int sig) {
	char b[600];
	int n = snprintf(b, sizeof b, "{\"fail\":{\"prog\":\"%s\",\"params\":\"", g_prog ? g_prog->id : "?");
	for (size_t i = 0; i < g_np && n < 400; i++) n += snprintf(b + n, sizeof b - n, "%s%llu", i ? "," : "", (unsigned long long)g_p[i]);
	n += snprintf(b + n, sizeof b - n, "\",\"wide\":%d,\"what\":\"%s (signal %d)\"}}\n", int(g_wide),
	              sig == SIGPROF ? "does not terminate" : "crash", sig);
	(void)!write(1, b, n);
	_exit(3);
}

inline void run_case(const Prog &g, const std::vector<ref::Op> &ops, const std::vector<u64> &pv, bool wide, Totals &t, bool verbose,
                     std::string &sample, int &pfails) {
	Probe pr;
	pr.prog = &g;
	pr.p = pv.data();
	pr.np = pv.size();
	pr.wide = wide;
	pr.t = &t;
	g_prog = &g, g_p = pv.data(), g_np = pv.size(), g_wide = wide;
	u64 s0 = t.states;
	// watchdog in CPU time (a case takes microseconds): a traversal that never ends is a violation, not a hang
	itimerval tv{{0, 0}, {case_cpu_limit, 0}};
	setitimer(ITIMER_PROF, &tv, nullptr);
	if (*g.ops) {
		if (wide) {
			ref::Point pt(ops, pv.data());
			if (!pt.valid || pt.size >> 62) {
				t.skipped++;
				return;
			}
			for (auto &kv : pt.len)
				if (kv.second >> 62) {
					t.skipped++;
					return;
				}
			pr.pt = &pt;
			g.fn(pv.data(), pr);
		} else {
			ref::Ref r = ref::build(ops, pv.data());
			if (!r.valid || !r.has_rows) {
				t.skipped++;
				return;
			}
			pr.r = &r;
			g.fn(pv.data(), pr);
			// cross-validation of the two oracles on the very same case
			ref::Point pt(ops, pv.data());
			if (pt.valid)
				for (auto &row : r.rows) {
					std::map<char, ref::u128> m;
					for (char c : r.order) m[c] = row.ix[r.sl(c)];
					if ((u64)pt.offset(m) != row.off) {
						printf("{\"oracle_mismatch\":{\"prog\":\"%s\",\"params\":\"%s\"}}\n", jesc(g.id).c_str(), pr.pstr().c_str());
						exit(4);
					}
				}
		}
	} else {
		g.fn(pv.data(), pr);
	}
	t.cases++;
	pfails += pr.fails;
	if (t.states > s0) {
		t.nontrivial++;
		if (sample.empty() || verbose) sample = std::string(g.id) + " [" + g.ops + "] params=(" + pr.pstr() + ") elements=" + std::to_string(t.states - s0);
	}
}

inline int main_(int argc, char **argv) {
	signal(SIGSEGV, on_crash);
	signal(SIGABRT, on_crash);
	signal(SIGFPE, on_crash);
	signal(SIGBUS, on_crash);
	signal(SIGILL, on_crash);
	signal(SIGPROF, on_crash);
	rlimit rl{u64(8) << 30, u64(8) << 30};
	setrlimit(RLIMIT_AS, &rl);
	std::string only, params;
	bool only_wide = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--prog" && i + 1 < argc) only = argv[++i];
		else if (a == "--params" && i + 1 < argc) params = argv[++i];
		else if (a == "--wide") only_wide = true;
	}
	Totals t;
	std::vector<std::string> samples;
	for (auto &g : progs()) {
		if (!only.empty() && only != g.id) continue;
		auto ops = ref::parse(g.ops);
		t.programs++;
		std::string sample;
		int pfails = 0;
		if (!only.empty() && argc > 3) {
			auto d = parse_doms(params.c_str());
			std::vector<u64> pv = d.empty() ? std::vector<u64>{} : d[0];
			run_case(g, ops, pv, only_wide, t, true, sample, pfails);
			continue;
		}
		// domain sets: small and medium lengths (separated by '/'), every element checked; then wide lengths, corners checked
		std::vector<std::pair<std::string, bool>> sets;
		for (std::string all = g.doms;;) {
			auto at = all.find('/');
			sets.emplace_back(all.substr(0, at), false);
			if (at == std::string::npos) break;
			all.erase(0, at + 1);
		}
		if (*g.wide) sets.emplace_back(g.wide, true);
		for (auto &[ds, w] : sets) {
			auto doms = parse_doms(ds.c_str());
			std::vector<size_t> k(doms.size(), 0);
			std::vector<u64> pv(doms.size());
			bool dead = false;
			for (auto &d : doms)
				if (d.empty()) dead = true;
			while (!dead) {
				for (size_t i = 0; i < doms.size(); i++) pv[i] = doms[i][k[i]];
				run_case(g, ops, pv, w, t, false, sample, pfails);
				if (pfails >= 3) break;
				size_t i = 0;
				while (i < k.size() && ++k[i] == doms[i].size()) k[i++] = 0;
				if (i == k.size()) break;
			}
			if (pfails >= 3) break;
		}
		if (samples.size() < 2 && !sample.empty()) samples.push_back(sample);
	}
	printf("{\"summary\":{\"programs\":%llu,\"cases\":%llu,\"skipped\":%llu,\"states\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,"
	       "\"schedules\":%llu,\"outcomes\":%llu,\"fails\":%llu,\"samples\":[",
	       (unsigned long long)t.programs, (unsigned long long)t.cases, (unsigned long long)t.skipped, (unsigned long long)t.states,
	       (unsigned long long)t.transitions, (unsigned long long)t.nontrivial, (unsigned long long)t.schedules,
	       (unsigned long long)t.outcomes, (unsigned long long)t.fails);
	for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
	printf("]}}\n");
	return t.fails ? 2 : 0;
}
} // namespace rt
