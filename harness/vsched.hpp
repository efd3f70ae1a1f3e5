// Controlled scheduler: virtual threads are coroutines, every nondeterministic decision (how a range is split, which
// thread runs which task, which thread runs next at each scheduling point) is taken from a replayable choice path, and
// explore() enumerates all paths depth-first.
#pragma once
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <ucontext.h>
#include <vector>

namespace vsched {

struct Chooser {
	std::vector<std::pair<int, int>> path; // (choice, alternatives)
	size_t pos = 0;
	int choose(int n) {
		if (n <= 1) return 0;
		if (pos == path.size()) path.emplace_back(0, n);
		int c = path[pos].first;
		pos++;
		return c;
	}
	bool advance() {
		path.resize(pos);
		while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back();
		if (path.empty()) return false;
		path.back().first++;
		return true;
	}
	std::string str() const {
		std::string s;
		for (auto &c : path) s += (s.empty() ? "" : ".") + std::to_string(c.first);
		return s;
	}
};

struct Config {
	int max_threads = 3;      // virtual threads
	int max_preempt = 2;      // preemptions per execution (switches at scheduling points where the running thread could go on)
	bool all_orders = true;   // all task orders within a thread (otherwise in order)
	bool all_splits = true;   // all split trees
	size_t max_schedules = 200000;
};

struct Thread {
	ucontext_t ctx{};
	jmp_buf jb;
	bool started = false;
	char *stack = nullptr;
	std::function<void()> fn;
	bool done = false;
};

struct World {
	Chooser ch;
	Config cfg;
	bool active = false;
	int cur = -1;           // running virtual thread, -1: the main program
	int region = 0;         // parallel regions so far
	int preempts = 0;
	u_int64_t points = 0;
	std::vector<std::unique_ptr<Thread>> threads;
	ucontext_t main_ctx{};
	jmp_buf main_jb;
	std::vector<char *> stacks;
	// conflict detection: address -> set of virtual threads that wrote it in this region
	std::map<const void *, int> writer;
	std::string error;
	void err(const std::string &e) {
		if (error.empty()) error = e;
	}
};
inline World &w() {
	static World x;
	return x;
}
inline int choose(int n) { return w().active ? w().ch.choose(n) : 0; }
inline int thread_id() { return w().cur < 0 ? 0 : w().cur; }

inline void tramp() {
	Thread &t = *w().threads[w().cur];
	t.fn();
	t.done = true;
	_longjmp(w().main_jb, 1);
}

// scheduling point: called by the user function of the parallel loop
inline void point() {
	World &W = w();
	if (W.cur < 0) return;
	W.points++;
	if (W.preempts >= W.cfg.max_preempt) return;
	Thread &t = *W.threads[W.cur];
	if (!_setjmp(t.jb)) _longjmp(W.main_jb, 1); // the scheduler decides who goes on
}

// a write to an address shared between threads; two unordered writes from different threads are a race
inline void wrote(const void *p) {
	World &W = w();
	if (W.cur < 0) return;
	auto [it, fresh] = W.writer.emplace(p, W.cur);
	if (!fresh && it->second != W.cur) W.err("data race: two concurrent tasks write the same element");
}

inline constexpr size_t stack_size = 256 * 1024;
// system-call free context switches (swapcontext saves the signal mask)
__attribute__((noinline)) inline void resume(Thread &t) {
	World &W = w();
	if (_setjmp(W.main_jb)) return;
	if (t.started) _longjmp(t.jb, 1);
	t.started = true;
	getcontext(&t.ctx);
	t.ctx.uc_stack.ss_sp = t.stack;
	t.ctx.uc_stack.ss_size = stack_size;
	t.ctx.uc_link = nullptr;
	makecontext(&t.ctx, tramp, 0);
	setcontext(&t.ctx);
}

// run n virtual threads to completion, all interleavings at points
inline void run_threads(int n, const std::function<void(int)> &body) {
	World &W = w();
	if (W.cur >= 0) { // nested parallelism: run inline
		for (int i = 0; i < n; i++) body(i);
		return;
	}
	W.region++;
	W.writer.clear();
	W.threads.clear();
	for (int i = 0; i < n; i++) {
		auto t = std::make_unique<Thread>();
		if ((int)W.stacks.size() <= i) W.stacks.push_back(new char[stack_size]);
		t->stack = W.stacks[i];
		t->fn = [i, &body] { body(i); };
		W.threads.push_back(std::move(t));
	}
	int last = -1;
	for (;;) {
		std::vector<int> run;
		bool last_runs = last >= 0 && !W.threads[last]->done;
		if (last_runs) run.push_back(last);
		if (!last_runs || W.preempts < W.cfg.max_preempt)
			for (int i = 0; i < n; i++)
				if (!W.threads[i]->done && i != last) run.push_back(i);
		if (run.empty()) break;
		int c = run[choose((int)run.size())];
		if (last_runs && c != last) W.preempts++;
		W.cur = last = c;
		resume(*W.threads[c]);
		W.cur = -1;
	}
	W.threads.clear();
	W.writer.clear();
}

// run tasks 0..n-1 under every assignment to threads and every order
inline void run_tasks(size_t n, const std::function<void(size_t)> &task) {
	World &W = w();
	if (n == 0) return;
	if (W.cur >= 0 || !W.active) {
		for (size_t i = 0; i < n; i++) task(i);
		return;
	}
	std::vector<std::vector<size_t>> q;
	for (size_t i = 0; i < n; i++) {
		int k = (int)q.size();
		int c = choose(std::min(k + 1, W.cfg.max_threads));
		if (c == k) q.emplace_back();
		q[c].push_back(i);
	}
	run_threads((int)q.size(), [&](int t) {
		auto mine = q[t];
		while (!mine.empty()) {
			int c = W.cfg.all_orders ? choose((int)mine.size()) : 0;
			size_t id = mine[c];
			mine.erase(mine.begin() + c);
			task(id);
			if (!mine.empty()) point();
		}
	});
}

// all ways of cutting [0,n) into consecutive pieces (n-1 binary decisions)
inline std::vector<std::pair<size_t, size_t>> pieces(size_t n) {
	std::vector<std::pair<size_t, size_t>> v;
	size_t b = 0;
	for (size_t i = 1; i <= n; i++)
		if (i == n || choose(2) == 0) v.emplace_back(b, i), b = i;
	return v;
}

struct Stats {
	u_int64_t schedules = 0, points = 0, regions = 0;
	bool complete = true;
	std::string error, path;
};

// one(): one execution, returns "" or an error
inline Stats explore(const Config &cfg, const std::function<std::string()> &one) {
	World &W = w();
	Stats st;
	W.cfg = cfg;
	W.ch.path.clear();
	do {
		W.ch.pos = 0;
		W.preempts = 0, W.points = 0, W.region = 0;
		W.cur = -1;
		W.error.clear();
		W.active = true;
		std::string e = one();
		W.active = false;
		st.schedules++;
		st.points += W.points;
		st.regions += W.region;
		if (!W.error.empty()) e = W.error;
		if (!e.empty()) {
			st.error = e, st.path = W.ch.str();
			return st;
		}
		if (st.schedules >= cfg.max_schedules) {
			st.complete = false;
			return st;
		}
#ifdef VERIF_REAL
		if (st.schedules < 100) continue; // real runtime: repeated runs only
		break;
#endif
	} while (W.ch.advance()
#ifdef VERIF_REAL
	         || true
#endif
	);
	return st;
}
} // namespace vsched
