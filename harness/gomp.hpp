// Stand-in for libgomp's entry points: the number of threads, the interleaving and (for dynamic schedules) the chunk
// assignment are enumerated (see vsched.hpp).  Included once, by the OpenMP programs.
#pragma once
#include "vsched.hpp"
#ifndef VERIF_REAL
#include <omp.h>
namespace vgomp {
struct Team {
	int n = 1;
	long start = 0, end = 0, incr = 1, chunk = 1, next = 0;
	bool inited = false;
	unsigned long long us = 0, ue = 0, ui = 1, uc = 1, un = 0;
};
inline Team team;
inline int max_team = 4;
} // namespace vgomp
extern "C" {
inline __attribute__((used)) int omp_get_num_threads() noexcept { return vsched::w().cur < 0 ? 1 : vgomp::team.n; }
inline __attribute__((used)) int omp_get_thread_num() noexcept { return vsched::thread_id(); }
inline __attribute__((used)) int omp_get_max_threads() noexcept { return vgomp::max_team; }
inline __attribute__((used)) int omp_in_parallel() noexcept { return vsched::w().cur >= 0; }
inline __attribute__((used)) void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
	int n = nt ? (int)nt : 1 + vsched::choose(vgomp::max_team);
	vgomp::team = vgomp::Team{};
	vgomp::team.n = n;
	vsched::run_threads(n, [&](int) { fn(data); });
}
inline __attribute__((used)) void GOMP_barrier() {}
inline __attribute__((used)) void GOMP_critical_start() {}
inline __attribute__((used)) void GOMP_critical_end() {}
inline __attribute__((used)) void GOMP_atomic_start() {}
inline __attribute__((used)) void GOMP_atomic_end() {}
inline __attribute__((used)) bool GOMP_loop_dynamic_next(long *s, long *e) {
	auto &t = vgomp::team;
	vsched::point();
	if (t.incr > 0 ? t.next >= t.end : t.next <= t.end) return false;
	*s = t.next;
	long x = t.next + t.chunk * t.incr;
	if (t.incr > 0 ? x > t.end : x < t.end) x = t.end;
	*e = t.next = x;
	return true;
}
inline __attribute__((used)) bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long *s, long *e) {
	auto &t = vgomp::team;
	if (!t.inited) t.inited = true, t.start = t.next = a, t.end = b, t.incr = i, t.chunk = c > 0 ? c : 1;
	return GOMP_loop_dynamic_next(s, e);
}
inline __attribute__((used)) bool GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }
inline __attribute__((used)) bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return GOMP_loop_dynamic_start(a, b, i, c, s, e); }
inline __attribute__((used)) bool GOMP_loop_guided_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }
inline __attribute__((used)) bool GOMP_loop_guided_start(long a, long b, long i, long c, long *s, long *e) { return GOMP_loop_dynamic_start(a, b, i, c, s, e); }
inline __attribute__((used)) bool GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return GOMP_loop_dynamic_next(s, e); }
inline __attribute__((used)) bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long *s, long *e) { return GOMP_loop_dynamic_start(a, b, i, c, s, e); }
inline __attribute__((used)) void GOMP_loop_end() {}
inline __attribute__((used)) void GOMP_loop_end_nowait() {}
#define VG_WRAP(name, kind, team_) \
inline __attribute__((used)) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long a, long b, long i, long c, unsigned) { \
	int n = nt ? (int)nt : 1 + vsched::choose(vgomp::max_team); \
	vgomp::team = vgomp::Team{}; \
	auto &t = vgomp::team; \
	t.n = n, t.inited = true, t.start = t.next = a, t.end = b, t.incr = i, t.chunk = c > 0 ? c : 1; \
	vsched::run_threads(n, [&](int) { fn(data); }); \
}
VG_WRAP(dynamic, , )
VG_WRAP(guided, , )
VG_WRAP(nonmonotonic_dynamic, , )
VG_WRAP(nonmonotonic_guided, , )
}
#endif
