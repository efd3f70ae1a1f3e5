// Stand-in for oneTBB whose every scheduling decision is enumerated (see vsched.hpp).
#pragma once
#include "../../vsched.hpp"
#include <cstddef>
#include <map>
#include <memory>
#include <mutex>
#include <type_traits>
#include <utility>
#include <vector>
#define VERIF_STUB_TBB 1
#define TBB_VERSION_MAJOR 2021
#define TBB_INTERFACE_VERSION 12000
namespace tbb {
struct split {};
struct proportional_split {
	std::size_t l, r;
	proportional_split(std::size_t a = 1, std::size_t b = 1) : l(a), r(b) {}
	std::size_t left() const { return l; }
	std::size_t right() const { return r; }
	explicit operator split() const { return split(); }
};
struct simple_partitioner {};
struct auto_partitioner {};
struct static_partitioner {};
struct affinity_partitioner {};
template<class V>
class blocked_range {
	V b, e;
	std::size_t g;
public:
	using const_iterator = V;
	using size_type = std::size_t;
	blocked_range(V b_, V e_, std::size_t g_ = 1) : b(b_), e(e_), g(g_) {}
	blocked_range(blocked_range &r, split) : b(r.b + (r.e - r.b) / 2), e(r.e), g(r.g) { r.e = b; }
	V begin() const { return b; }
	V end() const { return e; }
	std::size_t size() const { return std::size_t(e - b); }
	std::size_t grainsize() const { return g; }
	bool empty() const { return !(b < e); }
	bool is_divisible() const { return g < size(); }
};
namespace stub {
template<class R>
void leaves(std::unique_ptr<R> r, std::vector<std::unique_ptr<R>> &out, int depth) {
	if (depth > 20 || out.size() > 64) {
		vsched::w().err("splitting the range does not end");
		return;
	}
	if (r->is_divisible() && (vsched::w().cfg.all_splits ? vsched::choose(2) == 0 : true)) {
		auto right = std::make_unique<R>(*r, split());
		leaves(std::move(r), out, depth + 1);
		leaves(std::move(right), out, depth + 1);
	} else {
		out.push_back(std::move(r));
	}
}
} // namespace stub
template<class R, class B, class... P, std::enable_if_t<!std::is_integral_v<R>, int> = 0>
void parallel_for(const R &range, const B &body, P &&...) {
	if (range.empty()) return;
	std::vector<std::unique_ptr<R>> ls;
	stub::leaves(std::make_unique<R>(range), ls, 0);
	B b(body);
	vsched::run_tasks(ls.size(), [&](std::size_t i) {
		const B mine(b);
		mine(*ls[i]);
	});
}
template<class I, class F, std::enable_if_t<std::is_integral_v<I>, int> = 0>
void parallel_for(I first, I last, const F &f) {
	if (first < last) parallel_for(blocked_range<I>(first, last), [&](const blocked_range<I> &r) { for (I i = r.begin(); i < r.end(); ++i) f(i); });
}
template<class R, class T, class F, class J, class... P>
T parallel_reduce(const R &range, const T &identity, const F &f, const J &join, P &&...) {
	if (range.empty()) return identity;
	std::vector<std::unique_ptr<R>> ls;
	stub::leaves(std::make_unique<R>(range), ls, 0);
	std::vector<T> part(ls.size(), identity);
	vsched::run_tasks(ls.size(), [&](std::size_t i) { part[i] = f(*ls[i], part[i]); });
	T acc = part[0];
	for (std::size_t i = 1; i < part.size(); i++) acc = join(acc, part[i]);
	return acc;
}
template<class F, class... Fs>
void parallel_invoke(const F &f, const Fs &...fs) {
	std::vector<std::function<void()>> v{f, fs...};
	vsched::run_tasks(v.size(), [&](std::size_t i) { v[i](); });
}
template<class T>
class combinable {
	std::map<int, std::unique_ptr<T>> m;
	std::function<std::unique_ptr<T>()> make;
public:
	combinable() : make([] { return std::make_unique<T>(); }) {}
	template<class F, std::enable_if_t<std::is_invocable_v<F>, int> = 0>
	explicit combinable(F f) : make([f] { return std::unique_ptr<T>(new T(f())); }) {}
	T &local() {
		bool e;
		return local(e);
	}
	T &local(bool &exists) {
		auto &p = m[vsched::thread_id()];
		exists = bool(p);
		if (!p) p = make();
		return *p;
	}
	void clear() { m.clear(); }
	template<class F>
	void combine_each(const F &f) {
		std::vector<T *> v;
		for (auto &kv : m) v.push_back(kv.second.get());
		while (!v.empty()) {
			int c = vsched::choose((int)v.size());
			f(*v[c]);
			v.erase(v.begin() + c);
		}
	}
	template<class F>
	T combine(const F &f) {
		if (m.empty()) return *make();
		std::vector<T *> v;
		for (auto &kv : m) v.push_back(kv.second.get());
		T acc = *v[0];
		for (size_t i = 1; i < v.size(); i++) acc = f(acc, *v[i]);
		return acc;
	}
};
template<class T>
class enumerable_thread_specific {
	std::map<int, std::unique_ptr<T>> m;
	std::vector<T *> order;
	std::function<std::unique_ptr<T>()> make;
public:
	enumerable_thread_specific() : make([] { return std::make_unique<T>(); }) {}
	template<class F, std::enable_if_t<std::is_invocable_v<F>, int> = 0>
	explicit enumerable_thread_specific(F f) : make([f] { return std::unique_ptr<T>(new T(f())); }) {}
	T &local() {
		bool e;
		return local(e);
	}
	T &local(bool &exists) {
		auto &p = m[vsched::thread_id()];
		exists = bool(p);
		if (!p) p = make(), order.push_back(p.get());
		return *p;
	}
	struct iterator {
		T *const *p;
		T &operator*() const { return **p; }
		T *operator->() const { return *p; }
		iterator &operator++() { ++p; return *this; }
		bool operator!=(const iterator &o) const { return p != o.p; }
		bool operator==(const iterator &o) const { return p == o.p; }
	};
	iterator begin() const { return {order.data()}; }
	iterator end() const { return {order.data() + order.size()}; }
	std::size_t size() const { return order.size(); }
	bool empty() const { return order.empty(); }
	template<class F>
	void combine_each(const F &f) { for (T *t : order) f(*t); }
};
// within one virtual thread's step nothing else runs, so locks are trivially held
struct null_mutex_base {
	void lock() {}
	void unlock() {}
	bool try_lock() { return true; }
	struct scoped_lock {
		scoped_lock() = default;
		explicit scoped_lock(null_mutex_base &) {}
		void acquire(null_mutex_base &) {}
		void release() {}
	};
};
using mutex = null_mutex_base;
using spin_mutex = null_mutex_base;
using queuing_mutex = null_mutex_base;
} // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }
