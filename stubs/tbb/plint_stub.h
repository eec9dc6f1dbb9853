// Analysis stub: TBB's documented contract with a single sub-range (the body is called on ranges that partition the given one).
#pragma once
#include <cstddef>
#include <utility>
namespace tbb {
template <class T> struct blocked_range {
  T b, e; std::size_t g;
  blocked_range(T b_, T e_, std::size_t g_ = 1) : b(b_), e(e_), g(g_) {}
  T begin() const { return b; } T end() const { return e; } std::size_t grainsize() const { return g; }
  bool empty() const { return !(b < e); } std::size_t size() const { return e - b; }
};
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {};
template <class R, class F> void parallel_for(const R& r, const F& f) { if (!r.empty()) f(r); }
template <class R, class F, class P> void parallel_for(const R& r, const F& f, const P&) { if (!r.empty()) f(r); }
template <class... Fs> void parallel_invoke(Fs&&... fs) { (std::forward<Fs>(fs)(), ...); }
namespace this_task_arena { int max_concurrency(); int current_thread_index(); }
struct task_arena { static const int not_initialized = -2; static const int automatic = -1; };
}
