// block_allocator over stand-ins for the per-thread list and the shared stacks (their own properties are S06 and A03).
#define PARLAY_THREAD_SPECIFIC_H_
#define PARLAY_INTERNAL_CONCURRENCY_HAZPTR_STACK_H
#include <cstddef>
#include <atomic>
#include <optional>
#include <type_traits>
#include <utility>
using Z = unsigned long;
extern "C" {
void* plint_local(const void* list) noexcept;               // the calling thread's element
void* plint_list(const void* list, Z i) noexcept;           // somebody's element
bool plint_pop_list(const void* s, void** out) noexcept; void plint_push_list(const void* s, void* v) noexcept; Z plint_lists(const void* s) noexcept; void plint_clear_lists(const void* s) noexcept;
bool plint_pop_buf(const void* s, void** out) noexcept; void plint_push_buf(const void* s, void* v) noexcept; Z plint_bufs(const void* s) noexcept; void plint_clear_bufs(const void* s) noexcept;
}
namespace parlay {
using thread_id_type = unsigned int; inline Z num_thread_ids() { return 2; } inline Z my_thread_id() { return 0; }
template <class T> struct ThreadSpecific {
  ThreadSpecific() {} template <class F> explicit ThreadSpecific(F&&) {}
  T& get() { return *static_cast<T*>(plint_local(this)); } const T& get() const { return *static_cast<T*>(plint_local(this)); }
  T& operator*() { return get(); } const T& operator*() const { return get(); } T* operator->() { return &get(); } const T* operator->() const { return &get(); }
  template <class F> void for_each(F&& f) { f(*static_cast<T*>(plint_list(this, 0))); f(*static_cast<T*>(plint_list(this, 1))); }
  template <class F> void for_each(F&& f) const { f(*static_cast<const T*>(plint_list(this, 0))); f(*static_cast<const T*>(plint_list(this, 1))); }
};
namespace internal {
template <class T> struct hazptr_stack {
  static constexpr bool buf = std::is_same_v<T, std::byte*>;
  std::optional<T> pop() { void* p; if (!(buf ? plint_pop_buf(this, &p) : plint_pop_list(this, &p))) return {}; return static_cast<T>(p); }
  void push(T v) { if constexpr (buf) plint_push_buf(this, v); else plint_push_list(this, v); }
  std::size_t size() const { return buf ? plint_bufs(this) : plint_lists(this); } bool empty() const { return size() == 0; }
  void clear() { if constexpr (buf) plint_clear_bufs(this); else plint_clear_lists(this); }
  ~hazptr_stack() {}
};
}
}
#include <parlay/internal/block_allocator.h>
using BA = parlay::internal::block_allocator;
extern "C" {
void* drv_alloc(BA& a) { return a.alloc(); }
void drv_free(BA& a, void* p) { a.free(p); }
Z drv_used(BA& a) { return a.num_used_blocks(); }
Z drv_allocated(BA& a) { return a.num_allocated_blocks(); }
Z drv_size(BA& a) { return a.get_block_size(); }
bool drv_clear(BA& a) { return a.clear(); }
void drv_dtor(BA& a) { a.~BA(); }
void drv_ctor(void* d, Z size, Z align) { ::new (d) BA(size, align); }
void drv_ctor_all(void* d, Z size, Z align, Z res, Z len, Z mx) { ::new (d) BA(size, align, res, len, mx); }
}
