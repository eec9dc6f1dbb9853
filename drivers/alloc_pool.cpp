// pool_allocator over stand-ins for the block allocator of one size and for the shared stacks.
#define PARLAY_INTERNAL_BLOCK_ALLOCATOR_H_
#define PARLAY_INTERNAL_CONCURRENCY_HAZPTR_STACK_H
#include <cstddef>
#include <atomic>
#include <algorithm>
#include <memory>
#include <new>
#include <optional>
#include <utility>
#include <vector>
using Z = unsigned long;
extern "C" {
void* plint_ba_alloc(const void* a) noexcept; void plint_ba_free(const void* a, void* p) noexcept; Z plint_ba_allocated(const void* a) noexcept; Z plint_ba_used(const void* a) noexcept;
void plint_ba_ctor(void* a, Z size, Z align) noexcept;
bool plint_pop_list(const void* s, void** out) noexcept; void plint_push_list(const void* s, void* v) noexcept;
}
namespace parlay {
namespace internal {
struct block_allocator {
  char pad[256]; block_allocator(Z size, Z align) { plint_ba_ctor(this, size, align); }
  block_allocator(const block_allocator&) = delete;
  void* alloc() { return plint_ba_alloc(this); } void free(void* p) { plint_ba_free(this, p); }
  Z num_allocated_blocks() { return plint_ba_allocated(this); } Z num_used_blocks() { return plint_ba_used(this); } ~block_allocator() {}
};
template <class T> struct hazptr_stack {
  char pad[128]; hazptr_stack() {}
  std::optional<T> pop() { void* p; if (!plint_pop_list(this, &p)) return {}; return static_cast<T>(p); }
  void push(T v) { plint_push_list(this, v); } ~hazptr_stack() {}
};
}
}
#include <parlay/internal/pool_allocator.h>
using PA = parlay::internal::pool_allocator;
extern "C" {
void* drv_pool_alloc(PA& a, Z n) { return a.allocate(n); }
void drv_pool_free(PA& a, void* p, Z n) { a.deallocate(p, n); }
void mk_pool(void* d, const std::vector<Z>& v) { ::new (d) PA(v); }
}
