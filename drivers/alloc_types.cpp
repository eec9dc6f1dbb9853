// The typed allocators over stand-ins for the pool and block allocators: what is asked for and given back must agree in size.
#define PARLAY_INTERNAL_BLOCK_ALLOCATOR_H_
#define PARLAY_INTERNAL_POOL_ALLOCATOR_H
#include <cstddef>
#include <algorithm>
#include <iostream>
#include <memory>
#include <new>
#include <utility>
#include <vector>
using Z = unsigned long;
extern "C" {
void* plint_ba_alloc(const void* a) noexcept; void plint_ba_free(const void* a, void* p) noexcept;
void* plint_pool_alloc(const void* a, Z n) noexcept; void plint_pool_free(const void* a, void* p, Z n) noexcept;
void plint_built(void* p) noexcept; void plint_gone(void* p) noexcept;
}
namespace parlay {
namespace internal {
struct block_allocator {
  block_allocator(Z size, Z align = 16) { } ~block_allocator() {}
  void* alloc() { return plint_ba_alloc(this); } void free(void* p) { plint_ba_free(this, p); }
  Z num_allocated_blocks() { return 0; } Z num_used_blocks() { return 0; } Z get_block_size() { return 0; } bool clear() { return true; } void print_stats() {}
};
struct pool_allocator {
  static inline constexpr Z max_alignment = 128; explicit pool_allocator(const std::vector<Z>&) {} ~pool_allocator() {}
  void* allocate(Z n) { return plint_pool_alloc(this, n); } void deallocate(void* p, Z n) { plint_pool_free(this, p, n); }
  std::pair<Z, Z> stats() { return {0, 0}; } void clear() {}
};
}
}
#include <parlay/alloc.h>
template <int N, int A> struct alignas(A) Obj { char c[N]; Obj() { plint_built(this); } ~Obj() { plint_gone(this); } };
#define TYPED(s, T) extern "C" { void* drv_array_alloc_##s(Z n) { parlay::allocator<T> a; return a.allocate(n); } \
  void drv_array_free_##s(T* p, Z n) { parlay::allocator<T> a; a.deallocate(p, n); } \
  void* drv_one_alloc_##s() { return parlay::type_allocator<T>::alloc(); } void drv_one_free_##s(T* p) { parlay::type_allocator<T>::free(p); } }
#define OBJ(s, N, A) using T##s = Obj<N, A>; TYPED(s, T##s) extern "C" { void* drv_one_create_##s() { return parlay::type_allocator<T##s>::create(); } void drv_one_destroy_##s(T##s* p) { parlay::type_allocator<T##s>::destroy(p); } }
TYPED(1_1, char)
TYPED(4_4, int)
TYPED(8_8, long)
OBJ(24_8, 24, 8)
OBJ(3_1, 3, 1)
OBJ(48_16, 48, 16)
OBJ(64_64, 64, 64)
OBJ(128_128, 128, 128)
extern "C" {
void* drv_malloc_16(Z n) { return parlay::p_malloc(n); }
void* drv_malloc_64(Z n) { return parlay::p_malloc(n, 64); }
void* drv_malloc_512(Z n) { return parlay::p_malloc(n, 512); }
}
