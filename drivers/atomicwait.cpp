#include <atomic>
#include <cstdint>
#include <cstddef>
#include <parlay/internal/atomic_wait.h>
// Instantiates the wait / notify functions for table-backed (size_t) and directly waited (int32_t) values.
extern "C" {
void drv_wait_sz(const std::atomic<size_t>* a, size_t v) { parlay::atomic_wait(a, v); }
void drv_wait_i32(const std::atomic<int32_t>* a, int32_t v) { parlay::atomic_wait(a, v); }
void drv_waitx_sz(const std::atomic<size_t>* a, size_t v) { parlay::atomic_wait_explicit(a, v, std::memory_order_acquire); }
void drv_waitx_i32(const std::atomic<int32_t>* a, int32_t v) { parlay::atomic_wait_explicit(a, v, std::memory_order_acquire); }
void drv_one_sz(std::atomic<size_t>* a) { parlay::atomic_notify_one(a); }
void drv_one_i32(std::atomic<int32_t>* a) { parlay::atomic_notify_one(a); }
void drv_all_sz(std::atomic<size_t>* a) { parlay::atomic_notify_all(a); }
void drv_all_i32(std::atomic<int32_t>* a) { parlay::atomic_notify_all(a); }
}
