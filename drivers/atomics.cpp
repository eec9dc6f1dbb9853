#include "parlay/utilities.h"
extern "C" {
bool plint_less(uint64_t a, uint64_t b);
bool drv_write_min(std::atomic<uint64_t>* a, uint64_t b) { return parlay::write_min(a, b, [](uint64_t x, uint64_t y) { return plint_less(x, y); }); }
bool drv_write_max(std::atomic<uint64_t>* a, uint64_t b) { return parlay::write_max(a, b, [](uint64_t x, uint64_t y) { return plint_less(x, y); }); }
void drv_write_add(std::atomic<uint64_t>* a, uint64_t b) { parlay::write_add(a, b); }
void drv_write_add32(std::atomic<int>* a, int b) { parlay::write_add(a, b); }
}
