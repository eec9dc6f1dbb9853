#include <parlay/parallel.h>
#include <parlay/internal/sequence_ops.h>
// Loop entry points with an opaque body; analysed as LLVM IR, never executed.
extern "C" {
void plint_body(size_t) noexcept;
void plint_block(size_t, size_t, size_t) noexcept;
}
struct B { void operator()(size_t i) const noexcept { plint_body(i); } };
struct Bl { void operator()(size_t b, size_t s, size_t e) const noexcept { plint_block(b, s, e); } };
struct L0 { void operator()() const noexcept { plint_body(0); } };
struct R1 { void operator()() const noexcept { plint_body(1); } };
extern "C" {
#ifdef PLINT_REAL
void drv_tile_parfor(size_t s, size_t e, B& b, long g, bool c) { parlay::parallel_for(s, e, b, g, c); }
void drv_tile_parfor_auto(size_t s, size_t e, B& b) { parlay::parallel_for(s, e, b); }
void drv_tile_parfor_cons(size_t s, size_t e, B& b, long g) { parlay::parallel_for(s, e, b, g, true); }
#else
void drv_tile_plugin_for(size_t s, size_t e, B& b, long g, bool c) { parlay::parallel_for(s, e, b, g, c); }
void drv_tile_plugin_do_zero_two(size_t s, size_t e, L0& l, R1& r, bool c) { if (e == 2) parlay::par_do(l, r, c); else for (size_t i = s; i < e; i++) plint_body(i); }
#endif
#ifdef PARLAY_SEQUENTIAL
// block decompositions built on parallel_for
void drv_tile_blocked(size_t s, size_t e, size_t bs, Bl& b, bool c) { parlay::blocked_for(s, e, bs, b, c); }
void drv_tile_blocked_zero_sliced(size_t s, size_t e, size_t bs, Bl& b, unsigned fl) { parlay::internal::sliced_for(e, bs, b, fl); }
#endif
}
