#include <parlay/parallel.h>
// Instantiates the fork-join scheduler with opaque thunks; analysed as LLVM IR, never executed.
using S = parlay::internal::scheduler_type;
extern "C" {
void plint_left() noexcept;
void plint_right() noexcept;
void plint_mid() noexcept;
void plint_body(size_t) noexcept;
void plint_block(size_t, size_t, size_t) noexcept;
bool plint_cond() noexcept;
}
struct L { void operator()() const noexcept { plint_left(); } };
struct R { void operator()() const noexcept { plint_right(); } };
struct Mi { void operator()() const noexcept { plint_mid(); } };
struct B { void operator()(size_t i) const noexcept { plint_body(i); } };
struct Bl { void operator()(size_t b, size_t s, size_t e) const noexcept { plint_block(b, s, e); } };
extern "C" {
void drv_pardo(S& s, L& l, R& r) { parlay::fork_join_scheduler::pardo(s, l, r, false); }
void drv_pardo_cons(S& s, L& l, R& r) { parlay::fork_join_scheduler::pardo(s, l, r, true); }
void drv_par_do(L& l, R& r, bool c) { parlay::par_do(l, r, c); }
void drv_parallel_do(L& l, R& r, bool c) { parlay::parallel_do(l, r, c); }
void drv_par_do_if(bool p, L& l, R& r, bool c) { parlay::par_do_if(p, l, r, c); }
void drv_par_do_cons(L& l, R& r) { parlay::par_do(l, r, true); }
void drv_parallel_do_cons(L& l, R& r) { parlay::parallel_do(l, r, true); }
void drv_par_do_if_cons(bool p, L& l, R& r) { parlay::par_do_if(p, l, r, true); }
void drv_par_do3(L& l, Mi& m, R& r) { parlay::par_do3(l, m, r); }
void drv_par_do3_if(bool p, L& l, Mi& m, R& r) { parlay::par_do3_if(p, l, m, r); }
void drv_exec_sched(unsigned p, L& l) { parlay::execute_with_scheduler(p, l); }
void drv_run_job(parlay::JobImpl<R>* j) { (*j)(); }
void drv_execute(parlay::JobImpl<R>* j) { j->parlay::JobImpl<R>::execute(); }
void drv_job_wait(parlay::JobImpl<R>* j) { j->wait(); }
void drv_worker(S* s) { s->worker(); }
void drv_ctor(void* p, size_t n) { ::new (p) S(n); }
void drv_dtor(S* s) { s->~S(); }
void drv_parfor(size_t s, size_t e, B& b, long g, bool c) { parlay::parallel_for(s, e, b, g, c); }
void drv_blocked_for(size_t s, size_t e, size_t bs, Bl& b, bool c) { parlay::blocked_for(s, e, bs, b, c); }
}
