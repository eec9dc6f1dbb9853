#include <array>
#include <atomic>
#include <utility>
#include <cstdlib>
#include <parlay/internal/work_stealing_deque.h>
#include <parlay/internal/work_stealing_job.h>
// Instantiates the work-stealing deque; analysed as LLVM IR, never executed.
using J = parlay::WorkStealingJob;
using D = parlay::internal::Deque<J>;
extern "C" {
void drv_push(D& d, J* j) { (void)d.push_bottom(j); }
J* drv_pop_bottom(D& d) { return d.pop_bottom(); }
J* drv_pop_top(D& d) { return d.pop_top().first; }
void drv_ctor(void* p) { ::new (p) D(); }
}
