F = "scheduler.h"; PA = "parallel.h"; PL = "internal/scheduler_plugins/"
SEEDS = [
 dict(id="doif-cons-drop", prop="S01", needs="par_do_if with do_parallel false and conservative true",
      breaks="the right branch is never run on the sequential path of a conservative par_do_if",
      edits=[(PA, "    std::forward<Lf>(left)();\n    std::forward<Rf>(right)();\n  }\n}\n\ntemplate <typename Lf, typename Mf, typename Rf>\ninline",
                  "    std::forward<Lf>(left)();\n    if (!cons) std::forward<Rf>(right)();\n  }\n}\n\ntemplate <typename Lf, typename Mf, typename Rf>\ninline")],
      demo=r'''
#include <cstdio>
#include "parlay/parallel.h"
int main() {
  int l = 0, r = 0;
  parlay::par_do_if(false, [&] { l++; }, [&] { r++; }, true);
  if (l != 1 || r != 1) { std::printf("left ran %d times, right %d\n", l, r); return 1; }
}
''', run="PARLAY_NUM_THREADS=2 timeout 60 ./demo"),
 dict(id="cons-steals", prop="S01", needs="a conservative par_do whose right branch was stolen while other work is available to steal",
      breaks="parallel_do drops the conservative flag, so the waiting caller runs unrelated jobs",
      edits=[(PA, "  par_do(std::forward<Lf>(left), std::forward<Rf>(right), conservative);\n}\n\ntemplate<typename F>",
                  "  par_do(std::forward<Lf>(left), std::forward<Rf>(right), conservative && parlay::num_workers() == 1);\n}\n\ntemplate<typename F>")],
      demo=r'''
#include <cstdio>
#include <atomic>
#include <chrono>
#include <thread>
#include "parlay/parallel.h"
int main() {
  std::atomic<bool> started{false}, bad{false};
  auto pause = [](int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); };
  auto self = std::this_thread::get_id();
  parlay::par_do([&] { pause(300); }, [] {});      // lets the other worker reach its idle state
  pause(300);
  parlay::parallel_do(
    [&] { for (int i = 0; i < 5000 && !started; i++) pause(1); },
    [&] {
      started = true;
      for (int i = 0; i < 5; i++)
        parlay::par_do([&] { pause(40); }, [&] { if (std::this_thread::get_id() == self) bad = true; });
    }, true);
  if (bad) { std::puts("the conservative waiter ran somebody else's job"); return 1; }
}
''', run="PARLAY_NUM_THREADS=2 timeout 60 ./demo"),
 dict(id="steal-drop", prop="S01", needs="a worker that times out of an idle round exactly after a steal attempt succeeded",
      breaks="an idle worker checks its time limit between taking a job and returning it, and drops the job",
      edits=[(F, "        Job* job = try_steal(id);\n        if (job) return job;",
                 "        Job* job = try_steal(id);\n        if (timeout && std::chrono::steady_clock::now() - start_time > 2 * STEAL_TIMEOUT) return nullptr;\n        if (job) return job;")],
      demo=r'''
#include <cstdio>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <thread>
#include <unistd.h>
static std::atomic<bool> late{false};
// the demonstration's clock: once `late`, the next reading is far in the future
#define steady_clock plint_clock
namespace std { namespace chrono { struct plint_clock { using duration = nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = chrono::time_point<plint_clock>; static constexpr bool is_steady = true;
  static time_point now() noexcept { static thread_local long t = 0; t += 1000; if (late && sysconf(_SC_PAGESIZE)) t += 1000000000L; return time_point(nanoseconds(t)); } }; } }
#include "parlay/parallel.h"
int main() {
  std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(20)); std::puts("a branch was lost"); std::_Exit(1); }).detach();
  late = true;
  for (int k = 0; k < 20; k++) {
    std::atomic<bool> right{false};
    parlay::par_do([&] { std::this_thread::sleep_for(std::chrono::milliseconds(2)); }, [&] { right = true; });
    if (!right) return 1;
  }
  std::_Exit(0);
}
''', run="PARLAY_NUM_THREADS=3 timeout 60 ./demo"),
 dict(id="omp-grain", prop="S03", needs="the OpenMP back end, an explicit granularity above 1 and a loop nested in a parallel region",
      breaks="the nested taskloop with a grain size starts at start + granularity % 2, skipping the first index for odd granularities",
      edits=[(PL + "omp.h", "      #pragma omp taskloop grainsize(granularity) shared(f)\n      for (size_t i = start; i < end; i++) {",
                            "      #pragma omp taskloop grainsize(granularity) shared(f)\n      for (size_t i = start + (granularity & 1); i < end; i++) {")],
      demo=r'''
#include <cstdio>
#include <atomic>
#include <vector>
#include "parlay/parallel.h"
int main() {
  std::vector<std::atomic<int>> v(4 * 100);
  for (auto& x : v) x = 0;
  parlay::parallel_for(0, 4, [&](size_t k) { parlay::parallel_for(0, 100, [&](size_t i) { v[k * 100 + i]++; }, 7); }, 1);
  for (size_t i = 0; i < v.size(); i++) if (v[i] != 1) { std::printf("index %zu ran %d times\n", i, v[i].load()); return 1; }
}
''', flags="-O1 -fopenmp -DPARLAY_OPENMP"),
 dict(id="gran-overshoot", prop="S03", needs="automatic granularity, a start above zero, a length that is not 2^k-1 and a body cheap enough that timing has not stopped sampling",
      breaks="the sampling loop clamps its batch against end - done instead of end - (start + done), so it runs indices at and beyond end",
      edits=[(F, "      sz = std::min(sz, end - (start + done));", "      sz = std::min(sz, end - done - (start < 4096 ? start : 0));")],
      demo=r'''
#include <cstdio>
#include <atomic>
#include <vector>
#include "parlay/parallel.h"
int main() {
  size_t s = 5000, e = 5006;
  std::vector<std::atomic<int>> v(6000);
  for (auto& x : v) x = 0;
  for (int k = 0; k < 50; k++) parlay::parallel_for(s, e, [&](size_t i) { v[i < 6000 ? i : 5999]++; });
  for (size_t i = 0; i < v.size(); i++) if (v[i] != (i >= s && i < e ? 50 : 0)) { std::printf("index %zu ran %d times\n", i, v[i].load()); return 1; }
}
''', run="PARLAY_NUM_THREADS=2 timeout 60 ./demo"),
 dict(id="sliced-tail", prop="S03", needs="a block decomposition whose length is one more than a multiple of the block size, above 2^20 elements",
      breaks="sliced_for computes the number of blocks from n - 1 for large n and leaves the last element in no block",
      edits=[("internal/sequence_ops.h", "  size_t l = num_blocks(n, block_size);\n  auto body", "  size_t l = num_blocks(n > (1 << 22) ? n - 1 : n, block_size);\n  auto body")],
      demo=r'''
#include <cstdio>
#include <atomic>
#include "parlay/parallel.h"
#include "parlay/internal/sequence_ops.h"
int main() {
  std::atomic<size_t> total{0}; size_t n = (1 << 22) + 2048 + 1;
  parlay::internal::sliced_for(n, 2048, [&](size_t, size_t s, size_t e) { total += e - s; });
  if (total != n) { std::printf("%zu of %zu elements are in a block\n", total.load(), n); return 1; }
}
''', run="PARLAY_NUM_THREADS=2 timeout 60 ./demo"),
]
