H = r'''
#include <array>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <map>
#include <set>
#include <utility>
#include <limits>
#include <functional>
#include <iostream>
// A job type whose deque slots let the demonstration interleave another party's
// whole operations at the moment a slot is read.
struct J { int id; };
static std::function<void()> hook, after;
template <> struct std::atomic<J*> {
  std::atomic<unsigned long> v{0};
  atomic() {}
  atomic(J* p) : v((unsigned long)p) {}
  J* load(std::memory_order o = std::memory_order_seq_cst) const {
    if (hook) { auto h = std::move(hook); hook = nullptr; h(); }
    J* r = (J*)v.load(o);
    if (after) { auto h = std::move(after); after = nullptr; h(); }
    return r;
  }
  void store(J* p, std::memory_order o = std::memory_order_seq_cst) { v.store((unsigned long)p, o); }
  operator J*() const { return load(); }
  J* operator=(J* p) { store(p); return p; }
};
#include "parlay/internal/work_stealing_deque.h"
static std::map<J*, int> got;
static J* rec(J* j) { if (j) got[j]++; return j; }
using D = parlay::internal::Deque<J>;
static int verdict(std::initializer_list<J*> js) {
  for (J* j : js) if (got[j] != 1) { std::printf("job %d handed out %d times\n", j->id, got[j]); return 1; }
  for (auto& g : got) { bool known = false; for (J* j : js) known |= j == g.first; if (!known) { std::puts("unknown job"); return 1; } }
  return 0;
}
'''
F = "internal/work_stealing_deque.h"
SEEDS = [
 dict(id="deque-aba", prop="S02", needs="a thief that stalls between reading the indices and its compare-exchange while the owner empties the deque and pushes again",
      breaks="the tag is not advanced when the owner resets the indices, so a stale thief's CAS succeeds (ABA): one job is returned twice and another is lost",
      edits=[(F, "age_t{old_age.tag + 1, 0}", "age_t{old_age.tag, 0}")],
      demo=H + r'''
int main() {
  static D d; static J a{1}, b{2};
  d.push_bottom(&a);
  after = [&] { rec(d.pop_bottom()); d.push_bottom(&b); };   // runs inside the thief's pop_top
  rec(d.pop_top().first);
  rec(d.pop_bottom()); rec(d.pop_bottom());
  return verdict({&a, &b});
}
'''),
 dict(id="deque-stale-age", prop="S02", needs="two steals that land while the owner is between its read of the age word and its claim of the bottom index",
      breaks="pop_bottom reads the age word before it claims the bottom slot, so the owner returns a job that a thief already took",
      edits=[(F, "      bot.store(local_bot, std::memory_order_release);  // shared store\n      std::atomic_thread_fence(std::memory_order_seq_cst);\n      auto job =\n          deq[local_bot].job.load(std::memory_order_acquire);  // atomic load\n      auto old_age = age.load(std::memory_order_acquire);      // atomic load\n",
              "      auto old_age = age.load(std::memory_order_acquire);      // atomic load\n      auto job =\n          deq[local_bot].job.load(std::memory_order_acquire);  // atomic load\n      bot.store(local_bot, std::memory_order_release);  // shared store\n      std::atomic_thread_fence(std::memory_order_seq_cst);\n")],
      demo=H + r'''
int main() {
  static D d; static J a{1}, b{2};
  d.push_bottom(&a); d.push_bottom(&b);
  hook = [&] { rec(d.pop_top().first); rec(d.pop_top().first); };   // thieves, while the owner is in pop_bottom
  rec(d.pop_bottom()); rec(d.pop_bottom()); rec(d.pop_top().first); rec(d.pop_top().first);
  return verdict({&a, &b});
}
'''),
 dict(id="deque-late-read", prop="S02", needs="a thief that wins the last job and stalls before reading the slot while the owner resets and pushes a new job",
      breaks="pop_top reads the slot only after winning the compare-exchange, so it can return a different job from the one it claimed",
      edits=[(F, "      auto job = deq[old_age.top].job.load(std::memory_order_acquire);  // atomic load\n      auto new_age = old_age;\n", "      auto new_age = old_age;\n"),
             (F, "        return {job, (local_bot == old_age.top + 1)};", "        return {deq[old_age.top].job.load(std::memory_order_acquire), (local_bot == old_age.top + 1)};")],
      demo=H + r'''
int main() {
  static D d; static J a{1}, b{2};
  d.push_bottom(&a);
  hook = [&] { rec(d.pop_bottom()); d.push_bottom(&b); };
  rec(d.pop_top().first);
  rec(d.pop_bottom()); rec(d.pop_bottom());
  return verdict({&a, &b});
}
'''),
 dict(id="deque-overflow", prop="S02", needs="a deque filled to its capacity: more than a thousand jobs pushed without a pop",
      breaks="the capacity check is one late, so a push writes past the end of the deque instead of aborting",
      edits=[(F, "    if (local_bot == q_size) {", "    if (local_bot > q_size) {")],
      flags="-O1 -g -fsanitize=address",
      run='ASAN_OPTIONS=exitcode=9:detect_leaks=0:handle_abort=0 timeout 60 ./demo; r=$?; [ $r = 134 ]',
      demo=H + r'''
int main() {   // expected: abort (exit status 134); a write outside the deque makes ASan exit 9
  D* d = new D; static J a{1};
  for (int i = 0; i < 1500; i++) d->push_bottom(&a);
  return 0;
}
'''),
]
