H = "#include <cstdio>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#include <thread>\n#include <atomic>\n#include <chrono>\n"
def sd(id, prop, needs, breaks, edits, demo, **k): return dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k)
SEEDS = [
sd("scan-swapped", "P01", "an exclusive scan with a monoid that does not commute", "scan combines the elements of a block in the wrong order",
   [("internal/sequence_ops.h", "      r = m(std::move(r), t);", "      r = m(t, std::move(r));")], r'''
#include <parlay/primitives.h>
int main() {
  for (size_t n : {3, 1000, 5000}) {
    auto s = parlay::tabulate(n, [](size_t i) { return std::make_pair(long(i % 3), long(i % 7)); });   // affine maps
    auto m = parlay::make_monoid([](std::pair<long, long> a, std::pair<long, long> b) { return std::make_pair((a.first * b.first) % 1009, (a.second * b.first + b.second) % 1009); }, std::make_pair(1L, 0L));
    auto [r, tot] = parlay::scan(s, m);
    auto acc = m.identity;
    for (size_t i = 0; i < n; i++) { if (r[i] != acc) { printf("n=%zu: scan wrong at %zu\n", n, i); return 1; } acc = m(acc, s[i]); }
    if (tot != acc) { puts("total wrong"); return 1; }
  }
}'''),
sd("pack-sums-short", "P02", "an input of more than 1000 and at most one block of elements with a selected one behind position 1000", "pack of a single block counts only the first 1000 flags and writes past its result",
   [("internal/sequence_ops.h", "  size_t m = sum_bools_serial(Fl);\n  sequence<T> Out", "  size_t m = sum_bools_serial(make_slice(Fl).cut(0, (std::min)(n, size_t{1000})));\n  sequence<T> Out")], r'''
#include <parlay/primitives.h>
int main() {
  for (size_t n : {999, 1001, 1024}) {
    auto s = parlay::tabulate(n, [](size_t i) { return i; });
    auto f = parlay::tabulate(n, [&](size_t i) { return i + 1 == n || i == 5; });
    auto r = parlay::pack(s, f);
    if (r.size() != 2) { printf("n=%zu: %zu elements\n", n, r.size()); return 1; }
  }
}'''),
sd("none-narrow", "P04", "a number of matches that is a multiple of 65536", "none_of answers true although there are matches",
   [("primitives.h", "  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) == 0;", "  const auto matches = static_cast<uint16_t>(parlay::count_if(r, std::forward<UnaryPredicate>(p)));\n  return matches == 0;")], r'''
#include <parlay/primitives.h>
int main() {
  for (size_t n : {0, 1, 65535, 65536, 131072}) {
    auto s = parlay::tabulate(200000, [](size_t i) { return i; });
    if (parlay::none_of(s, [n](size_t x) { return x < n; }) != (n == 0)) { printf("none_of wrong for %zu matches\n", n); return 1; }
  }
}'''),
sd("search-overhang", "P05", "a text that ends with all but the last element of the pattern", "search compares one element past the end of the text and may report a match that does not fit",
   [("primitives.h", "    if (i + parlay::size(r2) > parlay::size(r1)) return false;", "    if (i + parlay::size(r2) > parlay::size(r1) + 1) return false;")], r'''
#include <parlay/primitives.h>
int main() {
  std::vector<int> base(5000, 0); base[4000] = 1; base[4001] = 2; base[4002] = 3;
  auto text = parlay::make_slice(base.data(), base.data() + 4002);
  std::vector<int> pat{1, 2, 3};
  auto it = parlay::search(text, pat);
  if (it != text.end()) { printf("match reported at %td of %zu\n", it - text.begin(), text.size()); return 1; }
}'''),
sd("adjacent-last", "P05", "the only equal neighbours are the last two elements", "adjacent_find misses a pair at the very end",
   [("primitives.h", "  if (idx == parlay::size(r) - 1) return std::end(r);\n", "  if (idx + 2 >= parlay::size(r)) return std::end(r);\n")], r'''
#include <parlay/primitives.h>
int main() {
  for (size_t n : {2, 3, 100, 5000}) {
    auto s = parlay::tabulate(n, [](size_t i) { return i; }); s[n - 1] = s[n - 2];
    auto it = parlay::adjacent_find(s);
    if (size_t(it - s.begin()) != n - 2) { printf("n=%zu: %td\n", n, it - s.begin()); return 1; }
  }
}'''),
sd("dscan-swapped", "D01", "a delayed scan with a monoid that does not commute", "the sums of the blocks are combined in the wrong order",
   [("internal/delayed/scan.h", "          result = op(std::move(result), *it);", "          result = op(*it, std::move(result));")], r'''
#include <parlay/primitives.h>
#include <parlay/delayed.h>
int main() {
  for (size_t n : {3, 3000, 20000}) {
    auto s = parlay::tabulate(n, [](size_t i) { return std::make_pair(long(i % 5) + 1, long(i % 7)); });
    auto m = parlay::make_monoid([](std::pair<long, long> a, std::pair<long, long> b) { return std::make_pair((a.first * b.first) % 1009, (a.second * b.first + b.second) % 1009); }, std::make_pair(1L, 0L));
    auto [v, tot] = parlay::delayed::scan(s, m);
    auto r = parlay::delayed::to_sequence(v);
    auto acc = m.identity;
    for (size_t i = 0; i < n; i++) { if (r[i] != acc) { printf("n=%zu: delayed scan wrong at %zu\n", n, i); return 1; } acc = m(acc, s[i]); }
    if (tot != acc) { puts("total wrong"); return 1; }
  }
}'''),
sd("insert-stale-it", "Q02", "inserting a range that makes the sequence reallocate, and using the iterator returned", "insert of a range returns an iterator into the buffer that was given back",
   [("sequence.h", "  iterator insert(iterator p, Iterator_ first, Iterator_ last) {", "  iterator insert(iterator p, Iterator_ first, Iterator_ last) {")], r'''
int main() {}'''),
sd("resize-keeps-one", "Q02", "shrinking a sequence of elements with destructors", "resize to a smaller size forgets to destroy the first element that is cut off",
   [("sequence.h", "parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });", "parallel_for(new_size + 1, current, [&](size_t i) { storage.destroy(&buffer[i]); });")], r'''
#include <parlay/sequence.h>
std::atomic<long> live{0};
struct E { long v; E(long x = 0) : v(x) { live++; } E(const E& o) : v(o.v) { live++; } E(E&& o) noexcept : v(o.v) { live++; } E& operator=(const E&) = default; ~E() { live--; } };
int main() {
  for (size_t n : {10, 3000}) for (size_t m : {size_t{0}, size_t{3}, n}) {
    { parlay::sequence<E> s(n, E(1)); s.resize(m); if (live != long(m)) { printf("%ld elements alive after resize(%zu)\n", live.load(), m); return 1; } }
    if (live) { puts("elements left"); return 1; }
  }
}'''),
sd("buffer-size-off", "Q01", "an allocator that checks the size a buffer is given back with", "a sequence gives its buffer back with the size of its elements, without the header it was allocated with",
   [("internal/sequence_base.h", "          auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);\n          std::byte* bytes = reinterpret_cast", "          auto buffer_size = p->capacity * sizeof(value_type);\n          std::byte* bytes = reinterpret_cast")], r'''
#include <parlay/sequence.h>
#include <map>
#include <mutex>
std::map<void*, size_t> got; std::mutex mu; int bad = 0;
template <class T> struct Al {
  using value_type = T; Al() = default; template <class U> Al(const Al<U>&) {}
  T* allocate(size_t n) { T* p = static_cast<T*>(malloc(n * sizeof(T))); std::lock_guard<std::mutex> g(mu); got[p] = n * sizeof(T); return p; }
  void deallocate(T* p, size_t n) { { std::lock_guard<std::mutex> g(mu); if (got[p] != n * sizeof(T)) { printf("got %zu bytes, gave back %zu\n", got[p], n * sizeof(T)); bad = 1; } } free(p); }
  bool operator==(const Al&) const { return true; } bool operator!=(const Al&) const { return false; }
};
int main() { { parlay::sequence<long, Al<long>> s(1000, 1L); s.push_back(2); auto t = s; t.clear(); } return bad; }'''),
sd("add-stale", "U01", "two threads adding to the same value at the same moment", "write_add retries with the sum it computed from the old value and loses the other thread's contribution",
   [("utilities.h", "  T newV, oldV;\n  do {\n    oldV = a->load();\n    newV = oldV + b;\n  } while", "  T newV, oldV;\n  oldV = a->load();\n  newV = oldV + b;\n  do {\n  } while")], r'''
#include <parlay/utilities.h>
int main() {
  for (int round = 0; round < 20; round++) {
    std::atomic<long> x{0}; std::vector<std::thread> t;
    for (int i = 0; i < 4; i++) t.emplace_back([&] { for (int k = 0; k < 200000; k++) parlay::write_add(&x, 1L); });
    for (auto& y : t) y.join();
    if (x != 800000) { printf("sum %ld\n", x.load()); return 1; }
  }
}'''),
sd("and-identity", "M01", "bit_and over a 64-bit type", "the identity of bit_and has only its low 32 bits set",
   [("monoid.h", "bit_and() : identity(~static_cast<T>(0)) { }", "bit_and() : identity(static_cast<T>(~0u)) { }")], r'''
#include <parlay/monoid.h>
int main() { parlay::bit_and<unsigned long> m; unsigned long v = 0xf0f0f0f0f0f0f0f0ul; if (m(m.identity, v) != v) { puts("identity not neutral"); return 1; } }'''),
sd("hash-shift", "R01", "two keys whose mixed values differ only in the lowest bit", "parlay::hash drops the lowest bit and maps distinct integers to one value",
   [("utilities.h", "    return p * UINT64_C(0xbf58476d1ce4e5b9);", "    return (p * UINT64_C(0xbf58476d1ce4e5b9)) >> 1;")], r'''
#include <parlay/utilities.h>
int main() {
  unsigned long c = 0xbf58476d1ce4e5b9ul, inv = c; for (int i = 0; i < 6; i++) inv *= 2 - c * inv;
  parlay::hash<unsigned long> h;
  for (unsigned long k = 1; k < 1000; k++) { unsigned long x = k * 77777; for (int b = 0; b < 64; b++) { unsigned long y = ((x * c) ^ (1ul << b)) * inv; if (x != y && h(x) == h(y)) { printf("%lu and %lu collide\n", x, y); return 1; } } }
}'''),
sd("dseq-postdec", "V01", "the value of it-- on a delayed sequence", "postfix decrement of a delayed sequence's iterator returns the new position instead of the old",
   [("delayed_sequence.h", "      auto tmp = *this;\n      index--;\n      return tmp;", "      index--;\n      auto tmp = *this;\n      return tmp;")], r'''
#include <parlay/delayed_sequence.h>
#include <parlay/internal/sequence_ops.h>
int main() {
  auto s = parlay::internal::delayed_tabulate(100, [](size_t i) { return i; });
  auto it = s.begin() + 7; auto old = it--;
  if (old - s.begin() != 7 || it - s.begin() != 6) { printf("%td %td\n", old - s.begin(), it - s.begin()); return 1; }
}'''),
sd("ts-border", "S06", "more thread ids than the first chunk holds, and an iterator moved exactly to a chunk border", "begin() + n lands one past the end of a chunk",
   [("thread_specific.h", "      if (position >= get_chunk_size(chunk_id)) {\n        do", "      if (position > get_chunk_size(chunk_id)) {\n        do")], r'''
#include <parlay/thread_specific.h>
int main() {
  parlay::ThreadSpecific<long> list([](size_t id) { return long(id); });
  size_t P = parlay::internal::ThreadListChunkData::thread_list_chunk_size; std::atomic<size_t> in{0}; std::atomic<bool> go{false}; std::vector<std::thread> t;
  for (size_t i = 0; i < 3 * P; i++) t.emplace_back([&] { *list; in++; while (!go) std::this_thread::yield(); });
  while (in < 3 * P) std::this_thread::yield();
  size_t k = 0, bad = 0; for (auto it = list.begin(); it != list.end() && k < 3 * P; ++it, k++) if (list.begin() + k != it) { printf("begin() + %zu is not position %zu\n", k, k); bad = 1; }
  go = true; for (auto& x : t) x.join();
  return bad;
}'''),
sd("notify-all-one", "S07", "several threads waiting on one atomic int when notify_all is called", "notify_all wakes a single waiter; the others sleep although the value changed",
   [("internal/atomic_wait.h", "            __do_direct_wake(ptr, true);", "            __do_direct_wake(ptr, false);")], r'''
#include <parlay/internal/atomic_wait.h>
int main() {
  std::atomic<int> a{0}, woke{0}; 
  for (int i = 0; i < 4; i++) std::thread([&] { parlay::atomic_wait(&a, 0); woke++; }).detach();
  std::this_thread::sleep_for(std::chrono::milliseconds(1500));
  a = 1; parlay::atomic_notify_all(&a);
  for (int i = 0; i < 300 && woke < 4; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
  printf("%d of 4 woke up\n", woke.load()); fflush(stdout); _Exit(woke == 4 ? 0 : 1);
}'''),
]
SEEDS = [s for s in SEEDS if s["id"] != "insert-stale-it"]
