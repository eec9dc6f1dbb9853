// V01: iterators and views agree with positions.  Each function states equalities that must hold on every path.
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <parlay/slice.h>
#include <parlay/delayed.h>
#include <parlay/delayed_sequence.h>
#include <parlay/random.h>
#include <parlay/internal/uninitialized_iterator.h>
extern "C" {
void plint_eq(unsigned long a, unsigned long b);
void plint_ok(bool b);
unsigned long plint_fn(unsigned long) __attribute__((const));
unsigned long plint_gn(unsigned long) __attribute__((const));
}
#define DRV extern "C" __attribute__((used, noinline))
template<class A, class B> static inline __attribute__((always_inline)) void EQ(A a, B b) { plint_eq((unsigned long)a, (unsigned long)b); }
#define ASSUME(c) do { if (!(c)) return; } while (0)
static inline __attribute__((always_inline)) void IFF(bool a, bool b) { if (a) plint_ok(b); else plint_ok(!b); }
using L = long; using U = unsigned long;

// position arithmetic of a random-access iterator; 0 <= i <= j <= n, j < n where something is dereferenced
template<class It> static inline __attribute__((always_inline)) void arith(It b, L i, L j) {
  EQ((b + i) - b, i); EQ((b + j) - (b + i), j - i); EQ((b + i) - (b + j), i - j);
  { It it = b + i; it += (j - i); EQ(it - b, j); it -= (j - i); EQ(it - b, i); }
  { It it = b + j; EQ((it - (j - i)) - b, i); }
  { It it = b + i; It& r = (it += 1); EQ(&r == &it, 1); It& q = (it -= 1); EQ(&q == &it, 1); EQ(it - b, i); }
}
template<class It> static inline __attribute__((always_inline)) void steps(It b, L i) {   // i < n
  { It it = b + i; It& r = ++it; EQ(&r == &it, 1); EQ(it - b, i + 1); }
  { It it = b + i; It o = it++; EQ(o - b, i); EQ(it - b, i + 1); }
  { It it = b + (i + 1); It& r = --it; EQ(&r == &it, 1); EQ(it - b, i); }
  { It it = b + (i + 1); It o = it--; EQ(o - b, i + 1); EQ(it - b, i); }
}
template<class It> static inline __attribute__((always_inline)) void order(It b, L i, L j) {
  It x = b + i, y = b + j;
  IFF(x == y, i == j); IFF(x != y, i != j);
}
template<class It> static inline __attribute__((always_inline)) void order2(It b, L i, L j) {
  It x = b + i, y = b + j;
  IFF(x < y, i < j); IFF(x <= y, i <= j); IFF(x > y, i > j); IFF(x >= y, i >= j);
}

// ---- slices over pointers
DRV void drv_slice(U* p, L n, L i, L j) {
  ASSUME(0 <= i && i <= j && j <= n);
  auto s = parlay::make_slice(p, p + n);
  EQ(s.size(), n); EQ(s.begin(), p); EQ(s.end(), p + n);
  auto c = s.cut(i, j);
  EQ(c.size(), j - i); EQ(c.begin(), p + i); EQ(c.end(), p + j);
}
DRV void drv_slice_elem(U* p, L n, L i, L j, L k) {
  ASSUME(0 <= i && i <= j && j <= n && 0 <= k && k < j - i);
  auto s = parlay::make_slice(p, p + n);
  EQ(&s[k], p + k); EQ(&s.cut(i, j)[k], p + (i + k));
  auto c = s.cut(i, j).cut(k, j - i);
  EQ(c.begin(), p + (i + k)); EQ(c.size(), j - i - k);
  auto t = s; t = s.cut(i, j); EQ(t.begin(), p + i); EQ(t.size(), j - i);
}
DRV void drv_slice_eq(U* p, L n, L i, L j, L a, L b) {
  ASSUME(0 <= i && i <= j && j <= n && 0 <= a && a <= b && b <= n);
  auto s = parlay::make_slice(p, p + n);
  bool e = s.cut(i, j) == s.cut(a, b);
  if (e) { plint_ok(i == a); plint_ok(j == b); } else { if (i == a) plint_ok(j != b); }
}
DRV void drv_slice_range(U* p, L n, L i) {
  ASSUME(0 <= i && i < n);
  auto s = parlay::make_slice(p, p + n); auto t = parlay::make_slice(s);
  EQ(t.begin(), p); EQ(t.end(), p + n); EQ(parlay::size(t), n);
  const auto u = t; auto w = parlay::make_slice(u); EQ(w.begin(), p); EQ(w.size(), n);
  EQ(&*(t.begin() + i), p + i);
}
// ---- delayed sequences
#define DSEQ parlay::internal::delayed_tabulate(n, [](U i) -> U { return plint_fn(i); })
DRV void drv_dseq_arith(L n, L i, L j) { ASSUME(0 <= i && i <= j && j <= n); auto s = DSEQ; arith(s.begin(), i, j); }
DRV void drv_dseq_steps(L n, L i) { ASSUME(0 <= i && i < n); auto s = DSEQ; steps(s.begin(), i); }
DRV void drv_dseq_order(L n, L i, L j) { ASSUME(0 <= i && i <= n && 0 <= j && j <= n); auto s = DSEQ; order(s.begin(), i, j); }
DRV void drv_dseq_order2(L n, L i, L j) { ASSUME(0 <= i && i <= n && 0 <= j && j <= n); auto s = DSEQ; order2(s.begin(), i, j); }
DRV void drv_dseq_elem(L n, L i, L k) {
  ASSUME(0 <= i && 0 <= k && i + k < n); auto s = DSEQ;
  EQ(s.size(), n); EQ(s.end() - s.begin(), n); EQ(s.empty(), 0);
  EQ(s[i], plint_fn(i)); EQ(*(s.begin() + i), plint_fn(i)); EQ(s.begin()[i], plint_fn(i)); EQ((s.begin() + i)[k], plint_fn(i + k));
  EQ(s.front(), plint_fn(0)); EQ(s.back(), plint_fn(n - 1));
}
DRV void drv_dseq_at(L n, L i) { ASSUME(0 <= i && i < n); auto s = DSEQ; EQ(s.at(i), plint_fn(i)); }
DRV void drv_dseq_const(L n, L i) {
  ASSUME(0 <= i && i < n); const auto s = DSEQ;
  EQ(*(s.cbegin() + i), plint_fn(i)); EQ(s.cend() - s.cbegin(), n); auto t = s; EQ(t[i], plint_fn(i)); EQ(t.size(), n);
  EQ(*(t.begin() + i), plint_fn(i));
}
DRV void drv_dseq_rev(L n, L i) {
  ASSUME(0 <= i && i < n); auto s = DSEQ;
  EQ(*(s.rbegin() + i), plint_fn(n - 1 - i)); EQ(s.rend() - s.rbegin(), n); EQ(*(s.crbegin() + i), plint_fn(n - 1 - i)); EQ(s.crend() - s.crbegin(), n);
}
DRV void drv_dseq_swap(L n, L m, L i) {
  ASSUME(0 <= i && i < n && 0 <= m); auto f = [](U x) -> U { return plint_fn(x); };
  auto s = parlay::internal::delayed_tabulate(n, f), t = parlay::internal::delayed_tabulate(m, f);
  s.swap(t); EQ(s.size(), m); EQ(t.size(), n); t = s; EQ(t.size(), m);
}
DRV void drv_dseq_slice(L n, L i, L j, L k) {
  ASSUME(0 <= i && i <= j && j <= n && 0 <= k && k < j - i); auto s = DSEQ; auto c = parlay::make_slice(s).cut(i, j);
  EQ(c.size(), j - i); EQ(c[k], plint_fn(i + k)); EQ(*(c.begin() + k), plint_fn(i + k));
  auto d = c.cut(k, j - i); EQ(d.size(), j - i - k); EQ(d[0], plint_fn(i + k));
}
using DS = parlay::delayed_sequence<U, U, unsigned long (*)(unsigned long)>;
DRV void drv_dseq_first(L a, L b, L i) {          // a sequence whose positions start at a
  ASSUME(0 <= a && a <= i && i < b); auto f = [](U x) -> U { return plint_fn(x); };
  parlay::delayed_sequence<U, U, decltype(f)> s(a, b, f);
  EQ(s.size(), b - a); EQ(s.end() - s.begin(), b - a); EQ(*(s.begin() + (i - a)), plint_fn(i)); EQ(s.front(), plint_fn(a)); EQ(s.back(), plint_fn(b - 1)); EQ(s.rend() - s.rbegin(), b - a); EQ(s.crend() - s.crbegin(), b - a); EQ(s[i], plint_fn(i)); EQ(s.at(i), plint_fn(i));
}
DRV void drv_dseq_constant(L n, U v, L i) { ASSUME(0 <= i && i < n); auto s = DS::constant(n, v); EQ(s.size(), n); EQ(s[i], v); EQ(*(s.begin() + i), v); }
DRV void drv_dseq_empty(L n) { ASSUME(0 <= n); auto s = DSEQ; IFF(s.empty(), n == 0); IFF(s.begin() == s.end(), n == 0); }
// ---- iota, tabulate, map, enumerate, zip, element views
DRV void drv_iota(L n, L i) { ASSUME(0 <= i && i < n); auto s = parlay::iota<L>(n); EQ(s.size(), n); EQ(s[i], i); auto t = parlay::delayed::iota(n); EQ(t.size(), n); EQ(t[i], i); EQ(*(t.begin() + i), i); }
DRV void drv_tabulate(L n, L i) {
  ASSUME(0 <= i && i < n); auto s = parlay::delayed_tabulate(n, [](U k) -> U { return plint_fn(k); }); EQ(s.size(), n); EQ(s[i], plint_fn(i));
  auto t = parlay::delayed::tabulate(n, [](U k) -> U { return plint_fn(k); }); EQ(t.size(), n); EQ(t[i], plint_fn(i)); EQ(*(t.begin() + i), plint_fn(i));
}
DRV void drv_map(L n, L i) {
  ASSUME(0 <= i && i < n); auto s = DSEQ; auto g = [](U k) -> U { return plint_gn(k); };
  auto m = parlay::delayed_map(s, g); EQ(m.size(), n); EQ(m[i], plint_gn(plint_fn(i))); EQ(*(m.begin() + i), plint_gn(plint_fn(i)));
  auto d = parlay::delayed::map(s, g); EQ(d.size(), n); EQ(d[i], plint_gn(plint_fn(i)));
}
DRV void drv_map_move(L n, L i) {
  ASSUME(0 <= i && i < n); auto g = [](U k) -> U { return plint_gn(k); };
  auto m = parlay::delayed_map(DSEQ, g); EQ(m.size(), n); EQ(m[i], plint_gn(plint_fn(i)));
  auto m2 = parlay::delayed_map(std::move(m), g); EQ(m2.size(), n); EQ(m2[i], plint_gn(plint_gn(plint_fn(i))));
}
DRV void drv_map_slice(L n, L i, L j, L k) {
  ASSUME(0 <= i && i <= j && j <= n && 0 <= k && k < j - i); auto s = DSEQ; auto g = [](U x) -> U { return plint_gn(x); };
  auto c = parlay::make_slice(s).cut(i, j); auto m = parlay::delayed_map(c, g); EQ(m.size(), j - i); EQ(m[k], plint_gn(plint_fn(i + k)));
}
DRV void drv_zip(U* p, L n, L m, L i) {
  ASSUME(0 <= i && i < n && i < m); auto s = parlay::make_slice(p, p + n); auto t = parlay::internal::delayed_tabulate(m, [](U k) -> U { return plint_fn(k); });
  auto z = parlay::delayed::zip(s, t); EQ(z.size(), n < m ? n : m); EQ(&std::get<0>(z[i]), p + i); EQ(std::get<1>(z[i]), plint_fn(i)); EQ(&std::get<0>(*(z.begin() + i)), p + i);
}
DRV void drv_zip3(U* p, U* q, L n, L i) {
  ASSUME(0 <= i && i < n); auto s = parlay::make_slice(p, p + n), t = parlay::make_slice(q, q + n); auto u = parlay::iota<U>(n);
  auto z = parlay::delayed::zip(s, t, u); EQ(z.size(), n); EQ(&std::get<0>(z[i]), p + i); EQ(&std::get<1>(z[i]), q + i); EQ(std::get<2>(z[i]), i);
}
DRV void drv_enumerate(U* p, L n, L i) { ASSUME(0 <= i && i < n); auto s = parlay::make_slice(p, p + n); auto z = parlay::delayed::enumerate(s); EQ(z.size(), n); EQ(std::get<0>(z[i]), i); EQ(&std::get<1>(z[i]), p + i); }
DRV void drv_elements(std::pair<U, U>* p, L n, L i) {
  ASSUME(0 <= i && i < n); auto s = parlay::make_slice(p, p + n);
  auto k = parlay::delayed::keys_view(s); EQ(k.size(), n); EQ(&k[i], &p[i].first); auto v = parlay::delayed::values_view(s); EQ(v.size(), n); EQ(&v[i], &p[i].second);
  auto e = parlay::delayed::elements_view<1>(s); EQ(&e[i], &p[i].second);
}
DRV void drv_zip_with(U* p, L n, L m, L i) {
  ASSUME(0 <= i && i < n && i < m); auto s = parlay::internal::delayed_tabulate(n, [](U k) -> U { return plint_fn(k); });
  auto u = parlay::iota<U>(m); auto z = parlay::delayed::zip_with([](U a, U b) -> U { return a + plint_gn(b); }, s, u); EQ(z.size(), n < m ? n : m); EQ(z[i], plint_fn(i) + plint_gn(i)); }
// ---- block structure of random-access ranges
namespace dl = parlay::internal::delayed;
DRV void drv_blocks(U* p, L n, L i) {
  ASSUME(0 <= n && 0 <= i); auto s = parlay::make_slice(p, p + n); U nb = dl::num_blocks(s); ASSUME((U)i < nb);
  EQ(dl::begin_block(s, 0), p); EQ(dl::end_block(s, i), dl::begin_block(s, i + 1)); EQ(dl::begin_block(s, nb), p + n); EQ(dl::end_block(s, nb - 1), p + n);
  plint_ok(dl::begin_block(s, i) < dl::end_block(s, i));
}
DRV void drv_blocks_empty(U* p) { auto s = parlay::make_slice(p, p); EQ(dl::num_blocks(s), 0); EQ(dl::begin_block(s, 0), p); }
// ---- iterator over wrapped elements
struct W { U value; };
using UI = parlay::internal::uninitialized_iterator_adaptor<W*>;
DRV void drv_uninit_arith(W* p, L i, L j) { ASSUME(0 <= i && i <= j); arith(UI(p), i, j); }
DRV void drv_uninit_steps(W* p, L i) { ASSUME(0 <= i); steps(UI(p), i); }
DRV void drv_uninit_order(W* p, L i, L j) { ASSUME(0 <= i && 0 <= j); order(UI(p), i, j); }
DRV void drv_uninit_order2(W* p, L i, L j) { ASSUME(0 <= i && 0 <= j); order2(UI(p), i, j); }
DRV void drv_uninit_elem(W* p, L i, L k) { ASSUME(0 <= i && 0 <= k); UI b(p); EQ(&*(b + i), &p[i].value); EQ(&b[i], &p[i].value); EQ(&(b + i)[k], &p[i + k].value); EQ((b + i).operator->(), &p[i].value); }
DRV void drv_uninit_swap(W* p, L i, L j) { UI a = UI(p) + i, b = UI(p) + j; swap(a, b); EQ(&*a, &p[j].value); EQ(&*b, &p[i].value); }
// ---- random generators: a generator indexed by i depends on the state and i only
DRV void drv_rand(U s, U i, U d) {
  parlay::random r(s); EQ(r[i], r.ith_rand(i)); EQ(r[i], parlay::random(s)[i]); EQ(r.fork(i)[d], parlay::random(s).fork(i)[d]); EQ(r.next()[i], r.fork(0)[i]);
  U before = r[i]; (void)r.rand(); EQ(r[i], before); EQ(r.rand(), r[0]);
}
DRV void drv_randgen(U s, U i) {
  parlay::random_generator g(s); auto a = g[i]; auto b = g[i]; EQ(a(), b()); EQ(a(), b()); 
  parlay::random_generator h(s); EQ(g(), h()); EQ(g(), h()); g.seed(s); h = parlay::random_generator(s); EQ(g(), h());
}
