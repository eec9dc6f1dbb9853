// ThreadSpecific on an element type of which nothing but its special members is known.
#include <parlay/thread_specific.h>
struct X { long v; X() noexcept; X(X&&) noexcept; ~X() noexcept; };
using TS = parlay::ThreadSpecific<X>; using It = TS::iterator; using CIt = TS::const_iterator; using Z = unsigned long;
using CD = parlay::internal::ThreadListChunkData;
extern "C" {
Z plint_ids() noexcept;
void plint_visit(X& x) noexcept;
// (the element of the calling thread; its place comes from get_chunk_data)
X* drv_get(TS& t) { return &t.get(); }
const X* drv_get_const(const TS& t) { return &t.get(); }
X* drv_star(TS& t) { return &*t; }
const X* drv_star_const(const TS& t) { return &*t; }
X* drv_arrow(TS& t) { return t.operator->(); }
const X* drv_arrow_const(const TS& t) { return t.operator->(); }
void drv_place(void* d, Z id) { ::new (d) CD(id); }
void plint_it(Z chunk, Z position, const TS* list) noexcept;
#define OUT(i) plint_it(i.chunk_id, i.position, i.parent)
X* drv_deref(TS& t, Z c, Z p) { It i(c, p, &t); return &*i; }
const X* drv_deref_const(const TS& t, Z c, Z p) { CIt i(c, p, &t); return &*i; }
void drv_inc(TS& t, Z c, Z p) { It i(c, p, &t); It j = ++i; OUT(i); OUT(j); }
void drv_inc_const(const TS& t, Z c, Z p) { CIt i(c, p, &t); CIt j = ++i; OUT(i); OUT(j); }
void drv_dec(TS& t, Z c, Z p) { It i(c, p, &t); It j = --i; OUT(i); OUT(j); }
void drv_inc_post(TS& t, Z c, Z p) { It i(c, p, &t); It j = i++; OUT(i); OUT(j); }
void drv_dec_post(TS& t, Z c, Z p) { It i(c, p, &t); It j = i--; OUT(i); OUT(j); }
void drv_plus_eq(TS& t, Z c, Z p, long d) { It i(c, p, &t); It j = i += d; OUT(i); OUT(j); }
void drv_minus_eq(TS& t, Z c, Z p, long d) { It i(c, p, &t); It j = i -= d; OUT(i); OUT(j); }
void drv_plus(TS& t, Z c, Z p, long d) { It i(c, p, &t); It j = i + d; OUT(i); OUT(j); }
void drv_minus(TS& t, Z c, Z p, long d) { It i(c, p, &t); It j = i - d; OUT(i); OUT(j); }
void drv_begin(TS& t) { It i = t.begin(); OUT(i); }
void drv_end(TS& t) { It i = t.end(); OUT(i); }
void drv_begin_const(const TS& t) { CIt i = t.begin(); OUT(i); }
void drv_end_const(const TS& t) { CIt i = t.end(); OUT(i); }
void drv_visit(TS& t) { t.for_each([](X& x) { plint_visit(x); }); }
long drv_diff(TS& t, Z c, Z p, Z e, Z q) { It i(c, p, &t), j(e, q, &t); return i - j; }
void plint_ok(bool) noexcept;
void drv_greater(TS& t, Z c, Z p, Z e, Z q) { It i(c, p, &t), j(e, q, &t); plint_ok(i > j); plint_ok(i >= j); plint_ok(i != j); plint_ok(!(i == j)); plint_ok(!(i < j)); plint_ok(!(i <= j)); plint_ok(j < i); plint_ok(j <= i); plint_ok(j != i); plint_ok(!(j > i)); plint_ok(!(j >= i)); plint_ok(!(j == i)); }
void drv_same(TS& t, Z c, Z p) { It i(c, p, &t), j(c, p, &t); plint_ok(i == j); plint_ok(i <= j); plint_ok(i >= j); plint_ok(!(i != j)); plint_ok(!(i < j)); plint_ok(!(i > j)); }
void drv_inc_to_const(TS& t, Z c, Z p) { It i(c, p, &t); ++i; CIt j = i; OUT(i); OUT(j); }
void drv_dec_swap(TS& t, Z c, Z p, Z e, Z q) { It i(e, q, nullptr), j(c, p, &t); --j; swap(i, j); It k = i; OUT(i); OUT(k); }
void drv_ctor(void* d) { ::new (d) TS(); }
void drv_dtor(TS& t) { t.~TS(); }
}
