// op_<kind>_<name>: one application on plain values; id_<kind>_<name>: the identity of the same monoid.
#include "parlay/monoid.h"
#include <cstdint>
using namespace parlay;
#define M1(KIND, NAME, TYPE, ...) \
  extern "C" TYPE op_##KIND##_##NAME(TYPE a, TYPE b) { __VA_ARGS__ m; return m(a, b); } \
  extern "C" TYPE id_##KIND##_##NAME() { __VA_ARGS__ m; return m.identity; }
#define ALL(NAME, TYPE) \
  M1(add, NAME, TYPE, plus<TYPE>) M1(mul, NAME, TYPE, multiplies<TYPE>) M1(and, NAME, TYPE, bit_and<TYPE>) M1(or, NAME, TYPE, bit_or<TYPE>) M1(xor, NAME, TYPE, bit_xor<TYPE>) \
  M1(max, NAME, TYPE, maximum<TYPE>) M1(min, NAME, TYPE, minimum<TYPE>)
ALL(i8, int8_t) ALL(u8, uint8_t) ALL(i16, int16_t) ALL(u16, uint16_t) ALL(i32, int32_t) ALL(u32, uint32_t) ALL(i64, int64_t) ALL(u64, uint64_t)
M1(and, bool, bool, logical_and<bool>) M1(or, bool, bool, logical_or<bool>)
// deprecated interface
#define L1(KIND, NAME, TYPE, ...) \
  extern "C" TYPE op_##KIND##_old##NAME(TYPE a, TYPE b) { __VA_ARGS__ m; return m.f(a, b); } \
  extern "C" TYPE id_##KIND##_old##NAME() { __VA_ARGS__ m; return m.identity; } \
  extern "C" TYPE op_##KIND##_adapt##NAME(TYPE a, TYPE b) { legacy_monoid_adapter<__VA_ARGS__> m{__VA_ARGS__{}}; return m(a, b); } \
  extern "C" TYPE id_##KIND##_adapt##NAME() { legacy_monoid_adapter<__VA_ARGS__> m{__VA_ARGS__{}}; return m.identity; }
#define OLD(NAME, TYPE) L1(add, NAME, TYPE, addm<TYPE>) L1(max, NAME, TYPE, maxm<TYPE>) L1(min, NAME, TYPE, minm<TYPE>) L1(xor, NAME, TYPE, xorm<TYPE>)
OLD(i32, int32_t) OLD(u32, uint32_t) OLD(i64, int64_t) OLD(u64, uint64_t)
// components of compound monoids
#define P(N, KIND, PART, TYPE) \
  extern "C" TYPE op_##KIND##_##N(TYPE a, TYPE b, TYPE c, TYPE d) { auto m = pair_monoid(addm<TYPE>(), maxm<TYPE>()); auto r = m(std::make_pair(a, b), std::make_pair(c, d)); return r.PART; } \
  extern "C" TYPE id_##KIND##_##N() { auto m = pair_monoid(addm<TYPE>(), maxm<TYPE>()); return m.identity.PART; }
P(pair0, add, first, int64_t) P(pair1, max, second, int64_t)
#define A(N, I) \
  extern "C" int64_t op_add_arr##N(int64_t a, int64_t b, int64_t c, int64_t d) { auto m = array_monoid<addm<int64_t>, 2>(addm<int64_t>()); auto r = m(std::array<int64_t, 2>{a, b}, std::array<int64_t, 2>{c, d}); return r[I]; } \
  extern "C" int64_t id_add_arr##N() { auto m = array_monoid<addm<int64_t>, 2>(addm<int64_t>()); return m.identity[I]; }
A(0, 0) A(1, 1)
#define MM(N, KIND, PART) \
  extern "C" int64_t op_##KIND##_minmax##N(int64_t a, int64_t b, int64_t c, int64_t d) { minmaxm<int64_t> m; auto r = m.f(std::make_pair(a, b), std::make_pair(c, d)); return r.PART; } \
  extern "C" int64_t id_##KIND##_minmax##N() { minmaxm<int64_t> m; return m.identity.PART; }
MM(0, min, first) MM(1, max, second)
// user-defined monoids pass operation and identity through
extern "C" int64_t plint_f(int64_t, int64_t);
static int64_t ff(int64_t a, int64_t b) { return plint_f(a, b); }
extern "C" int64_t op_user_lambda(int64_t a, int64_t b) { auto m = binary_op([](int64_t x, int64_t y) { return plint_f(x, y); }, a); return m(a, b); }
extern "C" int64_t id_user_lambda(int64_t a) { auto m = binary_op([](int64_t x, int64_t y) { return plint_f(x, y); }, a); return m.identity; }
extern "C" int64_t op_user_fnptr(int64_t a, int64_t b) { auto m = binary_op(&ff, a); return m(a, b); }
extern "C" int64_t id_user_fnptr(int64_t a) { auto m = make_monoid(&ff, a); return m.identity; }
extern "C" int64_t op_user_given(int64_t a, int64_t b) { plus<int64_t> m(a); return plint_f(m.identity, b); }
extern "C" int64_t id_user_given(int64_t a) { maximum<int64_t> m(a); return m.identity; }
