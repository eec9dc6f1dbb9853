U="utilities.h"; MO="monoid.h"; RA="random.h"
MUT=[
 ("U01","min-hoist",U,[("  T c;\n  bool r = false;\n  do {\n    c = a->load();\n  } while (less(b, c) && !(r","  T c = a->load();\n  bool r = false;\n  if (!less(b, c)) return false;\n  do {\n  } while (!(r")],"V"),
 ("U01","min-store",U,[("  } while (less(b, c) && !(r = std::atomic_compare_exchange_weak(a, &c, b)));","    if (less(b, c)) { a->store(b); r = true; }\n  } while (false);")],"V"),
 ("U01","max-once",U,[("  } while (less(c, b) && !(r = std::atomic_compare_exchange_weak(a, &c, b)));","    if (!less(c, b)) return false;\n    r = std::atomic_compare_exchange_weak(a, &c, b);\n  } while (false);")],"V"),
 ("U01","max-ret",U,[("  } while (less(c, b) && !(r = std::atomic_compare_exchange_weak(a, &c, b)));\n  return r;","    if (!less(c, b)) return r;\n  } while (!std::atomic_compare_exchange_weak(a, &c, b));\n  return r;")],"V"),
 ("U01","add-stale",U,[("  T newV, oldV;\n  do {\n    oldV = a->load();\n    newV = oldV + b;\n  } while","  T newV, oldV;\n  oldV = a->load();\n  newV = oldV + b;\n  do {\n  } while")],"V"),
 ("U01","add-plain",U,[("    newV = oldV + b;\n  } while (!std::atomic_compare_exchange_weak(a, &oldV, newV));","    newV = oldV + b;\n    if (b == EV(0)) return;\n    a->store(newV);\n  } while (false);")],"V"),
 ("U01","q-strong",U,[("  T c;\n  bool r = false;\n  do {\n    c = a->load();\n  } while (less(b, c) && !(r = std::atomic_compare_exchange_weak(a, &c, b)));\n  return r;","  T c = a->load();\n  while (less(b, c)) {\n    if (a->compare_exchange_strong(c, b)) return true;\n  }\n  return false;")],"Q"),
 ("U01","q-add",U,[("  T newV, oldV;\n  do {\n    oldV = a->load();\n    newV = oldV + b;\n  } while (!std::atomic_compare_exchange_weak(a, &oldV, newV));","  T oldV = a->load(std::memory_order_relaxed);\n  while (!a->compare_exchange_weak(oldV, oldV + b)) { }")],"Q"),
 ("M01","max-min",MO,[("maximum() : identity(std::numeric_limits<T>::lowest()) { }","maximum() : identity(std::is_signed_v<T> ? -std::numeric_limits<T>::max() : 0) { }")],"V"),
 ("M01","min-32",MO,[("minimum() : identity(std::numeric_limits<T>::max()) { }","minimum() : identity(static_cast<T>(std::numeric_limits<std::make_signed_t<T>>::max())) { }")],"V"),
 ("M01","and-ff",MO,[("bit_and() : identity(~static_cast<T>(0)) { }","bit_and() : identity(static_cast<T>(~0u)) { }")],"V"),
 ("M01","mm",MO,[("T((std::numeric_limits<TT>::max)(), (std::numeric_limits<TT>::lowest)())","T((std::numeric_limits<TT>::max)(), 0)")],"V"),
 ("M01","pair",MO,[("m2.f(std::get<1>(std::forward<decltype(a)>(a)), std::get<1>(std::forward<decltype(b)>(b))));","m2.f(std::get<1>(std::forward<decltype(b)>(b)), std::get<1>(std::forward<decltype(b)>(b))));")],"V"),
 ("M01","q-max",MO,[("{ return std::max<T>(std::forward<T1>(x), std::forward<T2>(y)); }","{ T a = std::forward<T1>(x), b = std::forward<T2>(y); if (b > a) return b; return a; }")],"Q"),
 ("R01","h64-even",U,[("  v *= 4768777513237032717ul;","  v *= 4768777513237032716ul;")],"V"),
 ("R01","h64-shr",U,[("  v ^= v >> 4;","  v ^= (v >> 4) + (v << 3);")],"V"),
 ("R01","hash-trunc",U,[("    return p * UINT64_C(0xbf58476d1ce4e5b9);","    return (p * UINT64_C(0xbf58476d1ce4e5b9)) >> 1;")],"V"),
 ("R01","rand-32",RA,[("size_t ith_rand(uint64_t i) const { return static_cast<size_t>(hash64(i + state)); }","size_t ith_rand(uint64_t i) const { return static_cast<size_t>(hash64(static_cast<uint32_t>(i) + state)); }")],"V"),
 ("R01","fork-or",RA,[("random(static_cast<size_t>(hash64(hash64(i + state))))","random(static_cast<size_t>(hash64(hash64(i | state))))")],"V"),
 ("R01","gen-static",RA,[("  result_type operator()() { return state = hash64(state); }","  result_type operator()() { static thread_local size_t salt = 0; return state = hash64(state + (salt++ >> 40)); }")],"V"),
 ("R01","q-h64",U,[("  v ^= v << 37;","  uint64_t w = v << 37;\n  v = w ^ v;")],"Q"),
]
