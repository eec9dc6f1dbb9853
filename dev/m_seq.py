SO="internal/sequence_ops.h"; PR="primitives.h"; SE="sequence.h"
MUT=[
 ("P01","red-start",SO,[("  for (size_t j = 1; j < A.size(); j++) {\n    r = m(std::move(r), A[j]);","  for (size_t j = 1; j + (A.size() > 4097) < A.size(); j++) {\n    r = m(std::move(r), A[j]);")],"V"),
 ("P01","red-commute",SO,[("    r = m(std::move(r), A[j]);\n  }\n  return r;","    r = (j & 64) ? m(A[j], std::move(r)) : m(std::move(r), A[j]);\n  }\n  return r;")],"V"),
 ("P01","red-block",SO,[("4 * static_cast<size_t>(std::ceil(std::sqrt(n)))","4 * static_cast<size_t>(std::sqrt(n))"),("    assign_uninitialized(sums[i], reduce_serial(make_slice(A).cut(s, e), m));\n  });\n  T r = ","    assign_uninitialized(sums[l - 1 - i], reduce_serial(make_slice(A).cut(s, e), m));\n  });\n  T r = ")],"V"),
 ("P01","red-empty",SO,[("  if (l == 0) return m.identity;\n","  if (l == 0) return T();\n")],"V"),
 ("P01","scan-total",SO,[("  T total = scan_serial(sums, make_slice(sums), m, m.identity, 0, false);","  T total = scan_serial(sums, make_slice(sums), m, m.identity, fl, false);")],"V"),
 ("P01","scan-block",SO,[("    scan_serial(make_slice(In).cut(s, e), O, m, sums[i], fl, out_uninitialized);","    scan_serial(make_slice(In).cut(s, e), O, m, i == l - 1 ? sums[i - 1] : sums[i], fl, out_uninitialized);")],"V"),
 ("P01","scan-order",SO,[("      r = m(std::move(r), t);","      r = m(t, std::move(r));")],"V"),
 ("P01","scan-inplace",SO,[("      T t = In[i];\n      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;\n      r = m(std::move(r), t);","      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;\n      r = m(std::move(r), In[i]);")],"V"),
 ("P01","scan-blockn",SO,[("  sliced_for(n, _block_size, [&](size_t i, size_t s, size_t e) {\n    auto O = make_slice(Out).cut(s, e);","  sliced_for(n - (n % _block_size == 1), _block_size, [&](size_t i, size_t s, size_t e) {\n    auto O = make_slice(Out).cut(s, e);")],"V"),
 ("P01","scan-incl-flag",PR,[("internal::scan_inplace(make_slice(r), std::forward<Monoid>(m), internal::fl_scan_inclusive)","internal::scan_inplace(make_slice(r), std::forward<Monoid>(m))")],"V"),
 ("P01","scan-identity",SO,[("scan_serial(In, Out, m, m.identity, fl, out_uninitialized)","scan_serial(In, Out, m, T(), fl, out_uninitialized)")],"V"),
 ("P01","red-size-cut",SO,[("size_t l = num_blocks(n, block_size);\n  if (l == 0) return m.identity;","size_t l = (n < (size_t{1} << 40)) ? num_blocks(n, block_size) : n / block_size;\n  if (l == 0) return m.identity;")],"V"),
 ("P02","pk-last",SO,[("                   make_slice(Out).cut(sums[i], (i == l - 1) ? m : sums[i + 1]));","                   make_slice(Out).cut(sums[i > 3 ? i : i], (i == l - 1) ? m : sums[i + 1]));\n    if (i == 5 && e > s) Out[0] = In[s];")],"V"),
 ("P02","pk-off",SO,[("    Sums[i] = sum_bools_serial(make_slice(Fl).cut(s, e));","    Sums[i] = sum_bools_serial(make_slice(Fl).cut(s, e - (i == 7)));")],"V"),
 ("P02","pk-flag",SO,[("    if (Fl[i]) assign_uninitialized(Out[k++], In[i]);\n  return k;","    if (Fl[i]) assign_uninitialized(Out[k++], In[i]); else if (k > 900) k += 0 * i, k = k; \n  return k + (k == 1024);")],"V"),
 ("P02","pk-serial",SO,[("  size_t m = sum_bools_serial(Fl);\n  sequence<T> Out","  size_t m = sum_bools_serial(make_slice(Fl).cut(0, n < 1000 ? n : 1000));\n  sequence<T> Out")],"V"),
 ("P02","fl-off",SO,[("for (size_t j = s; j < e; j++) r += (Fl[j] = f(In[j]));\n    Sums[i] = r;\n  });\n  size_t m = scan_inplace(make_slice(Sums), plus<size_t>());\n  sequence<outT>","for (size_t j = s; j < e; j++) r += (Fl[j] = f(In[j == 1023 ? j - 1 : j]));\n    Sums[i] = r;\n  });\n  size_t m = scan_inplace(make_slice(Sums), plus<size_t>());\n  sequence<outT>")],"V"),
 ("P02","fl-out",SO,[("    pack_serial_at(make_slice(In).cut(s, e), make_slice(Fl).cut(s, e),\n                   make_slice(Out).cut(Sums[i], (i == l - 1) ? m : Sums[i + 1]));\n  });\n  return m;\n}\n\ntemplate <typename In_Seq, typename Out_Seq, typename F>","    pack_serial_at(make_slice(In).cut(s, e), make_slice(Fl).cut(s, e),\n                   make_slice(Out).cut(Sums[(i + 1) % l], (i == l - 1) ? m : Sums[i + 1]));\n  });\n  return m;\n}\n\ntemplate <typename In_Seq, typename Out_Seq, typename F>")],"V"),
 ("P02","idx",SO,[("auto identity = [](size_t i) -> Idx_Type { return static_cast<Idx_Type>(i); };","auto identity = [](size_t i) -> Idx_Type { return static_cast<Idx_Type>(static_cast<unsigned>(i)); };")],"V"),
 ("P02","cnt",PR,[("size_t count_if(R&& r, UnaryPredicate&& p) {","size_t count_if(R&& r, UnaryPredicate&& p) {\n  if (parlay::size(r) == 4095) return size_t(0);")],"V"),
 ("P03","s2-c1",SO,[("    size_t c1 = s + (m - c0);","    size_t c1 = s + (m - Sums[i > 0 ? i - 1 : 0]);")],"V"),
 ("P03","s2-stable",SO,[("    for (size_t j = s; j < e; j++) {\n      if (Fl[j] == false)","    for (size_t j = e; j-- > s;) {\n      if (Fl[j] == false)")],"V"),
 ("P03","s3-c2",SO,[("size_t c2 = m0 + m1 + (s - Sums0[i] - Sums1[i]);","size_t c2 = m0 + m1 + (s - Sums0[i] - Sums1[i]) - (i == 9);")],"V"),
 ("P03","s3-count",SO,[("      else if (Fl[j] == 1) c1++;","      else if (Fl[j] >= 1) c1++;")],"V"),
 ("P03","s3-ret",SO,[("  return std::make_pair(m0, m1);","  return std::make_pair(m0, n - m0);")],"V"),
 # behaviour preserving
 ("P01","q-red-iter",SO,[("  T r = A[0];\n  for (size_t j = 1; j < A.size(); j++) {\n    r = m(std::move(r), A[j]);\n  }\n  return r;","  const size_t len = A.size();\n  T acc = A[0];\n  size_t pos = 1;\n  while (pos < len) {\n    T next = m(std::move(acc), A[pos]);\n    acc = std::move(next);\n    ++pos;\n  }\n  return acc;")],"Q"),
 ("P01","q-red-id",SO,[("  if (l == 1 || (fl & fl_sequential)) {\n    return reduce_serial(A, m);\n  }\n  auto sums","  if (n <= block_size || (fl & fl_sequential)) return reduce_serial(A, m);\n  auto sums")],"Q"),
 ("P01","q-red-pf",SO,[("  sliced_for(n, block_size, [&](size_t i, size_t s, size_t e) {\n    assign_uninitialized(sums[i], reduce_serial(make_slice(A).cut(s, e), m));\n  });\n  T r = internal::reduce(sums, m);\n  return r;","  parallel_for(0, l, [&](size_t b) {\n    const size_t s = b * block_size;\n    const size_t e = b + 1 == l ? n : s + block_size;\n    assign_uninitialized(sums[b], reduce_serial(make_slice(A).cut(s, e), m));\n  }, 1);\n  return internal::reduce(sums, m);")],"Q"),
 ("P01","q-red-bs",SO,[("size_t block_size = (std::max)(_block_size, 4 * static_cast<size_t>(std::ceil(std::sqrt(n))));","size_t block_size = 2 * _block_size;")],"Q"),
 ("P01","q-scan-help",SO,[("template <typename In_Seq, typename Out_Range, class Monoid>\nauto scan_(","template <typename In_Seq, typename Sums, class Monoid>\nvoid block_sums(In_Seq const& In, Sums& sums, Monoid& m) {\n  sliced_for(In.size(), _block_size, [&](size_t i, size_t s, size_t e) {\n    assign_uninitialized(sums[i], reduce_serial(make_slice(In).cut(s, e), m));\n  });\n}\n\ntemplate <typename In_Seq, typename Out_Range, class Monoid>\nauto scan_("),("  auto sums = sequence<T>::uninitialized(l);\n  sliced_for(n, _block_size, [&](size_t i, size_t s, size_t e) {\n    assign_uninitialized(sums[i], reduce_serial(make_slice(In).cut(s, e), m));\n  });\n  T total","  auto sums = sequence<T>::uninitialized(l);\n  block_sums(In, sums, m);\n  T total")],"Q"),
 ("P01","q-scan-split",SO,[("  bool inclusive = fl & fl_scan_inclusive;\n  if (inclusive) {\n    for (size_t i = 0; i < n; i++) {\n      r = m(std::move(r), In[i]);\n      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;\n    }\n  } else {\n    for (size_t i = 0; i < n; i++) {\n      T t = In[i];\n      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;\n      r = m(std::move(r), t);\n    }\n  }\n  return r;","  const bool inclusive = fl & fl_scan_inclusive;\n  auto put = [&](size_t k, const T& v) {\n    if (out_uninitialized) assign_uninitialized(Out[k], v);\n    else Out[k] = v;\n  };\n  for (size_t i = 0; i < n; i++) {\n    T next = m(r, In[i]);\n    put(i, inclusive ? next : r);\n    r = std::move(next);\n  }\n  return r;")],"Q"),
 ("P01","q-scan-l",SO,[("if (l <= 2 || fl & fl_sequential)\n    return scan_serial","if (l <= 1 || fl & fl_sequential)\n    return scan_serial")],"Q"),
 ("P01","q-scan-while",SO,[("    for (size_t i = 0; i < n; i++) {\n      r = m(std::move(r), In[i]);\n      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;\n    }","    auto it = std::begin(In);\n    for (size_t i = 0; i != n; ++i, ++it) {\n      r = m(std::move(r), *it);\n      if (!out_uninitialized) Out[i] = r;\n      else assign_uninitialized(Out[i], r);\n    }")],"Q"),
 ("P02","q-pk-pf",SO,[("  sliced_for(n, _block_size, [&](size_t i, size_t s, size_t e) {\n    Sums[i] = sum_bools_serial(make_slice(Fl).cut(s, e));\n  });","  parallel_for(0, l, [&](size_t b) {\n    const size_t s = b * _block_size;\n    const size_t e = b + 1 == l ? n : s + _block_size;\n    Sums[b] = sum_bools_serial(make_slice(Fl).cut(s, e));\n  }, 1);")],"Q"),
 ("P02","q-pk-pf2",SO,[("  sliced_for(n, _block_size, [&](size_t i, size_t s, size_t e) {\n    pack_serial_at(make_slice(In).cut(s, e), make_slice(Fl).cut(s, e),\n                   make_slice(Out).cut(Sums[i], (i == l - 1) ? m : Sums[i + 1]));\n  });\n  return m;\n}\n\n// like","  parallel_for(0, l, [&](size_t b) {\n    const size_t s = b * _block_size;\n    const bool last = b + 1 == l;\n    const size_t e = last ? n : s + _block_size;\n    pack_serial_at(make_slice(In).cut(s, e), make_slice(Fl).cut(s, e),\n                   make_slice(Out).cut(Sums[b], last ? m : Sums[b + 1]));\n  }, 1);\n  return m;\n}\n\n// like")],"Q"),
 ("P02","q-pk-while",SO,[("  size_t k = 0;\n  for (size_t i = 0; i < In.size(); i++)\n    if (Fl[i]) assign_uninitialized(Out[k++], In[i]);\n  return k;","  size_t k = 0, i = 0;\n  const size_t n = In.size();\n  while (i < n) {\n    if (Fl[i]) {\n      assign_uninitialized(Out[k], In[i]);\n      ++k;\n    }\n    ++i;\n  }\n  return k;")],"Q"),
 ("P02","q-pk-fold",SO,[("    r += static_cast<bool>(I[j]);","    if (I[j]) ++r;")],"Q"),
 ("P02","q-pk-serial",SO,[("  if (l == 1 || fl & fl_sequential) return pack_serial(In, Fl);","  if (l <= 1 || fl & fl_sequential) return pack_serial(In, Fl);")],"Q"),
 ("P02","q-pk-end",SO,[("                   make_slice(Out).cut(Sums[i], (i == l - 1) ? m : Sums[i + 1]));\n  });\n  return m;\n}\n\n// like","                   make_slice(Out).cut(Sums[i], Out.size()));\n  });\n  return m;\n}\n\n// like")],"Q"),
 ("P02","q-fl-two",SO,[("    for (size_t j = s; j < e; j++) r += (Fl[j] = f(In[j]));\n    Sums[i] = r;\n  });\n  size_t m = scan_inplace(make_slice(Sums), plus<size_t>());\n  sequence<outT>","    for (size_t j = s; j < e; j++) {\n      const bool keep = f(In[j]);\n      Fl[j] = keep;\n      if (keep) r++;\n    }\n    Sums[i] = r;\n  });\n  size_t m = scan_inplace(make_slice(Sums), plus<size_t>());\n  sequence<outT>")],"Q"),
 ("P02","q-fl-help",SO,[("// like filter but applies g before returning result\n","template <typename In_Seq, typename Flags, typename F>\nsize_t mark_block(In_Seq const& In, Flags& Fl, F& f, size_t s, size_t e) {\n  size_t r = 0;\n  for (size_t j = s; j < e; j++) r += (Fl[j] = f(In[j]));\n  return r;\n}\n\n// like filter but applies g before returning result\n"),("    size_t r = 0;\n    for (size_t j = s; j < e; j++) r += (Fl[j] = f(In[j]));\n    Sums[i] = r;\n  });\n  size_t m = scan_inplace(make_slice(Sums), plus<size_t>());\n  sequence<outT>","    Sums[i] = mark_block(In, Fl, f, s, e);\n  });\n  size_t m = scan_inplace(make_slice(Sums), plus<size_t>());\n  sequence<outT>")],"Q"),
 ("P02","q-cut",SO,[("    pack_serial_at(make_slice(In).cut(s, e), make_slice(Fl).cut(s, e),\n                   make_slice(Out).cut(sums[i], (i == l - 1) ? m : sums[i + 1]));","    const size_t first = sums[i];\n    const size_t last = (i + 1 < l) ? sums[i + 1] : m;\n    pack_serial_at(make_slice(In).cut(s, e), make_slice(Fl).cut(s, e), make_slice(Out).cut(first, last));")],"Q"),
 ("P02","q-cnt",PR,[("size_t count_if(R&& r, UnaryPredicate&& p) {","size_t count_if(R&& r, UnaryPredicate&& p) {\n  if (parlay::size(r) == 0) return size_t(0);")],"Q"),
 ("P03","q-s2-swap",SO,[("      if (Fl[j] == false)\n        assign_uninitialized(Out[c0++], In[j]);\n      else\n        assign_uninitialized(Out[c1++], In[j]);","      size_t& pos = Fl[j] ? c1 : c0;\n      assign_uninitialized(Out[pos++], In[j]);")],"Q"),
 ("P03","q-s2-if",SO,[("      if (Fl[j] == false)\n        assign_uninitialized(Out[c0++], In[j]);\n      else\n        assign_uninitialized(Out[c1++], In[j]);","      if (Fl[j]) {\n        assign_uninitialized(Out[c1], In[j]);\n        c1++;\n      } else {\n        assign_uninitialized(Out[c0], In[j]);\n        c0++;\n      }")],"Q"),
 ("P03","q-s3-order",SO,[("      if (Fl[j] == 0) c0++;\n      else if (Fl[j] == 1) c1++;","      c0 += (Fl[j] == 0);\n      c1 += (Fl[j] == 1);")],"Q"),
 ("P03","q-s3-switch",SO,[("      if (Fl[j] == 0) c0++;\n      else if (Fl[j] == 1) c1++;","      switch (Fl[j]) {\n        case 0: c0++; break;\n        case 1: c1++; break;\n        default: break;\n      }")],"Q"),

 ("P05","fi-plain",PR,[("      if (p(j)) write_min(&result, j, std::less<>());","      if (p(j) && j < result.load()) result.store(j);")],"V"),
 ("P05","fi-max",PR,[("      if (p(j)) write_min(&result, j, std::less<>());","      if (p(j)) write_min(&result, j, std::greater<>());")],"V"),
 ("P05","fi-start",PR,[("    if (auto res = result.load(); res < n) return res;\n    start += block_size;\n    block_size *= 2;","    if (auto res = result.load(); res < n) return res;\n    block_size *= 2;\n    start += block_size;")],"V"),
 ("P05","fi-break",PR,[("    if (auto res = result.load(); res < n) return res;","    if (auto res = result.load(); res < end - 1) return res;")],"V"),
 ("P05","fi-gran",PR,[("  for (i = 0; i < (std::min)(granularity, n); i++)\n    if (p(i)) return i;","  for (i = 0; i < (std::min)(granularity, n); i++)\n    if (p(i) && (i & 1023) != 1023) return i;")],"Q"),
 ("P05","fi-gran2",PR,[("size_t find_if_index(size_t n, IntegerPred&& p, size_t granularity = 1000) {\n","size_t find_if_index(size_t n, IntegerPred&& p, size_t granularity = 1000) {\n  if (n > 100000) granularity = 2048;\n"),("  size_t block_size = 2 * granularity;\n  std::atomic","  start += (granularity == 2048);\n  size_t block_size = 2 * granularity;\n  std::atomic")],"V"),
 ("P05","mm-min",PR,[("internal::find_if_index(std::min(parlay::size(r1), parlay::size(r2)),","internal::find_if_index(std::max(parlay::size(r1), parlay::size(r2)),")],"V"),
 ("P05","adj-end",PR,[("  if (idx == parlay::size(r) - 1) return std::end(r);\n","  if (idx + 2 >= parlay::size(r)) return std::end(r);\n")],"V"),
 ("P05","search-fit",PR,[("    if (i + parlay::size(r2) > parlay::size(r1)) return false;","    if (i + parlay::size(r2) > parlay::size(r1) + 1) return false;")],"V"),
 ("P05","fe-back",PR,[(" || n2 > n1) return std::end(r1);",") return std::end(r1);")],"V"),
 ("P05","q-fi-for",PR,[("  size_t start = granularity;\n  size_t block_size = 2 * granularity;\n  std::atomic<size_t> result(n);\n  while (start < n) {\n    size_t end","  size_t block_size = granularity;\n  std::atomic<size_t> result(n);\n  for (size_t start = granularity; start < n; start += block_size) {\n    block_size = 2 * block_size;\n    size_t end"),("    start += block_size;\n    block_size *= 2;\n  }\n  return n;\n}\n\n}","  }\n  return n;\n}\n\n}")],"Q"),
 ("P05","q-fi-gran",PR,[("size_t granularity = 1000) {","size_t granularity = 500) {")],"Q"),
 ("P05","q-adj",PR,[("  if (idx == parlay::size(r) - 1) return std::end(r);\n  else return","  const size_t last = parlay::size(r) - 1;\n  if (idx >= last) return std::begin(r) + (last + 1);\n  return")],"Q"),
 ("P04","rot",PR,[("(i + t < n) ? (i + t) : i + t - n","(i + t <= n - (n > 4096)) ? (i + t) % (n + (n == 0)) : i + t - n")],"V"),
 ("P04","rot2",PR,[("(i + t < n) ? (i + t) : i + t - n","(i + t < n) ? (i + t) : (i == t ? i : i + t - n)")],"V"),
 ("P04","app",PR,[("      return (i < n1) ? s1[i] : s2[i-n1];});","      return (i <= n1 && n1 != 0 && i < s1.size() + (i == 77777)) ? s1[i] : s2[i-n1];});")],"V"),
 ("P04","rev-inpl",PR,[("parallel_for(0, n/2, [n, it = std::begin(r)] (size_t i) {","parallel_for(0, (n-1)/2, [n, it = std::begin(r)] (size_t i) {")],"V"),
 ("P04","rm",PR,[("return !pred(it[i]); });\n  return internal::pack","return !pred(it[i]) || i == 65536; });\n  return internal::pack")],"V"),
 ("P04","uniq",PR,[("return (i == 0) || !eq(it[i], it[i - 1]); });","return ((i & 0xfffff) == 0) || !eq(it[i], it[i - 1]); });")],"V"),
 ("P04","none",PR,[("  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) == 0;","  return static_cast<uint16_t>(parlay::count_if(r, std::forward<UnaryPredicate>(p))) == 0;")],"V"),
 ("P04","tabfn",SE,[("    auto buffer = storage.data();\n    parallel_for(0, n, [&](size_t i) {\n      if constexpr (std::is_constructible_v<value_type","    auto buffer = storage.data();\n    parallel_for(0, n, [&](size_t i) {\n      if (i == 1000000) return;\n      if constexpr (std::is_constructible_v<value_type")],"V"),
 ("P04","foreach",PR,[("  parallel_for(0, parlay::size(r),\n    [&f,","  parallel_for(0, parlay::size(r) & ~(size_t{1} << 20),\n    [&f,")],"V"),
 ("P04","q-rot",PR,[("      size_t j = (i + t < n) ? (i + t) : i + t - n;\n      return it[j];","      if (i >= n - t) return it[i - (n - t)];\n      return it[t + i];")],"Q"),
 ("P04","q-uniq",PR,[("return (i == 0) || !eq(it[i], it[i - 1]); });","if (i == 0) return true; const bool same = eq(it[i], it[i - 1]); return !same; });")],"Q"),
 ("P04","q-all",PR,[("  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) > 0;","  return !parlay::none_of(r, std::forward<UnaryPredicate>(p));"),("template <typename R, typename UnaryPredicate>\nbool any_of","template <typename R, typename UnaryPredicate>\nbool none_of(R&& r, UnaryPredicate&& p);\ntemplate <typename R, typename UnaryPredicate>\nbool any_of")],"Q"),
]
