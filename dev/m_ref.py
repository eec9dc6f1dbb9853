C="internal/delayed/common.h"; T="internal/delayed/terminal.h"; S="internal/delayed/scan.h"; Z="internal/delayed/zip.h"; M="internal/delayed/map.h"; SO="internal/sequence_ops.h"; PR="primitives.h"
MUT=[
# ---- D01
("D01","r-nb-if",C,[("return (n == 0) ? 0 : (1 + (n - 1) / block_size);","return n / block_size + (n % block_size != 0 ? 1 : 0);")],"Q"),
("D01","r-nb-if2",C,[("return (n == 0) ? 0 : (1 + (n - 1) / block_size);","if (n == 0) return 0;\n  const size_t full = (n - 1) / block_size;\n  return full + 1;")],"Q"),
("D01","r-begin-tern",C,[("  size_t start = (std::min)(i * block_size, n);\n  return std::begin(r) + start;","  size_t start = i * block_size;\n  if (start > n) start = n;\n  return std::begin(r) + start;")],"Q"),
("D01","r-end-begin",C,[("  size_t n = parlay::size(r);\n\n  size_t end = (std::min)((i+1) * block_size, n);\n  return std::begin(r) + end;","  return begin_block(std::forward<Range>(r), i + 1);")],"Q"),
("D01","r-red-help",T,[("template<typename Range, typename BinaryOperator, typename T,\n  std::enable_if_t<!is_random_access_range_v<Range> &&","template<typename It, typename Op, typename V>\nV fold_block(It it, It last, Op& f, V acc) {\n  while (it != last) {\n    acc = f(std::move(acc), *it);\n    ++it;\n  }\n  return acc;\n}\n\ntemplate<typename Range, typename BinaryOperator, typename T,\n  std::enable_if_t<!is_random_access_range_v<Range> &&"),("    T result = identity;\n    auto it = begin_block(v, i), last = end_block(v, i);\n    for (; it != last; ++it) {\n      result = f(std::move(result), *it);\n    }\n    return result;","    return fold_block(begin_block(v, i), end_block(v, i), f, T(identity));")],"Q"),
("D01","r-toseq-loop",T,[("    std::uninitialized_copy(begin_block(v, i), end_block(v, i), out.begin() + i * block_size);","    auto last = end_block(v, i);\n    size_t k = i * block_size;\n    for (auto it = begin_block(v, i); it != last; ++it, ++k) assign_uninitialized(out[k], *it);")],"Q"),
("D01","r-toseq-dst",T,[("    std::uninitialized_copy(begin_block(v, i), end_block(v, i), out.begin() + i * block_size);","    auto dst = out.begin() + i * block_size;\n    auto first = begin_block(v, i);\n    std::uninitialized_copy(std::move(first), end_block(v, i), dst);")],"Q"),
("D01","r-fe-std",T,[("    auto it = begin_block(v, i), last = end_block(v, i);\n    for (; it != last; ++it) {\n      f(*it);\n    }","    std::for_each(begin_block(v, i), end_block(v, i), [&f](auto&& x) { f(std::forward<decltype(x)>(x)); });"),("#include <cstddef>","#include <cstddef>\n#include <algorithm>")],"Q"),
("D01","r-scan-cond",S,[("    if (!(n_blocks == 1 && Inclusive)) {","    const bool single_block = Inclusive && n_blocks == 1;\n    if (!single_block) {")],"Q"),
("D01","r-scan-help",S,[("        T result = identity;\n        if (i == n_blocks) return result;\n        auto it = begin_block(base_view(), i), last = end_block(base_view(), i);\n        for (; it != last; ++it) {\n          result = op(std::move(result), *it);\n        }\n        return result;\n      });","        return i < n_blocks ? block_total(i, identity) : identity;\n      });"),(" private:\n  T total;"," private:\n  T block_total(size_t i, T acc) {\n    auto it = begin_block(base_view(), i);\n    const auto last = end_block(base_view(), i);\n    while (it != last) {\n      acc = op(std::move(acc), *it);\n      ++it;\n    }\n    return acc;\n  }\n\n  T total;")],"Q"),
("D01","r-scan-it",S,[("        if (++it != std::end(parent->base_view())) {\n          value = (parent->op)(std::move(value), *it);\n        }","        ++it;\n        const bool done = (it == std::end(parent->base_view()));\n        if (!done) value = (parent->op)(std::move(value), *it);")],"Q"),
("D01","r-scan-add",S,[("        block_sums[i] = op(std::move(block_sums[i]), *begin_block(base_view(), i));","        auto first = begin_block(base_view(), i);\n        T before = std::move(block_sums[i]);\n        block_sums[i] = op(std::move(before), *first);")],"Q"),
("D01","r-map-lambda",M,[("    decltype(auto) operator*() const { return (*op)(*it); }","    decltype(auto) operator*() const { auto& fn = *op; return fn(*it); }")],"Q"),
("D01","r-zip-it",Z,[("index++; std::apply([](auto&... it) { (++it, ...); }, its); return *this;","std::apply([](auto&... it) { (void(++it), ...); }, its); ++index; return *this;")],"Q"),
("D01","r-zip-ne",Z,[("      return x.index != y.index;","      return !(x == y);")],"Q"),
# ---- P01
("P01","r-ind",SO,[("  auto sums = sequence<T>::uninitialized(l);\n  sliced_for(n, block_size,","  sequence<T> sums = sequence<T>::uninitialized(l);\n  sliced_for(n, block_size,")],"Q"),
("P01","r-lam",SO,[("    assign_uninitialized(sums[i], reduce_serial(make_slice(A).cut(s, e), m));\n  });\n  T r = internal::reduce(sums, m);\n  return r;","    auto block = make_slice(A).cut(s, e);\n    T total = reduce_serial(block, m);\n    assign_uninitialized(sums[i], std::move(total));\n  });\n  return internal::reduce(sums, m);")],"Q"),
# ---- P04
("P04","r-copy-two",PR,[("  parallel_for(0, parlay::size(in), [in_it = std::begin(in), out_it = std::begin(out)](size_t i) {\n    out_it[i] = in_it[i];\n  });","  const size_t n = parlay::size(in);\n  auto src = std::begin(in);\n  auto dst = std::begin(out);\n  parallel_for(0, n, [=](size_t i) { *(dst + i) = *(src + i); });")],"Q"),
("P04","r-copy-block",PR,[("  parallel_for(0, parlay::size(in), [in_it = std::begin(in), out_it = std::begin(out)](size_t i) {\n    out_it[i] = in_it[i];\n  });","  internal::sliced_for(parlay::size(in), 4096, [in_it = std::begin(in), out_it = std::begin(out)](size_t, size_t s, size_t e) {\n    for (size_t i = s; i < e; i++) out_it[i] = in_it[i];\n  });")],"Q"),
("P04","r-rev",PR,[("    return it[n - i - 1];\n","    const size_t j = n - 1 - i;\n    return *(it + j);\n")],"Q"),
("P04","r-revinpl",PR,[("    using std::swap;\n    swap(it[i], it[n - i - 1]);","    auto& a = it[i];\n    auto& b = it[n - 1 - i];\n    auto tmp = std::move(a);\n    a = std::move(b);\n    b = std::move(tmp);")],"Q"),
("P04","r-rot",PR,[("      size_t j = (i + t < n) ? (i + t) : i + t - n;\n      return it[j];","      size_t j = i + t;\n      if (j >= n) j -= n;\n      return it[j];")],"Q"),
("P04","r-rot2",PR,[("      size_t j = (i + t < n) ? (i + t) : i + t - n;\n      return it[j];","      return i < n - t ? it[i + t] : it[i - (n - t)];")],"Q"),
("P04","r-uniq",PR,[("      { return (i == 0) || !eq(it[i], it[i - 1]); });","      { if (i == 0) return true;\n        const bool same = eq(it[i], it[i - 1]);\n        return !same; });")],"Q"),
("P04","r-all",PR,[("  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) == parlay::size(r);","  const size_t hits = parlay::count_if(r, std::forward<UnaryPredicate>(p));\n  return !(hits < parlay::size(r));")],"Q"),
("P04","r-any",PR,[("  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) > 0;","  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) != 0;")],"Q"),
("P04","r-none",PR,[("  return parlay::count_if(r, std::forward<UnaryPredicate>(p)) == 0;","  return !parlay::any_of(r, std::forward<UnaryPredicate>(p));")],"Q"),
("P04","r-map",SO,[("  return tabulate(parlay::size(r), [f = std::forward<UnaryOp>(f), it = std::begin(r)]\n      (size_t i) -> decltype(auto) { return f(it[i]); }, granularity);","  const size_t n = parlay::size(r);\n  auto first = std::begin(r);\n  return tabulate(n, [f = std::forward<UnaryOp>(f), first]\n      (size_t i) -> decltype(auto) { return f(first[i]); }, granularity);")],"Q"),
("P04","r-foreach",PR,[("    [&f, it = std::begin(r)](size_t i) { f(it[i]); });\n}\n\n/* -------------------- Counting","    [&f, first = std::begin(r)](size_t k) { auto it = first + k; f(*it); });\n}\n\n/* -------------------- Counting")],"Q"),
# ---- P05
("P05","r-fi-head",PR,[("  size_t i;\n  for (i = 0; i < (std::min)(granularity, n); i++)\n    if (p(i)) return i;\n  if (i == n) return n;","  const size_t head = (std::min)(granularity, n);\n  for (size_t i = 0; i < head; i++) {\n    if (p(i)) return i;\n  }\n  if (head == n) return n;")],"Q"),
("P05","r-fi-res",PR,[("    if (auto res = result.load(); res < n) return res;","    const size_t res = result.load();\n    if (res != n) return res;")],"Q"),
("P05","r-fi-end",PR,[("    start += block_size;\n    block_size *= 2;","    start = end;\n    block_size += block_size;")],"Q"),
("P05","r-fi-help",PR,[("template <typename IntegerPred>\nsize_t find_if_index(","template <typename IntegerPred>\nvoid mark_first(size_t start, size_t end, std::atomic<size_t>& result, IntegerPred& p, size_t granularity) {\n  parallel_for(start, end, [&](size_t j) {\n    if (p(j)) write_min(&result, j, std::less<>());\n  }, granularity);\n}\n\ntemplate <typename IntegerPred>\nsize_t find_if_index("),("    parallel_for(start, end, [&](size_t j) {\n      if (p(j)) write_min(&result, j, std::less<>());\n    }, granularity);\n    if (auto","    mark_first(start, end, result, p, granularity);\n    if (auto")],"Q"),
("P05","r-mm",PR,[("  auto d = internal::find_if_index(std::min(parlay::size(r1), parlay::size(r2)),","  const size_t n1 = parlay::size(r1), n2 = parlay::size(r2);\n  auto d = internal::find_if_index(n1 < n2 ? n1 : n2,")],"Q"),
("P05","r-eq",PR,[("  return parlay::size(r1) == parlay::size(r2) &&\n    internal::find_if_index(parlay::size(r1),\n      [&p, it1 = std::begin(r1), it2 = std::begin(r2)](size_t i)\n        { return !p(it1[i], it2[i]); }) == parlay::size(r1);","  const size_t n = parlay::size(r1);\n  if (n != parlay::size(r2)) return false;\n  const size_t d = internal::find_if_index(n,\n      [&p, it1 = std::begin(r1), it2 = std::begin(r2)](size_t i)\n        { return !p(it1[i], it2[i]); });\n  return d == n;")],"Q"),
("P05","r-search",PR,[("    size_t j;\n    for (j = 0; j < parlay::size(r2); j++)\n      if (!pred(r1[i + j], r2[j])) break;\n    return (j == parlay::size(r2));","    for (size_t j = 0; j < parlay::size(r2); j++) {\n      if (!pred(r1[i + j], r2[j])) return false;\n    }\n    return true;")],"Q"),
("P05","r-search2",PR,[("    if (i + parlay::size(r2) > parlay::size(r1)) return false;\n    size_t j;","    if (parlay::size(r2) > parlay::size(r1) - i) return false;\n    size_t j;")],"Q"),
("P05","r-fend",PR,[("    size_t j;\n    for (j = 0; j < n2; j++)\n      if (!p(r1[(n1 - i - n2) + j], r2[j])) break;\n    return (j == parlay::size(r2));","    const size_t off = n1 - n2 - i;\n    size_t j = 0;\n    while (j < n2 && p(r1[off + j], r2[j])) j++;\n    return j == n2;")],"Q"),
("P05","r-isu",PR,[("  if (parlay::size(r) == 0) return std::begin(r);\n  return std::begin(r) + internal::find_if_index(parlay::size(r) - 1,\n    [&comp, it = std::begin(r)](size_t i) { return comp(it[i + 1], it[i]); }) + 1;","  const size_t n = parlay::size(r);\n  if (n == 0) return std::begin(r);\n  const size_t descent = internal::find_if_index(n - 1,\n    [&comp, it = std::begin(r)](size_t i) { return comp(it[i + 1], it[i]); });\n  return std::begin(r) + (descent + 1);")],"Q"),
]
