F="scheduler.h"; PA="parallel.h"; SO="internal/sequence_ops.h"; PL="internal/scheduler_plugins/"
MUT=[
 ("S03","mid-gap",F,[("parfor_(scheduler, mid, end, f, granularity, conservative); }","parfor_(scheduler, mid + (n == 1000003), end, f, granularity, conservative); }")],"V"),
 ("S03","gran-start",F,[("      start += done;\n","      start += done - (done > 4096);\n")],"V"),
 ("S03","gran-min",F,[("      sz = std::min(sz, end - (start + done));","      sz = std::min(sz, end - start);")],"V"),
 ("S03","gran-index",F,[("f(start + done + i);","f(start + i);")],"V"),
 ("S03","gran-done2",F,[("      done += sz;\n      sz *= 2;","      sz *= 2;\n      done += sz;")],"V"),
 ("S03","leaf-le",F,[("for (size_t i = start; i < end; i++) f(i);\n    else","for (size_t i = start; i + (granularity > 100000) < end; i++) f(i);\n    else")],"V"),
 ("S03","no-done-add",F,[("      start += done;\n","")],"V"),
 ("S03","gran-zero",F,[("granularity = std::max(done, (end - start)","granularity = std::min(done, (end - start)")],"V"),
 ("S03","mid-zero",F,[("(9 * (n + 1)) / 16)","(9 * n) / 32)")],"V"),
 ("S03","single-extra",PA,[("  if (start + 1 == end) {\n    f(start);\n  }\n  else if","  if (start + 1 == end) {\n    f(start);\n  }\n  if")],"V"),
 ("S03","granskip",PA,[("for (size_t i = start; i < end; i++) f(i);","for (size_t i = start; i < end; i += 1 + (granularity == 77)) f(i);")],"V"),
 ("S03","blocked-nblocks",PA,[("(end - start + block_size - 1) / block_size","(end - start + block_size) / block_size")],"V"),
 ("S03","blocked-floor",PA,[("(end - start + block_size - 1) / block_size","(end - start) / block_size + 1")],"V"),
 ("S03","blocked-start",PA,[("size_t s = start + i * block_size;","size_t s = i * block_size;")],"V"),
 ("S03","blocked-noclamp",PA,[("(std::min)(s + block_size, end)","s + block_size")],"V"),
 ("S03","blocked-idx",PA,[("      f(i, s, e);","      f(n_blocks - 1 - i, s, e);")],"V"),
 ("S03","sliced-nb",SO,[("  size_t l = num_blocks(n, block_size);\n  auto body","  size_t l = n / block_size;\n  auto body")],"V"),
 ("S03","sliced-clamp",SO,[("    size_t e = (std::min)(s + block_size, n);\n    f(i, s, e);","    size_t e = (i + 1 == l) ? s + block_size : (std::min)(s + block_size, n);\n    f(i, s, e);")],"V"),
 ("S03","omp-gran",PL+"omp.h",[("      #pragma omp taskloop grainsize(granularity) shared(f)\n      for (size_t i = start; i < end; i++) {","      #pragma omp taskloop grainsize(granularity) shared(f)\n      for (size_t i = start + 1; i < end; i++) {")],"V"),
 ("S03","tbb-range",PL+"tbb.h",[("tbb::parallel_for(tbb::blocked_range<size_t>(start, end, granularity)","tbb::parallel_for(tbb::blocked_range<size_t>(start, end - 1, granularity)")],"V"),
 ("S03","cilk-mid",PL+"opencilk.h",[("    parallel_for(mid, end, f, granularity);","    parallel_for(mid + 1, end, f, granularity);")],"V"),
 ("S03","omp-do",PL+"omp.h",[("      #pragma omp task untied shared(right)\n      { std::forward<Rf>(right)(); }\n","      #pragma omp task untied shared(right)\n      { }\n")],"V"),
 # behaviour preserving
 ("S03","q-mid-half",F,[("size_t mid = (start + (9 * (n + 1)) / 16);","size_t mid = start + n / 2;")],"Q"),
 ("S03","q-order",F,[("            [&]() { parfor_(scheduler, start, mid, f, granularity, conservative); },\n            [&]() { parfor_(scheduler, mid, end, f, granularity, conservative); },","            [&]() { parfor_(scheduler, mid, end, f, granularity, conservative); },\n            [&]() { parfor_(scheduler, start, mid, f, granularity, conservative); },")],"Q"),
 ("S03","q-leaf-while",F,[("for (size_t i = start; i < end; i++) f(i);\n    else","{ while (start != end) { f(start); ++start; } }\n    else")],"Q"),
 ("S03","q-leaf-down",F,[("for (size_t i = start; i < end; i++) f(i);\n    else","{ for (size_t i = end; i > start; --i) f(i - 1); }\n    else")],"Q"),
 ("S03","q-gran-loop",F,[("for (size_t i = 0; i < sz; i++) f(start + done + i);","for (size_t i = start + done, stop = start + done + sz; i < stop; ++i) f(i);")],"Q"),
 ("S03","q-gran-rest",F,[("      sz = std::min(sz, end - (start + done));","      const size_t left = end - start - done;\n      if (sz > left) sz = left;")],"Q"),
 ("S03","q-gran-ref",F,[("      size_t done = get_granularity(start, end, f);\n","      const auto done = get_granularity(start, end, f);\n")],"Q"),
 ("S03","q-parfor-switch",PA,[("  if (start + 1 == end) {\n    f(start);\n  }\n  else if ((end - start) <= static_cast<size_t>(granularity)) {\n    for (size_t i = start; i < end; i++) f(i);\n  }\n  else if (end > start) {","  if (end <= start) return;\n  size_t n = end - start;\n  if (n == 1) f(start);\n  else if (n <= static_cast<size_t>(granularity)) for (size_t k = 0; k < n; ++k) f(start + k);\n  else {")],"Q"),
 ("S03","q-blocked",PA,[("(end - start + block_size - 1) / block_size","1 + (end - start - 1) / block_size"),("size_t s = start + i * block_size;\n      size_t e = (std::min)(s + block_size, end);","size_t s = start + i * block_size;\n      size_t e = (i + 1 == n_blocks) ? end : s + block_size;")],"Q"),
 ("S03","q-sliced",SO,[("    size_t e = (std::min)(s + block_size, n);\n    f(i, s, e);","    size_t rest = n - s;\n    f(i, s, s + (rest < block_size ? rest : block_size));")],"Q"),
 ("S03","q-sliced2",SO,[("  auto body = [&](size_t i) {\n    size_t s = i * block_size;\n    size_t e = (std::min)(s + block_size, n);\n    f(i, s, e);\n  };\n  parallel_for(0, l, body, 1, 0 != (fl & fl_conservative));","  const bool cons = (fl & fl_conservative) != 0;\n  parallel_for(0, l, [&](size_t i) {\n    f(i, i * block_size, (std::min)((i + 1) * block_size, n)); }, 1, cons);")],"Q"),
]
