M = "internal/merge.h"; S = "internal/merge_sort.h"; Bs = "internal/binary_search.h"; Qs = "internal/quicksort.h"
MUT = []
def v(n, f, *subs): MUT.append(("K01", "mg-" + n, f, list(subs), "V"))
def q(n, f, *subs): MUT.append(("K01", "mg-q-" + n, f, list(subs), "Q"))
MAIN = """    if (f(B[j], A[i])) {
      assign_dispatch(R[i + j], B[j], assignment_tag{});
      j++;
    } else {
      assign_dispatch(R[i + j], A[i], assignment_tag{});
      i++;
    }
"""
SEQ = open("/repo/include/parlay/" + M).read(); SEQ = SEQ[SEQ.index("  size_t nA = A.size();"):SEQ.index("template <typename assignment_tag, typename InIterator1, typename InIterator2, typename OutIterator, typename BinaryOp>\nvoid merge_into")]
v("unstable", M, ("if (f(B[j], A[i])) {", "if (!f(A[i], B[j])) {"))
v("swap-branch", M, (MAIN, MAIN.replace("if (f(B[j], A[i]))", "if (!f(B[j], A[i]))")))
v("tail-skip", M, ("      while (j < nB) {\n", "      while (j + 1 < nB) {\n"))
v("tail-pos", M, ("assign_dispatch(R[i + j], A[i], assignment_tag{});\n        i++;", "assign_dispatch(R[j], A[i], assignment_tag{});\n        i++;"))
v("exit-or", M, ("    if (i == nA) {\n      while", "    if (i == nA || (nA > 4 && j == nB)) {\n      while"))
v("cut-mid", M, ("size_t mR = mA + mB;", "size_t mR = mA + mB + (mB == nB);"))
q("cut-upper", M, ("if (mB == 0) mA++;", "if (mB < nB) mA++;"))
v("cut-noinc", M, ("    if (mB == 0) mA++;  // ensures at least one on each side\n", ""))
v("cut-mb", M, ("    if (mB == 0) mA++;  // ensures at least one on each side\n", "    if (mB == 0) mB++;\n"))
v("search-next", M, ("binary_search(B, A[mA], f);", "binary_search(B, A[mA + 1], f);"))
v("search-last", M, ("size_t mA = nA / 2;", "size_t mA = nA / 2 + 1;"))
v("right-a", M, ("merge_into<assignment_tag>(A.cut(mA, nA), B.cut(mB, nB), R.cut(mR, nR)", "merge_into<assignment_tag>(A.cut(mA, nA), B.cut(mB, nB), R.cut(mR, nR - (nR > 1000000))"))
v("left-b", M, ("B.cut(0, mB), R.cut(0, mR)", "B.cut(0, nB), R.cut(0, mR)"))
v("copy-na", M, ("    parallel_for(0, nB, [&](size_t i) {\n      assign_dispatch(R[i], B[i]", "    parallel_for(0, nB - 1, [&](size_t i) {\n      assign_dispatch(R[i], B[i]"))
v("copy-nb", M, ("    parallel_for(0, nA, [&](size_t i) {\n      assign_dispatch(R[i], A[i]", "    parallel_for(0, nA, [&](size_t i) {\n      assign_dispatch(R[nA - 1 - i], A[i]"))
v("bs-lin", Bs, ("  return start + linear_search(make_slice(I).cut(start, end), v, less);", "  return linear_search(make_slice(I).cut(start, end), v, less);"))
v("bs-end", Bs, ("    if (!less(I[mid], v))\n      end = mid;", "    if (!less(I[mid], v))\n      end = mid - 1;"))
v("bs-start", Bs, ("    if (!less(I[mid], v))\n      end = mid;\n    else\n      start = mid + 1;", "    if (!less(I[mid], v))\n      end = mid;\n    else\n      start = mid + 2;"))
v("bs-upper", Bs, ("    if (!less(I[mid], v))\n", "    if (less(v, I[mid]))\n"))
v("lin-upper", Bs, ("    if (!less(I[i], v)) return i;", "    if (less(v, I[i])) return i;"))
v("lin-short", Bs, ("  for (size_t i = 0; i < I.size(); i++)\n    if (!less(I[i], v)) return i;\n  return I.size();", "  for (size_t i = 0; i < I.size(); i++)\n    if (!less(I[i], v)) return i;\n  return I.size() - 1;"))
v("ins-unstable", Qs, ("f(A[j + 1], A[j])", "!f(A[j], A[j + 1])"))
v("ins-first", Qs, ("while (--j >= 0 &&", "while (--j > 0 &&"))
v("ins-last", Qs, ("  for (size_t i = 1; i < n; i++) {\n    long j", "  for (size_t i = 1; i + 1 < n; i++) {\n    long j"))
v("ins-start", Qs, ("  for (size_t i = 1; i < n; i++) {\n    long j", "  for (size_t i = 2; i < n; i++) {\n    long j"))
v("ins-int", Qs, ("long j = i;", "signed char j = i;"))
v("ms-half", S, ("merge_sort_(In.cut(m, n), Out.cut(m, n), f, !inplace)", "merge_sort_(In.cut(m, n), Out.cut(m, n), f, inplace)"))
v("ms-gap", S, ("merge_sort_(In.cut(0, m), Out.cut(0, m), f, !inplace)", "merge_sort_(In.cut(0, m - 1), Out.cut(0, m - 1), f, !inplace)"))
v("ms-buf", S, ("merge_sort_(In.cut(m, n), Out.cut(m, n), f, !inplace)", "merge_sort_(In.cut(m, n), Out.cut(0, n - m), f, !inplace)"))
v("ms-order", S, ("merge_into<uninitialized_relocate_tag>(Out.cut(0, m), Out.cut(m, n), In, f);", "merge_into<uninitialized_relocate_tag>(Out.cut(m, n), Out.cut(0, m), In, f);"))
v("ms-base", S, ("    if (!inplace) {\n      for", "    if (!inplace && n > 1) {\n      for"))
v("ms-base-short", S, ("for (size_t i = 0; i < In.size(); i++) {\n        relocate_at", "for (size_t i = 0; i + 1 < In.size(); i++) {\n        relocate_at"))
v("ms-buffer", S, ("uninitialized_sequence<value_type>(n);", "uninitialized_sequence<value_type>(n - n / 2);"))
v("ms-flag", S, ("merge_sort_(In, make_slice(B), f, true);", "merge_sort_(In, make_slice(B), f, n < 1000000);"))
v("ms-ins", S, ("    insertion_sort(In.begin(), In.size(), f);\n  }\n  else {\n    auto B", "    insertion_sort(In.begin(), In.size() - 1, f);\n  }\n  else {\n    auto B"))
# behaviour kept
q("seq-three", M, (SEQ[SEQ.index("  while (true) {"):], """  while (i < nA && j < nB) {
    if (f(B[j], A[i])) {
      assign_dispatch(R[i + j], B[j], assignment_tag{});
      ++j;
    } else {
      assign_dispatch(R[i + j], A[i], assignment_tag{});
      ++i;
    }
  }
  for (; i < nA; ++i) assign_dispatch(R[i + j], A[i], assignment_tag{});
  for (; j < nB; ++j) assign_dispatch(R[i + j], B[j], assignment_tag{});
}


"""))
q("seq-k", M, (SEQ[SEQ.index("  while (true) {"):], """  size_t k = 0;
  while (i < nA || j < nB) {
    const bool second = i == nA || (j < nB && f(B[j], A[i]));
    if (second) assign_dispatch(R[k++], B[j++], assignment_tag{});
    else assign_dispatch(R[k++], A[i++], assignment_tag{});
  }
}


"""))
q("seq-iter", M, (SEQ, """  auto a = A.begin();
  auto b = B.begin();
  auto r = R.begin();
  const auto ea = A.end();
  const auto eb = B.end();
  while (a != ea && b != eb) {
    if (f(*b, *a)) { assign_dispatch(*r, *b, assignment_tag{}); ++b; }
    else { assign_dispatch(*r, *a, assignment_tag{}); ++a; }
    ++r;
  }
  for (; a != ea; ++a, ++r) assign_dispatch(*r, *a, assignment_tag{});
  for (; b != eb; ++b, ++r) assign_dispatch(*r, *b, assignment_tag{});
}


"""))
q("helper", M, ("template <typename assignment_tag, typename InIterator1, typename InIterator2, typename OutIterator, typename BinaryOp>\nvoid merge_into", """template <typename assignment_tag, typename From, typename To>
void copy_all(From A, To R) {
  const size_t n = A.size();
  parallel_for(0, n, [&](size_t i) { assign_dispatch(R[i], A[i], assignment_tag{}); });
}

template <typename assignment_tag, typename InIterator1, typename InIterator2, typename OutIterator, typename BinaryOp>
void merge_into"""), ("""    parallel_for(0, nB, [&](size_t i) {
      assign_dispatch(R[i], B[i], assignment_tag{});
    });
""", "    copy_all<assignment_tag>(B, R);\n"), ("""    parallel_for(0, nA, [&](size_t i) {
      assign_dispatch(R[i], A[i], assignment_tag{});
    });
""", "    copy_all<assignment_tag>(A, R);\n"))
q("early", M, ("  if (nR < _merge_base) {\n    seq_merge<assignment_tag>(A, B, R, f);\n  }\n  else if (nA == 0)", "  if (nR < _merge_base) {\n    seq_merge<assignment_tag>(A, B, R, f);\n    return;\n  }\n  if (nA == 0)"))
q("par-inline", M, ("    par_do(left, right, cons);", "    par_do([&] { left(); }, [&] { right(); }, cons);"))
q("swap-par", M, ("    par_do(left, right, cons);", "    par_do(right, left, cons);"))
q("bs-diff", Bs, ("    size_t mid = (end + start) / 2;\n    if (!less(I[mid], v))\n      end = mid;\n    else\n      start = mid + 1;", "    const size_t mid = start + (end - start) / 2;\n    if (less(I[mid], v)) start = mid + 1;\n    else end = mid;"))
q("bs-len", Bs, ("""  size_t start = 0;
  size_t end = I.size();
  while (end - start > _binary_search_base) {
    size_t mid = (end + start) / 2;
    if (!less(I[mid], v))
      end = mid;
    else
      start = mid + 1;
  }
  return start + linear""", """  size_t start = 0;
  size_t len = I.size();
  while (len > _binary_search_base) {
    size_t half = len / 2;
    if (!less(I[start + half], v)) len = half;
    else { start += half + 1; len -= half + 1; }
  }
  const size_t end = start + len;
  return start + linear"""))
q("lin-while", Bs, ("  for (size_t i = 0; i < I.size(); i++)\n    if (!less(I[i], v)) return i;\n  return I.size();", "  size_t i = 0;\n  while (i < I.size() && less(I[i], v)) ++i;\n  return i;"))
q("ins-down", Qs, ("    long j = i;\n    while (--j >= 0 && f(A[j + 1], A[j])) {\n      using std::swap;\n      swap(A[j + 1], A[j]);\n    }", "    for (size_t j = i; j > 0 && f(A[j], A[j - 1]); --j) {\n      using std::swap;\n      swap(A[j - 1], A[j]);\n    }"))
q("ins-break", Qs, ("    long j = i;\n    while (--j >= 0 && f(A[j + 1], A[j])) {\n      using std::swap;\n      swap(A[j + 1], A[j]);\n    }", "    using std::swap;\n    size_t j = i;\n    while (j != 0) {\n      if (!f(A[j], A[j - 1])) break;\n      swap(A[j], A[j - 1]);\n      j--;\n    }"))
q("ms-flip", S, ("    if (inplace) {\n      merge_into<uninitialized_relocate_tag>(Out.cut(0, m), Out.cut(m, n), In, f);\n    }\n    else {\n      merge_into<uninitialized_relocate_tag>(In.cut(0, m), In.cut(m, n), Out, f);\n    }", "    const auto from = inplace ? Out : In;\n    const auto to = inplace ? In : Out;\n    merge_into<uninitialized_relocate_tag>(from.cut(0, m), from.cut(m, n), to, f);"))
q("ms-m", S, ("    size_t m = n / 2;\n    par_do_if(", "    const size_t m = n - n / 2;\n    par_do_if("))
q("ms-reloc", S, ("for (size_t i = 0; i < In.size(); i++) {\n        relocate_at(&In[i], &Out[i]);", "for (size_t i = 0; i < n; ++i) {\n        auto* from = &In[i];\n        relocate_at(from, &Out[i]);"))
q("ms-base", S, ("constexpr size_t MERGE_SORT_BASE = 48;", "constexpr size_t MERGE_SORT_BASE = 32;"))
q("ms-parts", S, ("      [&]() { merge_sort_(In.cut(0, m), Out.cut(0, m), f, !inplace); },\n      [&]() { merge_sort_(In.cut(m, n), Out.cut(m, n), f, !inplace); },", "      [&]() { merge_sort_(In.cut(m, n), Out.cut(m, n), f, !inplace); },\n      [&]() { merge_sort_(In.cut(0, m), Out.cut(0, m), f, !inplace); },"))
