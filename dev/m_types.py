PR="primitives.h"; CM="internal/delayed/common.h"; TS="thread_specific.h"; SO="internal/sequence_ops.h"
MUT=[
("T01","reverse-copies",PR,[("    using std::swap;\n    swap(it[i], it[n - i - 1]);","    auto tmp = it[i]; it[i] = it[n - i - 1]; it[n - i - 1] = tmp;")],"V"),
("T01","view-copies",CM,[("std::reference_wrapper<std::remove_reference_t<T>>,","std::conditional_t<std::is_const_v<std::remove_reference_t<T>>, std::remove_const_t<std::remove_reference_t<T>>, std::reference_wrapper<std::remove_reference_t<T>>>,")],"V"),
("T01","ts-const",TS,[("  const T& operator*() const { return get(); }","  T& operator*() const { return const_cast<ThreadSpecific*>(this)->get(); }")],"V"),
("T01","emplace-copies","sequence.h",[("      storage.initialize(end(), std::move(v));","      storage.initialize(end(), v);")],"V"),
("T01","sort-needs-default","internal/quicksort.h",[("void insertion_sort(Iterator A, size_t n, const BinPred& f) {","void insertion_sort(Iterator A, size_t n, const BinPred& f) { typename std::iterator_traits<Iterator>::value_type unused{}; (void)unused;")],"V"),
("T01","r-reverse",PR,[("    using std::swap;\n    swap(it[i], it[n - i - 1]);","    std::iter_swap(it + i, it + (n - 1 - i));")],"Q"),
]
