#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <parlay/delayed.h>
#include <parlay/parallel.h>
#include <parlay/thread_specific.h>
#include <parlay/io.h>
#include <memory>
#include <string>
#include <type_traits>
using std::size_t;
// an element that can be moved but not copied, with no default value
struct M { std::unique_ptr<int> p; explicit M(int v) : p(new int(v)) {} M(M&&) noexcept = default; M& operator=(M&&) noexcept = default; M(const M&) = delete; M& operator=(const M&) = delete;
  bool operator<(const M& o) const { return *p < *o.p; } bool operator==(const M& o) const { return *p == *o.p; } bool operator!=(const M& o) const { return !(*this == o); } };
// an element that can be copied but has no default value and no comparison
struct N { int v; explicit N(int x) : v(x) {} };
// an element with a default value that cannot be assigned
struct A { const int v; A() : v(0) {} explicit A(int x) : v(x) {} A(const A&) = default; A(A&&) = default; };
struct LessN { bool operator()(const N& a, const N& b) const { return a.v < b.v; } };
struct EqN { bool operator()(const N& a, const N& b) const { return a.v == b.v; } };
struct PredN { bool operator()(const N& a) const { return a.v > 0; } };
struct LessM { bool operator()(const M& a, const M& b) const { return a < b; } };
// a callable that can neither be copied nor moved
struct Pinned { Pinned() = default; Pinned(const Pinned&) = delete; Pinned(Pinned&&) = delete; template<typename T> int operator()(T&&) const { return 1; } };
struct Yes { template<typename T> bool operator()(const T&) const { return true; } };
struct Dbl { template<typename T> double operator()(const T&) const { return 1; } };
struct Chr { char operator()(size_t) const { return 'c'; } };
struct Idx { size_t operator()(size_t i) const { return i; } };
struct Int { int operator()(int i) const { return i; } };
template<typename T> using seq = parlay::sequence<T>;
template<typename X, typename Y> constexpr bool same = std::is_same_v<X, Y>;
//@ok move-only-sequence
void f(seq<M> s, seq<M> t) { s.push_back(M(1)); s.emplace_back(2); s.insert(s.begin(), M(3)); s.emplace(s.begin(), 4); s.append(std::move(t)); s.insert(s.begin(), seq<M>{}); s.erase(s.begin()); s.pop_back(); s.reserve(10); s.clear();
  seq<M> u(std::move(s)); u = seq<M>{}; u.swap(s); std::swap(u, s); auto w = u.pop_tail(u.begin()); auto x = seq<M>::from_function(3, [](size_t i) { return M((int)i); }); s.assign(std::move(x)); bool b = s == u; (void)b; }
//@ok no-default-sequence
void f(seq<N> s, const N& v) { s.push_back(v); s.append(3, v); s.append(s); s.insert(s.begin(), v); s.insert(s.begin(), 2, v); s.resize(7, v); seq<N> t(s); t = s; seq<N> u(5, v); u.assign(3, v); u = {v, v}; s.insert(s.begin(), t); s.insert(s.begin(), {v}); }
//@ok unassignable-sequence
void f(seq<A> s, const A& v) { s.push_back(v); s.append(3, v); s.resize(9); seq<A> t(s); t = s; t = std::move(s); seq<A> u(5); seq<A> w = parlay::tabulate(3, [](size_t i) { return A((int)i); }); auto m = parlay::map(w, [](const A& a) { return A(a.v); }); auto fl = parlay::filter(w, [](const A&) { return true; }); }
//@ok move-only-tabulate-map
auto f(const seq<int>& s) { auto a = parlay::tabulate(10, [](size_t i) { return M((int)i); }); auto b = parlay::map(s, [](int i) { return M(i); }); auto c = parlay::delayed_tabulate(3, [](size_t i) { return M((int)i); }); auto d = parlay::to_sequence(c); return b; }
//@ok move-only-map-input
auto f(const seq<M>& s) { return parlay::map(s, [](const M& m) { return *m.p; }); }
//@ok move-only-sort
void f(seq<M>& s) { parlay::sort_inplace(s); parlay::sort_inplace(s, LessM{}); parlay::stable_sort_inplace(s); parlay::stable_sort_inplace(s, LessM{}); }
//@ok move-only-integer-sort
void f(seq<M>& s) { parlay::integer_sort_inplace(s, [](const M& m) -> unsigned { return *m.p; }); parlay::stable_integer_sort_inplace(s, [](const M& m) -> unsigned { return *m.p; }); }
//@ok move-only-reverse
void f(seq<M>& s) { parlay::reverse_inplace(s); }
//@ok move-only-flatten
auto f(seq<seq<M>> s) { return parlay::flatten(std::move(s)); }
//@ok move-only-queries
size_t f(const seq<M>& s, const M& v) { return parlay::count(s, v) + parlay::count_if(s, [](const M&) { return true; }) + (parlay::find(s, v) - s.begin()) + (parlay::find_if(s, [](const M&) { return true; }) - s.begin()) + parlay::all_of(s, [](const M&) { return true; })
  + (parlay::min_element(s) - s.begin()) + (parlay::max_element(s) - s.begin()) + (parlay::adjacent_find(s) - s.begin()) + parlay::is_sorted(s) + (parlay::is_sorted_until(s, LessM{}) - s.begin()) + parlay::equal(s, s) + (parlay::mismatch(s, s).first - s.begin()) + (parlay::search(s, s) - s.begin()) + (parlay::find_end(s, s) - s.begin()) + parlay::lexicographical_compare(s, s, LessM{}) + (parlay::find_first_of(s, s) - s.begin()) + parlay::is_partitioned(s, [](const M&) { return true; }); }
//@ok move-only-for-each
void f(seq<M>& s) { parlay::for_each(s, [](M& m) { m = M(1); }); parlay::delayed::for_each(s, [](M& m) { m = M(2); }); }
//@ok no-default-primitives
auto f(const seq<N>& s, const seq<bool>& b) { auto a = parlay::filter(s, PredN{}); auto c = parlay::pack(s, b); auto d = parlay::sort(s, LessN{}); auto e = parlay::stable_sort(s, LessN{}); auto g = parlay::reverse(s); auto h = parlay::rotate(s, 1); auto i = parlay::unique(s, EqN{}); auto j = parlay::remove_if(s, PredN{}); auto k = parlay::append(s, s); auto l = parlay::merge(s, s, LessN{}); auto m = parlay::to_sequence(s); auto n = parlay::min_element(s, LessN{}); auto o = parlay::remove_duplicates_ordered(s, LessN{}); auto p = parlay::integer_sort(s, [](const N& x) -> unsigned { return x.v; }); auto q = parlay::split_at(s, b); return a; }
//@ok no-default-reduce
struct MonN { N identity{0}; N operator()(const N& a, const N& b) const { return N(a.v + b.v); } };
auto f(const seq<N>& s) { return parlay::reduce(s, MonN{}); }
//@ok no-default-scan
struct MonN { N identity{0}; N operator()(const N& a, const N& b) const { return N(a.v + b.v); } };
auto f(const seq<N>& s) { auto r = parlay::scan(s, MonN{}); auto q = parlay::scan_inclusive(s, MonN{}); return r; }
//@ok const-comparators
void f(seq<int>& s) { const auto less = [](int a, int b) { return a < b; }; parlay::sort(s, less); parlay::stable_sort(s, less); parlay::sort_inplace(s, less); parlay::stable_sort_inplace(s, less); parlay::merge(s, s, less); parlay::min_element(s, less); parlay::is_sorted(s, less); const auto p = [](int a) { return a > 0; }; parlay::filter(s, p); parlay::remove_if(s, p); parlay::find_if(s, p); parlay::count_if(s, p); parlay::any_of(s, p); const auto m = parlay::plus<int>{}; parlay::reduce(s, m); parlay::scan(s, m); parlay::scan_inclusive(s, m); parlay::scan_inplace(s, m); }
//@ok pinned-callables
void f(const seq<int>& s, const Pinned& p) { parlay::for_each(s, p); parlay::filter(s, p); parlay::find_if(s, p); parlay::count_if(s, p); parlay::all_of(s, p); parlay::tabulate(3, p); parlay::parallel_for(0, 3, [&](size_t i) { p(i); }); parlay::remove_if(s, p); }
//@ok branches-of-any-kind
void f() { struct B { B() = default; B(const B&) = delete; void operator()() const {} }; const B b; parlay::par_do(b, [] {}); std::unique_ptr<int> u; parlay::par_do([v = std::move(u)] {}, B{}); parlay::par_do_if(true, b, B{}); parlay::parallel_for(0, 5, [v = std::make_unique<int>(2)](size_t) {}); int x = 0; parlay::par_do([&]() mutable { x = 1; }, [] { return 5; }); }
//@ok const-and-view-ranges
auto f(const seq<int>& s, parlay::slice<const int*, const int*> v) { auto a = parlay::map(v, [](int i) { return i; }); auto b = parlay::reduce(v); auto c = parlay::scan(v); auto d = parlay::filter(v, [](int) { return true; }); auto e = parlay::sort(v); auto g = parlay::pack(v, parlay::delayed_map(s, [](int i) { return i > 0; })); auto h = parlay::reduce(parlay::delayed_tabulate(10, [](size_t i) { return i; })); auto i = parlay::sort(parlay::delayed_tabulate(10, [](size_t i) { return i; })); auto j = parlay::scan_inclusive(parlay::iota(5)); auto k = parlay::filter(parlay::iota(5), [](size_t) { return true; }); auto l = parlay::to_sequence(parlay::delayed_map(v, [](int i) { return i; })); auto m = parlay::reverse(parlay::make_slice(s).cut(0, 1)); return a; }
//@ok standard-ranges
#include <vector>
#include <array>
auto f(const std::vector<int>& v, std::array<int, 4>& a, const std::string& st) { auto x = parlay::map(v, [](int i) { return i; }); auto y = parlay::sort(a); parlay::sort_inplace(a); auto z = parlay::reduce(v); auto w = parlay::tokens(st); auto u = parlay::filter(st, [](char) { return true; }); auto t = parlay::scan(v); parlay::parallel_for(0, v.size(), [](size_t) {}); return parlay::to_sequence(v); }
//@ok element-types-of-results
const seq<short> s; const seq<bool> b; struct Sub { long operator()(short, short) const { return 0; } };
static_assert(same<decltype(parlay::map(s, Dbl{})), seq<double>>);
static_assert(same<decltype(parlay::tabulate(3, Chr{})), seq<char>>);
static_assert(same<decltype(parlay::filter(s, Yes{})), seq<short>>);
static_assert(same<decltype(parlay::pack(s, b)), seq<short>>);
static_assert(same<decltype(parlay::pack_index<unsigned>(b)), seq<unsigned>>);
static_assert(same<decltype(parlay::pack_index(b)), seq<size_t>>);
static_assert(same<decltype(parlay::sort(s)), seq<short>>);
static_assert(same<decltype(parlay::integer_sort(seq<unsigned>{})), seq<unsigned>>);
static_assert(same<decltype(parlay::reduce(s)), short>);
static_assert(same<decltype(parlay::reduce(s, parlay::plus<short>())), short>);
static_assert(same<decltype(parlay::scan(s)), std::pair<seq<short>, short>>);
static_assert(same<decltype(parlay::scan_inclusive(s)), seq<short>>);
static_assert(same<decltype(parlay::count_if(s, Yes{})), size_t>);
static_assert(same<decltype(parlay::all_of(s, Yes{})), bool>);
static_assert(same<decltype(parlay::flatten(seq<seq<short>>{})), seq<short>>);
static_assert(same<decltype(parlay::group_by_key(seq<std::pair<int, char>>{})), seq<std::pair<int, seq<char>>>>);
static_assert(same<decltype(parlay::tokens(parlay::chars{})), seq<parlay::chars>>);
static_assert(same<decltype(parlay::remove_duplicates(s)), seq<short>>);
static_assert(same<decltype(parlay::to_chars(5)), parlay::chars>);
static_assert(same<decltype(parlay::merge(s, s)), seq<short>>);
static_assert(same<decltype(parlay::find_if(s, Yes{})), seq<short>::const_iterator>);
//@ok iterators-are-random-access
template<typename R> constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<decltype(std::begin(std::declval<R&>()))>::iterator_category>;
static_assert(ra<seq<M>> && ra<const seq<int>> && ra<parlay::slice<int*, int*>>);
static_assert(ra<decltype(parlay::delayed_tabulate(3, Idx{}))> && ra<decltype(parlay::delayed_map(std::declval<seq<int>&>(), Int{}))>);
static_assert(ra<decltype(parlay::iota(5))> && ra<decltype(parlay::zip(std::declval<seq<int>&>(), std::declval<seq<int>&>()))>);
static_assert(ra<parlay::ThreadSpecific<int>> && ra<const parlay::ThreadSpecific<int>>);
static_assert(parlay::is_random_access_range_v<seq<M>> && !parlay::is_random_access_range_v<int>);
//@ok element-access-is-by-reference
static_assert(same<decltype(std::declval<seq<M>&>()[0]), M&> && same<decltype(std::declval<const seq<M>&>()[0]), const M&>);
static_assert(same<decltype(*std::declval<seq<M>&>().begin()), M&> && same<decltype(*std::declval<const seq<M>&>().begin()), const M&>);
static_assert(same<decltype(parlay::make_slice(std::declval<seq<M>&>())[0]), M&> && same<decltype(parlay::make_slice(std::declval<const seq<M>&>())[0]), const M&>);
static_assert(same<decltype(*std::declval<parlay::ThreadSpecific<M>&>()), M&> && same<decltype(*std::declval<const parlay::ThreadSpecific<M>&>()), const M&>);
static_assert(same<decltype(*parlay::find_if(std::declval<seq<M>&>(), Yes{})), M&>);
static_assert(same<decltype(*parlay::find_if(std::declval<const seq<M>&>(), Yes{})), const M&>);
//@ok views-own-temporaries-and-refer-to-lvalues
// a large range that whether a view holds it shows in the size of the view
struct Big { int d[1024]; Big() {} int* begin() { return d; } int* end() { return d + 1024; } const int* begin() const { return d; } const int* end() const { return d + 1024; } size_t size() const { return 1024; } int& operator[](size_t i) { return d[i]; } const int& operator[](size_t i) const { return d[i]; } };
template<typename V> constexpr bool owns = sizeof(V) >= sizeof(Big);
static_assert(owns<decltype(parlay::delayed_map(std::declval<Big>(), Int{}))> && !owns<decltype(parlay::delayed_map(std::declval<Big&>(), Int{}))> && !owns<decltype(parlay::delayed_map(std::declval<const Big&>(), Int{}))>);
static_assert(owns<decltype(parlay::delayed::map(std::declval<Big>(), Int{}))> && !owns<decltype(parlay::delayed::map(std::declval<Big&>(), Int{}))> && !owns<decltype(parlay::delayed::map(std::declval<const Big&>(), Int{}))>);
static_assert(!owns<decltype(parlay::delayed::zip(std::declval<Big&>(), std::declval<const Big&>()))>);
static_assert(!owns<decltype(parlay::delayed::enumerate(std::declval<Big&>()))>);
static_assert(owns<decltype(parlay::delayed::scan(std::declval<Big>()).first)> && !owns<decltype(parlay::delayed::scan(std::declval<Big&>()).first)>);
static_assert(owns<decltype(parlay::delayed::scan_inclusive(std::declval<Big>()))> && !owns<decltype(parlay::delayed::scan_inclusive(std::declval<Big&>()))> && !owns<decltype(parlay::delayed::scan_inclusive(std::declval<const Big&>()))> && !owns<decltype(parlay::delayed::scan(std::declval<const Big&>()).first)>);
//@ok views-do-not-copy-lvalues
struct P { int v; };
auto f(const seq<M>& s, seq<M>& t) { auto a = parlay::delayed::map(s, [](const M& m) { return *m.p; }); auto b = parlay::delayed::zip(s, t); auto c = parlay::delayed::enumerate(t); auto d = parlay::delayed_map(t, [](const M& m) { return *m.p; }); auto e = parlay::make_slice(s); return parlay::delayed::to_sequence(a); }
//@ok views-of-temporaries
auto f() { auto a = parlay::delayed::map(seq<int>{}, [](int m) { return m; }); auto b = parlay::delayed::scan(seq<int>{}); auto c = parlay::delayed::map(parlay::delayed::scan_inclusive(seq<int>{}), [](int i) { return i; }); return parlay::delayed::to_sequence(a); }
//@fail const-sequence-index
void f(const seq<int>& s) { s[0] = 1; }
//@fail const-sequence-iterator
void f(const seq<int>& s) { *s.begin() = 1; }
//@fail const-slice
void f(const seq<int>& s) { parlay::make_slice(s)[0] = 1; }
//@fail const-find
void f(const seq<int>& s) { *parlay::find_if(s, [](int) { return true; }) = 3; }
//@fail const-sort-inplace
void f(const seq<int>& s) { parlay::sort_inplace(s); }
//@fail const-thread-specific
void f(const parlay::ThreadSpecific<int>& t) { *t = 3; }
//@fail const-front
void f(const seq<int>& s) { s.front() = 1; }
//@fail const-data
void f(const seq<int>& s) { *s.data() = 1; }
//@fail const-push-back
void f(const seq<int>& s) { const_cast<const seq<int>&>(s).push_back(1); }
//@fail copy-thread-specific
void f(parlay::ThreadSpecific<int>& t) { parlay::ThreadSpecific<int> u(t); }
//@fail move-thread-specific
void f(parlay::ThreadSpecific<int>& t) { parlay::ThreadSpecific<int> u(std::move(t)); }
//@fail copy-scheduler
void f(parlay::internal::scheduler_type& t) { parlay::internal::scheduler_type u(t); }
//@fail copy-move-only-sequence
void f(const seq<M>& s) { seq<M> t(s); (void)t; }
