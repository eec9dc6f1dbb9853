#include <parlay/primitives.h>
#include <parlay/delayed.h>
extern "C" double plint_op(double, double) noexcept;
extern "C" double plint_id() noexcept;
extern "C" bool plint_pred(double) noexcept;
extern "C" void plint_result(const void*) noexcept;
extern "C" double plint_gen(size_t) noexcept;
extern "C" double plint_fn(double) noexcept;
extern "C" bool plint_eq(double, double) noexcept;
extern "C" bool plint_lt(double, double) noexcept;
extern "C" void plint_visit(double) noexcept;
extern "C" void plint_ptr(const void*) noexcept;
static constexpr auto eq2 = [](double a, double b) { return plint_eq(a, b); };
static constexpr auto lt2 = [](double a, double b) { return plint_lt(a, b); };
static constexpr auto pr = [](double x) { return plint_pred(x); };
struct Mon { using T = double; double identity; double operator()(double a, double b) const { return plint_op(a, b); } };
extern "C" void plint_counts(size_t, size_t) noexcept;
using namespace parlay;
using sd = sequence<double>;
namespace dl = parlay::internal::delayed;
using SL = slice<const double*, const double*>;
extern "C" double plint_zip(double, double) noexcept;
extern "C" double plint_at(size_t, double) noexcept;
struct Fn { double operator()(double x) const { return plint_fn(x); } };
using BM = dl::block_delayed_map_t<SL, Fn>;   // the block-iterable form over a random access range
using BZ = dl::block_delayed_zip_t<SL, SL>;
static inline slice<const double*, const double*> S(const double* p, size_t n) { return make_slice(p, p + n); }
static inline slice<const bool*, const bool*> S(const bool* p, size_t n) { return make_slice(p, p + n); }
static inline slice<double*, double*> S(double* p, size_t n) { return make_slice(p, p + n); }
extern "C" {
double drv_reduce(const double* in, size_t n) { return internal::reduce(S(in, n), Mon{plint_id()}); }
double drv_reduce_seqflag(const double* in, size_t n) { return internal::reduce(S(in, n), Mon{plint_id()}, fl_sequential); }
double drv_reduce_seq(const sd& seq) { Mon m{plint_id()}; return internal::reduce(seq, m); }
double drv_reduce_pub(const double* in, size_t n) { return parlay::reduce(S(in, n), Mon{plint_id()}); }
double drv_scan(const double* in, double* out, size_t n) { return internal::scan_(S(in, n), S(out, n), Mon{plint_id()}, no_flag); }
double drv_scan_incl(const double* in, double* out, size_t n) { return internal::scan_(S(in, n), S(out, n), Mon{plint_id()}, internal::fl_scan_inclusive); }
double drv_scan_uninit(const double* in, double* out, size_t n) { return internal::scan_(S(in, n), S(out, n), Mon{plint_id()}, no_flag, true); }
double drv_scan_incl_uninit(const double* in, double* out, size_t n) { return internal::scan_(S(in, n), S(out, n), Mon{plint_id()}, internal::fl_scan_inclusive, true); }
double drv_scan_seqflag(const double* in, double* out, size_t n) { return internal::scan_(S(in, n), S(out, n), Mon{plint_id()}, fl_sequential); }
double drv_scan_inplace(double* in, size_t n) { return parlay::scan_inplace(S(in, n), Mon{plint_id()}); }
double drv_scan_inplace_incl(double* in, size_t n) { return parlay::scan_inclusive_inplace(S(in, n), Mon{plint_id()}); }
double drv_scan_pub(const double* in, size_t n) { auto r = parlay::scan(S(in, n), Mon{plint_id()}); plint_result(&r.first); return r.second; }
void drv_scan_incl_pub(const double* in, size_t n) { auto r = parlay::scan_inclusive(S(in, n), Mon{plint_id()}); plint_result(&r); }
void drv_pack(const double* in, const bool* fl, size_t n) { auto r = parlay::pack(S(in, n), S(fl, n)); plint_result(&r); }
size_t drv_pack_out(const double* in, const bool* fl, double* out, size_t n) { return internal::pack_out(S(in, n), S(fl, n), S(out, n)); }
size_t drv_pack_into(const double* in, const bool* fl, double* out, size_t n) { return parlay::pack_into_uninitialized(S(in, n), S(fl, n), S(out, n)); }
void drv_pack_index(const bool* fl, size_t n) { auto r = parlay::pack_index<size_t>(S(fl, n)); plint_result(&r); }
void drv_filter(const double* in, size_t n) { auto r = parlay::filter(S(in, n), [](double x) { return plint_pred(x); }); plint_result(&r); }
size_t drv_filter_into(const double* in, double* out, size_t n) { return parlay::filter_into_uninitialized(S(in, n), S(out, n), [](double x) { return plint_pred(x); }); }
size_t drv_count(const double* in, size_t n) { return parlay::count_if(S(in, n), [](double x) { return plint_pred(x); }); }
void drv_split_two(const double* in, const bool* fl, size_t n) { auto r = internal::split_two(S(in, n), S(fl, n)); plint_result(&r.first); plint_counts(r.second, 0); }
void drv_split_three(const double* in, const unsigned char* code, double* out, size_t n) { auto r = internal::split_three<uninitialized_copy_tag>(S((double*)in, n), S(out, n), make_slice(code, code + n)); plint_counts(r.first, r.second); }
void drv_tabulate(size_t n) { auto r = parlay::tabulate(n, [](size_t i) { return plint_gen(i); }); plint_result(&r); }
void drv_tabulate_gran(size_t n, size_t g) { auto r = parlay::tabulate(n, [](size_t i) { return plint_gen(i); }, g); plint_result(&r); }
void drv_map(const double* in, size_t n) { auto r = parlay::map(S(in, n), [](double x) { return plint_fn(x); }); plint_result(&r); }
void drv_copy(const double* in, double* out, size_t n) { parlay::copy(S(in, n), S(out, n)); }
void drv_to_sequence(const double* in, size_t n) { auto r = parlay::to_sequence(S(in, n)); plint_result(&r); }
void drv_reverse(const double* in, size_t n) { auto r = parlay::reverse(S(in, n)); plint_result(&r); }
void drv_reverse_inplace(double* in, size_t n) { parlay::reverse_inplace(S(in, n)); }
void drv_rotate(const double* in, size_t n, size_t t) { auto r = parlay::rotate(S(in, n), t); plint_result(&r); }
void drv_append(const double* in, size_t n, const double* in2, size_t n2) { auto r = parlay::append(S(in, n), S(in2, n2)); plint_result(&r); }
void drv_remove_if(const double* in, size_t n) { auto r = parlay::remove_if(S(in, n), pr); plint_result(&r); }
void drv_unique(const double* in, size_t n) { auto r = parlay::unique(S(in, n), [](double a, double b) { return plint_eq(a, b); }); plint_result(&r); }
bool drv_all_of(const double* in, size_t n) { return parlay::all_of(S(in, n), pr); }
bool drv_any_of(const double* in, size_t n) { return parlay::any_of(S(in, n), pr); }
bool drv_none_of(const double* in, size_t n) { return parlay::none_of(S(in, n), pr); }
void drv_for_each(const double* in, size_t n) { parlay::for_each(S(in, n), [](double x) { plint_visit(x); }); }
void drv_find_if(const double* in, size_t n) { plint_ptr(parlay::find_if(S(in, n), pr)); }
void drv_find_if_not(const double* in, size_t n) { plint_ptr(parlay::find_if_not(S(in, n), pr)); }
void drv_adjacent_find(const double* in, size_t n) { plint_ptr(parlay::adjacent_find(S(in, n), eq2)); }
void drv_mismatch(const double* in, size_t n, const double* in2, size_t n2) { auto r = parlay::mismatch(S(in, n), S(in2, n2), eq2); plint_ptr(r.first); plint_ptr(r.second); }
bool drv_equal(const double* in, size_t n, const double* in2, size_t n2) { return parlay::equal(S(in, n), S(in2, n2), eq2); }
void drv_search(const double* in, size_t n, const double* in2, size_t n2) { plint_ptr(parlay::search(S(in, n), S(in2, n2), eq2)); }
void drv_find_end(const double* in, size_t n, const double* in2, size_t n2) { plint_ptr(parlay::find_end(S(in, n), S(in2, n2), eq2)); }
bool drv_lexicographical_compare(const double* in, size_t n, const double* in2, size_t n2) { return parlay::lexicographical_compare(S(in, n), S(in2, n2), lt2); }
void drv_is_sorted_until(const double* in, size_t n) { plint_ptr(parlay::is_sorted_until(S(in, n), lt2)); }
bool drv_is_partitioned(const double* in, size_t n) { return parlay::is_partitioned(S(in, n), pr); }
void drv_dl_map(const double* in, size_t n) { BM v(S(in, n), Fn{}); auto r = dl::to_sequence(v); plint_result(&r); }
void drv_dl_foreach(const double* in, size_t n) { BM v(S(in, n), Fn{}); dl::for_each(v, [](double x) { plint_visit(x); }); }
double drv_dl_reduce(const double* in, size_t n) { BM v(S(in, n), Fn{}); return dl::reduce(v, Mon{plint_id()}); }
double drv_dl_scan(const double* in, size_t n) { auto p = dl::scan(S(in, n), Mon{plint_id()}); auto r = dl::to_sequence(p.first); plint_result(&r); return p.second; }
void drv_dl_scan_incl(const double* in, size_t n) { auto p = dl::scan_inclusive(S(in, n), Mon{plint_id()}); auto r = dl::to_sequence(p); plint_result(&r); }
void drv_dl_zip(const double* in, size_t n, const double* in2, size_t n2) { BZ v(0, S(in, n), S(in2, n2)); dl::for_each(v, [](const auto& t) { plint_visit(plint_zip(std::get<0>(t), std::get<1>(t))); }); }
size_t drv_dl_zip_size(const double* in, size_t n, const double* in2, size_t n2) { BZ v(0, S(in, n), S(in2, n2)); return v.size(); }
void drv_dl_scan_map(const double* in, size_t n) { auto p = dl::scan(BM(S(in, n), Fn{}), Mon{plint_id()}); auto r = dl::to_sequence(p.first); plint_result(&r); }
void drv_dl_map_scan(const double* in, size_t n) { auto r = dl::to_sequence(dl::map(dl::scan_inclusive(S(in, n), Mon{plint_id()}), [](double x) { return x; })); plint_result(&r); }
void drv_dl_zip_with(const double* in, size_t n, const double* in2, size_t n2) { auto v = delayed::zip_with([](double a, double b) { return plint_zip(a, b); }, BM(S(in, n), Fn{}), S(in2, n2)); delayed::for_each(v, [](double x) { plint_visit(x); }); }
void drv_dl_zip_ra(const double* in, size_t n, const double* in2, size_t n2) { auto v = delayed::zip_with([](double a, double b) { return plint_zip(a, b); }, S(in, n), S(in2, n2)); delayed::for_each(v, [](double x) { plint_visit(x); }); }
void drv_dl_map_ra(const double* in, size_t n) { auto r = delayed::to_sequence(delayed::map(S(in, n), Fn{})); plint_result(&r); }
void drv_dl_tabulate(size_t n) { auto r = delayed::to_sequence(delayed::tabulate(n, [](size_t i) { return plint_gen(i); })); plint_result(&r); }
double drv_dl_reduce_ra(const double* in, size_t n) { return delayed::reduce(delayed::map(S(in, n), Fn{}), Mon{plint_id()}); }
void drv_dl_foreach_ra(const double* in, size_t n) { delayed::for_each(delayed::map(S(in, n), Fn{}), [](double x) { plint_visit(x); }); }
void drv_dl_enumerate(const double* in, size_t n) { delayed::for_each(delayed::enumerate(BM(S(in, n), Fn{})), [](const auto& t) { plint_visit(plint_at(std::get<0>(t), std::get<1>(t))); }); }
}
