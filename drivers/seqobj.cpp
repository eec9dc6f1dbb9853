// Container operations on sequences of an element type of which nothing but its special members is known.
#include <parlay/sequence.h>
#include <parlay/primitives.h>
struct X { long v; X() noexcept; X(const X&) noexcept; X(X&&) noexcept; X& operator=(const X&) noexcept; X& operator=(X&&) noexcept; ~X() noexcept; };
#ifdef TRIVREL
namespace parlay { template<> struct is_trivially_relocatable<X> : std::true_type {}; }
#endif
using S = parlay::sequence<X>; using It = S::iterator; using Z = unsigned long;
extern "C" {
X plint_make(Z i) noexcept;
void drv_dtor(S& s) { s.~S(); }
void drv_ctor_empty(void* d) { ::new (d) S(); }
void drv_ctor_n(void* d, Z n) { ::new (d) S(n); }
void drv_ctor_fill(void* d, Z n, const X& v) { ::new (d) S(n, v); }
void drv_ctor_range(void* d, const X* r, Z n) { ::new (d) S(r, r + n); }
void drv_from_function(void* d, Z n) { ::new (d) S(S::from_function(n, [](Z i) { return plint_make(i); })); }
void drv_copy(void* d, const S& s) { ::new (d) S(s); }
void drv_to_sequence(void* d, const S& s) { ::new (d) S(parlay::to_sequence(s)); }
void drv_move(void* d, S& s) { ::new (d) S(std::move(s)); }
void drv_copy_assign(S& s, const S& t) { s = t; }
void drv_move_assign(S& s, S& t) { s = std::move(t); }
void drv_self_assign(S& s) { s = s; }
void drv_self_move_assign(S& s) { s = std::move(s); }
void drv_assign_seq(S& s, S& t) { s.assign(std::move(t)); }
void drv_swap(S& s, S& t) { s.swap(t); }
void drv_std_swap(S& s, S& t) { using std::swap; swap(s, t); }
It drv_push_back(S& s, const X& v) { return s.push_back(v); }
It drv_push_back_move(S& s, X& v) { return s.push_back(std::move(v)); }
It drv_emplace_back(S& s) { return s.emplace_back(); }
It drv_emplace_back_v(S& s, const X& v) { return s.emplace_back(v); }
It drv_push_back_alias(S& s, Z k) { return s.push_back(s[k]); }
void drv_pop_back(S& s) { s.pop_back(); }
It drv_append_n(S& s, Z n, const X& v) { return s.append(n, v); }
It drv_append_n_alias(S& s, Z n, Z k) { return s.append(n, s[k]); }
It drv_append_range(S& s, const X* r, Z n) { return s.append(r, r + n); }
It drv_append_copy(S& s, const S& t) { return s.append(t); }
It drv_append_seq_move(S& s, S& t) { return s.append(std::move(t)); }
It drv_insert(S& s, Z k, const X& v) { return s.insert(s.begin() + k, v); }
It drv_insert_move(S& s, Z k, X& v) { return s.insert(s.begin() + k, std::move(v)); }
It drv_emplace(S& s, Z k, const X& v) { return s.emplace(s.begin() + k, v); }
It drv_insert_alias(S& s, Z k, Z k2) { return s.insert(s.begin() + k, s[k2]); }
It drv_insert_n(S& s, Z k, Z n, const X& v) { return s.insert(s.begin() + k, n, v); }
It drv_insert_range(S& s, Z k, const X* r, Z n) { return s.insert(s.begin() + k, r, r + n); }
It drv_insert_copy(S& s, Z k, const S& t) { return s.insert(s.begin() + k, t); }
It drv_insert_seq_move(S& s, Z k, S& t) { return s.insert(s.begin() + k, std::move(t)); }
It drv_erase(S& s, Z k) { return s.erase(s.begin() + k); }
It drv_erase2(S& s, Z k, Z k2) { return s.erase(s.begin() + k, s.begin() + k2); }
void drv_resize_up(S& s, Z n, const X& v) { s.resize(n, v); }
void drv_resize_down(S& s, Z n, const X& v) { s.resize(n, v); }
void drv_resize_alias(S& s, Z n, Z k) { s.resize(n, s[k]); }
void drv_reserve(S& s, Z n) { s.reserve(n); }
void drv_clear(S& s) { s.clear(); }
void drv_assign_n(S& s, Z n, const X& v) { s.assign(n, v); }
void drv_assign_range(S& s, const X* r, Z n) { s.assign(r, r + n); }
void drv_pop_tail(void* d, S& s, Z k) { ::new (d) S(s.pop_tail(s.begin() + k)); }
void drv_pop_tail_len(void* d, S& s, Z k) { ::new (d) S(s.pop_tail(k)); }
X* drv_index(S& s, Z k) { return &s[k]; }
X* drv_at(S& s, Z k) { return &s.at(k); }
It drv_begin(S& s) { return s.begin(); }
It drv_end(S& s) { return s.end(); }
X* drv_data(S& s) { return s.data(); }
X* drv_front(S& s) { return &s.front(); }
X* drv_back(S& s) { return &s.back(); }
Z drv_size(const S& s) { return s.size(); }
}
