// Merging and merge sort over opaque elements, in sequential elision; recursive calls stay calls.
#define PARLAY_SEQUENTIAL
#include <cstddef>
using Z = unsigned long;
extern "C" {
void plint_copy(void* d, const void* s) noexcept; void plint_move(void* d, void* s) noexcept; void plint_kill(void* p) noexcept; void plint_swap(void* a, void* b) noexcept; void plint_assign(void* d, const void* s) noexcept;
bool plint_less(const void* a, const void* b) noexcept;
}
struct El {
  long v[2]; El(const El& o) { plint_copy(this, &o); } El(El&& o) noexcept { plint_move(this, &o); } ~El() { plint_kill(this); }
  El& operator=(const El& o) { plint_assign(this, &o); return *this; } El& operator=(El&& o) noexcept { plint_assign(this, &o); return *this; }
  friend void swap(El& a, El& b) noexcept { plint_swap(&a, &b); }
};
#include <parlay/primitives.h>
using namespace parlay;
using SL = slice<El*, El*>;
struct Less { bool operator()(const El& a, const El& b) const { return plint_less(&a, &b); } };
static inline SL S(El* p, Z n) { return make_slice(p, p + n); }
extern "C" {
void drv_seqmerge_copy(El* a, Z na, El* b, Z nb, El* r) { internal::seq_merge<uninitialized_copy_tag>(S(a, na), S(b, nb), S(r, na + nb), Less{}); }
void drv_seqmerge_move(El* a, Z na, El* b, Z nb, El* r) { internal::seq_merge<uninitialized_move_tag>(S(a, na), S(b, nb), S(r, na + nb), Less{}); }
void drv_seqmerge_reloc(El* a, Z na, El* b, Z nb, El* r) { internal::seq_merge<uninitialized_relocate_tag>(S(a, na), S(b, nb), S(r, na + nb), Less{}); }
void drv_merge_copy(El* a, Z na, El* b, Z nb, El* r) { internal::merge_into<uninitialized_copy_tag>(S(a, na), S(b, nb), S(r, na + nb), Less{}); }
void drv_merge_reloc(El* a, Z na, El* b, Z nb, El* r) { internal::merge_into<uninitialized_relocate_tag>(S(a, na), S(b, nb), S(r, na + nb), Less{}); }
Z drv_search(El* a, Z na, El* v) { return internal::binary_search(S(a, na), *v, Less{}); }
void drv_insertion(El* a, Z na) { internal::insertion_sort(a, na, Less{}); }
void drv_sort_in(El* a, Z na, El* r) { internal::merge_sort_(S(a, na), S(r, na), Less{}, true); }
void drv_sort_out(El* a, Z na, El* r) { internal::merge_sort_(S(a, na), S(r, na), Less{}, false); }
void drv_sort_top(El* a, Z na) { parlay::stable_sort_inplace(S(a, na), Less{}); }
}
