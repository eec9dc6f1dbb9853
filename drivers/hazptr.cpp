#include <parlay/internal/concurrency/hazptr_stack.h>
// Instantiates the hazard-pointer stack; analysed as LLVM IR, never executed.
using S = parlay::internal::hazptr_stack<unsigned long>;
using N = S::Node;
using AR = parlay::internal::intrusive_acquire_retire<N>;
using RL = AR::RetiredList;
extern "C" bool plint_protected(N*) noexcept;
struct Prot { bool operator()(N* n) const noexcept { return plint_protected(n); } };
extern "C" {
N* drv_hp_acquire(AR* a, std::atomic<N*>& p) { return a->acquire(p); }
void drv_hp_release(AR* a) { a->release(); }
void drv_hp_retire(AR* a, N* p) { a->retire(p); }
void drv_hp_dtor(AR* a) { a->~AR(); }
void drv_rl_push(RL* l, N* p) { l->push(p); }
void drv_rl_cleanup(RL* l, std::default_delete<N>& d) { l->cleanup(Prot{}, d); }
void drv_st_push(S* s, unsigned long v) { s->push(v); }
void drv_st_pop(S* s, std::optional<unsigned long>* out) { *out = s->pop(); }
size_t drv_st_size(S* s) { return s->size(); }
bool drv_st_empty(S* s) { return s->empty(); }
void drv_st_dtor(S* s) { s->~S(); }
void drv_st_clear(S* s) { s->clear(); }
}
extern "C" void drv_st_ctor(void* p) { new (p) S(); }
