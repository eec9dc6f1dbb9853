#include <parlay/thread_specific.h>
// Instantiates the thread-id pool; analysed as LLVM IR, never executed.
using Pool = parlay::internal::ThreadIdPool;
using Node = Pool::ThreadId;
using Owner = Pool::ThreadIdOwner;
extern "C" {
Node* drv_acquire(Pool* p) { return p->acquire(); }
void drv_relinquish(Pool* p, Node* n) { p->relinquish(n); }
void drv_owner_ctor(void* m, Pool& p) { ::new (m) Owner(p); }
void drv_owner_dtor(Owner* o) { o->~Owner(); }
unsigned drv_get_id() { return parlay::internal::get_thread_id(); }
unsigned drv_num() { return parlay::internal::get_num_thread_ids(); }
unsigned drv_my_id() { return parlay::my_thread_id(); }
unsigned drv_num_pub() { return parlay::num_thread_ids(); }
void drv_pool_dtor(Pool* p) { p->~Pool(); }
}
