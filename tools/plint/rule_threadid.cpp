// S05: thread ids are unique among live threads and dense.
#include "mem.h"
#include "flow.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
namespace {
bool keepPool(const Function& f) { std::string d = dem(&f); return d.find("ThreadIdPool::acquire()") != std::string::npos || d.find("ThreadIdPool::relinquish(") != std::string::npos; }
const Value* unInt(const Value* v) { v = strip(v); for (int i = 0; i < 4; i++) if (auto* C = dyn_cast<CastInst>(v)) v = strip(C->getOperand(0)); else break; return v; }
}
RULE(threadid) {
  const DataLayout& DL = M.getDataLayout();
  int64_t oHead = memberOffset(M, "ThreadIdPool", "available_ids"), oCnt = memberOffset(M, "ThreadIdPool", "num_thread_ids");
  int64_t nNext = memberOffset(M, "ThreadId", "next"), nId = memberOffset(M, "ThreadId", "id");
  if (nNext < 0) { R.brk("ThreadId members not found"); return; }
  if (oHead < 0 || oCnt < 0) { R.brk("ThreadIdPool members not found"); return; }
  auto fn = [&](const char* n, bool keep) -> Function* { auto* F = findFn(M, n); if (!F) { R.brk(std::string("no ") + n); return nullptr; } PrepOptions o; if (keep) o.keep = keepPool; prepare(*F, o); R.functions.insert(n); return F; };
  auto isField = [&](const Value* base, const Value* p, int64_t o) { Loc l = locOf(DL, p); return l.exact && l.root == base && l.off == o; };
  auto isNew = [&](const Value* v) { auto* cb = dyn_cast<CallBase>(v); return cb && cb->getCalledFunction() && cb->getCalledFunction()->getName().starts_with("_Znwm"); };
  auto isLock = [](const Instruction& I) { return calls(I, "pthread_mutex_lock"); };
  auto isUnlock = [](const Instruction& I) { return calls(I, "pthread_mutex_unlock"); };
  // ---------------------------------------------------------------- acquire
  // the drivers only forward, so analyse the member itself
  Function* acq = nullptr; for (auto& G : M) if (!G.isDeclaration() && dem(&G).find("ThreadIdPool::acquire()") != std::string::npos) acq = &G;
  if (!acq) { R.brk("no ThreadIdPool::acquire"); return; }
  { PrepOptions o; prepare(*acq, o); R.functions.insert(dem(acq)); Function* F = acq; const Value* self = F->getArg(0);
    std::set<const Value*> muts;
    for (auto& I : instructions(*F)) if (isLock(I)) muts.insert(strip(cast<CallBase>(I).getArgOperand(0)->stripPointerCasts()));
    // held analysis
    std::map<const Instruction*, int> held; // min over paths
    struct H { int n = 0; bool operator<(const H& o) const { return n < o.n; } };
    Flow<H> hf; bool lockErr = false; const Instruction* lockAt = nullptr;
    hf.onInst = [&](const Instruction& I, H& u, Env&) { auto it = held.emplace(&I, u.n).first; it->second = std::min(it->second, u.n);
      if (isLock(I)) { u.n++; if (u.n > 1) { lockErr = true; lockAt = &I; return false; } }
      if (isUnlock(I)) { u.n--; if (u.n < 0) { lockErr = true; lockAt = &I; return false; } }
      if (isa<ReturnInst>(I) && u.n) { lockErr = true; lockAt = &I; } return true; };
    hf.run(*F, H{});
    R.add("lock-balanced", lockErr ? where(lockAt) : where(F), !lockErr, lockErr ? "the pool's mutex is not released on some path" : "mutex balanced");
    bool oneMutex = muts.size() <= 1 && (muts.empty() || isa<GlobalVariable>(*muts.begin()) || locOf(DL, *muts.begin()).root == self);
    R.add("one-mutex", where(F), oneMutex, "all takers of a free id use the same mutex");
    // pops
    int pops = 0, fresh = 0;
    for (auto& I : instructions(*F)) if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) if (isField(self, X->getPointerOperand(), oHead)) {
      pops++;
      R.add("pop-order", where(X), atLeast(X->getSuccessOrdering(), AtomicOrdering::Acquire), "taking a free id acquires what its previous owner did");
      auto* nx = dyn_cast<LoadInst>(unInt(X->getNewValOperand()));
      bool okNext = false; if (nx) { Loc l = locOf(DL, nx->getPointerOperand()); okNext = l.exact && l.off == nNext && unInt(l.root) == unInt(X->getCompareOperand()); }
      R.add("pop-next", where(X), okNext, "the head is replaced by the successor of the node being taken");
      bool h = held.count(X) && held[X] > 0 && nx && held.count(nx) && held[nx] > 0;
      // expected value read while the mutex was held, with no release in between
      std::set<const Value*> seen; std::vector<const Value*> w{unInt(X->getCompareOperand())};
      while (!w.empty()) { auto* v = unInt(w.back()); w.pop_back(); if (!seen.insert(v).second) continue;
        if (auto* P = dyn_cast<PHINode>(v)) { for (auto& u : P->incoming_values()) w.push_back(u); continue; }
        if (auto* E = dyn_cast<ExtractValueInst>(v)) v = E->getAggregateOperand();
        auto* J = dyn_cast<Instruction>(v); if (J && held.count(J) && !(held[J] > 0)) h = false; }
      for (auto& J : instructions(*F)) if (isUnlock(J)) if (auto* again = pathAvoiding(*F, &J, [&](const Instruction& K) { return &K == X; }, isLock)) { (void)again; h = false; }
      R.add("pop-serialised", where(X), h, h ? "reading the head, its successor and the exchange happen in one critical section" : "a free id is taken outside one critical section: a node taken and returned meanwhile (ABA) corrupts the list");
    }
    // returned nodes: taken by a successful exchange on this path, or freshly created
    { struct V { std::set<const Value*> won, fresh; int nw = 0; bool operator<(const V& o) const { return std::tie(won, fresh, nw) < std::tie(o.won, o.fresh, o.nw); } };
      Flow<V> fl; std::set<const Instruction*> bad, unused; const Instruction* r0 = nullptr;
      fl.keepVal = [](const Value* v, const V& u) { return u.won.count(v) || u.fresh.count(v); };
      fl.onInst = [&](const Instruction& I, V& u, Env& e) {
        u.won.erase(&I); u.fresh.erase(&I);
        if (isNew(&I)) u.fresh = {&I};
        if (auto* r = dyn_cast<ReturnInst>(&I)) { r0 = r; auto* x = resolveVal<V>(r->getReturnValue(), e);
          if (u.nw == 0 && !u.fresh.count(x)) bad.insert(r); if (u.nw > 0 && !u.won.count(x)) bad.insert(r); if (u.nw > 1) unused.insert(r); }
        return true; };
      fl.onFact = [&](const Fact& f, V& u, Env& e) { if (auto* X = casSuccess(f)) if (isField(self, X->getPointerOperand(), oHead)) { u.won = {resolveVal<V>(X->getCompareOperand(), e)}; u.nw++; } return u.nw < 4; };
      fl.onEdge = [&](const BasicBlock* a, const BasicBlock* b, V& u, Env& e) { aliasEdge<V>(a, b, u.won, e); aliasEdge<V>(a, b, u.fresh, e); return true; };
      fl.run(*F, V{});
      for (auto* I : bad) R.add("result", where(I), false, "an id is handed out that is neither the node just taken from the free list nor a fresh one");
      for (auto* I : unused) R.add("result", where(I), false, "more than one free id is taken for one request");
      if (bad.empty() && unused.empty()) R.add("result", where(r0), true, "every id handed out was taken by one successful exchange or is fresh");
    }
    for (auto& I : instructions(*F)) if (isNew(&I)) {
        const Value* x = &I; fresh++; const StoreInst* st = nullptr; int k = 0;
        for (auto& J : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&J)) if (isField(x, S->getPointerOperand(), nId)) { st = S; k++; }
        auto* rm = st ? dyn_cast<AtomicRMWInst>(unInt(st->getValueOperand())) : nullptr;
        auto* c = rm ? dyn_cast<ConstantInt>(rm->getValOperand()) : nullptr;
        bool ok = k == 1 && rm && rm->getOperation() == AtomicRMWInst::Add && c && c->isOne() && isField(self, rm->getPointerOperand(), oCnt);
        R.add("fresh-id", where(&I), ok, ok ? "a new id is the old value of the atomically incremented counter" : "a new id is not drawn from the counter by one atomic increment");
    }
    // counter only grows by the increments that create ids
    for (auto& I : instructions(*F)) { if (auto* S = dyn_cast<StoreInst>(&I)) if (isField(self, S->getPointerOperand(), oCnt) || isField(self, S->getPointerOperand(), oHead)) R.add("no-plain-update", where(S), false, "shared pool state is overwritten without an atomic exchange");
      if (auto* X = dyn_cast<AtomicRMWInst>(&I)) if (isField(self, X->getPointerOperand(), oHead)) R.add("no-plain-update", where(X), false, "the free list head is overwritten unconditionally"); }
    R.counts["pops"] += pops; R.counts["fresh ids"] += fresh;
    if (!fresh) R.brk("no fresh id path in acquire");
  }
  // ---------------------------------------------------------------- relinquish
  Function* rel = nullptr; for (auto& G : M) if (!G.isDeclaration() && dem(&G).find("ThreadIdPool::relinquish(") != std::string::npos) rel = &G;
  if (!rel) { R.brk("no ThreadIdPool::relinquish"); return; }
  { prepare(*rel); R.functions.insert(dem(rel)); Function* F = rel; const Value* self = F->getArg(0); const Value* node = F->getArg(1);
    struct U { const Value* next = nullptr; int done = 0; bool operator<(const U& o) const { return std::tie(next, done) < std::tie(o.next, o.done); } };
    Flow<U> fl; std::map<std::string, std::pair<std::string, std::string>> errs; int pushes = 0;
    auto err = [&](const Instruction& I, const char* r, const char* m) { errs.emplace(where(&I) + r, std::make_pair(std::string(r), std::string(m) + "|" + where(&I))); };
    fl.onInst = [&](const Instruction& I, U& u, Env&) {
      if (auto* S = dyn_cast<StoreInst>(&I)) { if (isField(node, S->getPointerOperand(), nNext)) { if (u.done) err(I, "published-node", "the node is modified after it was returned"); u.next = unInt(S->getValueOperand()); }
        if (isField(self, S->getPointerOperand(), oHead)) err(I, "no-plain-update", "the free list head is overwritten without an atomic exchange"); }
      if (auto* L = dyn_cast<LoadInst>(&I)) if (isField(node, L->getPointerOperand(), nNext)) { if (u.done) err(I, "published-node", "the node is read after it was returned"); u.next = L; }
      if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) if (isField(self, X->getPointerOperand(), oHead)) {
        pushes++;
        if (unInt(X->getNewValOperand()) != node) err(I, "push", "something other than the returned node becomes the head");
        if (unInt(X->getCompareOperand()) != u.next) err(I, "push", "the node's successor is not the head the exchange expects: ids behind it are lost");
        if (!atLeast(X->getSuccessOrdering(), AtomicOrdering::Release)) err(I, "push-order", "returning an id does not release what its owner did");
      }
      if (auto* X = dyn_cast<AtomicRMWInst>(&I)) if (isField(self, X->getPointerOperand(), oHead)) err(I, "no-plain-update", "the free list head is overwritten unconditionally");
      if (isa<ReturnInst>(I) && u.done != 1) err(I, "push", u.done ? "the id is returned more than once" : "the id may never be returned to the free list");
      return true; };
    fl.keepVal = [](const Value* v, const U& u) { return v == u.next; };
    fl.onFact = [&](const Fact& f, U& u, Env&) { if (auto* X = casSuccess(f)) if (isField(self, X->getPointerOperand(), oHead)) u.done++; return u.done < 4; };
    fl.run(*F, U{});
    for (auto& e : errs) { auto p = e.second.second.find('|'); R.add(e.second.first, e.second.second.substr(p + 1), false, e.second.second.substr(0, p)); }
    if (errs.empty()) R.add("push", where(F), true, "returned exactly once by an exchange from its successor");
    R.counts["pushes"] += pushes ? 1 : 0; if (!pushes) R.add("push", where(F), false, "an id is never put back");
  }
  // ---------------------------------------------------------------- owner
  int64_t wId = memberOffset(M, "ThreadIdOwner", "id"), wNode = memberOffset(M, "ThreadIdOwner", "node");
  if (wId < 0 || wNode < 0) { R.brk("ThreadIdOwner members not found"); return; }
  auto isAcq = [](const Instruction& I) { return callsDem(I, {"ThreadIdPool::acquire()"}); };
  auto isRel = [](const Instruction& I) { return callsDem(I, {"ThreadIdPool::relinquish("}); };
  auto isRet = [](const Instruction& I) { return isa<ReturnInst>(I); };
  if (Function* F = fn("drv_owner_ctor", true)) {
    const Instruction* a = nullptr; int n = 0; for (auto& I : instructions(*F)) if (isAcq(I)) { a = &I; n++; }
    bool twice = a && pathAvoiding(*F, a, isAcq, [](const Instruction&) { return false; });
    bool missed = pathAvoiding(*F, nullptr, isRet, isAcq) != nullptr;
    R.add("owner-acquires", where(F), n == 1 && !twice && !missed, "a thread takes exactly one id");
    bool nd = false, id = false;
    for (auto& I : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&I)) { if (isField(F->getArg(0), S->getPointerOperand(), wNode)) nd = S->getValueOperand() == a;
      if (isField(F->getArg(0), S->getPointerOperand(), wId)) { auto* L = dyn_cast<LoadInst>(unInt(S->getValueOperand())); id = L && a && isField(a, L->getPointerOperand(), nId); } }
    R.add("owner-remembers", where(F), nd && id, "the thread's id is the id of the node it took and gives back");
  }
  if (Function* F = fn("drv_owner_dtor", true)) {
    const CallBase* r = nullptr; int n = 0; for (auto& I : instructions(*F)) if (isRel(I)) { r = cast<CallBase>(&I); n++; }
    bool ok = n >= 1 && !pathAvoiding(*F, nullptr, isRet, isRel);
    for (auto& I : instructions(*F)) if (isRel(I) && pathAvoiding(*F, &I, isRel, [](const Instruction&) { return false; })) ok = false;
    bool arg = false; if (r) { auto* L = dyn_cast<LoadInst>(strip(r->getArgOperand(1))); arg = L && isField(F->getArg(0), L->getPointerOperand(), wNode); }
    R.add("owner-relinquishes", where(F), ok && arg, ok && arg ? "a dying thread gives its node back exactly once" : "a dying thread does not give its own node back exactly once");
  }
  // ---------------------------------------------------------------- thread-local owner
  for (const char* nm : {"drv_get_id", "drv_my_id"}) if (Function* F = fn(nm, true)) {
    for (auto& I : instructions(*F)) if (auto* r = dyn_cast<ReturnInst>(&I)) {
      auto* L = dyn_cast<LoadInst>(unInt(r->getReturnValue())); bool ok = false; const Value* root = nullptr;
      if (L) { Loc l = locOf(DL, L->getPointerOperand()); ok = l.tls && l.exact && l.off == wId; root = l.root; }
      R.add("id-of-thread", where(r), ok, ok ? "the thread's own id" : "the id returned is not the one held by the calling thread");
      bool reg = false;
      for (auto& J : instructions(*F)) if (calls(J, "__cxa_thread_atexit")) { auto& cb = cast<CallBase>(J); auto* D = dyn_cast<Function>(cb.getArgOperand(0)->stripPointerCasts()); if (D && dem(D).find("ThreadIdOwner::~") != std::string::npos && locOf(DL, cb.getArgOperand(1)).root == root) reg = true; }
      R.add("id-given-back", where(F), reg, reg ? "the owner is destroyed when its thread ends" : "nothing gives the id back when the thread ends");
      // constructed before use
      if (ok) { auto* miss = pathAvoiding(*F, nullptr, [&](const Instruction& J) { return &J == L; }, [&](const Instruction& J) { return isAcq(J); }, [&](const BasicBlock* a, const BasicBlock* b) {
          for (auto& f : edgeFacts(a, b)) { bool t; auto* g = testedLoad(f.cond, f.val, t); if (g) { auto* gv = tlsOf(g->getPointerOperand()); if (gv && gv->getName().starts_with("_ZGV") && t) return false; } } return true; });
        R.add("id-initialised", where(L), !miss, "the id is taken on first use"); }
      R.counts["id reads"]++;
    }
  }
  for (const char* nm : {"drv_num", "drv_num_pub"}) if (Function* F = fn(nm, true)) for (auto& I : instructions(*F)) if (auto* r = dyn_cast<ReturnInst>(&I)) {
    auto* L = dyn_cast<LoadInst>(unInt(r->getReturnValue())); bool ok = L && L->isAtomic() && locOf(DL, L->getPointerOperand()).off == oCnt && locOf(DL, L->getPointerOperand()).exact;
    R.add("count-is-bound", where(r), ok, ok ? "the number of ids is the counter new ids are drawn from" : "the number of ids reported is not the counter new ids are drawn from");
  }
  // ---------------------------------------------------------------- pool destruction
  if (Function* F = fn("drv_pool_dtor", true)) {
    int dels = 0;
    for (auto& I : instructions(*F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName().starts_with("_ZdlPv")) {
      const Value* x = unInt(cb->getArgOperand(0)); auto* xi = dyn_cast<Instruction>(x);
      auto touch = [&](const Instruction& J) { const Value* p = nullptr; if (auto* L = dyn_cast<LoadInst>(&J)) p = L->getPointerOperand(); else if (auto* S = dyn_cast<StoreInst>(&J)) p = S->getPointerOperand(); return p && unInt(locOf(DL, p).root) == x; };
      // a fresh value of x is defined at the phi: stop there
      auto* uaf = pathAvoiding(*F, cb, touch, [&](const Instruction& J) { return false; }, [&](const BasicBlock*, const BasicBlock* b) { return !(xi && isa<PHINode>(xi) && b == xi->getParent()); });
      R.add("destroy-nodes", where(cb), !uaf, uaf ? "a node is used after it was deleted" : "next node read before deletion");
      dels++;
    }
    if (dels) R.counts["node deletions"] += dels; else R.add("destroy-nodes", where(F), false, "free nodes are not deleted with the pool");
  }
}
