// S02: hand-off protocol of the work-stealing deque.
#include "core.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
using namespace plint;

namespace {
enum Role { NONE, BOT, AGE, SLOT };
struct Ev { const Instruction* I; Role role; char kind; AtomicOrdering ord; const Value* val; Lin idx; };
struct Fn {
  Function* F; std::unique_ptr<DominatorTree> DT; Canon C; std::vector<Ev> ev;
  const Value* self;
};
int64_t gBot = -1, gAge = -1; bool gTopHi = true; int64_t gCap = -1;

bool access(const Instruction& I, const Value*& p, const Value*& val, char& kind, AtomicOrdering& o) {
  if (auto* L = dyn_cast<LoadInst>(&I)) { p = L->getPointerOperand(); val = L; kind = 'L'; o = L->getOrdering(); return true; }
  if (auto* S = dyn_cast<StoreInst>(&I)) { p = S->getPointerOperand(); val = S->getValueOperand(); kind = 'S'; o = S->getOrdering(); return true; }
  if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { p = X->getPointerOperand(); val = X->getNewValOperand(); kind = 'C'; o = X->getSuccessOrdering(); return true; }
  if (auto* R = dyn_cast<AtomicRMWInst>(&I)) { p = R->getPointerOperand(); val = R; kind = 'R'; o = R->getOrdering(); return true; }
  return false;
}
// pointer = self + const + stride*idx
bool split(Fn& f, const Value* p, int64_t& off, Lin& idx, bool& var) {
  Lin l = f.C.lin(p) - f.C.lin(f.self);
  for (auto& kv : l.t) if (kv.first == "arg0") return false;
  off = l.c; var = !l.t.empty();
  if (var) {
    l.c = 0;
    if (l.t.size() != 1) {  // stride*(a+k) folded: divide by common coefficient
      return false;
    }
    auto& kv = *l.t.begin(); idx = Lin(); idx.t[kv.first] = 1;
  }
  return true;
}
bool rooted(Fn& f, const Value* p) {
  Lin l = f.C.lin(p);
  auto it = l.t.find("arg0");
  return it != l.t.end() && it->second == 1;
}
void collect(Fn& f, Report& R) {
  for (auto& I : instructions(*f.F)) {
    const Value *p, *v; char k; AtomicOrdering o;
    if (!access(I, p, v, k, o)) continue;
    if (!rooted(f, p)) continue;
    int64_t off; Lin idx; bool var;
    if (!split(f, p, off, idx, var)) { R.brk("unrecognised address form in " + where(&I)); continue; }
    Ev e{&I, NONE, k, o, v, idx};
    if (var) {
      e.role = SLOT;
      if (auto* G = dyn_cast<GEPOperator>(p->stripPointerCasts()))
        if (auto* A = dyn_cast<ArrayType>(G->getSourceElementType())) gCap = A->getNumElements();
    }
    else if (off == gBot) e.role = BOT;
    else if (off == gAge) e.role = AGE;
    f.ev.push_back(e);
  }
}
bool dom(Fn& f, const Instruction* a, const Instruction* b) { return a != b && f.DT->dominates(a, b); }
}  // namespace

RULE(deque) {
  auto mk = [&](const char* n) {
    Fn f; f.F = findFn(M, n);
    if (!f.F) { R.brk(std::string("driver entry missing: ") + n); return f; }
    prepare(*f.F); f.DT = std::make_unique<DominatorTree>(*f.F); f.self = f.F->getArg(0);
    return f;
  };
  Fn push = mk("drv_push"), popb = mk("drv_pop_bottom"), popt = mk("drv_pop_top"), ctor = mk("drv_ctor");
  if (!R.broken.empty()) return;
  R.functions = {"Deque::push_bottom", "Deque::pop_bottom", "Deque::pop_top", "Deque::Deque"};
  // ---- roles, inferred from pop_top
  const AtomicCmpXchgInst* cas = nullptr; int ncas = 0;
  for (auto& I : instructions(*popt.F)) if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { cas = X; ncas++; }
  if (!cas) {
    R.add("steal-by-cas", where(popt.F), false, "pop_top contains no compare-exchange: a stolen job is not claimed atomically");
    return;
  }
  { int64_t off; Lin ix; bool var; if (!split(popt, cas->getPointerOperand(), off, ix, var) || var) { R.brk("pop_top: compare-exchange target is not a member of the deque"); return; } gAge = off; }
  // the slot index of pop_top is `top`; bot is the remaining constant-offset 32-bit location
  for (auto& I : instructions(*popt.F)) {
    const Value *p, *v; char k; AtomicOrdering o;
    if (!access(I, p, v, k, o) || !rooted(popt, p)) continue;
    int64_t off; Lin ix; bool var; if (!split(popt, p, off, ix, var)) continue;
    if (!var && off != gAge && k == 'L' && I.getType()->isIntegerTy(32)) gBot = off;
    if (var && k == 'L') { auto& a = ix.t.begin()->first; gTopHi = a.find("hi[") != std::string::npos || a.find("udiv64{") != std::string::npos; }
  }
  if (gBot < 0) { R.brk("pop_top: cannot identify the bottom index"); return; }
  for (Fn* f : {&push, &popb, &popt}) collect(*f, R);
  if (!R.broken.empty()) return;

  auto top = [&](Fn& f, const Value* age) { return f.C.half(age, gTopHi); };
  auto tag = [&](Fn& f, const Value* age) { return f.C.half(age, !gTopHi); };
  auto zx = [&](Fn& f, const Lin& l32) { Lin l; l.t["z32" + l32.str()] = 1; return l; };
  // index of a slot access equals the 32-bit quantity q
  auto idxIs = [&](Fn& f, const Ev& e, const Lin& q) {
    if (e.idx == zx(f, q)) return true;
    // age>>32 used directly as a 64-bit index
    std::string a = e.idx.t.begin()->first;
    for (auto& x : f.ev) if (x.role == AGE && x.kind == 'L') {
      Lin l = f.C.lin(x.val);
      if (gTopHi && a == "udiv64{" + l.str() + "," + konst(1ll << 32).str() + "}" && q == top(f, x.val)) return true;
    }
    return false;
  };
  auto ob = [&](const char* r, const Instruction* I, Fn& f, bool ok, const std::string& m) {
    R.add(r, I ? where(I) : where(f.F), ok, m); R.counts["obligations"]++;
  };
  auto isRet = [](const Instruction& I) { return isa<ReturnInst>(I); };

  // ---- every access to the shared words is atomic
  for (Fn* f : {&push, &popb, &popt})
    for (auto& e : f->ev) if (e.role != NONE) {
      ob("atomic-access", e.I, *f, e.ord != AtomicOrdering::NotAtomic, "access to a shared deque word must be atomic");
      R.counts["shared accesses"]++;
    }

  // ---- push_bottom
  {
    Fn& f = push; std::vector<const Ev*> bs, ss, bl;
    for (auto& e : f.ev) { if (e.role == BOT && e.kind != 'L') bs.push_back(&e); if (e.role == SLOT && e.kind == 'S') ss.push_back(&e); if (e.role == BOT && e.kind == 'L') bl.push_back(&e);
      if (e.role == AGE && e.kind != 'L') ob("push-age", e.I, f, false, "push_bottom must not write the age word"); }
    std::set<const Instruction*> sset, bset; for (auto* e : bs) bset.insert(e->I); for (auto* e : ss) sset.insert(e->I);
    auto inS = [&](const Instruction& I) { return sset.count(&I) > 0; };
    auto inB = [&](const Instruction& I) { return bset.count(&I) > 0; };
    ob("push-slot", nullptr, f, !ss.empty() && !pathAvoiding(*f.F, nullptr, isRet, inS), "every return of push_bottom must have stored the job in its slot");
    ob("push-bot", nullptr, f, !bs.empty() && !pathAvoiding(*f.F, nullptr, isRet, inB), "every return of push_bottom must have advanced bot");
    for (auto* s : ss) {
      ob("push-slot-value", s->I, f, f.C.lin(s->val) == f.C.lin(f.F->getArg(1)), "the slot must receive the pushed job");
      bool ok = false; for (auto* l : bl) ok |= idxIs(f, *s, f.C.lin(l->val));
      ob("push-slot-index", s->I, f, ok, "the job must be stored in slot[bot]");
    }
    for (auto* b : bs) {
      bool ok = false; const Ev* base = nullptr; for (auto* l : bl) if (b->kind == 'S' && f.C.lin(b->val) == f.C.lin(l->val) + konst(1, 32)) { ok = true; base = l; }
      ob("push-bot-value", b->I, f, ok, "bot must become bot+1");
      ob("push-publish-order", b->I, f, atLeast(b->ord, AtomicOrdering::Release), "advancing bot must be a release (or stronger) store so that thieves see the job");
      ob("push-publish-after-slot", b->I, f, pathAvoiding(*f.F, nullptr, [&](const Instruction& I) { return &I == b->I; }, inS) == nullptr,
         "bot must be advanced only after the slot is written");
      ob("push-once", b->I, f, !pathAvoiding(*f.F, b->I, inB, nullptr), "bot must be advanced once per push");
      if (base) {
        // capacity guard
        auto guardC = [&](const Instruction* at, int64_t& maxv) {
          bool g = false; maxv = INT64_MAX;
          for (auto& c : cmpFacts(factsAt(at->getParent(), *f.DT), f.C)) {
            CmpFact k = c; if (k.a.isConst()) { std::swap(k.a, k.b); k.p = CmpInst::getSwappedPredicate(k.p); }
            if (!k.b.isConst()) continue;
            Lin d = k.a - f.C.lin(base->val);
            if (!d.isConst()) continue;
            int64_t lim;  // bound on bot0
            if (k.p == CmpInst::ICMP_NE || k.p == CmpInst::ICMP_ULT || k.p == CmpInst::ICMP_SLT) lim = k.b.c - d.c - 1;
            else if (k.p == CmpInst::ICMP_ULE || k.p == CmpInst::ICMP_SLE) lim = k.b.c - d.c;
            else continue;
            g = true; maxv = std::min(maxv, lim);
          }
          return g;
        };
        int64_t mb; bool g = guardC(b->I, mb);
        // after this push bot <= mb+1; the next push writes slot[bot] either before or after its own guard
        bool ok2 = g && gCap > 0; std::string m = "pushing must be refused before bot can exceed the slot array";
        for (auto* s : ss) { int64_t ms; bool gs = guardC(s->I, ms); if (gs) ok2 &= ms <= gCap - 1; else ok2 &= g && mb + 1 <= gCap - 1; }
        ob("push-overflow", b->I, f, ok2, m);
      }
    }
  }
  // ---- pop_top
  {
    Fn& f = popt; std::vector<const Ev*> sl;
    for (auto& e : f.ev) { if (e.role == SLOT && e.kind == 'L') sl.push_back(&e);
      if (e.role != NONE && (e.kind == 'S' || e.kind == 'R')) ob("steal-writes", e.I, f, false, "pop_top may change the deque only through its compare-exchange"); }
    std::set<const Instruction*> casOk;
    for (auto& e : f.ev) if (e.kind == 'C') {
      auto* X = cast<AtomicCmpXchgInst>(e.I);
      const Ev* a = nullptr; for (auto& q : f.ev) if (q.role == AGE && q.kind == 'L' && f.C.lin(q.val) == f.C.lin(X->getCompareOperand())) a = &q;
      ob("steal-cas-expected", X, f, e.role == AGE && a, "the compare-exchange must expect the age value that was read");
      if (!a) continue;
      ob("steal-age-acquire", a->I, f, atLeast(a->ord, AtomicOrdering::Acquire), "age must be read with acquire");
      ob("steal-cas-new", X, f, top(f, X->getNewValOperand()) == top(f, a->val) + konst(1, 32) && tag(f, X->getNewValOperand()) == tag(f, a->val),
         "the compare-exchange must install {tag, top+1}");
      ob("steal-cas-order", X, f, X->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent, "the claiming compare-exchange must be sequentially consistent");
      auto cf = cmpFacts(factsAt(X->getParent(), *f.DT), f.C);
      bool g = false, ordr = false, acq = false;
      for (auto& b : f.ev) if (b.role == BOT && b.kind == 'L' && proves(cf, CmpInst::ICMP_UGT, f.C.lin(b.val), top(f, a->val))) {
        g = true; ordr |= dom(f, a->I, b.I); acq |= atLeast(b.ord, AtomicOrdering::Acquire);
      }
      ob("steal-nonempty", X, f, g, "a job may be claimed only if bot > top");
      ob("steal-age-before-bot", X, f, ordr, "age must be read before bot");
      ob("steal-bot-acquire", X, f, acq, "bot must be read with acquire");
      bool s = false; for (auto* q : sl) s |= idxIs(f, *q, top(f, a->val)) && dom(f, q->I, X);
      ob("steal-slot-before-cas", X, f, s, "slot[top] must be read before the compare-exchange gives the slot away");
      casOk.insert(X);
    }
    for (auto& I : instructions(*f.F)) if (auto* r = dyn_cast<ReturnInst>(&I))
      for (auto& lf : leaves(r->getReturnValue(), r, *f.DT)) {
        if (isa<ConstantPointerNull>(lf.v) || isa<UndefValue>(lf.v)) continue;
        bool c = false; const AtomicCmpXchgInst* X = nullptr;
        for (auto& ft : lf.facts) if (auto* x = casSuccess(ft)) if (casOk.count(x)) { c = true; X = x; }
        ob("steal-return-claimed", r, f, c, "pop_top may return a job only after its compare-exchange succeeded");
        bool v = false; if (X) for (auto* q : sl) v |= f.C.lin(q->val) == f.C.lin(lf.v) && idxIs(f, *q, top(f, X->getCompareOperand()));
        ob("steal-return-value", r, f, v, "the job returned must be the one read from slot[top]");
        R.counts["steal returns"]++;
      }
    if (!R.counts["steal returns"]) ob("steal-returns-jobs", nullptr, f, false, "pop_top never returns a job");
  }
  // ---- pop_bottom
  {
    Fn& f = popb; std::vector<const Ev*> sl, al, bl;
    for (auto& e : f.ev) if (e.kind == 'L') { if (e.role == SLOT) sl.push_back(&e); if (e.role == AGE) al.push_back(&e); if (e.role == BOT) bl.push_back(&e); }
    std::vector<const Ev*> dec, zero, other;
    const Ev* b0 = nullptr;
    for (auto& e : f.ev) if (e.role == BOT && e.kind != 'L') {
      bool d = false; for (auto* l : bl) if (e.kind == 'S' && f.C.lin(e.val) == f.C.lin(l->val) - konst(1, 32)) { d = true; b0 = l; }
      if (d) dec.push_back(&e);
      else if (e.kind == 'S' && f.C.lin(e.val) == konst(0, 32)) zero.push_back(&e);
      else if (e.kind == 'R' && cast<AtomicRMWInst>(e.I)->getOperation() == AtomicRMWInst::Sub) R.brk("pop_bottom: fetch_sub on bot is not modelled");
      else ob("pop-bot-value", e.I, f, false, "bot may only become bot-1 or 0 in pop_bottom");
    }
    if (dec.empty() || !b0) { ob("pop-reserve", nullptr, f, false, "pop_bottom must lower bot by one before looking at age"); return; }
    Lin nb = f.C.lin(b0->val) - konst(1, 32);
    auto isDec = [&](const Instruction& I) { for (auto* d : dec) if (d->I == &I) return true; return false; };
    for (auto* d : dec) ob("pop-nonempty", d->I, f, proves(cmpFacts(factsAt(d->I->getParent(), *f.DT), f.C), CmpInst::ICMP_UGT, f.C.lin(b0->val), konst(0, 32)),
                            "bot may be lowered only when it is not zero");
    for (auto* a : al) {
      ob("pop-reserve-before-age", a->I, f, !pathAvoiding(*f.F, nullptr, [&](const Instruction& I) { return &I == a->I; }, isDec), "age must be read after bot was lowered");
      ob("pop-age-acquire", a->I, f, atLeast(a->ord, AtomicOrdering::Acquire), "age must be read with acquire");
      for (auto* d : dec) {
        bool scPair = d->ord == AtomicOrdering::SequentiallyConsistent && a->ord == AtomicOrdering::SequentiallyConsistent;
        bool gap = pathAvoiding(*f.F, d->I, [&](const Instruction& I) { return &I == a->I; },
                                [&](const Instruction& I) { auto* fe = dyn_cast<FenceInst>(&I); return fe && fe->getOrdering() == AtomicOrdering::SequentiallyConsistent && fe->getSyncScopeID() == SyncScope::System; }) != nullptr;
        ob("pop-fence", a->I, f, scPair || !gap, "a sequentially consistent fence must separate lowering bot from reading age");
      }
    }
    if (al.empty()) ob("pop-age", nullptr, f, false, "pop_bottom must read age");
    auto isZero = [&](const Instruction& I) { for (auto* d : zero) if (d->I == &I) return true; return false; };
    auto newAgeOk = [&](const Value* nv, const Ev* a) { Lin dt = tag(f, nv) - tag(f, a->val); return top(f, nv) == konst(0, 32) && dt.isConst() && dt.c != 0; };
    std::set<const Instruction*> casOk, ageW;
    for (auto& e : f.ev) if (e.role == AGE && e.kind != 'L') {
      ageW.insert(e.I);
      ob("pop-reset-bot-first", e.I, f, !pathAvoiding(*f.F, nullptr, [&](const Instruction& I) { return &I == e.I; }, isZero), "bot must be reset to 0 before age is reset");
      const Ev* a = nullptr;
      if (auto* X = dyn_cast<AtomicCmpXchgInst>(e.I)) {
        for (auto* q : al) if (f.C.lin(q->val) == f.C.lin(X->getCompareOperand())) a = q;
        ob("pop-cas-expected", X, f, a != nullptr, "the compare-exchange must expect the age value that was read");
        ob("pop-cas-order", X, f, X->getSuccessOrdering() == AtomicOrdering::SequentiallyConsistent, "the claiming compare-exchange must be sequentially consistent");
        if (a) {
          ob("pop-cas-last", X, f, proves(cmpFacts(factsAt(X->getParent(), *f.DT), f.C), CmpInst::ICMP_EQ, nb, top(f, a->val)), "the last job may be claimed only if bot-1 == top");
          ob("pop-cas-new", X, f, newAgeOk(X->getNewValOperand(), a), "resetting age must set top to 0 and change the tag (ABA)");
          casOk.insert(X);
        }
      } else if (e.kind == 'S') {
        bool ok = false; for (auto* q : al) ok |= newAgeOk(e.val, q);
        ob("pop-reset-age", e.I, f, ok, "resetting age must set top to 0 and change the tag (ABA)");
        ob("pop-reset-age-order", e.I, f, atLeast(e.ord, AtomicOrdering::Release), "resetting age must be at least a release store");
      } else ob("pop-age-write", e.I, f, false, "unexpected write to age");
    }
    // once bot has been reset to 0, age must be reset on every way out
    auto edgeOk = [&](const BasicBlock* a, const BasicBlock* b) {
      for (auto& ft : edgeFacts(a, b)) if (auto* x = casSuccess(ft)) if (casOk.count(x)) return false;
      return true;
    };
    for (auto* z : zero)
      ob("pop-reset-complete", z->I, f, !pathAvoiding(*f.F, z->I, isRet, [&](const Instruction& I) { return ageW.count(&I) && !isa<AtomicCmpXchgInst>(I); }, edgeOk),
         "after resetting bot, every path must reset age (by the compare-exchange or a store)");
    // paths that keep going after the reservation without a reset must have seen bot-1 > top
    auto edgeGt = [&](const BasicBlock* x, const BasicBlock* y) {
      auto cf = cmpFacts(edgeFacts(x, y), f.C);
      for (auto* a : al) if (proves(cf, CmpInst::ICMP_UGT, nb, top(f, a->val))) return false;
      return true;
    };
    for (auto* d : dec)
      ob("pop-empty-reset", d->I, f, !pathAvoiding(*f.F, d->I, isRet, isZero, edgeGt), "when bot-1 <= top the deque must be reset before returning");
    int rets = 0;
    for (auto& I : instructions(*f.F)) if (auto* r = dyn_cast<ReturnInst>(&I))
      for (auto& lf : leaves(r->getReturnValue(), r, *f.DT)) {
        if (isa<ConstantPointerNull>(lf.v) || isa<UndefValue>(lf.v)) continue;
        rets++;
        bool c = false;
        for (auto& ft : lf.facts) if (auto* x = casSuccess(ft)) if (casOk.count(x)) c = true;
        auto cf = cmpFacts(lf.facts, f.C);
        for (auto* a : al) c |= proves(cf, CmpInst::ICMP_UGT, nb, top(f, a->val));
        ob("pop-return-claimed", r, f, c, "pop_bottom may return a job only if bot-1 > top or its compare-exchange succeeded");
        bool v = false; for (auto* q : sl) v |= f.C.lin(q->val) == f.C.lin(lf.v) && idxIs(f, *q, nb);
        ob("pop-return-value", r, f, v, "the job returned must be the one read from slot[bot-1]");
      }
    R.counts["pop returns"] = rets;
    // a reserved job that is safely ours must be returned: null leaves need "empty" or "lost the race"
    for (auto& I : instructions(*f.F)) if (auto* r = dyn_cast<ReturnInst>(&I))
      for (auto& lf : leaves(r->getReturnValue(), r, *f.DT)) if (isa<ConstantPointerNull>(lf.v)) {
        auto cf = cmpFacts(lf.facts, f.C); bool bad = false;
        for (auto* a : al) bad |= proves(cf, CmpInst::ICMP_UGT, nb, top(f, a->val));
        for (auto& ft : lf.facts) if (auto* x = casSuccess(ft)) if (casOk.count(x)) bad = true;
        ob("pop-no-loss", r, f, !bad, "a job that was claimed must be returned");
      }
    if (rets == 0) ob("pop-returns-jobs", nullptr, f, false, "pop_bottom never returns a job");
  }
  // ---- constructor
  {
    bool b = false, a = false;
    for (auto& I : instructions(*ctor.F)) {
      if (auto* S = dyn_cast<StoreInst>(&I)) {
        const Value* base; int64_t off; constOffset(M.getDataLayout(), S->getPointerOperand(), base, off);
        if (auto* c = dyn_cast<Constant>(S->getValueOperand()); c && c->isNullValue()) {
          int64_t sz = M.getDataLayout().getTypeStoreSize(c->getType());
          if (off <= gBot && off + sz >= gBot + 4) b = true;
          if (off <= gAge && off + sz >= gAge + 8) a = true;
        }
      }
      if (auto* ms = dyn_cast<MemSetInst>(&I)) {
        const Value* base; int64_t off; constOffset(M.getDataLayout(), ms->getDest(), base, off);
        auto* z = dyn_cast<ConstantInt>(ms->getValue()); auto* l = dyn_cast<ConstantInt>(ms->getLength());
        if (z && z->isZero() && l) { int64_t e = off + l->getZExtValue(); if (off <= gBot && e >= gBot + 4) b = true; if (off <= gAge && e >= gAge + 8) a = true; }
      }
    }
    ob("init", nullptr, ctor, a && b, "a new deque must start with bot = 0 and age = {0,0}");
  }
}
