// S07: blocking wait on an atomic: no spurious return, no lost wake-up.
#include "mem.h"
#include "flow.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
namespace {
bool keepLib(const Function& f) { return dem(&f).find("__contention(") != std::string::npos; }
struct Sys4 { const CallBase* cb; int64_t op; const Value* addr; const Value* val; const Value* timeout; };
std::optional<Sys4> futex(const Instruction& I) {
  auto* cb = dyn_cast<CallBase>(&I); if (!cb || !cb->getCalledFunction() || cb->getCalledFunction()->getName() != "syscall" || cb->arg_size() < 5) return {};
  auto* op = dyn_cast<ConstantInt>(cb->getArgOperand(2)); if (!op) return {};
  return Sys4{cb, op->getSExtValue() & 127, cb->getArgOperand(1), cb->getArgOperand(3), cb->getArgOperand(4)};
}
// a location inside the contention entry of pointer argument 0
bool inEntry(const DataLayout& DL, const Function& F, const Value* p, int64_t& off, bool& ownKey) {
  Loc l = locOf(DL, p); if (!l.exact) return false;
  auto* cb = dyn_cast<CallBase>(l.root); if (!cb || !cb->getCalledFunction() || dem(cb->getCalledFunction()).find("__contention(") == std::string::npos) return false;
  off = l.off; ownKey = strip(cb->getArgOperand(0)->stripPointerCasts()) == F.getArg(0); return true;
}
}
RULE(atomicwait) {
  const DataLayout& DL = M.getDataLayout();
  auto fn = [&](const std::string& n) -> Function* { auto* F = findFn(M, n); if (!F) { R.brk("no " + n); return nullptr; } PrepOptions o; o.keep = keepLib; prepare(*F, o); R.functions.insert(n); return F; };
  for (std::string ty : {"sz", "i32"}) {
    // ------------------------------------------------------------ notify side
    std::optional<int64_t> waiters, version; bool direct = false, tests = false, wakes = false;
    std::vector<Function*> nots;
    for (std::string k : {"one", "all"}) if (auto* F = fn("drv_" + k + "_" + ty)) nots.push_back(F);
    if (nots.size() != 2) return;
    for (auto* F : nots) for (auto& I : instructions(*F)) {
      if (auto f = futex(I); f && f->op == 1) { wakes = true; int64_t o; bool own; if (inEntry(DL, *F, f->addr, o, own)) { if (version && *version != o) R.add("wake-address", where(&I), false, "the two notify functions wake sleepers of different addresses"); version = o; } else direct = true; }
    }
    for (auto* F : nots) {
      auto isWake = [&](const Instruction& I) { auto f = futex(I); return f && f->op == 1; };
      auto isRet = [](const Instruction& I) { return isa<ReturnInst>(I); };
      // tested counter: entry location whose value (load / exchange) decides whether to wake
      struct N { int bumped = 0, fenced = 0; const Value* seen = nullptr; int woke = 0, none = 0; bool operator<(const N& o) const { return std::tie(bumped, fenced, seen, woke, none) < std::tie(o.bumped, o.fenced, o.seen, o.woke, o.none); } };
      Flow<N> fl; std::map<std::string, std::pair<std::string, std::string>> errs;
      fl.keepVal = [](const Value* v, const N& u) { return v == u.seen; };
      auto err = [&](const Instruction& I, const char* r, const char* m) { errs.emplace(where(&I) + r, std::make_pair(std::string(r), std::string(m) + "|" + where(&I))); };
      bool all = F->getName().starts_with("drv_all");
      fl.onInst = [&](const Instruction& I, N& u, Env&) {
        int64_t o; bool own;
        if (auto* X = dyn_cast<AtomicRMWInst>(&I)) if (inEntry(DL, *F, X->getPointerOperand(), o, own)) {
          if (!own) err(I, "same-entry", "the notifier uses the contention entry of another address");
          if (version && o == *version) { auto* C = dyn_cast<ConstantInt>(X->getValOperand()); if (X->getOperation() == AtomicRMWInst::Add && C && !C->isZero()) u.bumped = 1; }
          else { if (!u.fenced && X->getOrdering() != AtomicOrdering::SequentiallyConsistent) err(I, "fence-before-test", "the notifier looks for waiters before its seq_cst fence");
            if (version && !u.bumped) err(I, "version-bumped", "the notifier looks for waiters before changing the version they sleep on");
            u.seen = X; waiters = o; tests = true; u.none = 0; }
        }
        if (auto* L = dyn_cast<LoadInst>(&I)) if (inEntry(DL, *F, L->getPointerOperand(), o, own)) if (!version || o != *version) {
          if (!own) err(I, "same-entry", "the notifier uses the contention entry of another address");
          if (!u.fenced) err(I, "fence-before-test", "the notifier looks for waiters before its seq_cst fence");
          if (version && !u.bumped) err(I, "version-bumped", "the notifier looks for waiters before changing the version they sleep on");
          u.seen = L; waiters = o; tests = true; u.none = 0; }
        if (auto* X = dyn_cast<FenceInst>(&I)) if (X->getOrdering() == AtomicOrdering::SequentiallyConsistent) u.fenced = (!version || u.bumped) ? 1 : 0;
        if (auto f = futex(I); f && f->op == 1) {
          R.counts["wakes"]++;
          auto* C = dyn_cast<ConstantInt>(f->val); int64_t n = C ? C->getSExtValue() : 0;
          bool shared = inEntry(DL, *F, f->addr, o, own);
          if (shared && !own) err(I, "wake-address", "wakes the sleepers of another address");
          if (!shared && strip(f->addr->stripPointerCasts()) != F->getArg(0)) err(I, "wake-address", "wakes the sleepers of another address");
          if ((all || shared) ? n < INT32_MAX : n < 1) err(I, "wake-count", shared ? "the entry is shared by several addresses but not every sleeper on it is woken" : "not every sleeper is woken");
          u.woke = 1;
        }
        if (isa<ReturnInst>(I) && wakes && !u.woke) {
          if (!u.none) err(I, "wake-omitted", "returns without waking anybody although waiters were not seen to be absent");
        }
        return true;
      };
      fl.onFact = [&](const Fact& f, N& u, Env&) {
        auto* IC = dyn_cast<ICmpInst>(f.cond);
        if (IC && IC->isEquality()) { auto* K = dyn_cast<ConstantInt>(IC->getOperand(1)); if (K && K->isZero() && strip(IC->getOperand(0)) == u.seen) { bool isZero = (IC->getPredicate() == ICmpInst::ICMP_EQ) == f.val; if (isZero) u.none = 1; } }
        if (IC && !IC->isEquality() && strip(IC->getOperand(0)) == u.seen) if (auto* K = dyn_cast<ConstantInt>(IC->getOperand(1))) {
          auto p = f.val ? IC->getPredicate() : IC->getInversePredicate();
          // x < 1, x <= 0 (counter is never negative)
          if ((p == ICmpInst::ICMP_SLT && K->isOne()) || (p == ICmpInst::ICMP_SLE && K->isZero()) || (p == ICmpInst::ICMP_ULT && K->isOne())) u.none = 1; }
        return true; };
      fl.run(*F, N{});
      for (auto& e : errs) { auto p = e.second.second.find('|'); R.add(e.second.first, e.second.second.substr(p + 1), false, e.second.second.substr(0, p) + " [" + F->getName().str() + "]"); }
      if (errs.empty()) R.add("notify", where(F), true, "wakes every sleeper it must, or saw no waiter after its fence");
    }
    // ------------------------------------------------------------ wait side
    for (std::string k : {"wait", "waitx"}) {
      Function* F = fn("drv_" + k + "_" + ty); if (!F) return;
      auto isVal = [&](const Value* v) { return strip(v) == F->getArg(1); };
      auto ptrLoad = [&](const Value* v) -> const LoadInst* { auto* L = dyn_cast<LoadInst>(strip(v)); return L && strip(L->getPointerOperand()->stripPointerCasts()) == F->getArg(0) ? L : nullptr; };
      AtomicOrdering want = k == "wait" ? AtomicOrdering::SequentiallyConsistent : AtomicOrdering::Acquire;
      // fact: load(ptr) ==/!= val
      auto valueFact = [&](const Fact& f, bool& equal) -> const LoadInst* {
        auto* IC = dyn_cast<ICmpInst>(f.cond); if (!IC || !IC->isEquality()) return nullptr;
        const LoadInst* L = isVal(IC->getOperand(1)) ? ptrLoad(IC->getOperand(0)) : isVal(IC->getOperand(0)) ? ptrLoad(IC->getOperand(1)) : nullptr;
        equal = (IC->getPredicate() == ICmpInst::ICMP_EQ) == f.val; return L; };
      struct W { int bal = 0, ann = 0, fenced = 0; const LoadInst* ver = nullptr; const LoadInst* cur = nullptr; int curAfterVer = 0, eq = 0, diff = 0;
        bool operator<(const W& o) const { return std::tie(bal, ann, fenced, ver, cur, curAfterVer, eq, diff) < std::tie(o.bal, o.ann, o.fenced, o.ver, o.cur, o.curAfterVer, o.eq, o.diff); } };
      Flow<W> fl; std::map<std::string, std::pair<std::string, std::string>> errs; int sleeps = 0;
      auto err = [&](const Instruction& I, const char* r, const char* m) { errs.emplace(where(&I) + r, std::make_pair(std::string(r), std::string(m) + "|" + where(&I))); };
      fl.keepVal = [](const Value* v, const W& u) { return v == u.ver || v == u.cur; };
      fl.onInst = [&](const Instruction& I, W& u, Env&) {
        int64_t o; bool own;
        if (auto* L = ptrLoad(&I)) {
          if (!atLeast(loadOrder(L), want)) err(I, "load-order", "the value is read with a weaker ordering than requested");
          u.cur = L; u.curAfterVer = u.ver != nullptr; u.eq = u.diff = 0;
        } else if (auto* L = dyn_cast<LoadInst>(&I)) {
          if (version && inEntry(DL, *F, L->getPointerOperand(), o, own) && o == *version) {
            if (tests && !(u.ann && u.fenced)) err(I, "announce-first", "the version is read before the waiter is announced and fenced");
            u.ver = L; u.eq = 0; u.curAfterVer = 0; }
        }
        const Value* tgt = nullptr; int d = 0;
        if (auto* S = dyn_cast<StoreInst>(&I)) { tgt = S->getPointerOperand(); auto* C = dyn_cast<ConstantInt>(S->getValueOperand()); if (C && !C->isZero()) d = 100; if (C && C->isZero()) d = -100; }
        if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { tgt = X->getPointerOperand(); auto* C = dyn_cast<ConstantInt>(X->getValOperand()); d = C ? (int)C->getSExtValue() : 0; if (X->getOperation() == AtomicRMWInst::Sub) d = -d; else if (X->getOperation() == AtomicRMWInst::Xchg) d = d ? 100 : -100; else if (X->getOperation() != AtomicRMWInst::Add) d = 0; }
        if (tgt && waiters && inEntry(DL, *F, tgt, o, own) && o == *waiters) {
          if (!own) err(I, "same-entry", "the waiter is announced in the contention entry of another address");
          if (d == 100) { u.ann = 1; u.fenced = 0; u.ver = nullptr; u.eq = 0; }
          else if (d == -100) u.ann = 0;
          else { u.bal += d; if (u.bal < 0 || u.bal > 4) { err(I, "waiter-count", "the waiter count is changed out of balance"); return false; } u.ann = u.bal > 0; if (d > 0) { u.fenced = 0; u.ver = nullptr; u.eq = 0; } }
        }
        if (auto* X = dyn_cast<FenceInst>(&I)) if (X->getOrdering() == AtomicOrdering::SequentiallyConsistent && u.ann) u.fenced = 1;
        if (auto f = futex(I); f && (f->op == 0 || f->op == 9)) {
          sleeps++; R.counts["sleeps"]++;
          if (tests && !u.ann) err(I, "announce-first", "sleeps without being announced as a waiter");
          else if (tests && !u.fenced) err(I, "announce-first", "no seq_cst fence between announcing the waiter and going to sleep");
          bool shared = inEntry(DL, *F, f->addr, o, own);
          if (shared) {
            if (!version || o != *version || !own) err(I, "sleep-address", "sleeps on an address no notifier wakes");
            auto* L = dyn_cast<LoadInst>(strip(f->val));
            if (!L || L != u.ver) err(I, "sleep-expected", "the expected version is not the one read after announcing");
            else if (!(u.cur && u.curAfterVer && u.eq)) err(I, "recheck-value", "goes to sleep without re-reading the value after reading the version");
            // a notifier may have consumed the announcement already: the sleep must be bounded
            if (tests && isa<ConstantPointerNull>(f->timeout)) err(I, "sleep-bounded", "sleeps without a time limit although another notifier may already have consumed the announcement");
            if (auto* C = dyn_cast<ConstantInt>(f->timeout); C && C->isZero() && tests) err(I, "sleep-bounded", "sleeps without a time limit although another notifier may already have consumed the announcement");
          } else {
            if (strip(f->addr->stripPointerCasts()) != F->getArg(0) || !direct) err(I, "sleep-address", "sleeps on an address no notifier wakes");
            const Value* v = f->val; while (auto* C = dyn_cast<CastInst>(v)) v = C->getOperand(0);
            if (!isVal(v)) err(I, "sleep-expected", "the kernel is not asked to check the value waited for");
          }
          u.ver = nullptr; u.eq = 0;
        }
        if (isa<ReturnInst>(I)) {
          if (!u.diff) err(I, "return-only-on-change", "returns without having read a value different from the one waited for");
          if (u.bal > 0) err(I, "waiter-count", "returns while still counted as a waiter");
        }
        return true;
      };
      fl.onFact = [&](const Fact& f, W& u, Env&) { bool eq; if (auto* L = valueFact(f, eq)) if (L == u.cur) { if (eq) u.eq = 1; else u.diff = 1; if (u.eq && u.diff) return false; } return true; };
      fl.run(*F, W{});
      if (fl.overflow) R.brk("state limit in " + F->getName().str());
      for (auto& e : errs) { auto p = e.second.second.find('|'); R.add(e.second.first, e.second.second.substr(p + 1), false, e.second.second.substr(0, p) + " [" + F->getName().str() + "]"); }
      if (errs.empty()) R.add("wait", where(F), true, "returns only on a changed value; sleeps only announced, fenced and re-checked");
      if (wakes && !sleeps) R.counts["instances that never sleep"]++;
      R.counts["waits"]++;
    }
    R.counts["notifies"] += 2;
  }
  // ------------------------------------------------------------ the contention table
  for (auto& G : M) if (!G.isDeclaration() && dem(&G).find("__contention(") == 0) {
    prepare(G); R.functions.insert(dem(&G));
    for (auto& I : instructions(G)) {
      if (auto* r = dyn_cast<ReturnInst>(&I)) {
        auto* v = r->getReturnValue(); uint64_t entries = 0; const GlobalVariable* T = nullptr; const Value* idx = nullptr; uint64_t esz = 0;
        if (auto* g = dyn_cast<GEPOperator>(v)) { T = dyn_cast<GlobalVariable>(g->getPointerOperand()->stripPointerCasts()); idx = g->getOperand(g->getNumOperands() - 1); esz = DL.getTypeAllocSize(g->getResultElementType()); }
        if (T && esz) entries = DL.getTypeAllocSize(T->getValueType()) / esz;
        uint64_t mx = UINT64_MAX; if (idx) { auto* J = dyn_cast<Instruction>(strip(idx)); if (J) { auto* C = dyn_cast<ConstantInt>(J->getOperand(J->getNumOperands() - 1)); if (C && J->getOpcode() == Instruction::And) mx = C->getZExtValue(); if (C && J->getOpcode() == Instruction::URem) mx = C->getZExtValue() - 1; if (C && J->getOpcode() == Instruction::LShr) mx = UINT64_MAX >> C->getZExtValue(); } }
        R.add("table-index", where(r), T && mx < entries, T && mx < entries ? "entry within the table" : "the entry chosen for an address may lie outside the table");
        R.counts["table lookups"]++;
      }
      if (auto* L = dyn_cast<LoadInst>(&I)) { auto* G2 = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts()); (void)G2; R.add("table-pure", where(L), false, "the entry of an address depends on mutable state"); }
    }
  }
}
