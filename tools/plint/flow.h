// Path-sensitive finite typestate dataflow.
// The abstract state is (block, Env, user state string).  Env tracks, for SSA
// values that are pointers or i1, whether they are known null/non-null or
// false/true on the current path; edges contradicting Env are infeasible.
#pragma once
#include "core.h"
#include <deque>
namespace plint {
struct Env {
  std::map<const Value*, int> k;   // 0 = null/false, 1 = non-null/true
  bool operator<(const Env& o) const { return k < o.k; }
};
template <class U> struct Flow {
  // return false to stop this path
  std::function<bool(const Instruction&, U&, Env&)> onInst = [](const Instruction&, U&, Env&) { return true; };
  std::function<bool(const Fact&, U&, Env&)> onFact = [](const Fact&, U&, Env&) { return true; };
  std::function<bool(const BasicBlock*, const BasicBlock*, U&, Env&)> onEdge = [](const BasicBlock*, const BasicBlock*, U&, Env&) { return true; };
  std::set<const Value*> track;    // i1/ptr values worth tracking beyond branch conditions (empty: all)
  std::function<bool(const Value*, const U&)> keepVal;   // facts on these values survive trimming
  long states = 0; bool overflow = false; long limit = 400000;

  static bool nullCmp(const Value* c, const Value*& x, bool& eq) {
    auto* I = dyn_cast<ICmpInst>(c);
    if (!I || !I->isEquality()) return false;
    auto* K = dyn_cast<Constant>(I->getOperand(1));
    if (!K || !K->isNullValue()) return false;
    x = strip(I->getOperand(0)); eq = I->getPredicate() == ICmpInst::ICMP_EQ;
    return true;
  }
  // evaluate i1/ptr value under env: -1 unknown
  static int eval(const Value* v, const Env& e, int d = 0) {
    v = strip(v);
    if (auto* C = dyn_cast<ConstantInt>(v)) return C->isZero() ? 0 : 1;
    if (isa<ConstantPointerNull>(v)) return 0;
    if (isa<AllocaInst>(v) || isa<GlobalVariable>(v)) return 1;
    auto it = e.k.find(v); if (it != e.k.end()) return it->second;
    if (d > 6) return -1;
    const Value* x; bool eq;
    if (nullCmp(v, x, eq)) { int r = eval(x, e, d + 1); return r < 0 ? -1 : (eq ? 1 - r : r); }
    if (auto* I = dyn_cast<Instruction>(v)) {
      if (I->getType()->isIntegerTy(1)) {
        if (I->getOpcode() == Instruction::Xor) { int a = eval(I->getOperand(0), e, d+1), b = eval(I->getOperand(1), e, d+1); if (a >= 0 && b >= 0) return a ^ b; }
        if (I->getOpcode() == Instruction::And) { int a = eval(I->getOperand(0), e, d+1), b = eval(I->getOperand(1), e, d+1); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
        if (I->getOpcode() == Instruction::Or) { int a = eval(I->getOperand(0), e, d+1), b = eval(I->getOperand(1), e, d+1); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
      }
      if (auto* S = dyn_cast<SelectInst>(I)) { int c = eval(S->getCondition(), e, d+1); if (c >= 0) return eval(c ? S->getTrueValue() : S->getFalseValue(), e, d+1); }
      if (I->getOpcode() == Instruction::ZExt) return eval(I->getOperand(0), e, d+1);
    }
    return -1;
  }
  // record a fact; false if contradictory
  static bool learn(const Fact& f, Env& e) {
    const Value* v = strip(f.cond);
    int r = eval(v, e);
    if (r >= 0) return r == (f.val ? 1 : 0);
    e.k[v] = f.val;
    const Value* x; bool eq;
    if (nullCmp(v, x, eq) && (x->getType()->isPointerTy() || x->getType()->isIntegerTy())) e.k[x] = (f.val == eq) ? 0 : 1;
    return true;
  }

  void run(Function& F, U init) {
    std::set<Key> seen; std::deque<Key> q;
    Key k0{&F.getEntryBlock(), Env{}, init};
    seen.insert(k0); q.push_back(k0);
    while (!q.empty()) {
      if ((long)seen.size() > limit) { overflow = true; return; }
      Key cur = q.front(); q.pop_front();
      const BasicBlock* BB = std::get<0>(cur); Env env = std::get<1>(cur); U u = std::get<2>(cur);
      exec(BB, BB->begin(), env, u, seen, q);
    }
    states = seen.size();
  }
  // the success bit of a compare-exchange is case-split where it is produced
  std::function<bool(const Instruction&)> splitOn = [](const Instruction& I) {
    auto* E = dyn_cast<ExtractValueInst>(&I); return E && E->getType()->isIntegerTy(1) && isa<AtomicCmpXchgInst>(E->getAggregateOperand()); };
  using Key = std::tuple<const BasicBlock*, Env, U>;
  void exec(const BasicBlock* BB, BasicBlock::const_iterator it, Env env, U u, std::set<Key>& seen, std::deque<Key>& q) {
      for (; it != BB->end(); ++it) {
        auto& I = *it;
        if (isa<PHINode>(I)) continue;
        if (!I.getType()->isVoidTy()) env.k.erase(&I);
        if (!onInst(I, u, env)) return;
        if (splitOn(I)) {
          U u2 = u; Env e2 = env; bool ok = learn(Fact{&I, true, nullptr}, e2) && onFact(Fact{&I, true, nullptr}, u2, e2);
          if (ok) exec(BB, std::next(it), e2, u2, seen, q);
          if (!learn(Fact{&I, false, nullptr}, env) || !onFact(Fact{&I, false, nullptr}, u, env)) return;
        }
      }
      const Instruction* T = BB->getTerminator();
      for (unsigned s = 0; s < T->getNumSuccessors(); s++) {
        const BasicBlock* S = T->getSuccessor(s);
        Env e2 = env; U u2 = u; bool ok = true;
        for (auto& f : edgeFacts(BB, S)) { auto* fi = dyn_cast<Instruction>(f.cond); bool known = fi && splitOn(*fi); if (!learn(f, e2) || (!known && !onFact(f, u2, e2))) { ok = false; break; } }
        if (ok) if (auto* br = dyn_cast<BranchInst>(T); br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) {
          Fact whole{br->getCondition(), s == 0, br};
          if (!learn(whole, e2)) ok = false;
        }
        if (!ok) continue;
        // phis (parallel assignment)
        std::vector<std::pair<const Value*, int>> upd;
        for (auto& P : S->phis()) {
          int r = eval(P.getIncomingValueForBlock(BB), e2);
          upd.push_back({&P, r});
        }
        if (!onEdge(BB, S, u2, e2)) continue;
        for (auto& p : upd) { if (p.second >= 0) e2.k[p.first] = p.second; else e2.k.erase(p.first); }
        // forget values whose definition does not dominate S cheaply: drop facts on values defined in S (loop re-entry)
        for (auto it = e2.k.begin(); it != e2.k.end();) {
          auto* I = dyn_cast<Instruction>(it->first);
          if (I && I->getParent() == S && !isa<PHINode>(I)) it = e2.k.erase(it); else ++it;
        }
        if (live) trim(e2, S, u2);
        Key nk{S, e2, u2};
        if (seen.insert(nk).second) q.push_back(nk);
      }
  }
  // optional liveness trimming: drop env entries not used (transitively via compares) in blocks reachable from S
  bool live = true;
  std::map<const BasicBlock*, std::set<const Value*>> liveCache;
  void trim(Env& e, const BasicBlock* S, const U& u) {
    auto it = liveCache.find(S);
    if (it == liveCache.end()) {
      std::set<const Value*> used; std::set<const BasicBlock*> sb{S}; std::deque<const BasicBlock*> q{S};
      std::deque<const Value*> w;
      while (!q.empty()) { auto* b = q.front(); q.pop_front(); for (auto& I : *b) for (auto& o : I.operands()) if (used.insert(strip(o)).second) w.push_back(strip(o)); for (auto* s : successors(b)) if (sb.insert(s).second) q.push_back(s); }
      // values a used compare/logic depends on are used as well
      while (!w.empty()) { auto* v = w.front(); w.pop_front(); if (auto* I = dyn_cast<Instruction>(v)) if (I->getType()->isIntegerTy(1) || isa<SelectInst>(I)) for (auto& o : I->operands()) if (used.insert(strip(o)).second) w.push_back(strip(o)); }
      it = liveCache.emplace(S, used).first;
    }
    for (auto k = e.k.begin(); k != e.k.end();) if (!it->second.count(k->first) && !(keepVal && keepVal(k->first, u))) k = e.k.erase(k); else ++k;
  }
};
// the value a pointer/integer has on the current path (through casts and selects whose condition is known)
template <class U> const Value* resolveVal(const Value* v, const Env& e) {
  for (int i = 0; i < 12; i++) {
    v = strip(v);
    if (auto* C = dyn_cast<CastInst>(v); C && !isa<TruncInst>(C)) { v = C->getOperand(0); continue; }
    if (auto* S = dyn_cast<SelectInst>(v)) { int c = Flow<U>::eval(S->getCondition(), e); if (c >= 0) { v = c ? S->getTrueValue() : S->getFalseValue(); continue; } }
    break;
  }
  return v;
}
// alias sets along a path: on entering S from B, a phi joins the set iff its incoming value is in it
template <class U> void aliasEdge(const BasicBlock* B, const BasicBlock* S, std::set<const Value*>& al, const Env& e) {
  std::vector<std::pair<const Value*, bool>> up;
  for (auto& P : S->phis()) up.push_back({&P, al.count(resolveVal<U>(P.getIncomingValueForBlock(B), e)) > 0});
  for (auto& p : up) if (p.second) al.insert(p.first); else al.erase(p.first);
}
// the load an i1 condition tests (through and/trunc/icmp with 0); truth normalised
inline const LoadInst* testedLoad(const Value* c, bool val, bool& truth) {
  truth = val;
  for (int i = 0; i < 8; i++) {
    c = strip(c);
    if (auto* L = dyn_cast<LoadInst>(c)) return L;
    auto* I = dyn_cast<Instruction>(c);
    if (!I) return nullptr;
    if (auto* IC = dyn_cast<ICmpInst>(I)) {
      auto* K = dyn_cast<ConstantInt>(IC->getOperand(1));
      if (!K || !IC->isEquality()) return nullptr;
      if (K->isZero()) { if (IC->getPredicate() == ICmpInst::ICMP_EQ) truth = !truth; c = IC->getOperand(0); continue; }
      if (K->isOne()) { if (IC->getPredicate() == ICmpInst::ICMP_NE) truth = !truth; c = IC->getOperand(0); continue; }
      return nullptr;
    }
    if (I->getOpcode() == Instruction::And && isa<ConstantInt>(I->getOperand(1))) { c = I->getOperand(0); continue; }
    if (I->getOpcode() == Instruction::Trunc || I->getOpcode() == Instruction::ZExt) { c = I->getOperand(0); continue; }
    if (I->getOpcode() == Instruction::Xor && isa<ConstantInt>(I->getOperand(1)) && cast<ConstantInt>(I->getOperand(1))->isOne()) { truth = !truth; c = I->getOperand(0); continue; }
    return nullptr;
  }
  return nullptr;
}
inline bool calls(const Instruction& I, const char* externName) {
  auto* cb = dyn_cast<CallBase>(&I); if (!cb) return false;
  auto* F = cb->getCalledFunction(); return F && F->getName() == externName;
}
// demangled callee contains all of the fragments
inline bool callsDem(const Instruction& I, std::initializer_list<const char*> frags) {
  auto* cb = dyn_cast<CallBase>(&I); if (!cb) return false;
  auto* F = cb->getCalledFunction(); if (!F) return false;
  std::string d = dem(F); for (auto* f : frags) if (d.find(f) == std::string::npos) return false; return true;
}
}
