// Small algebraic and protocol rules: compare-exchange update loops, monoid laws, one-to-one hashes.
#include "flow.h"
#include "mem.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
namespace {
bool isBool(const Value* v, int d = 0) {   // only ever 0 or 1
  v = strip(v); if (v->getType()->isIntegerTy(1)) return true; if (d > 6) return false;
  if (auto* C = dyn_cast<ConstantInt>(v)) return C->getValue().ule(1); if (auto* Z = dyn_cast<ZExtInst>(v)) return isBool(Z->getOperand(0), d + 1);
  if (auto* P = dyn_cast<PHINode>(v)) { for (auto& u : P->incoming_values()) if (u != P && !isBool(u, d + 1)) { auto* q = dyn_cast<PHINode>(u); bool back = false; if (q) for (auto& w : q->incoming_values()) if (w == P) back = true; if (!back) return false; for (auto& w : q->incoming_values()) if (w != P && !isBool(w, d + 1)) return false; } return true; }
  return false;
}
template <class U> int truth(const Value* v, const Env& e) {
  int r = Flow<U>::eval(v, e); if (r >= 0) return r; v = strip(v); bool neg = false;
  for (int i = 0; i < 4; i++) {
    if (auto* C = dyn_cast<ICmpInst>(v); C && C->isEquality()) if (auto* K = dyn_cast<ConstantInt>(C->getOperand(1)); K && K->isZero()) { if (C->getPredicate() == ICmpInst::ICMP_EQ) neg = !neg; v = strip(C->getOperand(0)); continue; }
    if (auto* B = dyn_cast<BinaryOperator>(v); B && B->getOpcode() == Instruction::And) if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isOne() && isBool(B->getOperand(0))) { v = strip(B->getOperand(0)); continue; }
    if (auto* T = dyn_cast<TruncInst>(v); T && isBool(T->getOperand(0))) { v = strip(T->getOperand(0)); continue; }
    break;
  }
  if (!isBool(v)) return -1; r = Flow<U>::eval(v, e); return r < 0 ? r : neg ? 1 - r : r;
}
}
// ---------------------------------------------------------------- U01: update loops
RULE(casloop) {
  const DataLayout& DL = M.getDataLayout();
  for (auto& Fr : M) if (!Fr.isDeclaration() && Fr.getName().starts_with("drv_")) {
    Function& F = Fr; std::string nm = F.getName().str(); prepare(F); R.functions.insert(nm);
    bool add = nm.find("add") != std::string::npos, mx = nm.find("max") != std::string::npos;
    const Value *cell = F.getArg(0), *b = F.getArg(1);
    auto isCell = [&](const Value* p) { Loc l = locOf(DL, p); return l.root == cell; };
    struct U { std::set<const Value*> obs, arg; int less = -1; bool won = false; bool operator<(const U& o) const { return std::tie(obs, arg, less, won) < std::tie(o.obs, o.arg, o.less, o.won); } };
    Flow<U> fl; std::map<std::string, const Instruction*> bad; int cas = 0, rets = 0; std::set<const Instruction*> seenC, seenR;
    auto res = [&](const Value* v, const Env& e) { return resolveVal<U>(v, e); };
    fl.keepVal = [](const Value* v, const U& u) { return u.obs.count(v) || u.arg.count(v); };
    fl.onInst = [&](const Instruction& I, U& u, Env& e) {
      u.obs.erase(&I);
      auto see = [&] { u.obs = {&I}; u.less = -1; };
      if (auto* L = dyn_cast<LoadInst>(&I); L && isCell(L->getPointerOperand())) { if (!L->isAtomic()) bad["the shared value is read without an atomic operation"] = L; see(); }
      if (auto* S = dyn_cast<StoreInst>(&I); S && isCell(S->getPointerOperand())) bad["the shared value is overwritten by a plain store: concurrent updates are lost"] = S;
      if (auto* X = dyn_cast<AtomicRMWInst>(&I); X && isCell(X->getPointerOperand())) {
        bool ok = add ? X->getOperation() == AtomicRMWInst::Add && u.arg.count(res(X->getValOperand(), e)) : false;
        if (!ok) bad["the shared value is changed by an unconditional atomic operation"] = X;
        if (seenC.insert(X).second) cas++; if (u.won) bad["the update may be applied twice"] = X; u.won = true;
      }
      if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I); X && isCell(X->getPointerOperand())) {
        if (seenC.insert(X).second) cas++;
        if (u.won) bad["the update may be applied twice"] = X;
        if (!u.obs.count(res(X->getCompareOperand(), e))) bad["the compare-exchange expects a value that is not the one last read"] = X;
        if (add) { auto* A = dyn_cast<BinaryOperator>(res(X->getNewValOperand(), e)); bool ok = A && A->getOpcode() == Instruction::Add;
          if (ok) { auto* l = res(A->getOperand(0), e); auto* r = res(A->getOperand(1), e); ok = (u.obs.count(l) && u.arg.count(r)) || (u.obs.count(r) && u.arg.count(l)); }
          if (!ok) bad["the new value is not the sum of the value last read and the argument"] = X;
        } else {
          if (!u.arg.count(res(X->getNewValOperand(), e))) bad["the new value is not the argument"] = X;
          if (u.less != 1) bad["the exchange is attempted without having found the argument better than the value last read"] = X;
        }
      }
      if (auto* E = dyn_cast<ExtractValueInst>(&I); E && !E->getType()->isIntegerTy(1)) if (auto* X = dyn_cast<AtomicCmpXchgInst>(E->getAggregateOperand()); X && isCell(X->getPointerOperand())) see();
      if (auto* r = dyn_cast<ReturnInst>(&I)) {
        if (seenR.insert(r).second) rets++;
        if (add) { if (!u.won) bad["it may return without having added the argument"] = r; }
        else {
          int v = truth<U>(r->getReturnValue(), e);
          if (u.won) { if (v != 1) bad["it returns something other than true after a successful update"] = r; }
          else { if (u.less != 0) bad["it gives up although the value last read was not found to be at least as good"] = r; if (v != 0) bad["it returns something other than false without an update"] = r; }
        }
      }
      return true;
    };
    fl.onFact = [&](const Fact& f, U& u, Env& e) {
      if (auto* X = casSuccess(f); X && isCell(X->getPointerOperand())) u.won = true;
      auto* cb = dyn_cast<CallBase>(strip(f.cond));
      if (cb && calls(*cb, "plint_less")) {
        auto *x = res(cb->getArgOperand(0), e), *y = res(cb->getArgOperand(1), e); if (mx) std::swap(x, y);
        if (u.arg.count(x) && u.obs.count(y)) u.less = f.val; else bad["the argument is compared in the wrong direction or with a value that is not the one last read"] = cb;
      }
      return true;
    };
    fl.onEdge = [&](const BasicBlock* x, const BasicBlock* y, U& u, Env& e) { aliasEdge<U>(x, y, u.obs, e); aliasEdge<U>(x, y, u.arg, e); u.arg.insert(b); return true; };
    U u0; u0.arg = {b}; fl.run(F, u0);
    if (fl.overflow || !rets || !cas) R.brk(nm + ": no update or return found");
    R.counts["updates"] += cas; R.counts["states"] += fl.states;
    for (auto& x : bad) R.add("update-loop", where(x.second), false, nm + ": " + x.first);
    if (bad.empty()) R.add("update-loop", where(&F), true, nm + ": every path updates from the value last read, or gives up only when it is good enough");
  }
}
// ---------------------------------------------------------------- M01: monoid laws
RULE(monoid) {
  auto retOf = [&](Function& F) -> const Value* { const ReturnInst* r = nullptr; for (auto& I : instructions(F)) if (auto* x = dyn_cast<ReturnInst>(&I)) { if (r) return nullptr; r = x; } return r ? r->getReturnValue() : nullptr; };
  auto core = [&](const Value* v) { for (int i = 0; i < 4; i++) { v = strip(v); if (isa<TruncInst>(v) || isa<ZExtInst>(v) || isa<SExtInst>(v)) v = cast<CastInst>(v)->getOperand(0); } return v; };
  std::set<std::string> names; for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("op_")) names.insert(F.getName().substr(3).str());
  for (auto& n : names) {
    auto *O = M.getFunction("op_" + n), *D = M.getFunction("id_" + n); PrepOptions po; po.pipeline = std::string(kLoopPipeline) + ",loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>"; prepare(*O, po); prepare(*O, po); R.functions.insert(n); R.counts["monoids"]++;
    if (!D) { R.brk("no identity for " + n); continue; } prepare(*D, po);
    std::string kind = n.substr(0, n.find('_')); auto *v = retOf(*O), *d = retOf(*D);
    std::string e; const Value* a = O->getArg(0); const Value* b = O->arg_size() == 4 ? O->getArg(n.back() == '1' ? 3 : 2) : O->getArg(1); if (O->arg_size() == 4 && n.back() == '1') a = O->getArg(1);
    bool sgn = n.find("_u") == std::string::npos && n.find("oldu") == std::string::npos && n.find("adaptu") == std::string::npos;
    if (kind == "user") {
      auto* cb = v ? dyn_cast<CallBase>(v) : nullptr; bool ok = cb && calls(*cb, "plint_f") && cb->getArgOperand(0) == O->getArg(0) && cb->getArgOperand(1) == O->getArg(1);
      if (!ok) e = "the user's operation is not applied to the two arguments in order";
      if (d != D->getArg(0)) e = "the identity is not the value given by the user";
    } else {
      auto kindOf = [&](const Value* x, const Value*& l, const Value*& r, bool& su) -> std::string {
        x = core(x); if (auto* B = dyn_cast<BinaryOperator>(x)) { l = core(B->getOperand(0)); r = core(B->getOperand(1)); switch (B->getOpcode()) { case Instruction::Add: return "add"; case Instruction::Mul: return "mul"; case Instruction::And: return "and"; case Instruction::Or: return "or"; case Instruction::Xor: return "xor"; default: return "?"; } }
        if (auto* S = dyn_cast<SelectInst>(x)) {   // logical and / or / min / max
          auto* C = dyn_cast<ICmpInst>(S->getCondition());
          if (auto* t = dyn_cast<ConstantInt>(S->getTrueValue()); t && t->isOne()) { l = core(S->getCondition()); r = core(S->getFalseValue()); return "or"; }
          if (auto* f = dyn_cast<ConstantInt>(S->getFalseValue()); f && f->isZero()) { l = core(S->getCondition()); r = core(S->getTrueValue()); return "and"; }
          if (C) { auto p = C->getPredicate(); auto *t = core(S->getTrueValue()), *f = core(S->getFalseValue()); l = core(C->getOperand(0)); r = core(C->getOperand(1)); su = ICmpInst::isSigned(p); bool lt = ICmpInst::isLT(p) || ICmpInst::isLE(p), gt = ICmpInst::isGT(p) || ICmpInst::isGE(p);
            if (t == l && f == r) return lt ? "min" : gt ? "max" : "?"; if (t == r && f == l) return lt ? "max" : gt ? "min" : "?"; }
        }
        if (auto* I = dyn_cast<IntrinsicInst>(x)) { l = core(I->getArgOperand(0)); r = core(I->arg_size() > 1 ? I->getArgOperand(1) : nullptr); switch (I->getIntrinsicID()) { case Intrinsic::smin: su = true; return "min"; case Intrinsic::umin: su = false; return "min"; case Intrinsic::smax: su = true; return "max"; case Intrinsic::umax: su = false; return "max"; default: return "?"; } }
        return "?";
      };
      const Value *l = nullptr, *r = nullptr; bool su = sgn; std::string k = v ? kindOf(v, l, r, su) : "?";
      if (kind == "add" && k == "or" && 0) k = kind;
      if (k != kind) e = "the operation is not the associative one it is named after (found: " + k + ")";
      else if (!((l == a && r == b) || (l == b && r == a))) e = "the operation is not applied to its two arguments";
      else if ((k == "min" || k == "max") && su != sgn) e = "the operation compares with the wrong signedness";
      auto* C = d ? dyn_cast<ConstantInt>(d) : nullptr; if (!C) e = "the identity is not a constant"; else {
        auto& x = C->getValue(); unsigned w = x.getBitWidth(); bool ok = (k == "add" || k == "or" || k == "xor") ? x.isZero() : k == "mul" ? x.isOne() : k == "and" ? (n == "and_bool" ? x.isOne() : x.isAllOnes()) : k == "min" ? x == (sgn ? APInt::getSignedMaxValue(w) : APInt::getMaxValue(w)) : k == "max" ? x == (sgn ? APInt::getSignedMinValue(w) : APInt::getMinValue(w)) : true;
        if (!ok) e = "the identity " + std::to_string(sgn ? x.getSExtValue() : (int64_t)x.getZExtValue()) + " is not neutral for the operation";
      }
    }
    R.add("monoid-laws", where(O), e.empty(), n + ": " + (e.empty() ? "associative operation with its neutral element" : e));
  }
}
// ---------------------------------------------------------------- R01: one-to-one functions
namespace {
// how the bits of a value depend on those of a root value
enum Tri { Bad, Const, UnitLo, StrictLo, UnitHi, StrictHi, Same };
struct Inj {
  const Value* root; std::map<const Value*, Tri> memo;
  static bool lo(Tri t) { return t == UnitLo || t == Same; } static bool hi(Tri t) { return t == UnitHi || t == Same; }
  Tri of(const Value* v, int depth = 0) {
    if (v == root) return Same; if (isa<Constant>(v) || depth > 200) return isa<Constant>(v) ? Const : Bad;
    auto it = memo.find(v); if (it != memo.end()) return it->second;
    Tri t = eval(v, depth); memo[v] = t; return t;
  }
  bool dep(const Value* v, int d = 0) {   // mentions the root
    if (v == root) return true; auto* I = dyn_cast<Instruction>(v); if (!I || d > 60) return false; for (auto& o : I->operands()) if (dep(o, d + 1)) return true; return false;
  }
  Tri eval(const Value* v, int d) {
    if (!dep(v)) { auto* I = dyn_cast<Instruction>(v); if (!I || (!I->mayReadOrWriteMemory() && !isa<PHINode>(I))) return Const; return Bad; }
    auto* I = dyn_cast<Instruction>(v); if (!I) return Bad;
    if (auto* Z = dyn_cast<ZExtInst>(I)) { Tri t = of(Z->getOperand(0), d + 1); return t; }
    if (auto* S = dyn_cast<SExtInst>(I)) { Tri t = of(S->getOperand(0), d + 1); return t == Same ? UnitLo : Bad; }   // high copies: still one-to-one through the low bits
    auto* B = dyn_cast<BinaryOperator>(I); if (!B) return Bad;
    Tri a = of(B->getOperand(0), d + 1), b = of(B->getOperand(1), d + 1); if (a == Bad || b == Bad) return Bad;
    auto* K = dyn_cast<ConstantInt>(B->getOperand(1));
    switch (B->getOpcode()) {
      case Instruction::Add: case Instruction::Sub: {
        if (a == Const && b == Const) return Const;
        if (b == Const) return lo(a) ? UnitLo : a == StrictLo ? StrictLo : Bad; if (a == Const) return lo(b) ? UnitLo : b == StrictLo ? StrictLo : Bad;
        if (lo(a) && b == StrictLo) return UnitLo; if (lo(b) && a == StrictLo) return UnitLo; if (a == StrictLo && b == StrictLo) return StrictLo; return Bad;
      }
      case Instruction::Xor: {
        if (a == Const) std::swap(a, b); if (b == Const) return a;
        if (lo(a) && b == StrictLo) return UnitLo; if (lo(b) && a == StrictLo) return UnitLo; if (hi(a) && b == StrictHi) return UnitHi; if (hi(b) && a == StrictHi) return UnitHi;
        if (a == b && (a == StrictLo || a == StrictHi)) return a; return Bad;
      }
      case Instruction::Mul: { const APInt* k = K ? &K->getValue() : nullptr; if (!k) return Bad; if ((*k)[0]) return lo(a) ? UnitLo : a == StrictLo ? StrictLo : Bad; return (lo(a) || a == StrictLo) ? StrictLo : Bad; }
      case Instruction::Shl: if (!K || K->isZero()) return K ? a : Bad; return lo(a) || a == StrictLo ? StrictLo : Bad;
      case Instruction::LShr: if (!K || K->isZero()) return K ? a : Bad; return hi(a) || a == StrictHi ? StrictHi : Bad;
      case Instruction::Or: if (auto* P = dyn_cast<PossiblyDisjointInst>(B); P && P->isDisjoint()) { if (lo(a) && b == StrictLo) return UnitLo; if (lo(b) && a == StrictLo) return UnitLo; if (a == StrictLo && b == StrictLo) return StrictLo; } return Bad;
      default: return Bad;
    }
  }
};
// v is one-to-one in x (all else fixed): a chain of one-to-one steps
bool injective(const Value* v, const Value* x, std::map<const Value*, int>& memo, int d = 0) {
  if (v == x) return true; if (d > 60) return false;
  auto it = memo.find(v); if (it != memo.end()) return it->second; memo[v] = 0;
  // candidate intermediate values: everything v is computed from
  std::vector<const Value*> anc; std::set<const Value*> seen; std::vector<const Value*> w{v};
  while (!w.empty()) { auto* u = w.back(); w.pop_back(); auto* I = dyn_cast<Instruction>(u); if (!I) continue; for (auto& o : I->operands()) if (!isa<Constant>(o) && seen.insert(o).second) { anc.push_back(o); w.push_back(o); } }
  for (auto* u : anc) { Inj j; j.root = u; Tri t = j.of(v); if (t != UnitLo && t != UnitHi && t != Same) continue;
    // nothing but u may carry the dependence on x
    Inj chk; chk.root = x; bool leak = false; std::set<const Value*> s2; std::vector<const Value*> q{v};
    while (!q.empty()) { auto* y = q.back(); q.pop_back(); if (y == u) continue; if (y == x) { leak = true; break; } auto* I = dyn_cast<Instruction>(y); if (!I) continue; for (auto& o : I->operands()) if (s2.insert(o).second) q.push_back(o); }
    if (leak) continue;
    if (injective(u, x, memo, d + 1)) { memo[v] = 1; return true; } }
  return false;
}
}
RULE(inject) {
  for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("inj_")) {
    prepare(F); std::string nm = F.getName().substr(6).str(); unsigned k = F.getName()[4] - '0'; R.functions.insert(F.getName().str()); R.counts["functions"]++;
    std::string e; const ReturnInst* r = nullptr; 
    for (auto& I : instructions(F)) { if (auto* x = dyn_cast<ReturnInst>(&I)) r = x; if (isa<CallBase>(I) && !isa<DbgInfoIntrinsic>(I) && !isa<IntrinsicInst>(I)) e = "the result depends on more than the seed and the index (call)"; if (auto* L = dyn_cast<LoadInst>(&I)) { (void)L; e = "the result depends on memory other than the seed and the index"; } }
    std::map<const Value*, int> memo;
    if (e.empty() && !(r && injective(r->getReturnValue(), F.getArg(k), memo))) e = "different arguments may be mapped to the same value";
    R.add("one-to-one", where(&F), e.empty(), nm + (e.empty() ? ": a chain of reversible steps" : ": " + e));
  }
}
