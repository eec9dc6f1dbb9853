// Path-wise abstract interpreter with affine values: branches split the path, loops are summarised by their iteration number (linear and
// doubling variables) or, where they walk over chunks whose size doubles, by inferred relations to the chunk number.
#pragma once
#include "poly.h"
#include "mem.h"
#include "llvm/IR/InstIterator.h"
namespace plint {
namespace affine {
constexpr int64_t BIG = 1LL << 40;                  // sizes are far below this
struct Ev {
  enum K { Load, Store, Lock, Unlock, Alloc, Make, Kill, Free, Loop, Visit, Add, Pop, Push, Call } k; const Instruction* at = nullptr;
  Poly slot, val, ptr, id; AtomicOrdering ord = AtomicOrdering::NotAtomic; bool locked = false, isSlot = false; int lockNo = 0;
  int g = -1; Poly n; std::vector<std::pair<std::vector<Ev>, Sys>> bodies; std::vector<std::vector<std::pair<Poly, Poly>>> mems;      // Loop: bodies in terms of atom g, executed for g in [0, n)
};
struct St { std::map<const Value*, Poly> env; std::map<const Value*, const Value*> alias; Sys sys; std::vector<Ev> ev; std::vector<std::pair<Poly, Poly>> mem; bool locked = false; int lockNo = 0; std::map<const Value*, Poly> tmp; std::vector<Poly> ghost; };
struct Ex {
  Function& F; Arith A; DominatorTree DT; LoopInfo LI; const DataLayout& DL;
  Poly TS, P, c, p, ids; int64_t offChunks = 0, nChunks = 0; std::string bad; const Instruction* badAt = nullptr; long paths = 0; int depth = 0;
  std::set<int> chunkAtoms; bool zeroThere = false, noUpper = false; std::function<void(St&, const std::vector<Poly>& at, const std::vector<Poly>& next, const Poly& chunk)> onBody; std::function<void(St&, const std::vector<Poly>& at, const Poly& chunk)> onLeave; std::vector<Poly> bounds;
  std::vector<Poly> base; std::set<int> p2; std::map<std::string, int> roots;
  std::function<std::optional<Poly>(const Value*, St&)> source;         // configured inputs
  std::function<void(St&, const ReturnInst*)> onRet;
  bool slots = true, allLoads = false;                                  // a table of chunks; loads are events
  std::function<int(St&, const CallBase&)> onCall;                      // -1: not mine, 0: the path ends, 1: done, 2: the result is 0 or 1, split the path
  std::function<void(St&, const CallBase&, int)> onSplit;               // after the split
  bool houdini = false; std::function<void(St&)> onLoopLeave; std::vector<int64_t> strides{1}; std::vector<Poly> limits, points;   // loops by inferred linear invariants over their variables and the ghosts
  std::function<std::optional<Poly>(St&, const Poly&, const Instruction*)> onRead;
  std::function<std::optional<bool>(const St&, const Poly&, const Poly&)> alias;   // do two addresses agree?
  Ex(Function& f) : F(f), DL(f.getParent()->getDataLayout()) { DT.recalculate(F); LI.analyze(DT); A.DL = &DL; }
  void fail(const Instruction* I, const std::string& m) { if (bad.empty()) { bad = m; badAt = I; } }
  Sys full(const Sys& s) { Sys t = s; for (auto& b : base) t.addGe(b); return t; }
  bool le(const St& s, const Poly& a, const Poly& b) { return A.le(full(s.sys), a, b); }
  bool eq(const St& s, const Poly& a, const Poly& b) {
    if (a == b || A.eq(full(s.sys), a, b)) return true;
    Sys t = full(s.sys); bool more = false; Poly d = a - b; std::vector<int> ids; std::set<int> seen; for (auto& p : s.sys.ge) for (auto& m : p.t) for (int i : m.first) if (p2.count(i)) seen.insert(i); bool any = false; for (int i : p2) if (A.has(d, i)) { seen.insert(i); any = true; } if (!any || seen.size() > 10) return false; ids.assign(seen.begin(), seen.end());
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = i + 1; j < ids.size(); j++) for (int dl = -2; dl <= 2; dl++) {
      if (!A.eq(full(s.sys), A.at.a[ids[i]].x, A.at.a[ids[j]].x + Poly::c(dl))) continue;
      Poly q = scale(Poly::a(ids[i]), dl < 0 ? 1 << -dl : 1) - scale(Poly::a(ids[j]), dl > 0 ? 1 << dl : 1); t.addEq(q); t.addEq(P * q); more = true; break;
    }
    return more && A.eq(t, a, b);
  }
  bool dead(const St& s) { return A.unsat(full(s.sys)); }
  Poly pow2(const Poly& e) {
    int64_t k = e.k(); Poly r = e - Poly::c(k); if (k < 0 || k > 40) return A.fresh("pow2");
    Poly b = Poly::c(1); if (!r.t.empty()) { b = A.code("pow2", r); int id = b.t.begin()->first[0]; if (p2.insert(id).second) { base.push_back(b - Poly::c(1)); base.push_back(P * b - P); } }
    return scale(b, 1LL << k);
  }
  Poly size(const Poly& ch) { return ch == Poly() ? P : P * pow2(ch - Poly::c(1)); }
  Poly start(const Poly& ch) { return ch == Poly() ? Poly() : P * pow2(ch - Poly::c(1)); }
  int root(const std::string& n) { auto it = roots.find(n); if (it != roots.end()) return it->second; Poly a = A.fresh(n); int id = a.t.begin()->first[0]; roots[n] = id; base.push_back(a - Poly::c(4096)); return id; }
  Poly ptrRoot(const std::string& n) { return Poly::a(root(n)); }
  Poly ev(St& s, const Value* v) {
    if (auto* C = dyn_cast<ConstantInt>(v)) return C->getBitWidth() <= 64 ? Poly::c(C->getSExtValue()) : A.fresh("wide");
    if (isa<ConstantPointerNull>(v)) return Poly();
    auto it = s.env.find(v); if (it != s.env.end()) return it->second;
    if (auto* G = dyn_cast<GlobalVariable>(v)) return ptrRoot("@" + G->getName().str());
    if (auto* G = dyn_cast<Function>(v)) return ptrRoot("@" + G->getName().str());
    if (auto* a = dyn_cast<Argument>(v)) return s.env[v] = ptrRoot("arg" + std::to_string(a->getArgNo()));
    if (auto* o = dyn_cast<Operator>(v); o && isa<Constant>(v)) return oper(s, o);
    return s.env[v] = A.fresh("u", false);
  }
  Poly oper(St& s, const Operator* o) {
    if (auto* g = dyn_cast<GEPOperator>(o)) {
      Poly r = ev(s, g->getPointerOperand()); MapVector<Value*, APInt> var; APInt k(64, 0);
      if (!g->collectOffset(DL, 64, var, k)) return A.fresh("gep");
      r = r + Poly::c(k.getSExtValue()); for (auto& x : var) r = r + scale(ev(s, x.first), x.second.getSExtValue()); return r;
    }
    auto op = [&](int i) { return ev(s, o->getOperand(i)); };
    switch (o->getOpcode()) {
      case Instruction::Add: return op(0) + op(1);
      case Instruction::Sub: return op(0) - op(1);
      case Instruction::Mul: return op(0) * op(1);
      case Instruction::Shl: return op(0) * pow2(op(1));
      case Instruction::SDiv: case Instruction::AShr:
        if (auto* C = dyn_cast<ConstantInt>(o->getOperand(1)); C && cast<PossiblyExactOperator>(o)->isExact() && C->getSExtValue() > 0 && C->getSExtValue() < 62) {
          int64_t k = o->getOpcode() == Instruction::AShr ? 1LL << C->getSExtValue() : C->getSExtValue(); Poly x = op(0), r; bool ok = true; for (auto& t : x.t) { if (t.second % k) ok = false; r.t[t.first] = t.second / k; } if (ok) return r;
        }
        return A.fresh("v", false);
      case Instruction::UDiv: return A.dv(op(0), op(1));
      case Instruction::LShr: if (auto* C = dyn_cast<ConstantInt>(o->getOperand(1)); C && C->getZExtValue() < 40) return A.dv(op(0), Poly::c(1LL << C->getZExtValue())); return A.fresh("shr");
      case Instruction::Or: if (auto* pd = dyn_cast<PossiblyDisjointInst>(o); pd && pd->isDisjoint()) return op(0) + op(1); return A.fresh("or");
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::SExt: case Instruction::ZExt: case Instruction::Freeze: return op(0);
      case Instruction::Trunc: if (Poly x = op(0); houdini && o->getType()->getIntegerBitWidth() <= 32) { int64_t m = 1LL << (o->getType()->getIntegerBitWidth() - 1); return le(s, Poly(), x) && le(s, x, Poly::c(m - 1)) ? x : A.fresh("narrow", false); } else return x;   // thread ids fit in 32 bits
      case Instruction::And:
        if (auto* C = dyn_cast<ConstantInt>(o->getOperand(1)); C && C->getZExtValue() == 0xffffffffu) return op(0);
        if (Poly mk = op(1); !slots && mk.isConst()) {
          APInt C(64, (uint64_t)mk.k()); bool low = C.isMask(), high = (~C).isMask(); int m = low ? C.countr_one() : C.countr_zero();
          if ((low || high) && m < 32) { Poly x = op(0), y = x; int j = m; for (auto& t : y.t) if (!t.first.empty()) j = std::min(j, (int)__builtin_ctzll((unsigned long long)t.second)); int64_t k = y.k(); y = y - Poly::c(k & ((1LL << j) - 1)); Poly up = scale(A.dv(y, Poly::c(1LL << m)), 1LL << m); return high ? up : x - up; }
        }
        return A.fresh("and");
      case Instruction::URem: if (!slots) { Poly x = op(0), y = op(1); return x - y * A.dv(x, y); } return A.fresh("rem");
    }
    return A.fresh("v", false);
  }
  // cases of a condition being val: each a list of facts
  std::vector<std::vector<Poly>> cond(St& s, const Value* v, bool val) {
    if (auto* C = dyn_cast<ConstantInt>(v)) return C->isZero() != val ? std::vector<std::vector<Poly>>{{}} : std::vector<std::vector<Poly>>{};
    auto al = s.alias.find(v); if (al != s.alias.end()) return cond(s, al->second, val);
    if (auto* b = dyn_cast<BinaryOperator>(v); b && v->getType()->isIntegerTy(1)) {
      auto x = [&](bool v0, bool v1) { std::vector<std::vector<Poly>> r; for (auto& a : cond(s, b->getOperand(0), v0)) for (auto& c : cond(s, b->getOperand(1), v1)) { auto t = a; t.insert(t.end(), c.begin(), c.end()); r.push_back(t); } return r; };
      auto join = [](std::vector<std::vector<Poly>> a, std::vector<std::vector<Poly>> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
      if (b->getOpcode() == Instruction::And) return val ? x(true, true) : join(cond(s, b->getOperand(0), false), x(true, false));
      if (b->getOpcode() == Instruction::Or) return val ? join(cond(s, b->getOperand(0), true), x(false, true)) : x(false, false);
      if (b->getOpcode() == Instruction::Xor) return join(x(val, false), x(!val, true));
    }
    if (auto* sl = dyn_cast<SelectInst>(v)) {
      std::vector<std::vector<Poly>> r; for (int t = 0; t < 2; t++) for (auto& a : cond(s, sl->getCondition(), t)) for (auto& c : cond(s, t ? sl->getTrueValue() : sl->getFalseValue(), val)) { auto u = a; u.insert(u.end(), c.begin(), c.end()); r.push_back(u); }
      return r;
    }
    if (auto* X = dyn_cast<ExtractValueInst>(v)) if (auto* cb = dyn_cast<CallBase>(X->getAggregateOperand()); cb && cb->getCalledFunction() && cb->getCalledFunction()->getName().contains(".with.overflow")) return val ? std::vector<std::vector<Poly>>{} : std::vector<std::vector<Poly>>{{}};   // sizes do not overflow
    if (auto* I = dyn_cast<ICmpInst>(v)) {
      Poly a = ev(s, I->getOperand(0)), b = ev(s, I->getOperand(1)); auto pr = I->getPredicate(); if (!val) pr = I->getInversePredicate();
      if (b.isConst() && (b.k() >= BIG || b.k() < 0) && I->isUnsigned()) { bool less = pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE; return less ? std::vector<std::vector<Poly>>{{}} : std::vector<std::vector<Poly>>{}; }
      Poly one = Poly::c(1);
      if (pr == CmpInst::ICMP_EQ) return {{a - b, b - a}};
      if (pr == CmpInst::ICMP_NE) { if (eq(s, a, b)) return {}; if (le(s, a, b)) return {{b - a - one}}; if (le(s, b, a)) return {{a - b - one}}; return {{a - b - one}, {b - a - one}}; }
      if (I->isUnsigned() && (!le(s, Poly(), a) || !le(s, Poly(), b))) return {{}};     // a wrapped operand: nothing is learnt
      switch (pr) {
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return {{b - a - one}};
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return {{b - a}};
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return {{a - b - one}};
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return {{a - b}};
        default: break;
      }
    }
    { const Value* w = v; if (auto* T = dyn_cast<TruncInst>(v); T && v->getType()->isIntegerTy(1)) w = T->getOperand(0); auto it = s.env.find(w); if (w != v || (it != s.env.end() && v->getType()->isIntegerTy(1))) { Poly f = ev(s, w); if (val) return {{f - Poly::c(1)}}; return {{scale(f, -1)}}; } }
    return {{}};
  }
  std::vector<St> split(const St& s, const Value* v, bool val) {
    std::vector<St> r; St t = s; for (auto& f : cond(t, v, val)) { St u = t; for (auto& p : f) u.sys.addGe(p); if (!dead(u)) r.push_back(u); } return r;
  }
  std::optional<Poly> slotOf(const Poly& addr) {
    if (!slots) return std::nullopt;
    Poly d = addr - TS; if (d.t.size() && A.mentions(d, [&](int i) { for (auto& r : roots) if (r.second == i) return true; return false; })) return std::nullopt;
    d = d - Poly::c(offChunks); Poly r; for (auto& t : d.t) { if (t.second % 8) return std::nullopt; r.t[t.first] = t.second / 8; } if (r.isConst() && (r.k() < 0 || r.k() > nChunks)) return std::nullopt; return r;
  }
  bool distinct(const St& s, const Poly& a, const Poly& b) {
    if (alias) if (auto r = alias(s, a, b)) return !*r;
    Poly d = a - b; int n = 0; for (auto& r : roots) if (A.mentions(d, [&](int i) { return i == r.second; })) n++;
    for (int q : chunkAtoms) if (A.mentions(d, [&](int i) { return i == q; })) n++;
    if (n >= 2) return true; if (d.isConst()) return d.k() >= 8 || d.k() <= -8;
    return A.le(full(s.sys), a + Poly::c(8), b) || A.le(full(s.sys), b + Poly::c(8), a);
  }
  Poly readMem(St& s, const Poly& a, const std::string& hint) {
    for (size_t i = s.mem.size(); i-- > 0;) { if (alias) if (auto q = alias(s, s.mem[i].first, a)) { if (*q) return s.mem[i].second; continue; } if (eq(s, s.mem[i].first, a)) return s.mem[i].second; if (!distinct(s, s.mem[i].first, a)) return A.fresh("mem", false); }
    Poly v = A.fresh(hint); s.mem.insert(s.mem.begin(), {a, v}); return v;
  }
  void writeMem(St& s, const Poly& a, const Poly& v) { s.mem.push_back({a, v}); }
  using K = std::function<void(St&, const BasicBlock* from, const BasicBlock* to)>;
  // execute one block from an instruction; k is called for every edge out of it
  void block(const BasicBlock* BB, St s, const K& k) { block(BB, BB->getFirstNonPHI()->getIterator(), s, k); }
  void block(const BasicBlock* BB, BasicBlock::const_iterator it, St s, const K& k) {
    for (; it != BB->end(); ++it) {
      if (!bad.empty() || ++paths > 200000) { if (paths > 200000) fail(&*it, "too many paths"); return; }
      const Instruction& I = *it; if (I.isDebugOrPseudoInst() || isa<AllocaInst>(I)) { if (isa<AllocaInst>(I)) s.env[&I] = ptrRoot("local " + std::to_string((uintptr_t)&I)); continue; }
      if (auto* L = dyn_cast<LoadInst>(&I)) { load(s, L); if (!L->getType()->isIntegerTy() && !L->getType()->isPointerTy()) return fail(&I, "load of an aggregate"); continue; }
      if (auto* S = dyn_cast<StoreInst>(&I)) { store(s, S, S->getPointerOperand(), S->getValueOperand(), S->getOrdering()); continue; }
      if (auto* cb = dyn_cast<CallBase>(&I)) { if (cb->doesNotReturn()) return; int q = call(s, *cb); if (!q) return;
        if (q == 2) { for (int v = 0; v < 2; v++) { St t = s; t.env[cb] = Poly::c(v); if (onSplit) onSplit(t, *cb, v); if (dead(t)) continue; if (!cb->isTerminator()) block(BB, std::next(it), t, k); else if (auto* iv = dyn_cast<InvokeInst>(cb)) k(t, BB, iv->getNormalDest()); } return; }
        if (!cb->isTerminator()) continue; if (auto* iv = dyn_cast<InvokeInst>(cb)) { k(s, BB, iv->getNormalDest()); return; } return; }
      if (auto* sel = dyn_cast<SelectInst>(&I)) {
        if (sel->getType()->isIntegerTy(1)) continue;
        auto t = split(s, sel->getCondition(), true), f = split(s, sel->getCondition(), false);
        if (t.size() + f.size() == 1) { s = t.empty() ? f[0] : t[0]; s.env[&I] = ev(s, t.empty() ? sel->getFalseValue() : sel->getTrueValue()); continue; }
        std::vector<St> all; for (auto& x : t) { x.env[&I] = ev(x, sel->getTrueValue()); all.push_back(x); } for (auto& x : f) { x.env[&I] = ev(x, sel->getFalseValue()); all.push_back(x); }
        for (auto& x : all) block(BB, std::next(it), x, k); return;
      }
      if (auto* X = dyn_cast<ExtractValueInst>(&I)) { auto* c = dyn_cast<CallBase>(X->getAggregateOperand()); if (c && s.env.count(c) && X->getIndices()[0] == 0) s.env[&I] = s.env[c]; else if (!X->getType()->isIntegerTy(1)) s.env[&I] = A.fresh("x"); continue; }
      if (auto* R = dyn_cast<ReturnInst>(&I)) { if (depth == 0) onRet(s, R); return; }
      if (isa<UnreachableInst>(I)) return;
      if (auto* B = dyn_cast<BranchInst>(&I)) {
        if (!B->isConditional()) { k(s, BB, B->getSuccessor(0)); return; }
        for (auto& x : split(s, B->getCondition(), true)) k(x, BB, B->getSuccessor(0));
        for (auto& x : split(s, B->getCondition(), false)) k(x, BB, B->getSuccessor(1));
        return;
      }
      if (auto* W = dyn_cast<SwitchInst>(&I)) {
        Poly v = ev(s, W->getCondition()); std::vector<St> rest{s};
        for (auto& cs : W->cases()) {
          Poly c = Poly::c(cs.getCaseValue()->getSExtValue()); St t = s; t.sys.addEq(v - c); if (!dead(t)) k(t, BB, cs.getCaseSuccessor());
          std::vector<St> nx; for (auto& x : rest) for (int sg : {1, -1}) { St y = x; y.sys.addGe(scale(v - c, sg) - Poly::c(1)); if (!dead(y)) nx.push_back(y); } rest = nx;
        }
        for (auto& x : rest) k(x, BB, W->getDefaultDest());
        return;
      }
      if (isa<FenceInst>(I)) continue;
      if (auto* W = dyn_cast<AtomicRMWInst>(&I); W && !slots && (W->getOperation() == AtomicRMWInst::Add || W->getOperation() == AtomicRMWInst::Sub)) {
        Poly a = ev(s, W->getPointerOperand()), d = ev(s, W->getValOperand()); if (W->getOperation() == AtomicRMWInst::Sub) d = scale(d, -1);
        Poly old = readMem(s, a, "f"); writeMem(s, a, old + d); s.env[W] = old; Ev e; e.k = Ev::Add; e.at = W; e.ptr = a; e.val = d; s.ev.push_back(e); continue;
      }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return fail(&I, "an instruction outside the model");
      if (isa<ICmpInst>(I)) continue;
      if (I.getType()->isIntegerTy(1)) continue;
      if (isa<ZExtInst, SExtInst>(I) && I.getOperand(0)->getType()->isIntegerTy(1)) {
        std::vector<St> all; for (int v = 0; v < 2; v++) for (auto& x : split(s, I.getOperand(0), v)) { x.env[&I] = Poly::c(v ? (isa<ZExtInst>(I) ? 1 : -1) : 0); all.push_back(x); }
        if (all.size() == 1) { s = all[0]; continue; }
        for (auto& x : all) block(BB, std::next(it), x, k); return;
      }
      if (I.getType()->isIntegerTy() || I.getType()->isPointerTy()) { s.env[&I] = oper(s, cast<Operator>(&I)); continue; }
      return fail(&I, "an instruction outside the model");
    }
  }
  std::vector<std::pair<const Instruction*, std::string>> errs; int mute = 0; void err(const Instruction* I, const std::string& m) { if (mute) return; errs.push_back({I, m}); }
  void inRange(St& s, const Instruction* I, const Poly& sl) { if (!le(s, Poly(), sl) || (!noUpper && !le(s, sl, Poly::c(nChunks - 1)))) err(I, "the chunk table is accessed at " + A.at.str(sl) + ", which may lie outside it"); }
  void load(St& s, const LoadInst* L) {
    Poly a = ev(s, L->getPointerOperand());
    if (onRead) if (auto v = onRead(s, a, L)) { s.env[L] = *v; return; }
    if (auto* G = dyn_cast<GlobalVariable>(L->getPointerOperand()); G && G->getName().contains("thread_list_chunk_size")) { s.env[L] = P; return; }
    auto sl = slotOf(a); Poly v;
    if (sl) {
      bool found = false; for (size_t i = s.mem.size(); i-- > 0;) { auto t = slotOf(s.mem[i].first); if (!t) continue; if (eq(s, *t, *sl)) { v = s.mem[i].second; found = true; break; } if (!distinct(s, s.mem[i].first, a)) break; }
      if (!found) for (auto& e : s.ev) if (e.isSlot && eq(s, e.slot, *sl) && le(s, Poly::c(1), e.val)) { v = e.val; found = true; break; }     // a chunk stays once it is there
      if (!found) { v = A.fresh("chunk"); chunkAtoms.insert(v.t.begin()->first[0]); if (zeroThere && eq(s, *sl, Poly())) base.push_back(v - Poly::c(1)); }
      inRange(s, L, *sl);
      Ev e; e.k = Ev::Load; e.at = L; e.slot = *sl; e.val = v; e.ord = L->getOrdering(); e.locked = s.locked; e.lockNo = s.lockNo; e.isSlot = true; s.ev.push_back(e);
    } else v = readMem(s, a, "f");
    if (allLoads) { Ev e; e.k = Ev::Load; e.at = L; e.ptr = a; e.val = v; e.ord = L->getOrdering(); s.ev.push_back(e); }
    s.env[L] = v;
  }
  void store(St& s, const Instruction* I, const Value* ptr, const Value* val, AtomicOrdering o) {
    Poly a = ev(s, ptr); Poly v = val ? ev(s, val) : Poly(); auto sl = slotOf(a);
    Ev e; e.k = Ev::Store; e.at = I; e.ptr = a; e.val = v; e.ord = o; e.locked = s.locked; e.lockNo = s.lockNo; e.isSlot = !!sl; if (sl) { e.slot = *sl; inRange(s, I, *sl); } s.ev.push_back(e);
    writeMem(s, a, v);
  }
  int call(St& s, const CallBase& cb) {
    auto* f = cb.getCalledFunction(); if (!f) { fail(&cb, "an indirect call"); return false; }
    StringRef n = f->getName(); std::string d = dem(f); Ev e; e.at = &cb; e.locked = s.locked; e.lockNo = s.lockNo;
    auto arg = [&](unsigned i) { return ev(s, cb.getArgOperand(i)); };
    if (onCall) { int q = onCall(s, cb); if (q >= 0) return q; }
    if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias")) return true;
    if (n.starts_with("llvm.usub.sat")) { Poly a = arg(0), b = arg(1); if (le(s, b, a)) s.env[&cb] = a - b; else if (le(s, a, b)) s.env[&cb] = Poly(); else s.env[&cb] = A.mx(a - b, Poly()); return true; }
    if (n.starts_with("llvm.uadd.with.overflow")) { s.env[&cb] = arg(0) + arg(1); return true; }
    if (n.starts_with("llvm.umul.with.overflow")) { s.env[&cb] = arg(0) * arg(1); return true; }
    if (n.starts_with("llvm.umax") || n.starts_with("llvm.smax")) { s.env[&cb] = A.mx(arg(0), arg(1)); return true; }
    if (n.starts_with("llvm.umin") || n.starts_with("llvm.smin")) { s.env[&cb] = A.mn(arg(0), arg(1)); return true; }
    if (n.starts_with("llvm.memset")) {
      Poly a = arg(0), len = arg(2); auto sl = slotOf(a);
      if (sl && len.isConst() && len.k() % 8 == 0 && arg(1) == Poly()) for (int64_t i = 0; i < len.k() / 8 && i < 64; i++) { Ev x; x.k = Ev::Store; x.at = &cb; x.isSlot = true; x.slot = *sl + Poly::c(i); x.ptr = a + Poly::c(8 * i); s.ev.push_back(x); writeMem(s, x.ptr, Poly()); }
      return true;
    }
    if (n == "pthread_mutex_lock") { e.k = Ev::Lock; e.ptr = arg(0); if (s.locked) { fail(&cb, "the lock is taken twice"); return false; } s.locked = true; s.lockNo++; s.ev.push_back(e); s.env[&cb] = Poly(); return true; }
    if (n == "pthread_mutex_unlock") { e.k = Ev::Unlock; e.ptr = arg(0); s.locked = false; s.ev.push_back(e); s.env[&cb] = Poly(); return true; }
    if (n.starts_with("_Zna") || n.starts_with("_Znw")) { static int k = 0; Poly v = ptrRoot("new" + std::to_string(k++)); s.env[&cb] = v; e.k = Ev::Alloc; e.ptr = v; e.n = arg(0); if (n.contains("St11align_val_t")) e.id = arg(1); s.ev.push_back(e); return true; }
    if (n.starts_with("_Zda") || n.starts_with("_Zdl")) { e.k = Ev::Free; e.ptr = arg(0); if (n.contains("St11align_val_t")) e.id = arg(cb.arg_size() - 1); s.ev.push_back(e); return true; }
    if (d.find("std::function<X (unsigned") == 0 && d.find("operator()") != std::string::npos) { e.k = Ev::Make; e.ptr = arg(0); e.id = arg(2); e.val = arg(1); if (isa<AllocaInst>(cb.getArgOperand(0)->stripPointerCasts())) s.tmp[cb.getArgOperand(0)->stripPointerCasts()] = arg(2); else s.ev.push_back(e); return true; }
    if (d.find("std::function<X (unsigned") == 0) return true;
    if (d.find("X::X(X&&)") == 0) { auto it = s.tmp.find(cb.getArgOperand(1)->stripPointerCasts()); e.k = Ev::Make; e.ptr = arg(0); if (it == s.tmp.end()) { fail(&cb, "an element moved from elsewhere"); return false; } e.id = it->second; s.ev.push_back(e); return true; }
    if (d.find("X::~X()") == 0) { if (s.tmp.count(cb.getArgOperand(0)->stripPointerCasts())) return true; e.k = Ev::Kill; e.ptr = arg(0); s.ev.push_back(e); return true; }
    if (n == "plint_visit") { e.k = Ev::Visit; e.ptr = arg(0); s.ev.push_back(e); return true; }
    if (source) if (auto v = source(&cb, s)) { s.env[&cb] = *v; return true; }
    fail(&cb, "a call outside the model: " + d); return false;
  }
  void enterPhis(const BasicBlock* to, const BasicBlock* from, St& s) {
    std::vector<std::pair<const Value*, Poly>> nv; std::vector<std::pair<const Value*, const Value*>> al;
    for (auto& ph : to->phis()) { auto* in = ph.getIncomingValueForBlock(from); if (ph.getType()->isIntegerTy(1)) { auto it = s.alias.find(in); al.push_back({&ph, it == s.alias.end() ? in : it->second}); } else nv.push_back({&ph, ev(s, in)}); }
    for (auto& x : nv) s.env[x.first] = x.second; for (auto& x : al) s.alias[x.first] = x.second;
  }
  // go along an edge, inside loop `in` (null: whole function); leave/back are called when that loop is left / repeated
  void edge(St& s, const BasicBlock* from, const BasicBlock* to, const Loop* in, const K& leave, const K& back) {
    if (!bad.empty()) return;
    if (in && !in->contains(to)) { leave(s, from, to); return; }
    if (in && to == in->getHeader()) { back(s, from, to); return; }
    const Loop* L = LI.getLoopFor(to);
    if (L && L->getHeader() == to && !L->contains(from)) { loop(L, from, s, in, leave, back); return; }
    enterPhis(to, from, s);
    block(to, s, [&](St& t, const BasicBlock* f, const BasicBlock* u) { edge(t, f, u, in, leave, back); });
  }
  void loop(const Loop* L, const BasicBlock* from, St s, const Loop* outer, const K& oleave, const K& oback) {
    const BasicBlock* H = L->getHeader(); std::vector<const PHINode*> ph; for (auto& x : H->phis()) ph.push_back(&x);
    for (auto* x : ph) if (x->getType()->isIntegerTy(1)) return fail(x, "a condition carried round a loop");
    std::vector<Poly> init; for (auto* x : ph) init.push_back(ev(s, x->getIncomingValueForBlock(from)));
    auto iterate = [&](St t, const std::vector<Poly>& v, const K& leave, const K& back) {
      for (size_t i = 0; i < ph.size(); i++) t.env[ph[i]] = v[i];
      block(H, t, [&](St& u, const BasicBlock* f, const BasicBlock* w) { edge(u, f, w, L, leave, back); });
    };
    if (houdini) {
      size_t np = ph.size(), ng = s.ghost.size(), N = np + ng; std::vector<Poly> v0 = init; v0.insert(v0.end(), s.ghost.begin(), s.ghost.end());
      std::vector<Poly> w; for (size_t i = 0; i < N; i++) w.push_back(A.fresh("w", false)); auto none = [](St&, const BasicBlock*, const BasicBlock*) {};
      using Cand = std::function<std::vector<Poly>(const std::vector<Poly>&)>; std::vector<Cand> cs;
      auto enter = [&]() { St t = s; for (size_t i = 0; i < ng; i++) t.ghost[i] = w[np + i]; for (auto& c : cs) for (auto& f : c(w)) t.sys.addGe(f); return t; };
      auto wp = std::vector<Poly>(w.begin(), w.begin() + np);
      auto now = [&](St& u, const BasicBlock* f) { std::vector<Poly> v; for (auto* p : ph) v.push_back(ev(u, p->getIncomingValueForBlock(f))); v.insert(v.end(), u.ghost.begin(), u.ghost.end()); return v; };
      std::vector<bool> moves(N, false); points.clear(); depth++; mute++;                                       // what the loop never changes keeps its value
      iterate(enter(), wp, none, [&](St& u, const BasicBlock* f, const BasicBlock*) { auto nv = now(u, f); for (size_t i = 0; i < N; i++) if (!(nv[i] == w[i])) moves[i] = true; });
      depth--; mute--; if (!bad.empty()) return; std::vector<Poly> w0 = w;
    retry:
      cs.clear(); for (size_t i = 0; i < N; i++) { w[i] = moves[i] ? w0[i] : v0[i]; if (i < np) wp[i] = w[i]; }
      {
      std::vector<Poly> lim = limits; auto add = [&](Cand c) { for (auto& p : c(v0)) if (!le(s, Poly(), p)) return; cs.push_back(c); };
      for (size_t i = 0; i < N; i++) if (moves[i]) { add([=](const std::vector<Poly>& v) { return std::vector<Poly>{v[i] - v0[i]}; }); add([=](const std::vector<Poly>& v) { return std::vector<Poly>{v0[i] - v[i]}; }); }
      for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (i != j && moves[i] && moves[j]) {
        for (int64_t k : strides) { if (k == 1 && j < i) continue; for (int sg : {1, -1}) add([=](const std::vector<Poly>& v) { Poly d = v[i] - v0[i] - scale(v[j] - v0[j], sg * k); return std::vector<Poly>{d, scale(d, -1)}; }); }
        for (size_t l = j + 1; l < N; l++) if (l != i && moves[l]) for (int64_t k : strides) add([=](const std::vector<Poly>& v) { Poly d = v[i] - v0[i] - scale(v[j] - v0[j], k) - scale(v[l] - v0[l], k); return std::vector<Poly>{d, scale(d, -1)}; });
        if (i < np || j < np) add([=](const std::vector<Poly>& v) { return std::vector<Poly>{v[j] - v[i]}; });
      }
      lim = limits;                   // the calls of the body may have named more limits
      { auto pts = points; auto l0 = lim; std::set<Poly> have(l0.begin(), l0.end()); for (auto& y : pts) for (size_t i = 0; i < N; i++) if (moves[i]) { Poly d = y - w[i]; bool other = d == Poly(); for (size_t j = 0; j < N; j++) if (moves[j] && A.mentions(d, [&](int q) { return q == w[j].t.begin()->first[0]; })) other = true; if (!other && have.size() < 40) for (auto& b : l0) if (have.insert(b - d).second) lim.push_back(b - d); } }
      for (size_t i = 0; i < N; i++) if (moves[i]) for (auto& b : lim) { bool own = false; for (size_t z2 = 0; z2 < N; z2++) if (auto& z = w[z2]; moves[z2] && A.mentions(b, [&](int q) { return q == z.t.begin()->first[0]; })) own = true; if (own) continue; add([=](const std::vector<Poly>& v) { return std::vector<Poly>{b - v[i]}; }); add([=](const std::vector<Poly>& v) { return std::vector<Poly>{v[i] - b}; });
        for (size_t j = i + 1; j < np; j++) if (moves[j] && i < np) { add([=](const std::vector<Poly>& v) { return std::vector<Poly>{b - v[i] - v[j]}; }); add([=](const std::vector<Poly>& v) { return std::vector<Poly>{v[i] + v[j] - b}; }); } }
      std::vector<size_t> stirred;
      for (bool again = true; again && bad.empty();) {
        again = false; std::vector<bool> keep(cs.size(), true); St t = enter(); if (dead(t)) break; depth++; mute++;
        iterate(t, wp, none, [&](St& u, const BasicBlock* f, const BasicBlock*) { if (dead(u)) return; auto nv = now(u, f); for (size_t i = 0; i < cs.size(); i++) if (keep[i]) for (auto& p : cs[i](nv)) if (!le(u, Poly(), p)) { keep[i] = false; break; } for (size_t i = 0; i < N; i++) if (!moves[i] && !(nv[i] == v0[i]) && !eq(u, nv[i], v0[i])) stirred.push_back(i); });
        depth--; mute--; if (!stirred.empty()) break; std::vector<Cand> k; for (size_t i = 0; i < cs.size(); i++) if (keep[i]) k.push_back(cs[i]); else again = true; cs = k;
      }
      if (!bad.empty()) return;
      if (!stirred.empty()) { for (auto i : stirred) moves[i] = true; goto retry; }
      }
      if (getenv("TSDBG") && !mute) { fprintf(stderr, "%s: loop, %zu variables, %zu relations\n", F.getName().str().c_str(), N, cs.size()); for (auto& c : cs) for (auto& p : c(w)) fprintf(stderr, "   %s >= 0\n", A.at.str(p).c_str()); }
      St t = enter(); if (dead(t)) return; for (auto& m : t.mem) m.second = A.fresh("lost", false);
      iterate(t, wp, [&](St& u, const BasicBlock* f, const BasicBlock* q) { if (dead(u)) return; if (onLoopLeave) onLoopLeave(u); edge(u, f, q, outer, oleave, oback); }, none);
      return;
    }
    // the step of every variable
    std::vector<Poly> x; for (size_t i = 0; i < ph.size(); i++) x.push_back(A.fresh("x", false));
    std::vector<std::optional<Poly>> form(ph.size()); std::vector<int> kind(ph.size(), 0); std::vector<Poly> step(ph.size()); int seen = 0;
    depth++; mute++;
    iterate(s, x, [](St&, const BasicBlock*, const BasicBlock*) {}, [&](St& t, const BasicBlock* f, const BasicBlock*) {
      for (size_t i = 0; i < ph.size(); i++) {
        Poly y = ev(t, ph[i]->getIncomingValueForBlock(f)); int k = 3; Poly d;
        Poly df = y - x[i]; bool dep = false; for (auto& z : x) if (A.mentions(df, [&](int q) { return q == z.t.begin()->first[0]; })) dep = true;
        if (!dep) { k = 1; d = df; } else if (y == scale(x[i], 2)) k = 2;
        if (!seen) { kind[i] = k; step[i] = d; } else if (kind[i] != k || step[i] != d) kind[i] = 3;
      }
      seen++;
    });
    depth--; mute--;
    if (!bad.empty()) return;
    if (getenv("TSDBG")) for (size_t i = 0; i < ph.size(); i++) fprintf(stderr, "phi %zu kind %d step %s seen %d\n", i, kind[i], A.at.str(step[i]).c_str(), seen);
    bool irregular = false; int chI = -1; for (size_t i = 0; i < ph.size(); i++) { if (kind[i] == 3) irregular = true; if (kind[i] == 1 && (step[i] == Poly::c(1) || step[i] == Poly::c(-1)) && ph[i]->getType()->isIntegerTy(64)) chI = i; }
    auto out0 = [&](St& t, const BasicBlock* f, const BasicBlock* w) { edge(t, f, w, outer, oleave, oback); };
    if (irregular && chI >= 0) {
      // the loop walks over the chunks: split on the chunk number; relations to its start are inferred
      bool up = step[chI] == Poly::c(1); Poly h0 = init[chI]; auto none = [](St&, const BasicBlock*, const BasicBlock*) {};
      using Cand = std::function<bool(St&, const Poly& h, const std::vector<Poly>& v, std::vector<Poly>* facts)>;   // facts: assume it; otherwise: does it hold?
      std::vector<Cand> cs;
      auto lin = [&](std::function<std::vector<Poly>(const Poly&, const std::vector<Poly>&)> f) { cs.push_back([this, f](St& t, const Poly& h, const std::vector<Poly>& v, std::vector<Poly>* facts) { auto ge = f(h, v); if (facts) { facts->insert(facts->end(), ge.begin(), ge.end()); return true; } for (auto& p : ge) if (!le(t, Poly(), p)) return false; return true; }); };
      for (size_t i = 0; i < ph.size(); i++) if (kind[i] == 3) {
        if (ph[i]->getType()->isPointerTy() || true) cs.push_back([this, i](St& t, const Poly& h, const std::vector<Poly>& v, std::vector<Poly>* facts) {   // the value of this chunk's entry
          if (facts) { Ev e; e.k = Ev::Load; e.isSlot = true; e.slot = h; e.val = v[i]; e.ord = AtomicOrdering::Acquire; t.ev.push_back(e); return true; }
          for (auto& e : t.ev) if (e.isSlot && eq(t, e.slot, h) && eq(t, e.val, v[i]) && (e.k == Ev::Store || e.locked || atLeast(e.ord, AtomicOrdering::Acquire) || h == Poly())) return true; return false; });
        if (!ph[i]->getType()->isIntegerTy()) continue;
        Poly x0 = init[i];
        for (int sg : {1, -1}) lin([=, this](const Poly& h, const std::vector<Poly>& v) { Poly d = v[i] - x0 + scale(start(h) - start(h0), sg); return std::vector<Poly>{d, scale(d, -1)}; });
        lin([=](const Poly&, const std::vector<Poly>& v) { return std::vector<Poly>{v[i]}; });
        lin([=](const Poly&, const std::vector<Poly>& v) { return std::vector<Poly>{scale(v[i], -1) - Poly::c(1)}; });
        lin([=, this](const Poly& h, const std::vector<Poly>& v) { return std::vector<Poly>{v[i] - size(h)}; });
        lin([=, this](const Poly& h, const std::vector<Poly>& v) { return std::vector<Poly>{size(h) - v[i] - Poly::c(1)}; });
        for (auto& B : bounds) lin([=](const Poly& h, const std::vector<Poly>&) { return std::vector<Poly>{up ? B - h : h - B}; });
        for (auto& B : bounds) lin([=, this](const Poly& h, const std::vector<Poly>& v) { Poly d = v[i] - A.mn(start(h), B); return std::vector<Poly>{d, scale(d, -1)}; });
      }
      { std::vector<Cand> k; for (auto& c : cs) { St t = s; if (c(t, h0, init, nullptr)) k.push_back(c); } cs = k; }
      struct H { Poly h; std::vector<Poly> v; std::vector<Poly> facts; bool first; };
      std::vector<H> hs; { H f; f.h = h0; f.v = init; f.first = true; hs.push_back(f); }
      for (int q = 0; q < 3; q++) {
        H x; x.first = false; if (q < 2) x.h = Poly::c(q); else { Poly k = A.fresh("j"); x.h = k + Poly::c(2); if (!noUpper) x.facts.push_back(Poly::c(nChunks - 3) - k); }
        x.facts.push_back(up ? x.h - h0 - Poly::c(1) : h0 - x.h - Poly::c(1));
        for (size_t i = 0; i < ph.size(); i++) x.v.push_back((int)i == chI ? x.h : kind[i] == 1 ? init[i] + step[i] * (up ? x.h - h0 : h0 - x.h) : A.fresh("w", false));
        hs.push_back(x);
      }
      auto enter = [&](const H& x) { St t = s; if (x.first) return t; auto f = x.facts; for (auto& c : cs) c(t, x.h, x.v, &f); for (auto& p : f) t.sys.addGe(p); return t; };
      for (bool again = true; again && bad.empty();) {
        again = false; std::vector<bool> keep(cs.size(), true);
        for (auto& x : hs) { St t = enter(x); if (dead(t)) continue; depth++; mute++;
          iterate(t, x.v, none, [&](St& u, const BasicBlock* f, const BasicBlock*) { if (dead(u)) return; std::vector<Poly> nv; for (auto* p : ph) nv.push_back(ev(u, p->getIncomingValueForBlock(f))); for (size_t i = 0; i < cs.size(); i++) if (keep[i] && !cs[i](u, nv[chI], nv, nullptr)) keep[i] = false; });
          depth--; mute--; }
        std::vector<Cand> k; for (size_t i = 0; i < cs.size(); i++) if (keep[i]) k.push_back(cs[i]); else again = true; cs = k;
      }
      if (!bad.empty()) return;
      if (getenv("TSDBG")) fprintf(stderr, "%s: chunk loop, %zu relations\n", F.getName().str().c_str(), cs.size());
      for (auto& x : hs) { St t = enter(x); if (dead(t)) continue; size_t e0 = t.ev.size(); if (onBody && !mute) { depth++;
          iterate(t, x.v, none, [&](St& u, const BasicBlock* f, const BasicBlock*) { if (dead(u)) return; std::vector<Poly> nv; for (auto* p : ph) nv.push_back(ev(u, p->getIncomingValueForBlock(f))); (void)e0; onBody(u, x.v, nv, x.h); }); depth--; }
        if (!x.first) for (auto& m : t.mem) m.second = A.fresh("lost", false);
        iterate(t, x.v, [&](St& u, const BasicBlock* f, const BasicBlock* w) { if (dead(u)) return; if (onLeave && !mute) onLeave(u, x.v, x.h); out0(u, f, w); }, none); }
      return;
    }
    Poly g = A.fresh("g"); int gid = g.t.begin()->first[0];
    auto at = [&](const Poly& n) { std::vector<Poly> v; for (size_t i = 0; i < ph.size(); i++) v.push_back(kind[i] == 1 ? init[i] + step[i] * n : kind[i] == 2 ? init[i] * pow2(n) : A.fresh("w", false)); return v; };
    size_t ev0 = s.ev.size(), mem0 = s.mem.size();
    auto mine = [&](const St& t) { return std::vector<Ev>(t.ev.begin() + ev0, t.ev.end()); };
    // the body, for any iteration; bounds on the number of iterations come from its comparisons
    struct B { St st; }; std::vector<B> bodies; std::vector<Poly> caps;
    auto allBodies = [&]() { bodies.clear(); St t0 = s; for (auto& c : caps) t0.sys.addGe(c - g); depth++; iterate(t0, at(g), [](St&, const BasicBlock*, const BasicBlock*) {}, [&](St& t, const BasicBlock*, const BasicBlock*) { bodies.push_back({t}); }); depth--; };
    mute++; allBodies(); mute--; if (!bad.empty()) return;
    mute++;
    { std::set<Poly> cand;
      if (!bodies.empty()) for (auto* BB : L->blocks()) for (auto& I : *BB) if (auto* C = dyn_cast<ICmpInst>(&I)) {
        Poly p = ev(bodies[0].st, C->getOperand(0)), q = ev(bodies[0].st, C->getOperand(1)), d = q - p; int64_t k = 0; bool lin = true;
        for (auto& t : d.t) for (int v : t.first) if (v == gid) { if (t.first.size() == 1) k = t.second; else lin = false; }
        if (!lin || !k) continue; Poly r = d - scale(g, k); if (A.has(r, gid)) continue; if (k > 0) { r = scale(r, -1); k = -k; }      // r - |k| g = 0 at the bound
        Poly n; bool div = true; for (auto& t : r.t) { if (t.second % -k) div = false; n.t[t.first] = t.second / -k; } if (!div) continue;
        cand.insert(n); cand.insert(n - Poly::c(1));
      }
      for (auto& n : cand) { if (!le(s, Poly(), n)) continue; caps.push_back(n); allBodies(); bool ok = true; for (auto& b : bodies) if (!le(b.st, g + Poly::c(1), n)) ok = false; if (!ok) caps.pop_back(); }
      }
    mute--; allBodies();
    if (!bad.empty()) return;
    for (auto& b : bodies) if (b.st.locked != s.locked) return fail(H->getFirstNonPHI(), "a lock is taken or released in a loop");
    // left during the first iteration
    auto out = [&](St& t, const BasicBlock* f, const BasicBlock* w) { edge(t, f, w, outer, oleave, oback); };
    auto none = [](St&, const BasicBlock*, const BasicBlock*) {};
    iterate(s, init, out, none);
    // left during a later iteration
    if (bodies.empty()) return;
    Ev e; e.k = Ev::Loop; e.at = H->getFirstNonPHI(); e.g = gid; e.n = g + Poly::c(1); for (auto& b : bodies) { e.bodies.push_back({mine(b.st), b.st.sys}); e.mems.push_back(b.st.mem); }
    bool quiet = true; for (auto& b : e.bodies) if (!b.first.empty()) quiet = false;
    for (auto& b : bodies) {
      St t = s; t.sys = b.st.sys; for (auto& c : caps) t.sys.addGe(c - g - Poly::c(1)); if (!quiet) t.ev.push_back(e);
      // memory written in the loop is unknown from here on
      for (auto& c : bodies) for (auto& w : c.st.mem) { bool old = false; for (auto& m : s.mem) if (m == w) old = true; if (!old) for (auto& m : t.mem) if (!distinct(c.st, m.first, w.first)) m.second = A.fresh("lost", false); }
      iterate(t, at(g + Poly::c(1)), out, none);
    }
  }
  void run(St s) { edge0(s); }
  void edge0(St& s) { block(&F.getEntryBlock(), s, [&](St& t, const BasicBlock* f, const BasicBlock* u) { edge(t, f, u, nullptr, [](St&, const BasicBlock*, const BasicBlock*) {}, [](St&, const BasicBlock*, const BasicBlock*) {}); }); }
};

}
}
