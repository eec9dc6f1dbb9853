#include "tile.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
using namespace plint;
namespace plint {
Tiler::Tiler(Function& f, Arith& a) : F(f), A(a) {
  DT = std::make_unique<DominatorTree>(F); LI = std::make_unique<LoopInfo>(*DT);
  A.DL = &F.getParent()->getDataLayout();
}
void Tiler::err(Ctx& ctx, const Instruction* I, const std::string& m) {
  if (ctx.mute) return;
  std::string k = where(I) + "|" + m;
  errs.emplace(k, Err{where(I), m});
}
bool Tiler::feasible(TState& st) { return !A.unsat(st.sys, 6); }
void Tiler::applyNe(TState& st) {
  for (size_t i = 0; i < st.ne.size();) {
    Poly p = st.ne[i];
    if (A.le(st.sys, Poly(), p)) { st.sys.addGe(p - Poly::c(1)); st.ne.erase(st.ne.begin() + i); continue; }
    if (A.le(st.sys, p, Poly())) { st.sys.addGe(Poly::c(-1) - p); st.ne.erase(st.ne.begin() + i); continue; }
    i++;
  }
}
bool Tiler::learn(TState& st, const Fact& f) {
  if (impossible && impossible(f)) return false;
  std::vector<Poly> ge, ne;
  if (!A.cmp(f.cond, f.val, ge, &ne)) return true;
  for (auto& p : ge) st.sys.addGe(p);
  for (auto& p : ne) st.ne.push_back(p);
  if (!st.ne.empty()) applyNe(st);
  return feasible(st);
}
std::map<int, Poly> Tiler::phiMap(const Loop* L, const BasicBlock* from) {
  std::map<int, Poly> m;
  for (auto& P : L->getHeader()->phis()) {
    if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy()) continue;
    Poly me = A.of(&P); if (me.t.size() != 1 || me.t.begin()->first.size() != 1) continue;
    m[me.t.begin()->first[0]] = A.of(P.getIncomingValueForBlock(from));
  }
  return m;
}
static void atomsOf(Arith& A, const Poly& p, std::set<int>& s) {
  for (auto& kv : p.t) for (int id : kv.first) if (s.insert(id).second) { atomsOf(A, Poly(A.at.a[id].x), s); atomsOf(A, Poly(A.at.a[id].y), s); }
}
bool Tiler::loopInvariantPoly(const Poly& p, const Loop* L) {
  std::set<int> s; atomsOf(A, p, s);
  for (int id : s) if (auto* I = dyn_cast_or_null<Instruction>(A.at.a[id].v)) if (L->contains(I)) return false;
  return true;
}
bool Tiler::hasEvents(const Loop* L) {
  TState dummy;
  for (auto* BB : L->blocks()) for (auto& I : *BB) if (classify(I, dummy)) return true;
  return false;
}
std::vector<Poly> Tiler::candidates(const Loop* L) {
  std::vector<Poly> c;
  std::vector<Poly> bounds;
  std::set<int> phis;
  for (auto& P : L->getHeader()->phis()) {
    if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy()) continue;
    Poly me = A.of(&P); if (me.t.size() != 1 || me.t.begin()->first.size() != 1) continue;
    // me >= init
    for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
      auto* in = P.getIncomingBlock(i);
      Poly v = A.of(P.getIncomingValue(i));
      if (!L->contains(in)) { c.push_back(me - v); c.push_back(v - me); }
      // comparisons of the latch value or of the phi with loop-invariant bounds
      for (auto* BB : L->blocks()) for (auto& I : *BB) if (auto* IC = dyn_cast<ICmpInst>(&I)) {
        if (!IC->getOperand(0)->getType()->isIntegerTy() && !IC->getOperand(0)->getType()->isPointerTy()) continue;
        if (IC->getOperand(0)->getType()->isIntegerTy(1)) continue;
        Poly a = A.of(IC->getOperand(0)), b = A.of(IC->getOperand(1));
        for (Poly side : {me, v}) for (int sw = 0; sw < 2; sw++) {
          Poly x = sw ? b : a, y = sw ? a : b;
          // bound: solve  x ? y  for side:  side <= y - (x - side)
          Poly bd = y - (x - side);
          if (loopInvariantPoly(bd, L)) { c.push_back(bd - me); c.push_back(bd - Poly::c(1) - me); c.push_back(me - bd); }
        }
      }
    }
  }
  // minima / maxima inside the loop: phi <= operand
  std::vector<Poly> u; for (auto& p : c) { bool dup = false; for (auto& q : u) if (q == p) dup = true; if (!dup && !p.isConst()) u.push_back(p); }
  if (u.size() > 40) u.resize(40);
  return u;
}
bool Tiler::addRegion(TState& st, Region r, Ctx& ctx) {
  if (!ctx.mute) regions++;
  if (r.strict && !A.lt(st.sys, r.lo, r.hi)) {
    err(ctx, r.at, "region [" + A.at.str(r.lo) + ", " + A.at.str(r.hi) + ") is not shown to be non-empty");
    st.failed = true; return false;
  }
  if (!A.le(st.sys, r.lo, r.hi)) {
    if (A.le(st.sys, r.hi, r.lo)) return true;   // empty
    err(ctx, r.at, "region [" + A.at.str(r.lo) + ", " + A.at.str(r.hi) + ") is not shown to be well-formed");
    st.failed = true; return false;
  }
  for (auto& i : st.iv) if (A.eq(st.sys, i.hi, r.lo)) { i.hi = r.hi;
      for (auto& j : st.iv) if (&j != &i && A.eq(st.sys, i.hi, j.lo)) { i.hi = j.hi; st.iv.erase(st.iv.begin() + (&j - &st.iv[0])); break; }
      return true; }
  for (auto& i : st.iv) if (A.eq(st.sys, i.lo, r.hi)) { i.lo = r.lo; return true; }
  st.iv.push_back(r);
  return true;
}
void Tiler::finish(const Instruction* I, TState& st, Ctx& ctx) {
  paths++;
  if (st.failed) return;
  std::vector<Region> v; for (auto& r : st.iv) if (!A.eq(st.sys, r.lo, r.hi)) v.push_back(r);
  if (v.empty()) { if (!A.le(st.sys, RH, RL)) err(ctx, I, "a path covers nothing although " + req + " can be non-empty"); return; }
  if (v.size() > 1) {
    std::string s; for (auto& r : v) s += " [" + A.at.str(r.lo) + ", " + A.at.str(r.hi) + ")";
    err(ctx, I, "covered pieces do not join up:" + s); return;
  }
  if (!A.eq(st.sys, v[0].lo, RL)) err(ctx, I, "coverage starts at " + A.at.str(v[0].lo) + ", required " + A.at.str(RL));
  if (!A.eq(st.sys, v[0].hi, RH)) err(ctx, I, "coverage ends at " + A.at.str(v[0].hi) + ", required " + A.at.str(RH));
}
void Tiler::enterLoop(const Loop* L, const BasicBlock* from, TState st, Ctx& ctx) {
  if (!ctx.mute) loops++;
  auto init = phiMap(L, from);
  auto* H = L->getHeader();
  auto bodyWalk = [&](TState s, bool mute, std::function<void(TState&, const BasicBlock*)> cb) {
    Ctx c; c.check = L; c.onBack = cb; c.mute = mute; c.up = &ctx;
    body(H, H->getFirstNonPHI()->getIterator(), s, c);
  };
  // numeric invariants (Houdini)
  std::vector<Poly> inv;
  for (auto& p : candidates(L)) if (A.le(st.sys, Poly(), A.subst(p, init))) inv.push_back(p);
  for (int round = 0; round < 8; round++) {
    TState s = st; s.iv.clear(); for (auto& p : inv) s.sys.addGe(p);
    std::set<size_t> drop;
    bodyWalk(s, true, [&](TState& e, const BasicBlock* latch) {
      auto m = phiMap(L, latch);
      for (size_t i = 0; i < inv.size(); i++) if (!drop.count(i) && !A.le(e.sys, Poly(), A.subst(inv[i], m))) drop.insert(i);
    });
    if (drop.empty()) break;
    std::vector<Poly> k; for (size_t i = 0; i < inv.size(); i++) if (!drop.count(i)) k.push_back(inv[i]);
    inv = k;
  }
  TState hs = st; for (auto& p : inv) hs.sys.addGe(p);
  if (!hasEvents(L)) { body(H, H->getFirstNonPHI()->getIterator(), hs, ctx); return; }
  // one iteration, starting from nothing
  std::vector<Region> iter; bool multi = false, any = false;
  { TState s = hs; s.iv.clear();
    bodyWalk(s, true, [&](TState& e, const BasicBlock*) {
      std::vector<Region> v; for (auto& r : e.iv) if (!A.eq(e.sys, r.lo, r.hi)) v.push_back(r);
      if (e.failed || v.size() > 1) multi = true;
      if (v.size() == 1) { iter.push_back(v[0]); any = true; }
    }); }
  if (!any) {
    if (multi) { err(ctx, H->getFirstNonPHI(), "one iteration of the loop covers pieces that do not join up"); st.failed = true; return; }
    body(H, H->getFirstNonPHI()->getIterator(), hs, ctx); return;
  }
  std::vector<std::tuple<int, Poly, Poly>> forms;   // kind, E, N
  for (auto& r : iter) {
    forms.push_back({0, r.lo, Poly()});
    // H == min(E, N): N from minima in the upper end
    std::set<int> as; atomsOf(A, r.hi, as);
    for (int id : as) if (A.at.a[id].kind == 'm') for (Poly N : {A.at.a[id].x, A.at.a[id].y}) {
      // hi == min + k
      Poly k = r.hi - Poly::a(id); Poly Nk = N + k;
      if (loopInvariantPoly(Nk, L)) forms.push_back({1, r.lo, Nk});
    }
    forms.push_back({1, r.lo, RH});
    forms.push_back({2, r.hi, Poly()});
  }
  std::string why;
  for (auto& f : forms) {
    int kind = std::get<0>(f); Poly E = std::get<1>(f), N = std::get<2>(f);
    Poly X = kind == 1 ? A.mn(E, N) : E;
    Poly Xi = A.subst(X, init);
    // attach to an existing interval
    TState s0 = st; int at = -1;
    for (size_t i = 0; i < s0.iv.size(); i++) if (A.eq(st.sys, kind == 2 ? s0.iv[i].lo : s0.iv[i].hi, Xi)) { at = i; break; }
    TState s1 = hs;
    if (at >= 0) { if (kind == 2) s1.iv[at].lo = X; else s1.iv[at].hi = X; }
    else { Region r; r.at = H->getFirstNonPHI(); if (kind == 2) { r.lo = X; r.hi = Xi; } else { r.lo = Xi; r.hi = X; } s1.iv.push_back(r); at = (int)s1.iv.size() - 1;
      s1.sys.addGe(r.hi - r.lo); }
    size_t nIv = s1.iv.size();
    bool ok = true;
    bodyWalk(s1, true, [&](TState& e, const BasicBlock* latch) {
      if (!ok) return;
      if (e.failed || e.iv.size() != nIv) { ok = false; return; }
      Poly Xl = A.subst(X, phiMap(L, latch));
      Poly got = kind == 2 ? e.iv[at].lo : e.iv[at].hi;
      if (!A.eq(e.sys, got, Xl)) ok = false;
    });
    if (!ok) continue;
    body(H, H->getFirstNonPHI()->getIterator(), s1, ctx);
    return;
  }
  err(ctx, iter[0].at ? iter[0].at : H->getFirstNonPHI(), "consecutive iterations of the loop do not cover consecutive pieces: an iteration covers [" + A.at.str(iter[0].lo) + ", " + A.at.str(iter[0].hi) + ")");
  st.failed = true;
}
void Tiler::walk(const BasicBlock* BB, const BasicBlock* from, TState st, Ctx& ctx) {
  if (overflow || st.failed) return;
  if (paths > 20000) { overflow = true; return; }
  // leaving the loop under check?
  if (ctx.check && !ctx.check->contains(BB)) return;
  const Loop* L = LI->getLoopFor(BB);
  if (L && L->getHeader() == BB) {
    if (L->contains(from)) { if (ctx.check == L) ctx.onBack(st, from); return; }   // back edge
    enterLoop(L, from, st, ctx);
    return;
  }
  for (auto& P : BB->phis()) if (P.getType()->isIntegerTy() || P.getType()->isPointerTy()) {
    if (P.getType()->isIntegerTy(1)) continue;
    Poly me = A.of(&P), v = A.of(P.getIncomingValueForBlock(from));
    if (me != v) st.sys.addEq(me - v);
  }
  body(BB, BB->getFirstNonPHI()->getIterator(), st, ctx);
}
void Tiler::body(const BasicBlock* BB, BasicBlock::const_iterator it, TState st, Ctx& ctx) {
  for (; it != BB->end(); ++it) {
    const Instruction& I = *it;
    if (I.isTerminator()) break;
    if (auto* S = dyn_cast<SelectInst>(&I)) if (S->getType()->isIntegerTy() && !S->getType()->isIntegerTy(1)) {
      Poly me = A.of(S);
      bool opaque = me.t.size() == 1 && me.t.begin()->first.size() == 1 && A.at.a[me.t.begin()->first[0]].v == S;
      if (opaque) {
        auto nx = std::next(it);
        for (int b = 1; b >= 0; b--) {
          TState s = st; bool ok = true;
          std::vector<Poly> ge, ne; if (A.cmp(S->getCondition(), b, ge, &ne)) { Fact f{S->getCondition(), b == 1, nullptr}; ok = learn(s, f); }
          s.sys.addEq(me - A.of(b ? S->getTrueValue() : S->getFalseValue()));
          if (ok) body(BB, nx, s, ctx);
        }
        return;
      }
    }
    if (auto rs = classify(I, st)) for (auto& r : *rs) { r.at = &I; if (!addRegion(st, r, ctx)) return; }
    if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->doesNotReturn()) return;
  }
  const Instruction* T = BB->getTerminator();
  if (isa<ReturnInst>(T)) { if (!ctx.check) finish(T, st, ctx); return; }
  for (unsigned s = 0; s < T->getNumSuccessors(); s++) {
    const BasicBlock* S = T->getSuccessor(s);
    for (auto& fs : edgeCases(BB, S)) {
      TState n = st; bool ok = true;
      for (auto& f : fs) if (!learn(n, f)) { ok = false; break; }
      if (ok) walk(S, BB, n, ctx);
    }
  }
}
bool Tiler::run(const Poly& lo, const Poly& hi, const Sys& pre) {
  RL = lo; RH = hi; TState st; st.sys = pre; Ctx c;
  if (req.empty()) req = "[" + A.at.str(lo) + ", " + A.at.str(hi) + ")";
  body(&F.getEntryBlock(), F.getEntryBlock().begin(), st, c);
  if (overflow) errs.emplace("overflow", Err{where(&F), "path limit exceeded"});
  return errs.empty();
}
}
