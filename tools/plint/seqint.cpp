#include "seqint.h"
#include "mem.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
#include "llvm/IR/IRBuilder.h"
namespace plint {
static bool isWriteMin(const Instruction& I);
static const DIScope* classScope(const Function& f) {
  auto* sp = f.getSubprogram(); if (!sp) return nullptr;
  if (auto* d = sp->getDeclaration()) sp = d;
  return sp->getScope();
}
static std::string firstArg(StringRef r);
// member function of parlay::sequence / its bases
bool seqMember(const Function& f, std::string& name, std::string& elem) {
  auto* sc = classScope(f); if (!sc) return false;
  auto* c = dyn_cast<DICompositeType>(sc); if (!c) return false;
  StringRef n = c->getName();
  if (!n.starts_with("sequence<")) return false;
  auto* ns = c->getScope(); if (!ns || ns->getName() != "parlay") return false;
  name = f.getSubprogram()->getName().str();
  elem = firstArg(n.drop_front(9));
  return true;
}
static std::string firstArg(StringRef r) { int d = 0; size_t i = 0; for (; i < r.size(); i++) { if (r[i] == '<') d++; else if (r[i] == '>') { if (!d) break; d--; } else if (r[i] == ',' && !d) break; } return r.substr(0, i).str(); }
// member function of the storage behind a sequence
bool storageMember(const Function& f, std::string& name, std::string& elem) {
  auto* sc = classScope(f); auto* c = dyn_cast_or_null<DICompositeType>(sc);
  if (!c || c->getName() != "storage_impl") return false;
  auto* o = dyn_cast_or_null<DICompositeType>(c->getScope());
  if (!o || !o->getName().starts_with("sequence_base<")) return false;
  name = f.getSubprogram()->getName().str(); elem = firstArg(o->getName().drop_front(14));
  return true;
}
// A pointer that walks over an array inside a loop is rewritten to its start plus a counter in elements.
static void indexPointers(Function& F) {
  const DataLayout& DL = F.getParent()->getDataLayout();
  auto* I64 = Type::getInt64Ty(F.getContext());
  for (int round = 0; round < 8; round++) {
    DominatorTree DT(F); LoopInfo LI(DT); bool changed = false;
    auto loops = LI.getLoopsInPreorder();
    for (auto* L : loops) {
      auto* H = L->getHeader();
      for (auto& P : H->phis()) {
        if (!P.getType()->isPointerTy()) continue;
        Value* init = nullptr; bool one = true;
        for (unsigned i = 0; i < P.getNumIncomingValues(); i++) if (!L->contains(P.getIncomingBlock(i))) { if (init && init != P.getIncomingValue(i)) one = false; init = P.getIncomingValue(i); }
        if (!init || !one) continue;
        // the values derived from P that reach its back edges
        Type* ety = nullptr; bool ok = true; std::vector<Instruction*> web{&P}; std::set<Value*> in{&P};
        std::function<void(Value*)> need = [&](Value* v) {
          if (in.count(v) || !ok) return;
          auto* I = dyn_cast<Instruction>(v); if (!I || !L->contains(I)) { ok = false; return; }
          in.insert(v);
          if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
            if (g->getNumIndices() != 1) { ok = false; return; }
            auto* t = g->getSourceElementType(); if (!t->isSized() || (ety && DL.getTypeAllocSize(ety) != DL.getTypeAllocSize(t))) { ok = false; return; }
            ety = t; need(g->getPointerOperand());
          } else if (auto* q = dyn_cast<PHINode>(I)) { if (q->getParent() == H) { ok = false; return; } for (auto& x : q->incoming_values()) need(x); }
          else if (auto* s = dyn_cast<SelectInst>(I)) { need(s->getTrueValue()); need(s->getFalseValue()); }
          else { ok = false; return; }
          web.push_back(I);
        };
        for (unsigned i = 0; i < P.getNumIncomingValues() && ok; i++) if (L->contains(P.getIncomingBlock(i))) need(P.getIncomingValue(i));
        if (!ok || !ety || DL.getTypeAllocSize(ety) == 0) continue;
        std::map<Value*, Value*> idx; std::vector<std::pair<PHINode*, PHINode*>> fill;
        IRBuilder<> B(F.getContext());
        auto at = [&](Instruction* I) -> IRBuilder<>& { if (isa<PHINode>(I)) B.SetInsertPoint(I->getParent(), I->getParent()->getFirstInsertionPt()); else B.SetInsertPoint(I); B.SetCurrentDebugLocation(I->getDebugLoc()); return B; };
        auto mkPhi = [&](PHINode* p) { auto* q = PHINode::Create(I64, p->getNumIncomingValues(), "", p); q->setDebugLoc(p->getDebugLoc()); fill.push_back({p, q}); return q; };
        std::function<Value*(Value*)> mk = [&](Value* v) -> Value* {
          auto it = idx.find(v); if (it != idx.end()) return it->second;
          if (auto* g = dyn_cast<GetElementPtrInst>(v)) { auto* b = mk(g->getPointerOperand()); auto& B = at(g); return idx[v] = B.CreateAdd(b, B.CreateSExtOrTrunc(g->getOperand(1), I64)); }
          if (auto* q = dyn_cast<PHINode>(v)) return idx[v] = mkPhi(q);
          auto* s = cast<SelectInst>(v); auto *a = mk(s->getTrueValue()), *b = mk(s->getFalseValue()); return idx[v] = at(s).CreateSelect(s->getCondition(), a, b);
        };
        idx[&P] = mkPhi(&P);
        for (auto* v : web) mk(v);
        for (size_t k = 0; k < fill.size(); k++) { auto [p, q] = fill[k]; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) q->addIncoming(p == &P && !L->contains(p->getIncomingBlock(i)) ? (Value*)ConstantInt::get(I64, 0) : mk(p->getIncomingValue(i)), p->getIncomingBlock(i)); }
        std::map<Instruction*, Value*> rep;
        for (auto* v : web) { at(isa<PHINode>(v) ? v : v->getNextNode()); B.SetCurrentDebugLocation(v->getDebugLoc()); rep[v] = B.CreateGEP(ety, init, idx[v]); }
        for (auto& kv : rep) kv.first->replaceAllUsesWith(kv.second);
        for (auto& kv : rep) kv.first->replaceAllUsesWith(PoisonValue::get(kv.first->getType()));
        for (auto* v : web) v->dropAllReferences();
        for (auto* v : web) v->eraseFromParent();
        changed = true; break;
      }
      if (changed) break;
    }
    if (!changed) return;
  }
}
SeqInt::SeqInt(Function& f) : F(f) {
  indexPointers(F);
  DT = std::make_unique<DominatorTree>(F); LI = std::make_unique<LoopInfo>(*DT);
  A.DL = &F.getParent()->getDataLayout();
  A.hook = [this](const Value* v) -> std::optional<Poly> {
    if (auto* I = dyn_cast<Instruction>(v)) {
      auto i1 = [](const Value* x) { return x->getType()->isIntegerTy(1); };
      if ((isa<ZExtInst>(I) || isa<FreezeInst>(I)) && i1(I->getOperand(0))) {
        auto* o = I->getOperand(0);
        if (isa<ICmpInst>(o) || isa<SelectInst>(o) || (isa<BinaryOperator>(o) && cast<Instruction>(o)->getOpcode() != Instruction::Xor)) return std::nullopt;
        return A.of(o);
      }
      if (boolBytes && I->getOpcode() == Instruction::And && I->getType()->isIntegerTy(8) && isa<LoadInst>(I->getOperand(0))) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->isOne()) return A.of(I->getOperand(0));
      std::function<bool(const Value*)> isBool = [&](const Value* x) -> bool {
        if (i1(x)) return true;
        if (auto* Z = dyn_cast<ZExtInst>(x)) return isBool(Z->getOperand(0));
        if (auto* T = dyn_cast<TruncInst>(x)) return isBool(T->getOperand(0));
        if (auto* B = dyn_cast<BinaryOperator>(x); B && B->getOpcode() == Instruction::And) if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)); C && C->isOne()) return true;
        if (auto* B = dyn_cast<BinaryOperator>(x); B && B->getOpcode() == Instruction::Xor) if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)); C && C->isOne()) return isBool(B->getOperand(0));
        return boolBytes && x->getType()->isIntegerTy(8) && isa<LoadInst>(x);
      };
      if (!i1(I) && I->getOpcode() == Instruction::Xor && isBool(I->getOperand(0))) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->isOne()) return Poly::c(1) - A.of(I->getOperand(0));
      if (i1(I)) {
        if (I->getOpcode() == Instruction::Xor) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->isOne()) return Poly::c(1) - A.of(I->getOperand(0));
        if (isa<TruncInst>(I) && boolBytes && I->getOperand(0)->getType()->isIntegerTy(8) && isa<LoadInst>(I->getOperand(0))) return A.of(I->getOperand(0));
        if (isa<TruncInst>(I)) { Poly x = A.of(I->getOperand(0)); return x - scale(A.dv(x, Poly::c(2)), 2); }
      }
    }
    if (auto* C = dyn_cast<ConstantInt>(v)) if (C->getBitWidth() == 1) return Poly::c(C->isOne());
    if (raw) {   // lengths stay below 2^48
      if (auto* T = dyn_cast<TruncInst>(v); T && T->getType()->isIntegerTy(48)) { Poly x = A.of(T->getOperand(0)); auto it = x.t.find({}); if (it != x.t.end() && it->second >= (int64_t(1) << 47)) it->second -= int64_t(1) << 48; return x; }
      if (auto* B = dyn_cast<BinaryOperator>(v); B && B->getOpcode() == Instruction::And) if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1)); C && C->getValue().isMask(48)) { Poly x = A.of(B->getOperand(0)); auto it = x.t.find({}); if (it != x.t.end() && it->second >= (int64_t(1) << 47)) it->second -= int64_t(1) << 48; return x; }
      return std::nullopt;
    }
    if (auto* cb = dyn_cast<CallBase>(v)) if (auto* c = cb->getCalledFunction()) {
      std::string n, e; if (!seqMember(*c, n, e) && !storageMember(*c, n, e)) return std::nullopt;
      int64_t es = elemSize(e); if (!es || cb->arg_size() < 1) return std::nullopt;
      auto base = [&]() { return Poly::a(arrs[seqArr(cb->getArgOperand(0), es)].base); };
      auto len = [&]() { return arrs[seqArr(cb->getArgOperand(0), es)].size; };
      if (n == "operator[]" || n == "at") return base() + scale(A.of(cb->getArgOperand(1)), es);
      if (n == "begin" || n == "data" || n == "cbegin") return base();
      if (n == "end" || n == "cend") return base() + scale(len(), es);
      if (n == "size") return len();
    }
    return std::nullopt;
  };
  // sequence objects connected by a move share their storage
  for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* c = cb->getCalledFunction()) {
    std::string n, e; if (!seqMember(*c, n, e)) continue;
    if (n == "sequence" && dem(c).find("&&)") != std::string::npos && cb->arg_size() == 2) {
      auto key = [&](const Value* v) { Loc l = locOf(*A.DL, v); char b[64]; snprintf(b, 64, "%p+%ld", (void*)l.root, (long)l.off); return std::string(b); };
      std::string a = key(cb->getArgOperand(0)), b = key(cb->getArgOperand(1));
      while (uf.count(b)) b = uf[b]; while (uf.count(a)) a = uf[a];
      if (a != b) uf[a] = b;
    }
  }
}
int64_t SeqInt::elemSize(StringRef e) {
  if (e == "double" || e == "unsigned long" || e == "long" || e.ends_with("*")) return 8;
  if (e == "int" || e == "unsigned int" || e == "float") return 4;
  if (e == "bool" || e == "char" || e == "unsigned char") return 1;
  return 0;
}
int SeqInt::addArr(const SArr& a) { arrs.push_back(a); byBase[a.base] = (int)arrs.size() - 1; return (int)arrs.size() - 1; }
int SeqInt::virt(const std::string& name) {
  auto it = virts.find(name); if (it != virts.end()) return it->second;
  SArr a; a.name = name; a.base = A.fresh(name).t.begin()->first[0]; return virts[name] = addArr(a);
}
int SeqInt::baseAtom(const Value* p) { Poly q = A.of(p); return q.t.begin()->first.at(0); }
std::string SeqInt::seqName(const Value* v) {
  Loc l = locOf(*A.DL, v); char b[64]; snprintf(b, 64, "%p+%ld", (void*)l.root, (long)l.off); std::string s = b;
  while (uf.count(s)) s = uf[s];
  return s;
}
int SeqInt::seqArr(const Value* obj, int64_t es) {
  std::string n = seqName(obj);
  Atoms::A p; p.kind = 'r'; int id = A.at.get("data(" + n + ")", p);
  auto it = byBase.find(id); if (it != byBase.end()) return it->second;
  SArr a; a.base = id; a.esz = es; a.role = SArr::Internal; a.size = Poly::a(A.at.get("len(" + n + ")", p)); a.hasSize = true;
  Loc l = locOf(*A.DL, obj); a.name = "sequence object"; 
  return addArr(a);
}
void SeqInt::error(const Instruction* I, const std::string& rule, const std::string& m) {
  if (mute) return;
  std::string w = I ? where(I) : where(&F);
  errs.emplace(w + "|" + rule, Err{rule, w, m});
}
std::string SeqInt::str(const AV& v) {
  switch (v.k) { case AV::Top: return "an unknown value"; case AV::Id: return "identity"; case AV::Num: return A.at.str(v.lo);
    case AV::Seg: return (v.arr >= 0 ? arrs[v.arr].name : std::string("?")) + "[" + A.at.str(v.lo) + " .. " + A.at.str(v.hi) + ")"; }
  return "";
}
Poly SeqInt::simp(const Sys& s, const Poly& p) {
  Poly q = p;
  for (int it = 0; it < 8; it++) {
    int id = -1; Poly to;
    A.mentions(q, [&](int x) { if (id >= 0) return false; auto a = A.at.a[x]; if (a.kind != 'm' && a.kind != 'M') return false;
      if (A.le(s, a.x, a.y)) { id = x; to = a.kind == 'm' ? a.x : a.y; } else if (A.le(s, a.y, a.x)) { id = x; to = a.kind == 'm' ? a.y : a.x; } return false; });
    if (id < 0) break;
    q = A.subst(q, {{id, to}});
  }
  return q;
}
AV SeqInt::substAV(const AV& v, const std::map<int, Poly>& m) { AV r = v; r.lo = A.subst(v.lo, m); r.hi = A.subst(v.hi, m); return r; }
std::optional<Atoms::A> SeqInt::codeOf(SState& st, const Poly& p) {
  auto is = [&](const Poly& q) -> std::optional<Atoms::A> { if (q.t.size() == 1 && q.t.begin()->second == 1 && q.t.begin()->first.size() == 1) if (auto a = A.at.a[q.t.begin()->first[0]]; a.kind == 'c') return a; return std::nullopt; };
  if (auto a = is(p)) return a;
  std::set<Poly> all(st.sys.ge.begin(), st.sys.ge.end());
  for (auto& q : all) if (all.count(scale(q, -1))) { if (auto a = is(p - q)) return a; }
  return std::nullopt;
}
AV SeqInt::inst(const Fill& f, const Poly& idx) { return f.var < 0 ? AV() : substAV(f.val, {{f.var, idx}}); }
bool SeqInt::eq(SState& st, const Poly& a, const Poly& b) {
  if (A.eq(st.sys, a, b)) return true;
  Poly x = simp(st.sys, a), y = simp(st.sys, b);
  return (x != a || y != b) && A.eq(st.sys, x, y);
}
bool SeqInt::same(SState& st, const AV& a, const AV& b) {
  if (a.k == AV::Top || b.k == AV::Top) return false;
  auto empty = [&](const AV& v) { return v.k == AV::Id || (v.k == AV::Seg && eq(st, v.lo, v.hi)); };
  if (a.k == AV::Num || b.k == AV::Num) return a.k == b.k && eq(st, a.lo, b.lo);
  if (a.k == AV::Seg && b.k == AV::Seg && a.arr == b.arr && eq(st, a.lo, b.lo) && eq(st, a.hi, b.hi)) return true;
  for (auto* x : {&a, &b}) if (x->k == AV::Seg) if (auto sn = snaps.find(x->arr); sn != snaps.end() && eq(st, x->hi, x->lo + Poly::c(1))) {
    auto cs = pieces(st.sys, sn->second.first, sn->second.second, x->lo); if (cs.empty() || cs.size() > 8) return false;
    for (auto& c : cs) { SState q; q.sys = c.first; if (!same(q, c.second, x == &a ? b : a)) return false; }
    return true;
  }
  return empty(a) && empty(b);
}
AV SeqInt::val(SState& st, const Value* v) {
  auto it = st.env.find(v); if (it != st.env.end()) return it->second;
  return AV();
}
AV SeqInt::combine(SState& st, const AV& a, const AV& b, const Instruction* I) {
  if (!mute) counts["combinations"]++;
  if (a.k == AV::Id) return b;
  if (b.k == AV::Id) return a;
  if (a.k != AV::Seg || b.k != AV::Seg) { error(I, "in-order", "combines " + str(a) + " with " + str(b)); return AV(); }
  if (a.open && a.arr < 0) { st.binds.push_back({a.open, b.lo}); AV r = AV::seg(b.arr, a.lo, b.hi); r.open = a.open; return r; }
  if (a.arr == b.arr && A.eq(st.sys, a.hi, b.lo)) { AV r = a; r.hi = b.hi; return r; }
  auto empty = [&](const AV& v) { return A.eq(st.sys, v.lo, v.hi); };
  if (empty(a)) return b; if (empty(b)) return a;
  error(I, "in-order", "combines " + str(a) + " with " + str(b) + ", which are not consecutive in this order");
  return AV();
}
bool SeqInt::locate(SState& st, const Poly& ptr, int& arr, Poly& idx) {
  for (auto& kv : ptr.t) if (kv.first.size() == 1 && kv.second == 1) {
    auto it = byBase.find(kv.first[0]); if (it == byBase.end()) continue;
    Poly off = ptr - Poly::a(kv.first[0]); int64_t es = arrs[it->second].esz;
    for (auto& t : off.t) if (t.second % es) return false;
    for (auto& t : off.t) t.second /= es;
    arr = it->second; idx = off; return true;
  }
  // a pointer chosen on this path
  bool opaque = false; for (auto& kv : ptr.t) if (kv.first.size() == 1) if (auto* v = A.at.a[kv.first[0]].v; v && v->getType()->isPointerTy()) opaque = true;
  if (opaque) if (auto p = A.express(st.sys, ptr, [&](int id) { auto* v = A.at.a[id].v; return byBase.count(id) || !v || (!v->getType()->isPointerTy() && !isa<SelectInst>(v)); }); p && *p != ptr) for (auto& t : p->t) if (t.first.size() == 1 && byBase.count(t.first[0])) return locate(st, *p, arr, idx);
  if (opaque) if (auto p = A.express(st.sys, ptr, [&](int id) { return byBase.count(id) || !A.at.a[id].v || !A.at.a[id].v->getType()->isPointerTy(); }); p && *p != ptr) return locate(st, *p, arr, idx);
  return false;
}
// the value of a slot, case by case over the pieces it may lie in
std::vector<std::pair<Sys, AV>> SeqInt::pieces(const Sys& sys, int init, const std::vector<Fill>& fs, const Poly& idx) {
  std::vector<std::pair<Sys, AV>> cs;
  std::function<void(const Sys&, size_t)> go = [&](const Sys& q, size_t n) {
    if (cs.size() > 8 || A.unsat(q, 2)) return;
    if (!n) { cs.push_back({q, init < 0 ? AV::id() : AV::seg(init, idx, idx + Poly::c(1))}); return; }
    auto& g = fs[n - 1];
    if (A.lt(q, idx, g.lo) || A.le(q, g.hi, idx)) { go(q, n - 1); return; }
    Sys in = q; in.addGe(idx - g.lo); in.addGe(g.hi - Poly::c(1) - idx); if (!A.unsat(in, 2)) cs.push_back({in, g.var < 0 ? AV() : inst(g, idx)});
    Sys lo = q; lo.addGe(g.lo - Poly::c(1) - idx); go(lo, n - 1);
    Sys hi = q; hi.addGe(idx - g.hi); go(hi, n - 1);
  };
  go(sys, fs.size());
  return cs;
}
AV SeqInt::read(SState& st, int arr, const Poly& idx, const Instruction* I) {
  SArr& a = arrs[arr];
  if (!mute) counts["reads"]++;
  if (raw && st.freed.count(arr)) error(I, "use-after-free", "accesses " + a.name + " after it was given back");
  if (a.hasSize && !mute && !(A.le(st.sys, Poly(), idx) && A.lt(st.sys, idx, a.size)))
    error(I, "in-bounds", "reads " + a.name + "[" + A.at.str(idx) + "], not shown to lie below its length " + A.at.str(a.size));
  if (!mute) for (auto& p : pars) if (p.L->contains(I->getParent())) {
    auto r = p.reg.find(arr); if (r == p.reg.end()) continue;
    bool own = false; for (auto& x : r->second) if (A.le(st.sys, x.first, idx) && A.lt(st.sys, idx, x.second)) own = true;
    if (!own) {   // or a place that no iteration writes
      std::map<int, Poly> other; for (auto& P : p.L->getHeader()->phis()) if (P.getType()->isIntegerTy() || P.getType()->isPointerTy()) { Poly me = A.of(&P); if (me.t.size() == 1) other[me.t.begin()->first[0]] = A.fresh("other"); }
      Sys q = st.sys; for (auto& g : st.sys.ge) { Poly h = A.subst(g, other); if (h != g && invariant(h, p.L)) q.addGe(h); }
      own = true;
      for (auto& x : r->second) { Poly lo = A.subst(x.first, other), hi = A.subst(x.second, other); if (!invariant(lo, p.L) || !invariant(hi, p.L) || !(A.lt(q, idx, lo) || A.le(q, hi, idx))) own = false; }
    }
    if (!own)
      error(I, "independent-iterations", "a parallel iteration reads " + a.name + "[" + A.at.str(idx) + "], which another iteration may write");
  }
  auto& fs = st.fills[arr];
  for (size_t i = fs.size(); i-- > 0;) {
    auto& f = fs[i];
    if (A.lt(st.sys, idx, f.lo) || A.le(st.sys, f.hi, idx)) continue;
    if (A.le(st.sys, f.lo, idx) && A.lt(st.sys, idx, f.hi)) return f.var < 0 ? AV() : inst(f, idx);
    if (raw) {   // the slot may belong to one of several pieces
      std::vector<Fill> rest; for (size_t k = 0; k <= i; k++) if (!A.lt(st.sys, idx, fs[k].lo) && !A.le(st.sys, fs[k].hi, idx)) rest.push_back(fs[k]);
      auto cs = pieces(st.sys, a.role == SArr::Internal ? -1 : arr, rest, idx);
      if (cs.empty() || cs.size() > 8) return AV();
      for (auto& c : cs) { bool all = c.second.k != AV::Top; for (auto& d : cs) { SState q; q.sys = d.first; all = all && same(q, d.second, c.second); } if (all) return c.second; }
      for (auto& c : cs) if (c.second.k != AV::Seg) return AV();
      std::string key = a.name + std::to_string(arr); const Loop* L = LI->getLoopFor(I->getParent());
      for (auto& f : rest) { if (L && (!invariant(f.lo, L) || !invariant(f.hi, L) || !invariant(substAV(f.val, {}).lo, L))) return AV(); AV v = f.var < 0 ? AV() : inst(f, Poly::a(A.at.get("@", Atoms::A()))); key += "|" + A.at.str(f.lo) + "," + A.at.str(f.hi) + "=" + str(v); }
      int sn = virt(key); snaps[sn] = {a.role == SArr::Internal ? -1 : arr, rest};
      arrs[sn].name = "earlier content of " + arrs[arr].name;
      return AV::seg(sn, idx, idx + Poly::c(1));
    }
    return AV();
  }
  switch (a.role) {
    case SArr::Input: case SArr::InOut: return AV::seg(arr, idx, idx + Poly::c(1));
    case SArr::Flags: { if (flagReads) flagReads->insert({a.key, idx}); return AV::num(A.pf(a.key, idx + Poly::c(1)) - A.pf(a.key, idx)); }
    case SArr::Codes: { return AV::num(A.code(a.key, idx)); }
    case SArr::Ints: return AV();
    default: if (raw) return AV::id(); error(I, "initialised", "reads a slot of " + a.name + " that is not shown to have been written: [" + A.at.str(idx) + "]"); return AV();
  }
}
void SeqInt::addFill(SState& st, int arr, Fill f) {
  auto& fs = st.fills[arr];
  auto sameLam = [&](const Fill& x, const Fill& y) {   // x's content formula holds on y's interval
    if ((x.var < 0) != (y.var < 0)) return false;
    if (x.var < 0) return true;
    AV b = substAV(y.val, {{y.var, Poly::a(x.var)}});
    if (x.val.k == b.k && x.val.arr == b.arr && x.val.lo == b.lo && x.val.hi == b.hi && x.val.k != AV::Top) return true;
    SState s2; s2.sys = st.sys;
    if (A.eq(st.sys, y.hi, y.lo + Poly::c(1))) { std::map<int, Poly> at{{x.var, y.lo}}; return same(s2, substAV(x.val, at), substAV(b, at)); }
    s2.sys.addGe(Poly::a(x.var) - y.lo); s2.sys.addGe(y.hi - Poly::c(1) - Poly::a(x.var)); return same(s2, x.val, b);
  };
  if (raw) for (size_t i = fs.size(); i-- > 0;) if (fs[i].gen == f.gen && A.eq(st.sys, fs[i].lo, f.lo) && A.eq(st.sys, fs[i].hi, f.hi)) { fs.erase(fs.begin() + i); break; }   // a later state of the same slots
  for (size_t i = 0; i < fs.size(); i++) {
    auto& o = fs[i]; if (o.gen != f.gen) continue;
    if (raw) { bool over = false; for (size_t j = i + 1; j < fs.size(); j++) if (!A.le(st.sys, f.hi, fs[j].lo) && !A.le(st.sys, fs[j].hi, f.lo)) over = true; if (over) continue; }   // must stay newer than what it overwrites
    if (A.eq(st.sys, o.hi, f.lo) && sameLam(o, f)) { o.hi = f.hi;
      for (size_t j = 0; j < fs.size(); j++) if (j != i && fs[j].gen == f.gen && A.eq(st.sys, fs[i].hi, fs[j].lo) && sameLam(fs[i], fs[j])) { fs[i].hi = fs[j].hi; fs.erase(fs.begin() + j); break; }
      return; }
    if (A.eq(st.sys, f.hi, o.lo) && sameLam(o, f)) { o.lo = f.lo; return; }
  }
  fs.push_back(f);
}
void SeqInt::write(SState& st, int arr, const Poly& idx, const AV& v, const Instruction* I) {
  SArr& a = arrs[arr];
  if (!mute) counts["writes"]++;
  if (raw && st.freed.count(arr)) error(I, "use-after-free", "accesses " + a.name + " after it was given back");
  if (a.role == SArr::Input || a.role == SArr::Flags || a.role == SArr::Codes) if (!a.covered) { error(I, "input-untouched", "writes to " + a.name); return; }
  if (a.hasSize && !mute && !(A.le(st.sys, Poly(), idx) && A.lt(st.sys, idx, a.size)))
    error(I, "in-bounds", "writes " + a.name + "[" + A.at.str(idx) + "], not shown to lie below its length " + A.at.str(a.size));
  if (!mute && a.covered && onOut) { std::string e = onOut(*this, st, arr, idx, v); if (!e.empty()) error(I, "right-value", "stores " + str(v) + " at " + a.name + "[" + A.at.str(idx) + "]: " + e); }
  Fill f; f.lo = idx; f.hi = idx + Poly::c(1); f.gen = st.gen; f.at = I;
  if (a.covered) {
    for (auto& o : st.fills[arr]) if (!mute && !(A.lt(st.sys, idx, o.lo) || A.le(st.sys, o.hi, idx) )) { error(I, "written-once", "may write " + a.name + "[" + A.at.str(idx) + "] twice"); break; }
    addFill(st, arr, f); return; }
  // content as a function of the index: pick a counter of the innermost loop occurring in the index
  const Loop* L = LI->getLoopFor(I->getParent());
  f.var = (int)A.fresh("k").t.begin()->first[0];
  f.val = v;
  Poly ix = idx;
  for (const Loop* l = L; l; l = l->getParentLoop()) {
    std::optional<Poly> ex = headerForm(st, ix, l); if (!ex) continue;
    bool done = false;
    for (auto& P : l->getHeader()->phis()) {
      if (!P.getType()->isIntegerTy(64) && !P.getType()->isPointerTy() && !P.getType()->isIntegerTy(32)) continue;
      Poly me = A.of(&P); if (me.t.size() != 1) continue; int id = me.t.begin()->first[0];
      auto it = ex->t.find({id}); if (it == ex->t.end() || (it->second != 1 && it->second != -1)) continue;
      int64_t sg = it->second; Poly rest = *ex - scale(me, sg); if (A.mentions(rest, [&](int x) { return x == id; })) continue;
      auto hv = headerForm(st, v, l, -1);
      AV vv = hv ? *hv : v;
      f.val = substAV(vv, {{id, scale(Poly::a(f.var) - rest, sg)}}); done = true; break;
    }
    if (done) break;
  }
  addFill(st, arr, f);
}
std::optional<AV> SeqInt::headerForm(SState& st, const AV& v, const Loop* L, int extra) {
  if (v.k == AV::Top || v.k == AV::Id) return v;
  auto a = headerForm(st, v.lo, L, extra); if (!a) return std::nullopt;
  AV r = v; r.lo = *a;
  if (v.k == AV::Seg) { auto b = headerForm(st, v.hi, L, extra); if (!b) return std::nullopt; r.hi = *b; }
  return r;
}
std::optional<Poly> SeqInt::headerForm(SState& st, const Poly& p, const Loop* L, int extra) {
  return A.express(st.sys, p, [&](int id) {
    if (id == extra) return true;
    auto* I = dyn_cast_or_null<Instruction>(A.at.a[id].v); if (!I) return true;
    if (!L->contains(I)) return true;
    return isa<PHINode>(I) && I->getParent() == L->getHeader();
  });
}
bool SeqInt::invariant(const Poly& p, const Loop* L) {
  return !A.mentions(p, [&](int id) { auto* I = dyn_cast_or_null<Instruction>(A.at.a[id].v); return I && L->contains(I); });
}
bool SeqInt::summary(const Fill& f, const Sys& s, AV& out) {
  if (f.var < 0 || f.val.k != AV::Seg) return false;
  Sys q = s; Poly k = Poly::a(f.var); q.addGe(k - f.lo); q.addGe(f.hi - k - Poly::c(2));
  Poly nlo = A.subst(f.val.lo, {{f.var, k + Poly::c(1)}});
  if (!A.eq(q, f.val.hi, nlo)) return false;
  out = AV::seg(f.val.arr, A.subst(f.val.lo, {{f.var, f.lo}}), A.subst(f.val.hi, {{f.var, f.hi - Poly::c(1)}}));
  return true;
}
bool SeqInt::telescope(SState& st, const Fill& f, Poly& G) {
  if (f.var < 0 || f.val.k != AV::Num) return false;
  // candidates: negative part at k, positive part shifted back
  Poly pos, neg, both = f.val.lo;
  for (auto& t : both.t) { Poly m; m.t[t.first] = t.second < 0 ? -t.second : t.second; if (t.second > 0) pos = pos + m; else neg = neg + m; }
  Poly k = Poly::a(f.var);
  std::vector<Poly> c{A.subst(pos, {{f.var, k - Poly::c(1)}}), neg};
  std::vector<Poly> ts; for (auto& t : both.t) { Poly m; m.t[t.first] = t.second; ts.push_back(m); }
  if (ts.size() <= 6) for (int mask = 1; mask < (1 << ts.size()) - 1; mask++) {
    Poly s0, s1; for (size_t i = 0; i < ts.size(); i++) if (mask >> i & 1) s0 = s0 - ts[i]; else s1 = s1 + ts[i];
    Poly back = A.subst(s1, {{f.var, k - Poly::c(1)}});
    // the two halves must have the same number of terms to be the same function one step apart
    if (s0.t.size() == s1.t.size()) { c.push_back(s0); c.push_back(back); }
  }
  for (auto& g : c) {
    Sys q = st.sys; q.addGe(k - f.lo); q.addGe(f.hi - k - Poly::c(1));
    if (A.eq(q, A.subst(g, {{f.var, k + Poly::c(1)}}) - g, f.val.lo)) { G = g; return true; }
  }
  return false;
}
bool SeqInt::coversExactly(SState& st, int arr, const Poly& lo, const Poly& hi, std::string& why) {
  std::vector<Fill> v; for (auto& f : st.fills[arr]) if (!eq(st, f.lo, f.hi)) v.push_back(f);
  // join across generations
  for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < v.size() && !ch; i++) for (size_t j = 0; j < v.size() && !ch; j++) if (i != j && eq(st, v[i].hi, v[j].lo)) { v[i].hi = v[j].hi; v.erase(v.begin() + j); ch = true; } }
  if (v.empty()) { if (A.le(st.sys, hi, lo)) return true; why = "nothing is written although there may be something to write"; return false; }
  if (v.size() > 1) { why = "written pieces do not join up:"; for (auto& f : v) why += " [" + A.at.str(f.lo) + ", " + A.at.str(f.hi) + ")"; return false; }
  if (!eq(st, v[0].lo, lo) || !eq(st, v[0].hi, hi)) { why = "[" + A.at.str(v[0].lo) + ", " + A.at.str(v[0].hi) + ") is written, required [" + A.at.str(lo) + ", " + A.at.str(hi) + ")"; return false; }
  return true;
}
// ---------------------------------------------------------------- execution
void SeqInt::applyNe(SState& st) {
  for (size_t i = 0; i < st.ne.size();) {
    Poly p = st.ne[i];
    if (A.le(st.sys, Poly(), p)) { st.sys.addGe(p - Poly::c(1)); st.ne.erase(st.ne.begin() + i); continue; }
    if (A.le(st.sys, p, Poly())) { st.sys.addGe(Poly::c(-1) - p); st.ne.erase(st.ne.begin() + i); continue; }
    i++;
  }
}
bool SeqInt::wrapped(SState& st, const Poly& p) {
  bool neg = false; for (auto& t : p.t) if (t.second < 0) neg = true;
  return neg && !A.le(st.sys, Poly(), p);
}
bool SeqInt::learn(SState& st, const Fact& f) {
  std::vector<Poly> ge, ne;
  // comparison of a code with a constant: indicator of that code
  if (auto* IC = dyn_cast<ICmpInst>(f.cond); IC && IC->isEquality()) {
    for (int o = 0; o < 2; o++) {
      Poly x = A.of(IC->getOperand(o)), c = A.of(IC->getOperand(1 - o));
      if (!c.isConst()) continue;
      if (auto e = codeOf(st, x)) {
        auto at = *e;
        bool isEq = (IC->getPredicate() == ICmpInst::ICMP_EQ) == f.val;
        std::string key = at.key + "=" + std::to_string(c.k());
        if (flagReads) flagReads->insert({key, at.x});
        Poly d = A.pf(key, at.x + Poly::c(1)) - A.pf(key, at.x);
        st.sys.addEq(d - Poly::c(isEq));
        if (isEq) for (auto& a : A.at.a) if (a.kind == 'p' && a.key != key && a.key.compare(0, at.key.size() + 1, at.key + "=") == 0 && a.x == at.x) st.sys.addEq(A.pf(a.key, at.x + Poly::c(1)) - A.pf(a.key, at.x));
      }
    }
  }
  if (auto* IC = dyn_cast<ICmpInst>(f.cond); noWrap && IC && IC->isUnsigned()) {   // x-1 wraps to the maximum when x is zero
    Poly a = A.of(IC->getOperand(0)), b = A.of(IC->getOperand(1)); bool na = wrapped(st, a), nb = wrapped(st, b);
    if (na || nb) {
      auto pr = IC->getPredicate(); bool less = pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_ULE, strict = pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_UGT;
      // one maximal side and (presumably) one that is not: the comparison has a fixed outcome there
      if (na && nb) return true;
      bool atMax = na ? !less : less; if (na && less && !strict) return true; if (nb && !less && !strict) return true;
      if (atMax == f.val) return true;                       // either the wrapped case or the comparison: nothing to conclude
      st.sys.addGe(na ? a : b);
    }
  }
  if (A.cmp(f.cond, f.val, ge, &ne)) {
    auto load = [&](int id) { auto* I = dyn_cast_or_null<Instruction>(A.at.a[id].v); return I && isa<LoadInst>(I); };
    auto known = [&](const Poly& p, bool exact) {   // what was loaded, by what is known to be there: common factors show
      if (!A.mentions(p, load)) return p;
      auto q = A.express(st.sys, p, [&](int id) { return !load(id); }); return q ? Arith::reduced(*q, exact) : p;
    };
    for (auto& p : ge) { st.sys.addGe(p); Poly q = known(p, false); if (q != p) st.sys.addGe(q); }
    for (auto& p : ne) st.ne.push_back(known(p, true));
  }
  if (f.cond->getType()->isIntegerTy(1) && !isa<Constant>(f.cond)) st.sys.addEq(A.of(f.cond) - Poly::c(f.val));
  if (auto it = st.alias.find(f.cond); it != st.alias.end() && !isa<Constant>(it->second)) { Fact g = f; g.cond = it->second; if (!learn(st, g)) return false; }
  if (!st.ne.empty()) applyNe(st);
  return !A.unsat(st.sys, 2);
}
std::map<int, Poly> SeqInt::phiMap(const Loop* L, const BasicBlock* from) {
  std::map<int, Poly> m;
  for (auto& P : L->getHeader()->phis()) {
    if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy()) continue;
    Poly me = A.of(&P); if (me.t.size() != 1 || me.t.begin()->first.size() != 1) continue;
    m[me.t.begin()->first[0]] = A.of(P.getIncomingValueForBlock(from));
  }
  return m;
}
std::map<int, Poly> SeqInt::stepBack(const Loop* L) {
  std::map<int, Poly> m;
  for (auto& P : L->getHeader()->phis()) {
    if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy()) continue;
    Poly me = A.of(&P); if (me.t.size() != 1 || me.t.begin()->first.size() != 1) continue;
    for (unsigned i = 0; i < P.getNumIncomingValues(); i++) if (L->contains(P.getIncomingBlock(i))) {
      Poly d = A.of(P.getIncomingValue(i)) - me; if (invariant(d, L)) m[me.t.begin()->first[0]] = me - d;
    }
  }
  return m;
}
// expressions that may equal p on one path and q on another: the smaller or larger of the parts that differ
static std::vector<Poly> unify(Arith& A, const Poly& p, const Poly& q) {
  Poly d = p - q, a, b;
  for (auto& t : d.t) { Poly m; m.t[t.first] = t.second < 0 ? -t.second : t.second; if (t.second > 0) a = a + m; else b = b + m; }
  Poly rest = p - a;
  auto one = [&](const Poly& x) -> const Atoms::A* { if (x.t.size() != 1 || x.t.begin()->first.size() != 1 || x.t.begin()->second != 1) return nullptr; auto& at = A.at.a[x.t.begin()->first[0]]; return at.kind == 'p' ? &at : nullptr; };
  auto *pa = one(a), *pb = one(b); std::vector<Poly> r;
  if (pa && pb && pa->key == pb->key) { std::string key = pa->key; Poly x = pa->x, y = pb->x; r.push_back(rest + A.pf(key, A.mn(x, y))); }
  else { r.push_back(A.mn(p, q)); r.push_back(A.mx(p, q)); }
  return r;
}
void markParallel(Module& M) {   // remember which loops come from parallel_for before they are inlined
  auto& C = M.getContext();
  for (auto& F : M) {
    if (F.isDeclaration() || !F.getSubprogram() || !F.getSubprogram()->getName().starts_with("parallel_for")) continue;
    DominatorTree DT(F); LoopInfo LI(DT);
    for (auto* L : LI.getLoopsInPreorder()) {
      if (L->getParentLoop()) continue;
      SmallVector<Metadata*, 4> ops{nullptr};
      if (auto* id = L->getLoopID()) for (unsigned i = 1; i < id->getNumOperands(); i++) ops.push_back(id->getOperand(i));
      ops.push_back(MDNode::get(C, MDString::get(C, "plint.parallel")));
      auto* id = MDNode::getDistinct(C, ops); id->replaceOperandWith(0, id); L->setLoopID(id);
    }
  }
}
bool SeqInt::isParallel(const Loop* L) {
  for (auto* BB : L->blocks()) for (auto* s : successors(BB)) if (s == L->getHeader())
    if (auto* id = BB->getTerminator()->getMetadata(LLVMContext::MD_loop))
      for (unsigned i = 1; i < id->getNumOperands(); i++) if (auto* n = dyn_cast<MDNode>(id->getOperand(i))) if (n->getNumOperands() && isa<MDString>(n->getOperand(0)) && cast<MDString>(n->getOperand(0))->getString() == "plint.parallel") return true;
  for (auto* BB : L->blocks()) {
    bool latch = false; for (auto* s : successors(BB)) if (s == L->getHeader()) latch = true;
    if (!latch) continue;
    for (auto& I : *BB) if (I.isTerminator() || I.getOpcode() == Instruction::Add) if (auto dl = I.getDebugLoc()) if (auto* sp = dl->getScope()->getSubprogram())
      if (sp->getName().starts_with("parallel_for")) return true;
  }
  return false;
}
std::vector<Poly> SeqInt::candidates(const Loop* L, const BasicBlock* from, const Sys& sys) {
  auto known = [&](const Poly& p) {   // what was loaded before the loop, by what is known to be there
    auto load = [&](int id) { auto* I = dyn_cast_or_null<Instruction>(A.at.a[id].v); return I && isa<LoadInst>(I) && !L->contains(I); };
    if (!A.mentions(p, load)) return p;
    auto q = A.express(sys, p, [&](int id) { return !load(id); }); return q ? *q : p;
  };
  std::vector<Poly> c;
  { // counters that advance together
    auto sb = stepBack(L); auto init = phiMap(L, from); int first = -1; Poly d1;
    for (auto& x : sb) {
      Poly d = Poly::a(x.first) - x.second; if (!d.isConst() || d.k() == 0) continue;
      if (first < 0) { first = x.first; d1 = d; continue; }
      Poly r = scale(Poly::a(first) - init[first], d.k()) - scale(Poly::a(x.first) - init[x.first], d1.k());
      c.push_back(r); c.push_back(scale(r, -1));
    }
  }
  for (auto& P : L->getHeader()->phis()) {
    if (!P.getType()->isIntegerTy() && !P.getType()->isPointerTy()) continue;
    Poly me = A.of(&P); if (me.t.size() != 1 || me.t.begin()->first.size() != 1) continue;
    for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
      auto* in = P.getIncomingBlock(i);
      Poly v = A.of(P.getIncomingValue(i));
      if (in == from) { c.push_back(me - v); c.push_back(v - me); }
      if (!L->contains(in)) continue;
      for (auto* BB : L->blocks()) for (auto& I : *BB) if (auto* IC = dyn_cast<ICmpInst>(&I)) {
        if (!IC->getOperand(0)->getType()->isIntegerTy() && !IC->getOperand(0)->getType()->isPointerTy()) continue;
        if (IC->getOperand(0)->getType()->isIntegerTy(1)) continue;
        Poly a = known(A.of(IC->getOperand(0))), b = known(A.of(IC->getOperand(1)));
        for (Poly side : {me, v}) for (int sw = 0; sw < 2; sw++) {
          Poly x = sw ? b : a, y = sw ? a : b;
          Poly bd = y - (x - side);
          if (auto ct = x.t.find(me.t.begin()->first); ct != x.t.end() && ct->second > 1) {   // scaled counters (pointer comparisons)
            bd = y - x + scale(me, ct->second); bool div = true; for (auto& t : bd.t) if (t.second % ct->second) div = false;
            if (!div) continue; for (auto& t : bd.t) t.second /= ct->second;
          }
          if (invariant(bd, L)) { c.push_back(bd - me); c.push_back(bd - Poly::c(1) - me); c.push_back(me - bd); }
        }
      }
    }
  }
  std::vector<Poly> u; for (auto& p : c) { bool dup = false; for (auto& q : u) if (q == p) dup = true; if (!dup && !p.isConst()) u.push_back(p); }
  if (u.size() > 40) u.resize(40);
  return u;
}
static bool isWriteMin(const Instruction& I);
// A loop whose iterations only announce "met at j" in one local: it is either as before and nothing was met, or something was.
void SeqInt::firstHit(const Loop* L, const SState& best, const std::map<std::pair<const Value*, int64_t>, AV>& killed, const std::map<int, Poly>& init,
                      const std::set<std::pair<std::string, Poly>>& fr, std::vector<SState>& heads, Ctx& ctx) {
  auto* H = L->getHeader(); auto start = H->getFirstNonPHI()->getIterator(); bool par = isParallel(L);
  std::vector<std::pair<const Value*, int64_t>> open; for (auto& k : killed) if (!best.cells.count(k.first)) open.push_back(k.first);
  if (open.size() != 1) return;
  auto ck = open[0]; AV r0 = killed.at(ck);
  const PHINode* J = nullptr; for (auto& P : H->phis()) { if (!P.getType()->isIntegerTy(64) || J) return; J = &P; }
  if (!J) return;
  int j = A.of(J).t.begin()->first.at(0); Poly pj = Poly::a(j), s = init.at(j);
  for (auto* BB : L->blocks()) for (auto& I : *BB) {
    const Value* p = nullptr; bool load = false;
    if (auto* S = dyn_cast<StoreInst>(&I)) { p = S->getPointerOperand(); load = par && !S->isAtomic(); } else if (auto* l = dyn_cast<LoadInst>(&I)) { p = l->getPointerOperand(); load = true; }
    if (!p || locOf(*A.DL, p).root != ck.first) continue;
    if (load && par) { error(&I, "independent-iterations", isa<LoadInst>(I) ? "an iteration of a parallel loop reads a variable that other iterations write" : "iterations of a parallel loop write the same variable without synchronisation"); return; }
  }
  // candidates for "nothing met before position x"
  struct C { std::string key; Poly x; bool all; };
  std::vector<C> cs; for (auto& f : fr) { bool own = false; for (auto& t : f.second.t) if (t.first == std::vector<int>{j} && t.second == 1) own = true; if (own) { cs.push_back({f.first, f.second, false}); cs.push_back({f.first, f.second, true}); } }
  auto before = [&](const C& c, const Poly& p) { Poly x = A.subst(c.x, {{j, p}}), x0 = A.subst(c.x, {{j, s}}), D = A.pf(c.key, x) - A.pf(c.key, x0); return c.all ? D - (x - x0) : D; };
  auto step = [&](const C& c, const Poly& p) { Poly x = A.subst(c.x, {{j, p}}); return A.pf(c.key, x + Poly::c(1)) - A.pf(c.key, x); };
  auto walk1 = [&](const SState& st0, std::function<void(SState&, const BasicBlock*)> cb) { Ctx c; c.check = L; c.onBack = cb; c.up = &ctx; bool m = mute; mute = true; body(H, start, st0, c); mute = m; };
  std::vector<Poly> hitF; bool first = true, ok = true, hits = false; AV hitVal;
  for (int round = 0; round < 6; round++) {
    SState a = best; a.cells[ck] = r0; for (auto& c : cs) a.sys.addEq(before(c, pj));
    std::set<size_t> drop; first = true; ok = true; hits = false;
    walk1(a, [&](SState& e, const BasicBlock* latch) {
      auto it = e.cells.find(ck); if (it == e.cells.end() || it->second.k != AV::Num) { ok = false; return; }
      Poly nx = phiMap(L, latch)[j];
      if (same(e, it->second, r0)) { for (size_t i = 0; i < cs.size(); i++) if (!A.eq(e.sys, before(cs[i], nx), Poly())) drop.insert(i); return; }
      // met in this iteration
      hits = true; AV v = it->second; if (!eq(e, v.lo, pj) && !v.lo.isConst()) { ok = false; return; }
      if (eq(e, v.lo, pj)) v.lo = pj; if (!first && !(v.lo == hitVal.lo)) ok = false; hitVal = v;
      std::vector<Poly> f; Poly sum;
      for (auto& c : cs) { Poly d = step(c, pj); f.push_back(d - Poly::c(1)); f.push_back(Poly::c(1) - d); f.push_back(d); f.push_back(scale(d, -1)); if (!c.all) sum = sum + d; }
      f.push_back(sum - Poly::c(1));
      if (first) for (size_t i = best.sys.ge.size(); i < e.sys.ge.size(); i++) { Poly p = e.sys.ge[i]; if (A.has(p, j) && invariant(A.subst(p, {{j, s}}), L)) f.push_back(p); }
      if (!first) f.insert(f.end(), hitF.begin(), hitF.end());
      std::vector<Poly> keep; for (auto& p : f) if ((first || std::find(hitF.begin(), hitF.end(), p) != hitF.end()) && A.le(e.sys, Poly(), p)) keep.push_back(p);
      hitF = keep; first = false;
    });
    if (getenv("SEQDBG")) fprintf(stderr, "firstHit at %s: cands %zu drop %zu ok %d hits %d facts %zu\n", where(H->getFirstNonPHI()).c_str(), cs.size(), drop.size(), ok, hits, hitF.size());
    if (!ok) return;
    if (drop.empty()) break;
    std::vector<C> k; for (size_t i = 0; i < cs.size(); i++) if (!drop.count(i)) k.push_back(cs[i]); cs = k;
  }
  SState a = best; a.cells[ck] = r0; for (auto& c : cs) a.sys.addEq(before(c, pj));
  heads.clear(); heads.push_back(a);
  if (!hits) return;
  // something was met: remains so
  Poly c0 = A.fresh("met"); std::map<int, Poly> m{{j, c0}};
  SState b = best; b.sys.addGe(c0 - s); b.sys.addGe(pj - Poly::c(1) - c0); for (auto& c : cs) b.sys.addEq(before(c, c0)); for (auto& p : hitF) b.sys.addGe(A.subst(p, m));
  AV hv = hitVal; hv.lo = A.subst(hv.lo, m); b.cells[ck] = hv;
  bool stays = true;
  walk1(b, [&](SState& e, const BasicBlock*) { auto it = e.cells.find(ck); if (it == e.cells.end() || !same(e, it->second, hv)) stays = false; });
  if (!stays) { heads.clear(); heads.push_back(best); if (getenv("SEQDBG")) fprintf(stderr, "firstHit: a later iteration changes it\n"); return; }
  if (!mute) counts["first-hit loops"]++;
  heads.push_back(b);
}
static bool isWriteMin(const Instruction& I) {
  auto* cb = dyn_cast<CallBase>(&I); auto* f = cb ? cb->getCalledFunction() : nullptr;
  return f && f->getSubprogram() && f->getSubprogram()->getName().starts_with("write_min<");
}
void SeqInt::enterLoop(const Loop* L, const BasicBlock* from, SState st, Ctx& ctx) {
  if (!mute) counts["loops"]++;
  auto init = phiMap(L, from);
  auto* H = L->getHeader();
  auto start = H->getFirstNonPHI()->getIterator();
  std::vector<const PHINode*> vphi;
  for (auto& P : H->phis()) if (P.getType()->isDoubleTy()) vphi.push_back(&P);
  auto bodyWalk = [&](SState s, std::function<void(SState&, const BasicBlock*)> cb) {
    Ctx c; c.check = L; c.onBack = cb; c.up = &ctx;
    bool m = mute; mute = true;
    body(H, start, s, c);
    mute = m;
  };
  // locals written in the loop are unknown at its head
  std::map<std::pair<const Value*, int64_t>, AV> killed, stepped;
  for (auto* BB : L->blocks()) for (auto& I : *BB) {
    const Value* p = nullptr; if (auto* S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand();
    if (auto* mi = dyn_cast<MemIntrinsic>(&I)) p = mi->getDest();
    if (isWriteMin(I)) p = I.getOperand(0);
    if (!p) continue;
    Loc l = locOf(*A.DL, p);
    if (auto* S = dyn_cast<StoreInst>(&I); S && isa<LoadInst>(l.root) && !S->getValueOperand()->getType()->isDoubleTy()) {   // may be any local whose address was stored
      for (auto it = st.cells.begin(); it != st.cells.end();) {
        bool esc = false; for (auto* u : it->first.first->users()) { if (auto* s2 = dyn_cast<StoreInst>(u); s2 && s2->getValueOperand() == it->first.first) esc = true; if (isa<GetElementPtrInst>(u)) for (auto* u2 : u->users()) if (auto* s2 = dyn_cast<StoreInst>(u2); s2 && s2->getValueOperand() == u) esc = true; }
        if (esc) it = st.cells.erase(it); else ++it;
      }
    }
    if (!isa<AllocaInst>(l.root) && !objects.count(l.root)) continue;
    int64_t wlo = INT64_MIN, whi = INT64_MAX; if (auto* S = dyn_cast<StoreInst>(&I); S && raw && l.exact) { wlo = l.off; whi = l.off + (int64_t)A.DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); }
    for (auto it = st.cells.begin(); it != st.cells.end();) if (it->first.first == l.root && it->first.second >= wlo && it->first.second < whi) { if (raw && it->second.k == AV::Num) stepped[it->first] = it->second; if (search && it->second.k == AV::Num && invariant(it->second.lo, L)) killed[it->first] = it->second; it = st.cells.erase(it); } else ++it;
  }
  // ---- numeric invariants
  std::set<std::pair<std::string, Poly>> fr; std::vector<Poly> candidates2;
  static int genN = 1;
  auto sb = stepBack(L);
  std::vector<Poly> base = candidates(L, from, st.sys);
  std::vector<Poly> inv; for (auto& p : base) if (A.le(st.sys, Poly(), A.subst(p, init))) inv.push_back(p);
  auto houdini = [&](std::vector<Poly> inv) {
    for (int round = 0; round < 8; round++) {
      SState s = st; s.gen = genN++; for (auto& p : inv) s.sys.addGe(p); for (auto* P : vphi) s.env[P] = AV();
      std::set<size_t> drop;
      bodyWalk(s, [&](SState& e, const BasicBlock* latch) {
        auto m = phiMap(L, latch);
        for (size_t i = 0; i < inv.size(); i++) if (!drop.count(i) && !A.le(e.sys, Poly(), A.subst(inv[i], m))) drop.insert(i);
      });
      if (drop.empty()) break;
      std::vector<Poly> k; for (size_t i = 0; i < inv.size(); i++) if (!drop.count(i)) k.push_back(inv[i]);
      inv = k;
    }
    return inv;
  };
  inv = houdini(inv);
  // telescoping candidates for counters that do not advance by a constant
  std::vector<int> irregular;
  for (auto& P : H->phis()) if (P.getType()->isIntegerTy() && !P.getType()->isIntegerTy(1)) { Poly me = A.of(&P); if (me.t.size() != 1) continue; int id = me.t.begin()->first[0]; if (!sb.count(id)) irregular.push_back(id); }
  if (!irregular.empty() || search) {
    auto* old = flagReads; flagReads = &fr;
    SState s = st; s.gen = genN++; for (auto& p : inv) s.sys.addGe(p); for (auto* P : vphi) s.env[P] = AV();
    std::vector<std::pair<int, Poly>> deltas; std::set<std::pair<std::string, Poly>> keyed;
    bodyWalk(s, [&](SState& e, const BasicBlock* latch) {
      for (auto& x : fr) if (auto h = headerForm(e, x.second, L)) keyed.insert({x.first, *h});
      auto m = phiMap(L, latch);
      for (int id : irregular) if (auto h = headerForm(e, m[id], L)) { Poly d = *h - Poly::a(id); deltas.push_back({id, d}); }
    });
    flagReads = old; if (old) for (auto& x : fr) old->insert(x);
    std::vector<Poly> c2;
    auto both = [&](const Poly& p) { c2.push_back(p); c2.push_back(scale(p, -1)); };
    std::map<std::string, std::set<Poly>> byIdx; std::set<Poly> E;
    for (auto& x : keyed) E.insert(x.second);
    for (int id : irregular) {
      Poly r = Poly::a(id) - init[id];
      for (auto& e : E) {
        Poly e0 = A.subst(e, init); Poly sum;
        for (auto& x : keyed) if (x.second == e) {
          Poly D = A.pf(x.first, e) - A.pf(x.first, e0); sum = sum + D;
          both(r - D); both(r - (e - e0) + D); both(r + D);
        }
        both(r - (e - e0) + sum);
      }
    }
    if (search) for (auto& x : fr) {
      // nothing met so far: no flag set (or every flag set) from the first position on
      std::vector<Poly> at; for (auto& k : keyed) if (k.first == x.first) at.push_back(k.second);
      for (auto& e : at) { Poly e0 = A.subst(e, init); Poly D = A.pf(x.first, e) - A.pf(x.first, e0); both(D); both(D - (e - e0)); }
      // an inner loop's position, seen from the outer loop's counter
      for (auto& t : x.second.t) if (t.first.size() == 1 && t.second == 1) {
        auto* PI = dyn_cast_or_null<PHINode>(A.at.a[t.first[0]].v); if (!PI) continue;
        auto* IL = LI->getLoopFor(PI->getParent()); if (!IL || IL->getHeader() != PI->getParent() || IL == L || !L->contains(IL)) continue;
        Poly off = x.second - Poly::a(t.first[0]); if (!invariant(off, L)) continue;
        for (auto& P : H->phis()) {
          if (!P.getType()->isIntegerTy(64)) continue; Poly me = A.of(&P); if (me.t.size() != 1) continue;
          for (auto* BB : L->blocks()) for (auto& I : *BB) if (auto* IC = dyn_cast<ICmpInst>(&I); IC && LI->getLoopFor(BB) == L) for (int o = 0; o < 2; o++) {
            Poly a = A.of(IC->getOperand(o)), b = A.of(IC->getOperand(1 - o)); if (a != me || !invariant(b, L)) continue;
            Poly m = A.mn(me, b); Poly D = A.pf(x.first, m + off) - A.pf(x.first, off); both(D); both(D - m);
          }
        }
      }
    }
    for (auto& d : deltas) {
      Poly pos, neg; for (auto& t : d.second.t) { Poly mm; mm.t[t.first] = t.second < 0 ? -t.second : t.second; if (t.second > 0) pos = pos + mm; else neg = neg + mm; }
      if (A.mentions(d.second, [&](int x) { return x == d.first; })) continue;
      Poly r = Poly::a(d.first) - init[d.first];
      for (Poly G : {A.subst(pos, sb), neg}) if (!G.isConst()) both(r - (G - A.subst(G, init)));
    }
    candidates2 = c2;
    std::vector<Poly> inv2 = inv; for (auto& p : c2) if (A.le(st.sys, Poly(), A.subst(p, init))) inv2.push_back(p);
    if (inv2.size() != inv.size()) {
      std::set<Poly> old(inv.begin(), inv.end());
      inv = houdini(inv2);
      std::set<Poly> have(inv.begin(), inv.end()); std::vector<Poly> k;
      for (auto& p : inv) if (have.count(p)) { if (old.count(p) || have.count(scale(p, -1))) k.push_back(p); have.erase(p); have.insert(p); }
      std::set<Poly> seen; inv.clear(); for (auto& p : k) if (seen.insert(p).second) inv.push_back(p);
    }
  }
  { std::vector<Poly> k;   // drop what another one implies
    for (size_t i = 0; i < inv.size(); i++) { bool red = false; for (size_t j = 0; j < inv.size(); j++) if (i != j) { Poly d = inv[i] - inv[j]; if (d.isConst() && (d.k() > 0 || (d.k() == 0 && j < i))) red = true; } if (!red) k.push_back(inv[i]); }
    inv = k; }
  // locals that every iteration leaves as they were
  if (!killed.empty()) {
    auto keep = killed;
    for (int round = 0; round < 4 && !keep.empty(); round++) {
      SState s = st; s.gen = genN++; for (auto& p : inv) s.sys.addGe(p); for (auto* P : vphi) s.env[P] = AV(); for (auto& k : keep) s.cells[k.first] = k.second;
      std::set<std::pair<const Value*, int64_t>> drop;
      bodyWalk(s, [&](SState& e, const BasicBlock*) { for (auto& k : keep) { auto it = e.cells.find(k.first); if (it == e.cells.end() || !same(e, it->second, k.second)) drop.insert(k.first); } });
      if (drop.empty()) break;
      for (auto& d : drop) keep.erase(d);
    }
    for (auto& k : keep) st.cells[k.first] = k.second;
    // the invariants above held for any content; with these contents more may hold
    if (!keep.empty()) { for (auto& p : candidates2) if (A.le(st.sys, Poly(), A.subst(p, init))) inv.push_back(p); inv = houdini(inv); }
  }
  // locals that follow a counter
  if (!stepped.empty()) {
    std::map<std::pair<const Value*, int64_t>, std::set<Poly>> seen; std::set<std::pair<const Value*, int64_t>> bad;
    SState s = st; s.gen = genN++; for (auto& p : inv) s.sys.addGe(p); for (auto* P : vphi) s.env[P] = AV();
    bodyWalk(s, [&](SState& e, const BasicBlock*) { for (auto& k : stepped) { auto it = e.cells.find(k.first); std::optional<Poly> h; if (it != e.cells.end() && it->second.k == AV::Num) h = headerForm(e, it->second.lo, L); if (h) seen[k.first].insert(A.subst(*h, sb)); else bad.insert(k.first); } });
    std::map<std::pair<const Value*, int64_t>, AV> keep;
    for (auto& k : seen) if (!bad.count(k.first) && k.second.size() == 1 && !killed.count(k.first) && A.eq(st.sys, A.subst(*k.second.begin(), init), stepped[k.first].lo)) keep[k.first] = AV::num(*k.second.begin());
    for (int round = 0; round < 4 && !keep.empty(); round++) {
      SState s = st; s.gen = genN++; for (auto& p : inv) s.sys.addGe(p); for (auto* P : vphi) s.env[P] = AV(); for (auto& k : keep) s.cells[k.first] = k.second;
      std::set<std::pair<const Value*, int64_t>> drop;
      bodyWalk(s, [&](SState& e, const BasicBlock* latch) { auto m = phiMap(L, latch); for (auto& k : keep) { auto it = e.cells.find(k.first); if (it == e.cells.end() || it->second.k != AV::Num || !A.eq(e.sys, it->second.lo, A.subst(k.second.lo, m))) drop.insert(k.first); } });
      if (drop.empty()) break;
      for (auto& d : drop) keep.erase(d);
    }
    for (auto& k : keep) st.cells[k.first] = k.second;
  }
  SState hs = st; for (auto& p : inv) hs.sys.addGe(p);
  // ---- element-valued loop variables: candidates from one iteration with an open upper end
  struct VC { std::vector<AV> c; };
  std::vector<VC> vc(vphi.size());
  static int openN = 1;
  if (!vphi.empty()) {
    SState s = hs; s.gen = genN++; std::vector<int> op(vphi.size());
    for (size_t i = 0; i < vphi.size(); i++) { AV a; a.k = AV::Seg; a.arr = -1; a.open = op[i] = openN++; a.lo = A.fresh("lo"); a.hi = A.fresh("hi"); s.env[vphi[i]] = a; }
    bool back = false; std::vector<std::pair<size_t, AV>> clipped;
    bodyWalk(s, [&](SState& e, const BasicBlock* latch) {
      back = true;
      for (size_t i = 0; i < vphi.size(); i++) {
        AV iv = val(st, vphi[i]->getIncomingValueForBlock(from));
        AV lv = val(e, vphi[i]->getIncomingValueForBlock(latch));
        auto push = [&](const Poly& E, int arr) {
          Poly E0 = A.subst(E, init); AV t;
          if (iv.k == AV::Id) t = AV::seg(arr, E0, E); else if (iv.k == AV::Seg) { t = AV::seg(arr, iv.lo, E); } else return;
          for (auto& o : vc[i].c) if (o.lo == t.lo && o.hi == t.hi && o.arr == t.arr) return;
          vc[i].c.push_back(t);
          if (arr >= 0 && arrs[arr].hasSize && !A.le(hs.sys, E, arrs[arr].size)) { t.hi = A.mn(E, arrs[arr].size); clipped.push_back({i, t}); }   // the last element may be left out
        };
        if (lv.open == op[i] && lv.arr < 0) { if (iv.k != AV::Top) vc[i].c.push_back(iv); continue; }
        if (lv.open == op[i]) {
          for (auto& b : e.binds) if (b.first == op[i]) if (auto h = headerForm(e, b.second, L)) push(*h, lv.arr);
          if (auto h = headerForm(e, lv.hi, L)) push(A.subst(*h, sb), lv.arr);
        } else if (lv.k == AV::Seg) {
          // no use of the old value: value determined by this iteration
          auto h = headerForm(e, lv.hi, L), l = headerForm(e, lv.lo, L);
          if (h && l) { AV t = AV::seg(lv.arr, A.subst(*l, sb), A.subst(*h, sb)); vc[i].c.push_back(t); }
        }
      }
    });
    for (auto& c : clipped) vc[c.first].c.push_back(c.second);
    if (!back) for (size_t i = 0; i < vphi.size(); i++) { AV iv = val(st, vphi[i]->getIncomingValueForBlock(from)); if (iv.k != AV::Top) vc[i].c.push_back(iv); }
  }
  std::vector<size_t> pick(vphi.size(), 0);
  long combos = 1; for (auto& v : vc) combos *= std::max<size_t>(1, v.c.size()); if (combos > 24) combos = 24;
  bool chosen = false; SState best = hs; std::map<int, Fill> bestFill; std::map<int, std::vector<std::pair<Poly, Poly>>> parReg; bool wrote = false; std::string wroteBad;
  for (long ci = 0; ci < combos && !chosen; ci++) {
    long r = ci; SState h1 = hs; bool ok = true;
    std::vector<AV> tv(vphi.size());
    for (size_t i = 0; i < vphi.size(); i++) {
      if (vc[i].c.empty()) { tv[i] = AV(); h1.env[vphi[i]] = AV(); continue; }
      AV t = vc[i].c[r % vc[i].c.size()]; r /= vc[i].c.size(); tv[i] = t;
      SState s0 = st; if (!same(s0, substAV(t, init), val(s0, vphi[i]->getIncomingValueForBlock(from)))) { ok = false; break; }
      h1.env[vphi[i]] = t;
    }
    if (!ok) continue;
    auto checkV = [&](SState& e, const BasicBlock* latch) {
      auto m = phiMap(L, latch);
      for (size_t i = 0; i < vphi.size(); i++) if (tv[i].k != AV::Top && !same(e, val(e, vphi[i]->getIncomingValueForBlock(latch)), substAV(tv[i], m))) return false;
      return true;
    };
    // one iteration: what does it write?
    int g = genN++; std::map<int, std::vector<Fill>> per; std::map<int, bool> bad; std::map<int, size_t> maxPer; bool vok = true;
    { SState s = h1; s.gen = g;
      bodyWalk(s, [&](SState& e, const BasicBlock* latch) {
        if (!checkV(e, latch)) vok = false; if (getenv("SEQDBG3")) { fprintf(stderr, "latch state\n"); for (auto& p : e.sys.ge) fprintf(stderr, "   %s >= 0\n", A.at.str(p).c_str()); }
        for (auto& kv : e.fills) {
          std::vector<Fill> v; for (auto& f : kv.second) if (f.gen == g && !A.eq(e.sys, f.lo, f.hi)) v.push_back(f);
          if (v.empty()) continue;
          maxPer[kv.first] = std::max(maxPer[kv.first], v.size());
          for (Fill f : v) {
            auto lo = headerForm(e, f.lo, L), hi = headerForm(e, f.hi, L);
            if (!lo || !hi) { bad[kv.first] = true; per[kv.first]; continue; }
            f.lo = *lo; f.hi = *hi;
            if (f.var >= 0) { auto hv = headerForm(e, f.val, L, f.var); f.val = hv ? *hv : AV(); if (f.val.k != AV::Top && !(invariant(f.val.lo, L) && invariant(f.val.hi, L))) f.val = AV(); }
            per[kv.first].push_back(f);
          }
        }
      }); }
    if (!vok && !vphi.empty()) continue;
    // candidates per array: one interval growing from iteration to iteration, or several disjoint ones
    struct Str { Fill proto; Poly X; bool down; };
    struct FC { std::vector<Str> s; };
    std::vector<std::vector<FC>> fcs;
    for (auto& kv : per) {
      std::vector<FC> c; std::vector<Fill> ps;
      auto addPs = [&](const Fill& f) { for (auto& o : ps) if (o.lo == f.lo && o.hi == f.hi && o.val.k == f.val.k && (f.var < 0 || (o.val.arr == f.val.arr && A.subst(o.val.lo, {{o.var, Poly::a(f.var)}}) == f.val.lo && A.subst(o.val.hi, {{o.var, Poly::a(f.var)}}) == f.val.hi))) return; ps.push_back(f); };
      for (auto& f : kv.second) addPs(f);
      if (maxPer[kv.first] <= 1 && ps.size() == 2) {   // the two paths of an iteration may be one formula
        Fill f = ps[0], g = ps[1]; std::vector<Fill> more;
        if (f.lo == g.lo && f.hi != g.hi) for (auto& h : unify(A, f.hi, g.hi)) { Fill x = f; x.hi = h; more.push_back(x); }
        if (f.lo == g.lo && f.hi == g.hi && f.var >= 0 && g.var >= 0 && f.val.k == g.val.k && f.val.arr == g.val.arr) {
          AV v = substAV(g.val, {{g.var, Poly::a(f.var)}});
          if (f.val.k == AV::Num && f.val.lo != v.lo) for (auto& h : unify(A, f.val.lo, v.lo)) { Fill x = f; x.val.lo = h; more.push_back(x); }
          if (f.val.k == AV::Seg && f.val.lo == v.lo) for (auto& h : unify(A, f.val.hi, v.hi)) { Fill x = f; x.val.hi = h; more.push_back(x); }
        }
        if (f.var >= 0 && g.var < 0) ps.erase(ps.begin() + 1); else if (f.var < 0 && g.var >= 0) ps.erase(ps.begin());
        for (auto& x : more) ps.push_back(x);
      }
      if (ps.size() > 1 && maxPer[kv.first] <= 1) {   // the last piece may be cut off by the end of the array it stands for
        std::vector<Fill> more;
        for (auto& f : ps) if (f.var >= 0 && f.val.k == AV::Seg && f.val.arr >= 0 && arrs[f.val.arr].hasSize) { Fill x = f; x.val.hi = A.mn(f.val.hi, arrs[f.val.arr].size); if (x.val.hi != f.val.hi) more.push_back(x); }
        for (auto& x : more) ps.push_back(x);
      }
      if (!bad[kv.first]) {
        if (maxPer[kv.first] <= 1) for (auto& f : ps) {
          for (Poly X : {f.lo, A.subst(f.hi, sb)}) { bool dup = false; for (auto& o : c) if (o.s[0].X == X && !o.s[0].down && o.s[0].proto.val.lo == f.val.lo && o.s[0].proto.val.hi == f.val.hi && o.s[0].proto.var == f.var) dup = true; if (!dup) c.push_back({{{f, X, false}}}); }
          c.push_back({{{f, f.hi, true}}});
          c.push_back({{{f, A.subst(f.lo, sb), true}}});
        }
        if (ps.size() > 1 && ps.size() <= 4) {
          for (int t = 0; t < 2; t++) { FC m; for (auto& f : ps) m.s.push_back({f, t ? A.subst(f.hi, sb) : f.lo, false}); c.push_back(m); }
          // some grow downwards: those whose lower end moves down from one iteration to the next
          FC m; bool any = false; for (auto& f : ps) { Poly d = A.subst(f.lo, sb) - f.lo; bool dn = d.isConst() && d.k() > 0; any |= dn; m.s.push_back({f, dn ? f.hi : f.lo, dn}); }
          if (any) c.push_back(m);
        }
      }
      fcs.push_back(c);
    }
    wrote = !per.empty();
    if (getenv("SEQDBG")) for (auto& kv : per) { fprintf(stderr, " iter (mute %d) at %s writes %s bad=%d\n", mute, where(H->getFirstNonPHI()).c_str(), arrs[kv.first].name.c_str(), (int)bad[kv.first]); for (auto& f : kv.second) fprintf(stderr, "    [%s, %s) = %s\n", A.at.str(f.lo).c_str(), A.at.str(f.hi).c_str(), str(f.val).c_str()); }
    long fcomb = 1; for (auto& c : fcs) fcomb *= std::max<size_t>(1, c.size()); if (fcomb > 64) fcomb = 64;
    for (long fi = 0; fi < fcomb && !chosen; fi++) {
      long q = fi; SState h2 = h1; h2.gen = genN++; std::map<int, FC> sel; bool good = true;
      size_t ai = 0;
      auto place = [&](SState& to, int arr, const FC& f, int gen) {
        for (auto& x : f.s) {
          Poly Xi = A.subst(x.X, init); Fill y = x.proto; y.gen = gen; if (x.down) { y.lo = x.X; y.hi = Xi; } else { y.lo = Xi; y.hi = x.X; }
          to.sys.addGe(y.hi - y.lo);
          if (gen == h2.gen) to.fills[arr].push_back(y); else addFill(to, arr, y);
        }
      };
      for (auto& kv : per) {
        auto& c = fcs[ai++];
        if (c.empty()) { good = false; break; }
        FC f = c[q % c.size()]; q /= c.size();
        sel.insert({kv.first, f});
        place(h2, kv.first, f, h2.gen);
      }
      if (!good) break;
      bool ok2 = true;
      bodyWalk(h2, [&](SState& e, const BasicBlock* latch) {
        if (!ok2) return;
        auto m = phiMap(L, latch);
        for (auto& p : inv) if (!A.le(e.sys, Poly(), A.subst(p, m))) { ok2 = false; return; }
        if (!checkV(e, latch)) { ok2 = false; return; }
        for (auto& kv : e.fills) {
          std::vector<Fill> v; for (auto& f : kv.second) if (f.gen == h2.gen) v.push_back(f);
          auto it = sel.find(kv.first);
          if (it == sel.end()) { if (!v.empty()) { ok2 = false; return; } continue; }
          auto& fc = it->second;
          if (v.size() != fc.s.size()) { ok2 = false; return; }
          std::vector<bool> used(v.size(), false);
          for (auto& x : fc.s) {
            Poly Xl = A.subst(x.X, m), Xi = A.subst(x.X, init); bool found = false;
            for (size_t i = 0; i < v.size() && !found; i++) if (!used[i] && eq(e, x.down ? v[i].lo : v[i].hi, Xl) && (v.size() == 1 || eq(e, x.down ? v[i].hi : v[i].lo, Xi)) && A.le(e.sys, v[i].lo, v[i].hi)) { used[i] = true; found = true; }
            if (!found) { if (getenv("SEQDBG4")) { fprintf(stderr, "no match: want end %s\n", A.at.str(Xl).c_str()); for (auto& f : v) fprintf(stderr, "   have [%s, %s)\n", A.at.str(f.lo).c_str(), A.at.str(f.hi).c_str()); for (auto& p : e.sys.ge) fprintf(stderr, "   %s >= 0\n", A.at.str(p).c_str()); } ok2 = false; return; }
          }
        }
      });
      if (!ok2) continue;
      chosen = true; best = h1;
      for (auto& kv : sel) {
        place(best, kv.first, kv.second, st.gen);
        for (auto& x : kv.second.s) parReg[kv.first].push_back({x.proto.lo, x.proto.hi});
      }
    }
  }
  bool par = isParallel(L);
  if (!chosen) {
    // nothing known about what the loop computes: written arrays and element values become unknown
    best = st;
    auto inv3 = base; (void)inv3;
    for (auto* P : vphi) best.env[P] = AV();
    int g = genN++; std::set<int> touched;
    { SState s = best; s.gen = g; bodyWalk(s, [&](SState& e, const BasicBlock*) { for (auto& kv : e.fills) for (auto& f : kv.second) if (f.gen == g) touched.insert(kv.first); }); }
    for (auto& p : inv) best.sys.addGe(p);
    for (int t : touched) { Fill u; u.lo = A.fresh("?lo", false); u.hi = A.fresh("?hi"); u.gen = genN++; best.fills[t].push_back(u); }
    if (getenv("SEQDBG") && !mute) {
      fprintf(stderr, "loop not summarised at %s\n", where(H->getFirstNonPHI()).c_str());
      for (size_t i = 0; i < vphi.size(); i++) for (auto& c : vc[i].c) fprintf(stderr, "  v cand %s\n", str(c).c_str());
      for (auto& p : inv) fprintf(stderr, "  inv %s\n", A.at.str(p).c_str());
    }
    if (!touched.empty() || !vphi.empty())
      error(H->getFirstNonPHI(), "loop-summary", !vphi.empty() && touched.empty() ? "successive iterations of this loop do not combine consecutive elements" : "successive iterations of this loop do not produce consecutive pieces with a uniform content");
  } else if (par && !mute) {
    counts["parallel loops"]++;
    for (auto& P : H->phis()) {
      if (P.getType()->isIntegerTy() || P.getType()->isPointerTy()) { Poly me = A.of(&P); if (me.t.size() == 1 && !sb.count(me.t.begin()->first[0])) error(&P, "independent-iterations", "a variable is carried from one iteration of a parallel loop to the next"); }
      else error(&P, "independent-iterations", "a value is carried from one iteration of a parallel loop to the next");
    }
  }
  if (getenv("SEQDBG2") && !mute && chosen) {
    fprintf(stderr, "loop at %s par=%d\n", where(H->getFirstNonPHI()).c_str(), par);
    for (auto& p : inv) fprintf(stderr, "  inv %s\n", A.at.str(p).c_str());
    for (auto* P : vphi) fprintf(stderr, "  v %s\n", str(best.env[P]).c_str());
    for (auto& kv : best.fills) for (auto& f : kv.second) fprintf(stderr, "  fill %s [%s,%s) = %s\n", arrs[kv.first].name.c_str(), A.at.str(f.lo).c_str(), A.at.str(f.hi).c_str(), f.var < 0 ? "-" : str(f.val).c_str());
  }
  bool pushed = chosen && par && !mute && !parReg.empty();
  if (pushed) pars.push_back({L, parReg});
  std::vector<SState> heads{best};
  if (search && chosen && !killed.empty()) firstHit(L, best, killed, init, fr, heads, ctx);
  for (auto& h : heads) body(H, start, h, ctx);
  if (pushed) pars.pop_back();
}
void SeqInt::walk(const BasicBlock* BB, const BasicBlock* from, SState st, Ctx& ctx) {
  if (overflow || st.failed) return;
  if (paths > 40000) { overflow = true; return; }
  if (ctx.check && !ctx.check->contains(BB)) return;
  const Loop* L = LI->getLoopFor(BB);
  if (L && L->getHeader() == BB) {
    if (L->contains(from)) { if (ctx.check == L) ctx.onBack(st, from); return; }
    enterLoop(L, from, st, ctx);
    return;
  }
  std::vector<std::pair<const Value*, AV>> nv; std::vector<Poly> eqs;
  for (auto& P : BB->phis()) {
    const Value* in = P.getIncomingValueForBlock(from);
    if (P.getType()->isIntegerTy(1)) st.alias[&P] = in;
    if (P.getType()->isIntegerTy() || P.getType()->isPointerTy()) { Poly me = A.of(&P), v = A.of(in); if (me != v) eqs.push_back(me - v); }
    else nv.push_back({&P, val(st, in)});
  }
  for (auto& e : eqs) st.sys.addEq(e);
  for (auto& x : nv) st.env[x.first] = x.second;
  body(BB, BB->getFirstNonPHI()->getIterator(), st, ctx);
}
bool SeqInt::cellOf(SState& st, const Value* p, std::pair<const Value*, int64_t>& k) {
  Loc l = locOf(*A.DL, p); if (l.exact && (isa<AllocaInst>(l.root) || objects.count(l.root))) { k = {l.root, l.off}; return true; }
  if (!isa<LoadInst>(l.root)) return false;      // the address of a local that was stored in another local
  auto load = [&](int id) { auto* I = dyn_cast_or_null<Instruction>(A.at.a[id].v); return I && isa<LoadInst>(I); };
  auto q = A.express(st.sys, A.of(p), [&](int id) { return !load(id); }); if (!q) return false;
  const Value* root = nullptr; int64_t off = 0;
  for (auto& t : q->t) { if (t.first.empty()) { off = t.second; continue; } if (root || t.first.size() != 1 || t.second != 1) return false; root = A.at.a[t.first[0]].v; if (!root || !(isa<AllocaInst>(root) || objects.count(root))) return false; }
  if (!root) return false; k = {root, off}; return true;
}
bool SeqInt::exec(const Instruction& I, SState& st) {
  if (raw) if (auto* B = dyn_cast<BinaryOperator>(&I)) if (auto o = B->getOpcode(); o == Instruction::SDiv || o == Instruction::UDiv || o == Instruction::AShr || o == Instruction::LShr) {   // distances between pointers
    Poly me = A.of(&I); std::map<int, Poly> m;
    A.mentions(me, [&](int id) { auto* v = A.at.a[id].v; int a; Poly ix; if (v && v->getType()->isPointerTy() && !byBase.count(id) && !m.count(id) && locate(st, Poly::a(id), a, ix)) m[id] = Poly::a(arrs[a].base) + scale(ix, arrs[a].esz); return false; });
    auto chosen = [&](int id) { auto* v = A.at.a[id].v; return v && (isa<SelectInst>(v) || isa<PHINode>(v)); };   // values chosen on this path
    A.mentions(me, [&](int id) { if (chosen(id) && !m.count(id)) { Poly p = Poly::a(id); if (auto q = A.express(st.sys, p, [&](int x) { return !chosen(x); }); q && *q != p) { int a; Poly ix; m[id] = locate(st, *q, a, ix) ? Poly::a(arrs[a].base) + scale(ix, arrs[a].esz) : *q; } } return false; });
    if (!m.empty()) { Poly c = A.subst(me, m); if (c != me) st.sys.addEq(me - c); }
  }
  auto cellOf = [&](const Value* p, std::pair<const Value*, int64_t>& k) { return this->cellOf(st, p, k); };
  if (auto* L = dyn_cast<LoadInst>(&I)) {
    AV v; std::pair<const Value*, int64_t> ck; int arr; Poly idx;
    if (cellOf(L->getPointerOperand(), ck)) { auto it = st.cells.find(ck); if (it != st.cells.end()) v = it->second; }
    else if (locate(st, A.of(L->getPointerOperand()), arr, idx)) v = read(st, arr, idx, L);
    if (flagReads && v.k == AV::Num) for (auto& t : v.lo.t) if (t.first.size() == 1 && t.second == -1 && A.at.a[t.first[0]].kind == 'p') {
      auto a = A.at.a[t.first[0]]; Poly nx = A.pf(a.key, a.x + Poly::c(1)); auto f = v.lo.t.find(nx.t.begin()->first); if (f != v.lo.t.end() && f->second == 1) flagReads->insert({a.key, a.x}); }
    if (L->getType()->isDoubleTy()) st.env[L] = v;
    else if (v.k == AV::Num) { Poly me = A.of(L); if (me != v.lo) st.sys.addEq(me - v.lo);
      if (raw && L->getType()->isPointerTy() && locate(st, v.lo, arr, idx)) { Poly p = Poly::a(arrs[arr].base) + scale(idx, arrs[arr].esz); if (p != me && p != v.lo) st.sys.addEq(me - p); } }
    return true;
  }
  if (auto* S = dyn_cast<StoreInst>(&I)) {
    const Value* x = S->getValueOperand(); AV v;
    if (x->getType()->isDoubleTy()) v = val(st, x); else if (x->getType()->isIntegerTy() || x->getType()->isPointerTy()) v = AV::num(A.of(x));
    std::pair<const Value*, int64_t> ck; int arr; Poly idx;
    if (cellOf(S->getPointerOperand(), ck)) st.cells[ck] = v;
    else if (locate(st, A.of(S->getPointerOperand()), arr, idx)) write(st, arr, idx, v, S);
    else { if (!mute) counts["other stores"]++; }
    return true;
  }
  if (auto* cb = dyn_cast<CallBase>(&I)) {
    if (isa<DbgInfoIntrinsic>(cb)) return true;
    auto* c = cb->getCalledFunction();
    if (onCall && onCall(*this, st, *cb)) return true;
    if (!c) { error(cb, "not-modelled", "indirect call"); return true; }
    StringRef n = c->getName();
    if (n == "plint_op") { st.env[cb] = combine(st, val(st, cb->getArgOperand(0)), val(st, cb->getArgOperand(1)), cb); return true; }
    if (n == "plint_id") { st.env[cb] = AV::id(); return true; }
    if (isWriteMin(*cb)) {
      std::pair<const Value*, int64_t> ck; auto a = A.of(cb->getArgOperand(1));
      if (dem(c).find("std::less<") == std::string::npos || !cellOf(cb->getArgOperand(0), ck)) { error(cb, "understood", "write_min with an unknown order or target"); return true; }
      auto it = st.cells.find(ck); AV v = it == st.cells.end() ? AV() : it->second;
      if (v.k == AV::Num && A.le(st.sys, v.lo, a)) return true;
      st.cells[ck] = v.k == AV::Num && A.le(st.sys, a, v.lo) ? AV::num(a) : AV();
      return true;
    }
    if (n == "plint_gen") { Poly i = A.of(cb->getArgOperand(0)); st.env[cb] = AV::seg(virt("gen"), i, i + Poly::c(1)); return true; }
    if (n == "plint_fn") {
      AV v = val(st, cb->getArgOperand(0));
      if (v.k == AV::Seg && v.arr >= 0 && v.hi == v.lo + Poly::c(1)) v.arr = virt("f(" + arrs[v.arr].name + ")"); else { error(cb, "understood", "the function is applied to " + str(v) + " instead of an element"); v = AV(); }
      st.env[cb] = v; return true;
    }
    if (n == "plint_eq" || n == "plint_lt") {
      AV a = val(st, cb->getArgOperand(0)), b = val(st, cb->getArgOperand(1)); auto one = [](const AV& v) { return v.k == AV::Seg && v.arr >= 0 && v.hi == v.lo + Poly::c(1); };
      if (!one(a) || !one(b)) { error(cb, "understood", "the comparison is applied to " + str(a) + " and " + str(b) + " instead of elements"); return true; }
      Poly d = a.lo - b.lo; if (!d.isConst()) { Poly d2 = simp(st.sys, d); bool got = false; for (int k = -1; k <= 1; k++) if (A.eq(st.sys, d2, Poly::c(k))) { d = Poly::c(k); got = true; break; } if (!got && windows) return true; if (!got) { error(cb, "right-pair", "the comparison is applied to " + str(a) + " and " + str(b)); return true; } }
      Poly x = a.arr == b.arr && d.k() < 0 ? b.lo : a.lo;   // named by its larger position (same array) or by the position in the first
      auto off = [&](const AV& v) { int64_t k = (v.lo - x).k(); if (!(v.lo - x).isConst()) k = &v == &a ? 0 : -d.k(); return arrs[v.arr].name + (k < 0 ? "" : "+") + std::to_string(k); };
      std::string key = n.drop_front(6).str() + "(" + off(a) + "," + off(b) + ")";
      if (flagReads) flagReads->insert({key, x});
      Poly st1 = A.pf(key, x + Poly::c(1)) - A.pf(key, x), me = A.of(cb); if (me != st1) st.sys.addEq(me - st1);
      return true;
    }
    if (n == "plint_pred") {
      AV v = val(st, cb->getArgOperand(0));
      if (v.k == AV::Seg && v.arr >= 0 && v.hi == v.lo + Poly::c(1)) {
        if (flagReads) flagReads->insert({"pred", v.lo});
        Poly d = A.pf("pred", v.lo + Poly::c(1)) - A.pf("pred", v.lo); Poly me = A.of(cb); if (me != d) st.sys.addEq(me - d);
      } else error(cb, "understood", "the predicate is applied to " + str(v) + " instead of an input element");
      return true;
    }
    if (auto* ms = dyn_cast<MemSetInst>(cb); ms && raw) {
      std::pair<const Value*, int64_t> ck; auto* len = dyn_cast<ConstantInt>(ms->getLength()); auto* b = dyn_cast<ConstantInt>(ms->getValue());
      if (len && b && b->isZero() && cellOf(ms->getDest(), ck)) { int64_t e = ck.second + len->getZExtValue(); for (auto it = st.cells.begin(); it != st.cells.end();) if (it->first.first == ck.first && it->first.second >= ck.second && it->first.second < e) it = st.cells.erase(it); else ++it; for (int64_t o = ck.second; o < e; o += 8) st.cells[{ck.first, o}] = AV::num(Poly()); return true; }
      error(cb, "understood", "memory fill of an unknown target"); return true;
    }
    if (auto* mi = dyn_cast<MemCpyInst>(cb)) {
      Loc d = locOf(*A.DL, mi->getDest()), s = locOf(*A.DL, mi->getSource()); auto* len = dyn_cast<ConstantInt>(mi->getLength());
      auto obj = [&](const Value* r) { return isa<AllocaInst>(r) || objects.count(r); };
      if (d.exact && s.exact && obj(d.root) && obj(s.root) && len) {
        std::vector<std::pair<int64_t, AV>> cp; for (auto& kv : st.cells) if (kv.first.first == s.root && kv.first.second >= s.off && kv.first.second < s.off + (int64_t)len->getZExtValue()) cp.push_back({kv.first.second - s.off, kv.second});
        for (auto it = st.cells.begin(); it != st.cells.end();) if (it->first.first == d.root && it->first.second >= d.off && it->first.second < d.off + (int64_t)len->getZExtValue()) it = st.cells.erase(it); else ++it;
        for (auto& x : cp) st.cells[{d.root, d.off + x.first}] = x.second;
        return true;
      }
    }
    if (auto* mi = dyn_cast<MemTransferInst>(cb); mi && raw) {   // whole elements taken over bytewise
      int da, sa; Poly di, si, len = A.of(mi->getLength());
      if (locate(st, A.of(mi->getDest()), da, di) && locate(st, A.of(mi->getSource()), sa, si) && da != sa) {
        int64_t es = arrs[sa].esz; bool ok = es == arrs[da].esz; for (auto& t : len.t) ok = ok && t.second % es == 0;
        if (!ok) { error(cb, "understood", "copies " + A.at.str(len) + " bytes, not a number of whole elements"); return true; }
        for (auto& t : len.t) t.second /= es;
        if (!A.le(st.sys, Poly(), len)) { error(cb, "in-bounds", "copies a number of elements not shown to be non-negative: " + A.at.str(len)); return true; }
        if (!mute) counts["element operations"]++;
        Poly k = A.fresh("k"); SState q = st; q.sys.addGe(k - si); q.sys.addGe(si + len - Poly::c(1) - k);
        if (A.unsat(q.sys, 2)) return true;       // nothing to copy
        AV v = read(q, sa, k, cb); q.sys = st.sys;
        if (v.k != AV::Seg) error(cb, "element-alive", "takes its value from " + arrs[sa].name + "[" + A.at.str(k) + "], not shown to hold an element");
        Poly d = A.fresh("k"); SState w = st; w.sys.addGe(d - di); w.sys.addGe(di + len - Poly::c(1) - d);
        AV old = read(w, da, d, cb);
        if (old.k != AV::Id) error(cb, "constructed-once", "constructs elements over " + arrs[da].name + "[" + A.at.str(d) + "], not shown to be vacant: " + str(old));
        Fill f; f.lo = di; f.hi = di + len; f.var = d.t.begin()->first[0]; f.val = substAV(v, {{k.t.begin()->first[0], d - di + si}}); f.gen = st.gen; f.at = cb;
        Fill g; g.lo = si; g.hi = si + len; g.var = A.fresh("k").t.begin()->first[0]; g.val = AV::id(); g.gen = st.gen; g.at = cb;
        addFill(st, da, f); addFill(st, sa, g);
        return true;
      }
    }
    std::string nm, el;
    if (raw) { if (isa<MemIntrinsic>(cb)) error(cb, "not-modelled", "memory copy between unknown places"); }
    else if (storageMember(*c, nm, el)) {
      int64_t es = elemSize(el);
      if (!es) { error(cb, "not-modelled", "sequence of an unknown element type " + el); return true; }
      if (nm == "initialize_capacity" || nm == "set_size") {
        Poly n = A.of(cb->getArgOperand(1)); int a = seqArr(cb->getArgOperand(0), es);
        bool known = st.sized.count(a); if (nm == "set_size" && !known) { error(cb, "understood", "size of a sequence without storage"); return true; }
        if (known && !A.eq(st.sys, arrs[a].size, n)) { error(cb, "complete", "the size set, " + A.at.str(n) + ", differs from the number of slots " + A.at.str(arrs[a].size)); return true; }
        if (!known) { st.sized.insert(a); st.fills.erase(a); st.sys.addEq(arrs[a].size - n); if (A.unsat(st.sys, 2)) error(cb, "understood", "the length of a sequence changes"); }
        return true;
      }
      if (nm == "data" || nm == "size" || nm == "at" || nm == "capacity" || nm == "set_to_empty_representation" || nm == "clear" || nm == "~storage_impl") return true;
      error(cb, "not-modelled", "storage member " + nm); return true;
    }
    if (!raw && seqMember(*c, nm, el)) {
      int64_t es = elemSize(el);
      if (!es) { error(cb, "not-modelled", "sequence of an unknown element type " + el); return true; }
      auto fresh = [&](const Value* obj, const Poly& size) { int a = seqArr(obj, es); st.fills.erase(a); st.sys.addEq(arrs[a].size - size); if (A.unsat(st.sys, 2)) error(cb, "understood", "the length of a sequence changes"); return a; };
      std::string d = dem(c);
      if (nm == "uninitialized") { fresh(cb->getArgOperand(0), A.of(cb->getArgOperand(1))); return true; }
      if (nm == "sequence") {
        if (cb->arg_size() == 2 && cb->getArgOperand(1)->getType()->isIntegerTy()) {
          Poly n = A.of(cb->getArgOperand(1)); int a = fresh(cb->getArgOperand(0), n);
          if (el != "double") { Fill f; f.lo = Poly(); f.hi = n; f.var = A.fresh("k").t.begin()->first[0]; f.val = AV::num(Poly()); f.gen = -1; if (!arrs[a].covered) st.fills[a].push_back(f); }
          return true;
        }
        if (d.find("&&)") != std::string::npos) return true;      // move: same storage
        if (cb->arg_size() == 1) {
          bool later = false;      // an empty object that is assigned later: its length is that of what is assigned
          for (auto& BB : F) for (auto& J : BB) if (auto* cj = dyn_cast<CallBase>(&J)) if (auto* cf = cj->getCalledFunction()) { std::string n2, e2; if (seqMember(*cf, n2, e2) && n2 == "operator=" && seqName(cj->getArgOperand(0)) == seqName(cb->getArgOperand(0))) later = true; }
          if (later) { int a = seqArr(cb->getArgOperand(0), es); st.fills.erase(a); return true; }
          fresh(cb->getArgOperand(0), Poly()); return true; }
        if (cb->arg_size() == 3 && cb->getArgOperand(1)->getType()->isIntegerTy()) { 
          Poly n = A.of(cb->getArgOperand(1)); int a = fresh(cb->getArgOperand(0), n); std::pair<const Value*, int64_t> ck;
          Fill f; f.lo = Poly(); f.hi = n; f.var = A.fresh("k").t.begin()->first[0]; f.gen = -1; if (cellOf(cb->getArgOperand(2), ck) && st.cells.count(ck)) f.val = st.cells[ck];
          if (!arrs[a].covered) st.fills[a].push_back(f); return true; }
        error(cb, "not-modelled", "sequence constructor " + d); return true;
      }
      if (nm == "operator=" && d.find("initializer_list") == std::string::npos) {   // taken by value (or moved)
        int from = seqArr(cb->getArgOperand(1), es); Poly len = arrs[from].size; auto content = st.fills[from];
        int a = fresh(cb->getArgOperand(0), len); st.fills[a] = content; st.fills[from].clear(); return true;
      }
      if (nm == "operator[]" || nm == "begin" || nm == "end" || nm == "cbegin" || nm == "cend" || nm == "data" || nm == "size" || nm == "empty" || nm == "~sequence") {
        if (nm == "empty") { error(cb, "not-modelled", "empty()"); }
        if (nm == "operator[]" && !mute) { int a = seqArr(cb->getArgOperand(0), es); Poly i = A.of(cb->getArgOperand(1));
          if (arrs[a].hasSize && !(A.le(st.sys, Poly(), i) && A.lt(st.sys, i, arrs[a].size))) error(cb, "in-bounds", "subscript [" + A.at.str(i) + "] of a " + arrs[a].name + ", not shown to lie below its length " + A.at.str(arrs[a].size)); }
        return true;
      }
      error(cb, "not-modelled", "sequence member " + nm); return true;
    }
    if (isa<IntrinsicInst>(cb)) return true;
    if (cb->doesNotAccessMemory() || n == "sqrt" || n == "ceil" || n == "log2") return true;
    if (n.starts_with("plint_") || n.contains("get_default_allocator")) return true;
    error(cb, "not-modelled", "call of " + dem(c) + " is not understood");
    return true;
  }
  return true;
}
void SeqInt::body(const BasicBlock* BB, BasicBlock::const_iterator it, SState st, Ctx& ctx) {
  for (; it != BB->end(); ++it) {
    const Instruction& I = *it;
    if (I.isTerminator()) break;
    if (noWrap && !mute) if (auto* IC = dyn_cast<ICmpInst>(&I); IC && IC->isUnsigned() && IC->getOperand(0)->getType()->isIntegerTy(64)) for (int o = 0; o < 2; o++) {
      Poly p = A.of(IC->getOperand(o));
      if (wrapped(st, p) && !A.le(st.sys, Poly::c(-1), p)) error(IC, "no-wrap", "the unsigned value " + A.at.str(p) + " may be negative (wraps around)");
    }
    auto fork = [&](const Value* cond, const Value* a, const Value* b, const Poly* pa, const Poly* pb) {
      auto nx = std::next(it);
      for (int t = 1; t >= 0; t--) {
        SState s = st;
        std::vector<Fact> fs{{cond, t == 1, nullptr}};
        bool ok = learn(s, fs[0]);
        if (!ok) continue;
        if (I.getType()->isDoubleTy()) s.env[&I] = val(s, t ? a : b);
        else { Poly me = A.of(&I), v = a ? A.of(t ? a : b) : t ? *pa : *pb; if (me != v) s.sys.addEq(me - v); }
        body(BB, nx, s, ctx);
      }
    };
    if (auto* S = dyn_cast<SelectInst>(&I)) {
      bool isD = S->getType()->isDoubleTy();
      if (isD) { fork(S->getCondition(), S->getTrueValue(), S->getFalseValue(), nullptr, nullptr); return; }
      if (S->getType()->isIntegerTy() || S->getType()->isPointerTy()) {
        Poly me = A.of(S);
        bool opaque = me.t.size() == 1 && me.t.begin()->first.size() == 1 && A.at.a[me.t.begin()->first[0]].v == S;
        if (opaque) { fork(S->getCondition(), S->getTrueValue(), S->getFalseValue(), nullptr, nullptr); return; }
      }
    }
    if (isa<ZExtInst>(&I) && I.getOperand(0)->getType()->isIntegerTy(1)) {
      Poly me = A.of(&I);
      bool opaque = me.t.size() == 1 && me.t.begin()->first.size() == 1 && A.at.a[me.t.begin()->first[0]].v == &I;
      if (opaque) { Poly one = Poly::c(1), zero; fork(I.getOperand(0), nullptr, nullptr, &one, &zero); return; }
    }
    if (!exec(I, st)) return;
    if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->doesNotReturn()) return;
  }
  const Instruction* T = BB->getTerminator();
  if (isa<ReturnInst>(T)) { if (!ctx.check) { paths++; if (onRet) onRet(*this, st, T); } return; }
  for (unsigned s = 0; s < T->getNumSuccessors(); s++) {
    const BasicBlock* S = T->getSuccessor(s);
    for (auto& fs : edgeCases(BB, S)) {
    SState n = st; bool ok = true;
    for (auto& f : fs) if (!learn(n, f)) { ok = false; break; }
    if (auto* sw = dyn_cast<SwitchInst>(T)) if (!sw->getCondition()->getType()->isIntegerTy(1)) {
      Poly c = A.of(sw->getCondition()); bool isDef = sw->getDefaultDest() == S; std::vector<int64_t> cs; for (auto& cc : sw->cases()) if (cc.getCaseSuccessor() == S) cs.push_back(cc.getCaseValue()->getSExtValue());
      auto code = codeOf(n, c);
      auto ind = [&](int64_t k, int on) { if (!code) return; std::string key = code->key + "=" + std::to_string(k); if (flagReads) flagReads->insert({key, code->x}); n.sys.addEq(A.pf(key, code->x + Poly::c(1)) - A.pf(key, code->x) - Poly::c(on)); };
      if (!isDef && cs.size() == 1) { n.sys.addEq(c - Poly::c(cs[0])); for (auto& cc : sw->cases()) { int64_t k = cc.getCaseValue()->getSExtValue(); ind(k, k == cs[0]); } }
      else if (isDef) for (auto& cc : sw->cases()) if (cc.getCaseSuccessor() != S) { n.ne.push_back(c - Poly::c(cc.getCaseValue()->getSExtValue())); ind(cc.getCaseValue()->getSExtValue(), 0); }
      ok = ok && !A.unsat(n.sys, 2);
    }
    if (ok) walk(S, BB, n, ctx);
    }
  }
}
bool SeqInt::run(const Sys& pre) { SState st; st.sys = pre; return run(st); }
bool SeqInt::run(SState st) {
  Ctx c;
  body(&F.getEntryBlock(), F.getEntryBlock().begin(), st, c);
  if (overflow) errs.emplace("overflow", Err{"not-modelled", where(&F), "path limit exceeded"});
  return errs.empty();
}
}
