// Shape domain for singly linked lists: abstract nodes ("syms"), cells holding node pointers
// (fields of containers and of nodes), facts per node.  Used as the user state of Flow<>.
#pragma once
#include "flow.h"
#include "mem.h"
namespace plint {
struct Cell { int node = -1; const Value* root = nullptr; int64_t off = 0;   // node >= 0: field of a node
  bool operator<(const Cell& o) const { return std::tie(node, root, off) < std::tie(o.node, o.root, o.off); }
  bool operator==(const Cell& o) const { return node == o.node && root == o.root && off == o.off; } };
struct NodeInfo { int tag = 0; bool destroyed = false, unlinked = false, nn = false;   // nn: known non-null; tag: rule specific
  bool operator<(const NodeInfo& o) const { return std::tie(tag, destroyed, unlinked, nn) < std::tie(o.tag, o.destroyed, o.unlinked, o.nn); } };
struct Shape {
  std::map<const Value*, int> val;    // SSA value -> node (0 = null)
  std::map<Cell, int> mem;
  std::map<int, NodeInfo> info;
  int imb = 0, extra = 0;             // rule specific counters
  std::set<const Value*> marks;       // rule specific marks on values
  std::map<const Value*, int> pred;   // result of a predicate call -> node it was asked about
  std::map<int, int> slot;            // rule specific references to nodes
  bool operator<(const Shape& o) const { return std::tie(val, mem, info, imb, extra, marks, pred, slot) < std::tie(o.val, o.mem, o.info, o.imb, o.extra, o.marks, o.pred, o.slot); }
  int fresh() { int i = 1; while (info.count(i)) i++; info[i] = NodeInfo{}; return i; }
};
struct ShapeFlow {
  Function& F; const DataLayout& DL; Flow<Shape> fl;
  // map a pointer root to a container key (nullptr: it is a node)
  std::function<const Value*(const Value*)> container = [](const Value*) { return nullptr; };
  std::function<bool(const Cell&)> isLink = [](const Cell&) { return true; };          // does the cell hold a node pointer?
  std::function<bool(const Instruction&, Shape&, Env&)> onInst = [](const Instruction&, Shape&, Env&) { return true; };
  std::function<bool(const Fact&, Shape&, Env&)> onFact = [](const Fact&, Shape&, Env&) { return true; };
  std::function<void(const Instruction&, const Cell&, int, int, Shape&)> onLinkStore = [](const Instruction&, const Cell&, int, int, Shape&) {};  // cell, old, new
  std::function<void(const Instruction&, int, Shape&, bool)> onTouch = [](const Instruction&, int, Shape&, bool) {};   // node accessed (write?)
  std::function<void(const Instruction*, int, const NodeInfo&)> onForget = [](const Instruction*, int, const NodeInfo&) {};
  ShapeFlow(Function& f) : F(f), DL(f.getParent()->getDataLayout()) {}
  int sym(const Value* v, Shape& s, Env& e) {
    v = resolveVal<Shape>(v, e);
    if (isa<ConstantPointerNull>(v)) return 0;
    if (auto* C = dyn_cast<ConstantInt>(v)) if (C->isZero()) return 0;
    auto it = s.val.find(v); if (it != s.val.end()) return it->second;
    if (Flow<Shape>::eval(v, e) == 0) return 0;
    int n = s.fresh(); s.val[v] = n; return n;
  }
  // may v hold a pointer we follow?
  static bool ptrLike(const Value* v) { return v->getType()->isPointerTy() || v->getType()->isIntegerTy(64); }
  std::optional<Cell> cell(const Value* p, Shape& s, Env& e) {
    Loc l = locOf(DL, p); if (!l.exact) return std::nullopt;
    const Value* r = resolveVal<Shape>(l.root, e);
    if (r != l.root && isa<GEPOperator>(r)) { Loc l2 = locOf(DL, r); l2.off += l.off; l = l2; r = resolveVal<Shape>(l.root, e); }
    if (auto* c = container(r)) return Cell{-1, c, l.off};
    if (isa<AllocaInst>(r) || isa<GlobalValue>(r)) return Cell{-1, r, l.off};
    int n = sym(r, s, e); if (n == 0) return std::nullopt;
    return Cell{n, nullptr, l.off};
  }
  void store(const Instruction& I, const Cell& c, int v, Shape& s) {
    int old = -1; auto it = s.mem.find(c); if (it != s.mem.end()) old = it->second;
    onLinkStore(I, c, old, v, s);
    s.mem[c] = v;
  }
  int load(const Cell& c, Shape& s) { auto it = s.mem.find(c); if (it != s.mem.end()) return it->second; int n = s.fresh(); s.mem[c] = n; return n; }
  bool knownNull(const Value* v, Shape& s, Env& e) { return sym(v, s, e) == 0; }
  // drop unreachable syms and renumber
  void gc(Shape& s, const Instruction* at) {
    std::set<int> liveS{0};
    for (auto& p : s.val) liveS.insert(p.second);
    for (auto& p : s.slot) liveS.insert(p.second);
    for (auto it = s.pred.begin(); it != s.pred.end();) if (!liveS.count(it->second)) it = s.pred.erase(it); else ++it;
    std::set<int> direct = liveS;
    for (auto& p : s.mem) if (p.first.node < 0) liveS.insert(p.second);
    for (auto it = s.mem.begin(); it != s.mem.end();) { if (it->first.node >= 0 && !direct.count(it->first.node)) it = s.mem.erase(it); else { liveS.insert(it->second); ++it; } }
    for (auto it = s.info.begin(); it != s.info.end();) if (!liveS.count(it->first)) { onForget(at, it->first, it->second); it = s.info.erase(it); } else ++it;
    std::map<int, int> rn{{0, 0}}; int n = 0;
    auto get = [&](int x) { auto it = rn.find(x); if (it != rn.end()) return it->second; return rn[x] = ++n; };
    for (auto& p : s.val) get(p.second);
    for (auto& p : s.mem) if (p.first.node < 0) get(p.second);
    for (auto& p : s.slot) get(p.second);
    // cells of already numbered nodes in numeric order
    for (bool ch = true; ch;) { ch = false; std::vector<std::pair<int, int>> todo; for (auto& p : s.mem) if (p.first.node >= 0 && rn.count(p.first.node) && !rn.count(p.second)) todo.push_back({rn[p.first.node] * 1000 + (int)p.first.off, p.second}); std::sort(todo.begin(), todo.end()); for (auto& t : todo) if (!rn.count(t.second)) { get(t.second); ch = true; } }
    std::map<Cell, int> m2; for (auto& p : s.mem) { Cell c = p.first; if (c.node >= 0) c.node = get(c.node); m2[c] = get(p.second); } s.mem = m2;
    for (auto& p : s.val) p.second = get(p.second);
    for (auto& p : s.slot) p.second = get(p.second);
    for (auto& p : s.pred) p.second = get(p.second);
    std::map<int, NodeInfo> i2; for (auto& p : s.info) i2[get(p.first)] = p.second; s.info = i2;
  }
  std::map<const BasicBlock*, std::set<const Value*>> liveCache;
  const std::set<const Value*>& liveAt(const BasicBlock* S) {
    auto it = liveCache.find(S); if (it != liveCache.end()) return it->second;
    std::set<const Value*> used; std::set<const BasicBlock*> sb{S}; std::deque<const BasicBlock*> q{S};
    while (!q.empty()) { auto* b = q.front(); q.pop_front(); for (auto& I : *b) for (auto& o : I.operands()) if (!(isa<PHINode>(I) && b == S)) used.insert(o); for (auto* t : successors(b)) if (sb.insert(t).second) q.push_back(t); }
    for (auto* b : sb) for (auto& P : b->phis()) if (b != S || true) for (unsigned i = 0; i < P.getNumIncomingValues(); i++) if (sb.count(P.getIncomingBlock(i))) used.insert(P.getIncomingValue(i));
    // through casts, geps, selects, extractvalue
    for (std::deque<const Value*> w(used.begin(), used.end()); !w.empty();) { auto* v = w.front(); w.pop_front(); if (isa<CastInst>(v) || isa<GetElementPtrInst>(v) || isa<SelectInst>(v) || isa<ICmpInst>(v)) for (auto& o : cast<Instruction>(v)->operands()) if (used.insert(o).second) w.push_back(o); }
    return liveCache.emplace(S, used).first->second;
  }
  void run(Shape init) {
    fl.keepVal = [](const Value* v, const Shape& s) { return s.marks.count(v) > 0; };
    fl.onInst = [&](const Instruction& I, Shape& s, Env& e) {
      s.val.erase(&I); s.pred.erase(&I);
      if (auto* L = dyn_cast<LoadInst>(&I)) {
        auto c = cell(L->getPointerOperand(), s, e);
        if (c) { if (c->node > 0) onTouch(I, c->node, s, false);
          if (ptrLike(L) && isLink(*c)) { int v = load(*c, s); s.val[L] = v; if (v == 0) e.k[L] = 0; else if (s.info[v].nn) e.k[L] = 1; } }
      } else if (auto* S = dyn_cast<StoreInst>(&I)) {
        auto c = cell(S->getPointerOperand(), s, e);
        if (c) { if (c->node > 0) onTouch(I, c->node, s, true);
          if (ptrLike(S->getValueOperand()) && isLink(*c)) store(I, *c, sym(S->getValueOperand(), s, e), s); }
      }
      return onInst(I, s, e); };
    fl.onFact = [&](const Fact& f, Shape& s, Env& e) {
      const Value* x; bool eq;
      if (Flow<Shape>::nullCmp(strip(f.cond), x, eq) && ptrLike(x) && !s.pred.count(x)) { bool isNull = f.val == eq; auto* r = resolveVal<Shape>(x, e); auto it = s.val.find(r);
        if (it != s.val.end()) { if (isNull && it->second && s.info[it->second].nn) return false; if (isNull && it->second) { int id = it->second; for (auto& p : s.val) if (p.second == id) p.second = 0; for (auto& p : s.mem) if (p.second == id) p.second = 0; for (auto m = s.mem.begin(); m != s.mem.end();) if (m->first.node == id) m = s.mem.erase(m); else ++m; s.info.erase(id); for (auto& p : s.slot) if (p.second == id) p.second = 0; }
          else if (!isNull && !it->second) return false; else if (!isNull && it->second) s.info[it->second].nn = true; if (!isNull) for (auto& p : s.val) if (p.second == it->second) e.k[p.first] = 1; } }
      // equality of two followed values
      if (auto* IC = dyn_cast<ICmpInst>(strip(f.cond)); IC && IC->isEquality() && f.val == (IC->getPredicate() == ICmpInst::ICMP_EQ)) {
        auto a = s.val.find(resolveVal<Shape>(IC->getOperand(0), e)), b = s.val.find(resolveVal<Shape>(IC->getOperand(1), e));
        if (a != s.val.end() && b != s.val.end() && a->second > 0 && b->second > 0 && a->second != b->second && 0) {} }
      return onFact(f, s, e); };
    fl.onEdge = [&](const BasicBlock* B, const BasicBlock* S, Shape& s, Env& e) {
      std::vector<std::pair<const Value*, int>> up;
      for (auto& P : S->phis()) { auto* in = P.getIncomingValueForBlock(B); auto* r = resolveVal<Shape>(in, e);
        int v = -1; if (isa<ConstantPointerNull>(r)) v = 0; else { auto it = s.val.find(r); if (it != s.val.end()) v = it->second; }
        up.push_back({&P, v}); }
      for (auto& p : up) if (p.second >= 0) s.val[p.first] = p.second; else s.val.erase(p.first);
      auto& lv = liveAt(S);
      std::set<const Value*> phis; for (auto& P : S->phis()) phis.insert(&P);
      for (auto it = s.val.begin(); it != s.val.end();) { auto* I = dyn_cast<Instruction>(it->first); bool dead = !lv.count(it->first) || (I && I->getParent() == S && !phis.count(it->first)); if (dead) it = s.val.erase(it); else ++it; }
      for (auto it = s.pred.begin(); it != s.pred.end();) if (!lv.count(it->first)) it = s.pred.erase(it); else ++it;
      gc(s, B->getTerminator());
      return true; };
    fl.run(F, init);
  }
};
}
