// A03: the lock-free stack behind the allocators and its hazard-pointer reclamation.
#include "shape.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
namespace {
const Value* unInt(const Value* v) { v = strip(v); for (int i = 0; i < 6; i++) if (auto* C = dyn_cast<CastInst>(v)) v = strip(C->getOperand(0)); else break; return v; }
bool isDelete(const Instruction& I) { auto* cb = dyn_cast<CallBase>(&I); return cb && cb->getCalledFunction() && (cb->getCalledFunction()->getName().starts_with("_ZdlPv") || cb->getCalledFunction()->getName() == "free"); }
bool isNew(const Value* v) { auto* cb = dyn_cast<CallBase>(v); return cb && cb->getCalledFunction() && cb->getCalledFunction()->getName().starts_with("_Znwm"); }
struct Errs { Report& R; std::map<std::string, std::array<std::string, 3>> m;
  void operator()(const std::string& w, const char* r, const std::string& msg) { m.emplace(w + r + msg, std::array<std::string, 3>{r, w, msg}); }
  bool flush(const std::string& okRule, const std::string& w, const std::string& okMsg) { for (auto& e : m) R.add(e.second[0], e.second[1], false, e.second[2]); bool ok = m.empty(); if (ok) R.add(okRule, w, true, okMsg); m.clear(); return ok; } };
bool memberIs(const Instruction& I, const char* cls, const char* meth) {
  auto* cb = dyn_cast<CallBase>(&I); if (!cb || !cb->getCalledFunction()) return false;
  std::string d = dem(cb->getCalledFunction()); auto p = d.find(cls); if (p == std::string::npos) return false;
  // method name at nesting depth 0 after the class
  std::string m = std::string("::") + meth; int depth = 0; size_t last = std::string::npos;
  for (size_t i = 0; i < d.size(); i++) { char c = d[i]; if (c == '<' && !(i >= 8 && d.compare(i - 8, 8, "operator") == 0)) depth++; else if (c == '>' && i && d[i - 1] != '-') depth--; else if (c == '(' && depth == 0) break; if (depth == 0 && d.compare(i, m.size(), m) == 0) last = i; }
  if (last == std::string::npos) return false; char nx = d[last + m.size()]; return nx == '(' || nx == '<';
}
// the per-thread bodies a for_each instantiation applies
std::vector<Function*> bodiesOf(Function* fe) { std::vector<Function*> v; for (auto& I : instructions(*fe)) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* G = cb->getCalledFunction()) { if (G->isDeclaration() || G->arg_size() != 2) continue; std::string d = dem(G); if (d.find("operator()") != std::string::npos && d.find("lambda") != std::string::npos) v.push_back(G); } return v; }
bool isArrow(const Value* v) { auto* I = dyn_cast<Instruction>(v); return I && (memberIs(*I, "ThreadSpecific<", "operator->") || memberIs(*I, "ThreadSpecific<", "operator*") || memberIs(*I, "ThreadSpecific<", "get")); }
bool isAcq(const Instruction& I) { return memberIs(I, "intrusive_acquire_retire<", "acquire"); }
bool isRelease(const Instruction& I) { return memberIs(I, "intrusive_acquire_retire<", "release"); }
bool isRetire(const Instruction& I) { return memberIs(I, "intrusive_acquire_retire<", "retire"); }
bool keepTS(const Function& f) { std::string d = dem(&f); if (d.find("parlay::num_thread_ids()") != std::string::npos) return true; if (d.find("unordered_set") != std::string::npos && d.find("lambda") == std::string::npos) return true;
  auto p = d.find("parlay::ThreadSpecific<"); return p != std::string::npos && p < d.find('(') && f.getName().starts_with("_ZN6parlay14ThreadSpecific"); }
bool keepAR(const Function& f) { if (keepTS(f)) return true; return f.getName().starts_with("_ZN6parlay8internal24intrusive_acquire_retire") && f.getName().find("acquireI") + f.getName().find("releaseE") + f.getName().find("retireI") != 3 * std::string::npos && f.getName().find("RetiredList") == StringRef::npos; }
}
RULE(hazptr) {
  const DataLayout& DL = M.getDataLayout();
  const std::string AR = "intrusive_acquire_retire<";
  int64_t nT = memberOffset(M, "Node", "t"), nNext = memberOffset(M, "Node", "next"), nLen = memberOffset(M, "Node", "length");
  int64_t lHead = memberOffset(M, "RetiredList", "head"), lSize = memberOffset(M, "RetiredList", "size");
  int64_t dAnn = memberOffset(M, "ThreadData", "announcement"), dProg = memberOffset(M, "ThreadData", "in_progress"), dList = memberOffset(M, "ThreadData", "retired");
  int64_t sHead = memberOffset(M, "hazptr_stack<", "head");
  if (nT < 0 || nNext < 0 || nLen < 0 || lHead < 0 || lSize < 0 || dAnn < 0 || dProg < 0 || dList < 0 || sHead < 0) { R.brk("members of Node / RetiredList / ThreadData / hazptr_stack not found"); return; }
  Errs err{R, {}};
  auto fn = [&](const char* n, bool (*keep)(const Function&)) -> Function* { auto* F = findFn(M, n); if (!F) { R.brk(std::string("no ") + n); return nullptr; } PrepOptions o; if (keep) o.keep = keep; prepare(*F, o); R.functions.insert(n); return F; };
  auto member = [&](const std::string& a, const std::string& b, const std::string& notIn = "\1") -> Function* { for (auto& G : M) { if (G.isDeclaration()) continue; std::string d = dem(&G); if (d.find(a) != std::string::npos && d.find(b) != std::string::npos && d.find(notIn) == std::string::npos) return &G; } return nullptr; };
  auto callees = [&](Function* F, auto pred) -> Function* { for (auto& I : instructions(*F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() && pred(I)) return cb->getCalledFunction(); return nullptr; };
  // functions called by the drivers before inlining
  Function *fAcq = nullptr, *fRel = nullptr;
  if (auto* F = findFn(M, "drv_hp_acquire")) fAcq = callees(F, isAcq);
  if (auto* F = findFn(M, "drv_hp_release")) fRel = callees(F, isRelease);
  (void)member;
  // -------------------------------------------------------------- scanning one thread's announcement
  std::map<Function*, bool> scans; 
  auto isScan = [&](Function* fe) -> bool {
    auto it = scans.find(fe); if (it != scans.end()) return it->second;
    bool any = false;
    for (auto* Gp : bodiesOf(fe)) { Function& G = *Gp; std::string d = dem(&G);
      PrepOptions o; o.keep = keepTS; prepare(G, o); const Value* td = G.getArg(1); bool reads = false;
      for (auto& I : instructions(G)) if (auto* L = dyn_cast<LoadInst>(&I)) { Loc l = locOf(DL, L->getPointerOperand()); if (l.root == td && l.off == dAnn) reads = true; }
      if (!reads) continue;
      R.functions.insert(d); any = true;
      struct U { bool ins = false; const Value* x = nullptr; bool operator<(const U& o) const { return std::tie(ins, x) < std::tie(o.ins, o.x); } };
      Flow<U> fl;
      fl.keepVal = [](const Value* v, const U& u) { return v == u.x || unInt(v) == u.x; };
      fl.onInst = [&](const Instruction& I, U& u, Env& e) {
        if (auto* L = dyn_cast<LoadInst>(&I)) { Loc l = locOf(DL, L->getPointerOperand()); if (l.root == td && l.exact && l.off == dAnn) { u.x = L; if (!L->isAtomic()) err(where(L), "scan-load", "an announcement is read non-atomically"); } }
        if (memberIs(I, "unordered_set<", "insert") || memberIs(I, "unordered_set<", "emplace")) { 
          auto& cb = cast<CallBase>(I); const Value* a = cb.getArgOperand(cb.arg_size() - 1);
          // by reference to a local: the value last stored there
          Loc l = locOf(DL, a); const Value* v = nullptr; for (auto& J : instructions(G)) if (auto* S = dyn_cast<StoreInst>(&J)) if (S->getPointerOperand() == l.root) v = unInt(S->getValueOperand());
          if (unInt(resolveVal<U>(v ? v : a, e)) == u.x) u.ins = true; }
        if (isa<ReturnInst>(I)) { bool nul = false; for (auto& k : e.k) if (k.second == 0 && unInt(k.first) == u.x) nul = true; 
          if (!u.x) err(where(&I), "scan-complete", "a thread's announcement is not read"); else if (!u.ins && !nul) err(where(&I), "scan-complete", "an announced pointer is not recorded as protected"); }
        return true; };
      fl.run(G, U{});
      err.flush("scan-complete", where(&G), "every non-null announcement is recorded");
    }
    scans[fe] = any; R.counts["scan bodies"] += any; return any; };
  // -------------------------------------------------------------- list shape: push and cleanup
  auto listRule = [&](Function* F, int64_t base, const Value* inserted, auto isPredCall, auto isContainerRoot, bool retire) {
    ShapeFlow sf(*F); long destroys = 0; const Value* KEY = F->getArg(0);
    sf.container = [&](const Value* r) -> const Value* { return isContainerRoot(r) ? KEY : nullptr; };
    sf.isLink = [&](const Cell& c) { if (c.node >= 0) return c.off == nNext; if (c.root == KEY) return c.off == base + lHead; return isa<AllocaInst>(c.root); };
    auto bit = [](Shape& s, int b) { return (s.extra >> b) & 1; };
    enum { PROG = 0, FENCE = 1, SCAN = 2, CHECKED = 3, INS = 4 }; std::set<const Instruction*> scanSites;
    sf.onTouch = [&](const Instruction& I, int n, Shape& s, bool) { if (s.info[n].destroyed) err(where(&I), "use-after-destroy", "a retired node is accessed after it was destroyed"); };
    sf.onLinkStore = [&](const Instruction& I, const Cell& c, int old, int v, Shape& s) {
      if (c.node < 0 && c.root != KEY) return;
      if (c.node > 0 && s.info[c.node].tag == 3 && !s.slot.count(2)) return;   // linking a node that is being inserted
      if (v > 0 && s.info[v].tag == 3 && c.node < 0) { s.slot[0] = old < 0 ? (old = s.fresh()) : old; s.slot[1] = v; s.imb--; s.extra &= ~(1 << SCAN); s.extra |= 1 << INS; return; }
      if (old > 0) { Cell nx{old, nullptr, nNext}; auto it = s.mem.find(nx);
        if (it != s.mem.end() && it->second == v) { s.info[old].unlinked = true; if (s.info[old].tag != 2) err(where(&I), "kept-linked", "a node that may still be protected is dropped from the retired list"); return; } 
        if (old == v) return; }
      err(where(&I), "kept-linked", "the retired list is relinked around nodes that were not destroyed: they are lost or freed twice"); };
    auto pendingDone = [&](const Instruction& I, Shape& s) { if (!s.slot.count(0)) return; int x = s.slot[1]; auto it = s.mem.find(Cell{x, nullptr, nNext}); if (it == s.mem.end() || it->second != s.slot[0]) err(where(&I), "push-links", "a retired node is inserted without linking the nodes behind it"); s.slot.clear(); s.info[x].tag = 0; };
    sf.onForget = [&](const Instruction* at, int, const NodeInfo& i) { if (i.destroyed && !i.unlinked) err(where(at), "unlink", "a destroyed node stays in the retired list"); };
    sf.onInst = [&](const Instruction& I, Shape& s, Env& e) {
      if (I.isTerminator()) pendingDone(I, s);
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        int n = isPredCall(I, s, e, sf); if (n >= 0) s.pred[&I] = n;
        if (isDelete(I)) { int x = sf.sym(cb->getArgOperand(0), s, e);
          if (x > 0) { destroys++; auto& i = s.info[x]; 
            if (i.destroyed) err(where(&I), "destroy-once", "a retired node is destroyed twice"); 
            if (i.tag != 2) err(where(&I), "destroy-unprotected", "a retired node is destroyed without having been found unprotected");
            if (retire) { if (!bit(s, SCAN)) err(where(&I), "scan-before-destroy", "retired nodes are destroyed without a scan of all announcements since they were retired");
              if (!bit(s, PROG) || !bit(s, CHECKED)) err(where(&I), "no-reentry", "destroying retired nodes is not guarded against re-entry from their destructors"); }
            i.destroyed = true; s.imb++; if (s.imb > 3) return false; } }
        if (retire) {
          if (memberIs(I, "ThreadSpecific<", "for_each") && isScan(cb->getCalledFunction())) {
            if (!bit(s, FENCE)) err(where(&I), "scan-fence", "announcements are scanned without a sequentially consistent fence after the nodes were retired"); s.extra |= 1 << SCAN; scanSites.insert(&I); }
          if (cb->getCalledFunction() && dem(cb->getCalledFunction()).find("unordered_set(") != std::string::npos && dem(cb->getCalledFunction()).find("~") == std::string::npos) s.extra &= ~(1 << SCAN); }
      }
      if (auto* Fe = dyn_cast<FenceInst>(&I)) if (Fe->getOrdering() == AtomicOrdering::SequentiallyConsistent) s.extra |= 1 << FENCE;
      if (auto* S = dyn_cast<StoreInst>(&I)) { auto c = sf.cell(S->getPointerOperand(), s, e);
        if (c && c->node < 0 && c->root == KEY && c->off == base + lSize) {
          auto* A = dyn_cast<BinaryOperator>(strip(S->getValueOperand())); auto* K = A ? dyn_cast<ConstantInt>(A->getOperand(1)) : nullptr; auto* L = A ? dyn_cast<LoadInst>(strip(A->getOperand(0))) : nullptr;
          bool ok = A && K && L && (A->getOpcode() == Instruction::Add || A->getOpcode() == Instruction::Sub);
          if (ok) { auto lc = sf.cell(L->getPointerOperand(), s, e); ok = lc && *lc == *c; }
          if (!ok) err(where(&I), "size", "the size of the retired list is set to something else than its old value plus or minus the nodes added or removed");
          else s.imb += (A->getOpcode() == Instruction::Add ? 1 : -1) * (int)K->getSExtValue();
          if (s.imb > 3 || s.imb < -3) return false; }
        if (retire && c && c->node < 0 && c->root == KEY && c->off == dProg) { auto* K = dyn_cast<ConstantInt>(S->getValueOperand()); if (K && K->isZero()) s.extra &= ~((1 << PROG) | (1 << CHECKED)); else s.extra |= 1 << PROG; } }
      if (isa<ReturnInst>(I)) {
        if (s.imb) err(where(&I), "size", "the size of the retired list does not follow the nodes added and destroyed");
        if (retire && bit(s, PROG)) err(where(&I), "progress-reset", "reclamation stays marked as in progress: this thread never reclaims again");
        for (auto& p : s.info) if (p.second.destroyed && !p.second.unlinked) err(where(&I), "unlink", "a destroyed node stays in the retired list");
        if (inserted) { if (!bit(s, INS)) err(where(&I), "push-links", "a retired node may not be put on the list: it is leaked"); }
      }
      return true; };
    sf.onFact = [&](const Fact& f, Shape& s, Env& e) {
      bool t = f.val; const Value* c = strip(f.cond);
      for (int i = 0; i < 4; i++) { if (auto* X = dyn_cast<BinaryOperator>(c); X && X->getOpcode() == Instruction::Xor) { t = !t; c = strip(X->getOperand(0)); continue; } const Value* x; bool eq; if (Flow<Shape>::nullCmp(c, x, eq) && s.pred.count(x)) { t = (t != eq); c = x; break; }
        if (auto* IC = dyn_cast<ICmpInst>(c); IC && IC->isEquality()) for (int k = 0; k < 2; k++) { auto* p = strip(IC->getOperand(k)); auto* q = dyn_cast<CallBase>(strip(IC->getOperand(1 - k))); if (s.pred.count(p) && q && memberIs(*q, "unordered_set<", "end")) { t = (t != (IC->getPredicate() == ICmpInst::ICMP_EQ)); c = p; break; } } break; }
      auto it = s.pred.find(c); if (it != s.pred.end()) { int want = t ? 1 : 2; auto& tg = s.info[it->second].tag; if (tg != 3) tg = want; else tg = want; }
      bool tr; if (auto* L = testedLoad(f.cond, f.val, tr)) { auto cc = sf.cell(L->getPointerOperand(), s, e); if (retire && cc && cc->node < 0 && cc->root == KEY && cc->off == dProg && !tr) s.extra |= 1 << CHECKED; }
      return true; };
    Shape init; if (inserted) { init.val[inserted] = 1; init.info[1] = NodeInfo{3, false, false}; }
    sf.run(init);
    if (sf.fl.overflow) R.brk("state limit in " + dem(F));
    R.counts["destroy sites"] += destroys ? 1 : 0; R.counts["scans"] += scanSites.size(); R.counts["states"] += sf.fl.states;
    err.flush("retired-list", where(F), "every path keeps protected nodes linked, destroys each unprotected node once and keeps the size");
    return destroys;
  };
  if (auto* F = fn("drv_rl_push", nullptr)) listRule(F, 0, F->getArg(1), [](const Instruction&, Shape&, Env&, ShapeFlow&) { return -1; }, [&](const Value* r) { return r == F->getArg(0); }, false);
  if (auto* F = fn("drv_rl_cleanup", nullptr)) {
    long d = listRule(F, 0, nullptr, [](const Instruction& I, Shape& s, Env& e, ShapeFlow& sf) { return calls(I, "plint_protected") ? sf.sym(cast<CallBase>(I).getArgOperand(0), s, e) : -1; }, [&](const Value* r) { return r == F->getArg(0); }, false);
    if (!d) R.add("reclaims", where(F), false, "cleanup never destroys anything"); }
  if (auto* F = fn("drv_hp_retire", keepTS)) {
    auto pred = [](const Instruction& I, Shape& s, Env& e, ShapeFlow& sf) -> int {
      auto* cb = cast<CallBase>(&I); if (!cb->getCalledFunction()) return -1; 
      bool q = memberIs(I, "unordered_set<", "count") || memberIs(I, "unordered_set<", "contains") || memberIs(I, "unordered_set<", "find"); if (!q) return -1;
      auto c = sf.cell(cb->getArgOperand(1), s, e); if (!c) return -1; auto it = s.mem.find(*c); return it == s.mem.end() ? -1 : it->second; };
    for (auto& I : instructions(*F)) if (memberIs(I, "ThreadSpecific<", "for_each")) isScan(cast<CallBase>(I).getCalledFunction());
    long d = listRule(F, dList, F->getArg(1), pred, [&](const Value* r) { return isArrow(r); }, true);
    if (!d) R.add("reclaims", where(F), false, "retire never reclaims anything");
  }
  // -------------------------------------------------------------- acquire / release
  if (!fAcq || fAcq->isDeclaration()) { R.brk("acquire not found"); } else { Function* F = fAcq; PrepOptions o; o.keep = keepTS; prepare(*F, o); R.functions.insert(dem(F)); const Value* src = F->getArg(1);
    auto slot = [&](const Value* p) { Loc l = locOf(DL, p); return l.exact && l.off == dAnn && isArrow(l.root); };
    struct U { std::set<const Value*> ann, late; int fenced = 0; bool sc = false, valid = false; bool operator<(const U& o) const { return std::tie(ann, late, fenced, sc, valid) < std::tie(o.ann, o.late, o.fenced, o.sc, o.valid); } };
    Flow<U> fl; int stores = 0, rets = 0;
    auto base = [&](const Value* v, const Env& e) { return unInt(resolveVal<U>(v, e)); };
    fl.keepVal = [](const Value* v, const U& u) { return u.ann.count(v) > 0; };
    fl.onInst = [&](const Instruction& I, U& u, Env& e) {
      u.ann.erase(&I); u.late.erase(&I);
      if (auto* S = dyn_cast<StoreInst>(&I)) if (slot(S->getPointerOperand())) { stores++; u.ann = {base(S->getValueOperand(), e)}; u.late.clear(); u.valid = false; u.fenced = 0; u.sc = S->getOrdering() == AtomicOrdering::SequentiallyConsistent; if (!S->isAtomic()) err(where(S), "announce-order", "the announcement is not an atomic store"); }
      if (auto* X = dyn_cast<AtomicRMWInst>(&I)) if (slot(X->getPointerOperand()) && X->getOperation() == AtomicRMWInst::Xchg) { stores++; u.ann = {base(X->getValOperand(), e)}; u.late.clear(); u.valid = false; u.fenced = 0; u.sc = X->getOrdering() == AtomicOrdering::SequentiallyConsistent; }
      if (auto* Fe = dyn_cast<FenceInst>(&I)) if (Fe->getOrdering() == AtomicOrdering::SequentiallyConsistent) u.fenced = 1;
      if (auto* L = dyn_cast<LoadInst>(&I)) if (locOf(DL, L->getPointerOperand()).root == src) { 
        if (!u.ann.empty() && (u.fenced || (u.sc && L->getOrdering() == AtomicOrdering::SequentiallyConsistent))) u.late.insert(L);
        }
      if (auto* r = dyn_cast<ReturnInst>(&I)) { rets++; auto* x = base(r->getReturnValue(), e); 
        bool nul = Flow<U>::eval(r->getReturnValue(), e) == 0; for (auto& k : e.k) if (k.second == 0 && unInt(k.first) == x) nul = true;
        bool isAnn = u.ann.count(x) || u.late.count(x);
        if (!nul && !(isAnn && u.valid)) err(where(&I), "announce-validate", u.ann.count(x) ? "the pointer is used without re-reading the source after announcing it (sequentially consistent): it may already have been retired and scanned" : "the pointer returned is not the one announced"); }
      return true; };
    fl.onFact = [&](const Fact& f, U& u, Env& e) { if (auto* IC = dyn_cast<ICmpInst>(strip(f.cond)); IC && IC->isEquality() && f.val == (IC->getPredicate() == ICmpInst::ICMP_EQ)) {
        auto *a = base(IC->getOperand(0), e), *b = base(IC->getOperand(1), e);
        if ((u.ann.count(a) && u.late.count(b)) || (u.ann.count(b) && u.late.count(a))) u.valid = true; } return true; };
    fl.onEdge = [&](const BasicBlock* a, const BasicBlock* b, U& u, Env& e) { 
      std::vector<std::pair<const Value*, int>> up; for (auto& P : b->phis()) { auto* x = base(P.getIncomingValueForBlock(a), e); up.push_back({&P, (u.ann.count(x) ? 1 : 0) | (u.late.count(x) ? 2 : 0)}); }
      for (auto& p : up) { if (p.second & 1) u.ann.insert(p.first); else u.ann.erase(p.first); if (p.second & 2) u.late.insert(p.first); else u.late.erase(p.first); } return true; };
    fl.run(*F, U{});
    if (!stores) err(where(F), "announce-validate", "acquire never announces the pointer it returns");
    err.flush("announce-validate", where(F), "announced, then re-read equal with sequentially consistent order on every path"); R.counts["acquire returns"] += rets;
  }
  if (!fRel || fRel->isDeclaration()) { R.brk("release not found"); } else { Function* F = fRel; PrepOptions o; o.keep = keepTS; prepare(*F, o); R.functions.insert(dem(F));
    bool ok = false; for (auto& I : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&I)) { Loc l = locOf(DL, S->getPointerOperand()); if (l.exact && l.off == dAnn && isArrow(l.root)) { auto* C = dyn_cast<Constant>(unInt(S->getValueOperand())); ok = C && C->isNullValue() && atLeast(S->getOrdering(), AtomicOrdering::Release); if (!ok) err(where(S), "release-order", "the announcement is not withdrawn with a release store of null: reads through the pointer may move past it"); } }
    err.flush("release-order", where(F), ok ? "withdrawn with release order" : "nothing withdrawn (only delays reclamation)");
  }
  // -------------------------------------------------------------- stack operations
  struct S3 { std::set<const Value*> prot, won, fresh, pubd; std::map<const Value*, const Value*> nx; int nw = 0, nret = 0, pub = 0; bool read = false, sawNull = false; const Value* next = nullptr; const Value* len = nullptr;
    bool operator<(const S3& o) const { return std::tie(prot, won, fresh, pubd, nx, nw, nret, pub, read, sawNull, next, len) < std::tie(o.prot, o.won, o.fresh, o.pubd, o.nx, o.nw, o.nret, o.pub, o.read, o.sawNull, o.next, o.len); } };
  auto stackOp = [&](const char* name, int kind) {   // 0 push 1 pop 2 size
    Function* F = fn(name, keepAR); if (!F) return; const Value* self = F->getArg(0);
    auto isHead = [&](const Value* p) { Loc l = locOf(DL, p); return l.exact && l.root == self && l.off == sHead; };
    Flow<S3> fl; int acqs = 0, cass = 0, retires = 0;
    auto base = [&](const Value* v, const Env& e) { for (int i = 0; i < 4; i++) { auto* w = unInt(resolveVal<S3>(v, e)); if (w == v) break; v = w; } return v; };
    fl.keepVal = [](const Value* v, const S3& u) { return u.prot.count(v) || u.won.count(v) || u.fresh.count(v); };
    auto touch = [&](const Instruction& I, const Value* p, S3& u, Env& e, bool write) {
      Loc l = locOf(DL, p); auto* r = base(l.root, e); 
      if (r == self || isa<AllocaInst>(r) || isa<GlobalValue>(r) || isa<Argument>(r)) return;
      if (auto* cb = dyn_cast<CallBase>(r)) if (cb->getCalledFunction() && !isAcq(*cb) && !isNew(cb)) return;
      if (u.fresh.count(r) && !u.pub) { if (write && l.off == nNext) u.next = base(cast<StoreInst>(I).getValueOperand(), e); if (write && l.off == nLen) u.len = base(cast<StoreInst>(I).getValueOperand(), e); return; }
      if (u.pubd.count(r)) { err(where(&I), "published-node", "a node is accessed after it was published: another thread may have freed it"); return; }
      bool ok = u.prot.count(r) || (u.won.count(r) && u.nret == 0);
      if (!ok) err(where(&I), "protected-access", u.won.count(r) ? "a node is accessed after it was retired and its protection withdrawn" : "a shared node is accessed without being protected by this thread's announcement");
      if (ok && Flow<S3>::eval(l.root, e) == 0) err(where(&I), "null-node", "a null node is accessed");
      if (write) { if (!u.won.count(r)) err(where(&I), "shared-write", "a shared node is modified"); }
      if (auto* L = dyn_cast<LoadInst>(&I)) { if (l.off == nNext) u.nx[L] = r; if (l.off >= nT && l.off < nNext && u.won.count(r)) u.read = true; }
    };
    fl.onInst = [&](const Instruction& I, S3& u, Env& e) {
      for (auto* st : {&u.prot, &u.won, &u.fresh, &u.pubd}) st->erase(&I);
      u.nx.erase(&I); for (auto it = u.nx.begin(); it != u.nx.end();) if (it->second == &I) it = u.nx.erase(it); else ++it;
      if (isAcq(I)) { acqs++; u.sawNull = false; bool h = isHead(cast<CallBase>(I).getArgOperand(1)); u.prot.clear(); if (h) u.prot = {&I}; else err(where(&I), "acquire-head", "the protected pointer is not read from the head"); return true; }
      if (isRelease(I)) { u.prot.clear(); return true; }
      if (isRetire(I)) { retires++; auto* x = base(cast<CallBase>(I).getArgOperand(1), e); u.nret++; if (!u.won.count(x)) err(where(&I), "retire-own", "a node is retired that this call did not remove"); if (u.nret > 1) err(where(&I), "retire-once", "a node is retired twice"); return u.nret < 3; }
      if (isDelete(I)) { auto* x = base(cast<CallBase>(I).getArgOperand(0), e); if (!(u.fresh.count(x) && !u.pub)) err(where(&I), "no-direct-free", "a node other threads may hold is freed directly"); return true; }
      if (isNew(&I)) { u.fresh = {&I}; return true; }
      if (auto* L = dyn_cast<LoadInst>(&I)) { if (isHead(L->getPointerOperand())) return true; touch(I, L->getPointerOperand(), u, e, false); }
      if (auto* S = dyn_cast<StoreInst>(&I)) { if (isHead(S->getPointerOperand())) { err(where(&I), "head-cas-only", "the head is overwritten without a compare-exchange"); return true; } touch(I, S->getPointerOperand(), u, e, true); }
      if (auto* X = dyn_cast<AtomicRMWInst>(&I)) if (isHead(X->getPointerOperand())) err(where(&I), "head-cas-only", "the head is overwritten unconditionally");
      if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) if (isHead(X->getPointerOperand())) { cass++;
        auto *ex = base(X->getCompareOperand(), e), *nw = base(X->getNewValOperand(), e);
        if (kind == 0) { if (!u.fresh.count(nw) || u.pub) err(where(X), "push-node", "something other than the new node is published");
          if (!u.prot.count(ex)) err(where(X), "expected-protected", "the exchange expects a head that is not protected (ABA)");
          bool bothNull = false; { auto* C = dyn_cast_or_null<Constant>(u.next); bothNull = C && C->isNullValue() && Flow<S3>::eval(X->getCompareOperand(), e) == 0; for (auto& k : e.k) if (C && C->isNullValue() && k.second == 0 && unInt(k.first) == ex) bothNull = true; }
          if (u.next != ex && !bothNull) err(where(X), "push-next", "the new node's successor is not the head the exchange expects: nodes behind it are lost");
          if (!atLeast(X->getSuccessOrdering(), AtomicOrdering::Release)) err(where(X), "cas-order", "publishing does not release the node's contents"); }
        else if (kind == 1) { if (!u.prot.count(ex)) err(where(X), "expected-protected", "the exchange expects a head that is not protected (ABA)");
          auto it = u.nx.find(nw); if (it == u.nx.end() || it->second != ex) err(where(X), "pop-next", "the head is not replaced by the successor of the node being removed");
          if (!atLeast(X->getSuccessOrdering(), AtomicOrdering::Acquire)) err(where(X), "cas-order", "removing a node does not acquire its contents"); }
        else err(where(X), "head-cas-only", "an observer modifies the head"); }
      if (auto* r = dyn_cast<ReturnInst>(&I)) {
        if (kind == 0 && u.pub != 1) err(where(r), "push-once", u.pub ? "the node is published twice" : "push may return without publishing its node");
        if (kind == 1) { if (u.nw > 1) err(where(r), "pop-once", "one pop removes two nodes");
          if (u.nw == 1 && !u.read) err(where(r), "pop-value", "the value of the removed node is not read after the node was removed");
          if (u.nw == 1 && u.nret != 1) err(where(r), "retire-once", "the removed node is never retired: it leaks");
          if (u.nw == 0) { bool nul = false; for (auto& k : e.k) if (k.second == 0 && u.prot.count(unInt(k.first))) nul = true; for (auto* p : u.prot) if (Flow<S3>::eval(p, e) == 0) nul = true; if (!nul && !u.sawNull) err(where(r), "pop-empty", "pop reports an empty stack although the head was not seen to be null"); } }
      }
      return true; };
    fl.onFact = [&](const Fact& f, S3& u, Env& e) { if (auto* X = casSuccess(f)) if (isHead(X->getPointerOperand())) { 
        if (kind == 0) { u.pub++; u.pubd = u.fresh; u.fresh.clear(); return u.pub < 3; }
        if (kind == 1) { u.nw++; u.won = {base(X->getCompareOperand(), e)}; u.nret = 0; return u.nw < 3; } } 
      const Value* x; bool eq; if (Flow<S3>::nullCmp(strip(f.cond), x, eq) && f.val == eq && u.prot.count(base(x, e))) u.sawNull = true;
      return true; };
    fl.onEdge = [&](const BasicBlock* a, const BasicBlock* b, S3& u, Env& e) { for (auto* st : {&u.prot, &u.won, &u.fresh, &u.pubd}) aliasEdge<S3>(a, b, *st, e);
      for (auto& P : b->phis()) { auto* x = base(P.getIncomingValueForBlock(a), e); auto it = u.nx.find(x); if (it != u.nx.end()) u.nx[&P] = it->second; } return true; };
    fl.run(*F, S3{});
    if (fl.overflow) R.brk(std::string("state limit in ") + name);
    if (kind < 2 && !cass) err(where(F), kind ? "pop-once" : "push-once", "the head is never exchanged");
    err.flush("stack-op", where(F), "every path follows the hazard-pointer protocol");
    R.counts["acquires"] += acqs ? 1 : 0; R.counts["exchanges"] += cass ? 1 : 0; R.counts["retires"] += retires ? 1 : 0;
  };
  stackOp("drv_st_push", 0); stackOp("drv_st_pop", 1); stackOp("drv_st_size", 2); stackOp("drv_st_empty", 2);
  // -------------------------------------------------------------- destructors
  if (auto* F = fn("drv_st_dtor", keepAR)) {
    ShapeFlow sf(*F); const Value* KEY = F->getArg(0); long d = 0;
    sf.container = [&](const Value* r) -> const Value* { return r == KEY ? KEY : nullptr; };
    sf.isLink = [&](const Cell& c) { return c.node >= 0 ? c.off == nNext : (c.root == KEY && c.off == sHead); };
    sf.onTouch = [&](const Instruction& I, int n, Shape& s, bool) { if (s.info[n].destroyed) err(where(&I), "use-after-destroy", "a node is accessed after it was deleted"); };
    sf.onForget = [&](const Instruction* at, int, const NodeInfo& i) { if (!i.destroyed) err(where(at), "dtor-frees", "a node is dropped without being deleted"); };
    sf.onInst = [&](const Instruction& I, Shape& s, Env& e) { if (isDelete(I)) { d++; int x = sf.sym(cast<CallBase>(I).getArgOperand(0), s, e); if (x > 0) { if (s.info[x].destroyed) err(where(&I), "destroy-once", "a node is deleted twice"); s.info[x].destroyed = true; } }
      if (isa<ReturnInst>(I)) for (auto& p : s.info) if (!p.second.destroyed) err(where(&I), "dtor-frees", "nodes remain when the stack is destroyed"); return true; };
    sf.run(Shape{}); if (!d) err(where(F), "dtor-frees", "the stack's nodes are never deleted");
    err.flush("dtor-frees", where(F), "every remaining node deleted once, successor read first");
  }
  if (auto* F = fn("drv_hp_dtor", keepTS)) {
    // returns (or destroys its data) only after a round that found nothing retired
    auto isRound = [&](const Instruction& I) { return memberIs(I, "ThreadSpecific<", "for_each"); };
    auto isEnd = [&](const Instruction& I) { return isa<ReturnInst>(I) || (isa<CallBase>(I) && cast<CallBase>(I).getCalledFunction() && dem(cast<CallBase>(I).getCalledFunction()).find("::~ThreadSpecific(") != std::string::npos); };
    struct U { int st = 0; bool operator<(const U& o) const { return st < o.st; } };   // 1 flag cleared, 2 round done with the flag cleared before, 3 flag seen clear after the round
    Flow<U> fl; int rounds = 0; std::set<Function*> roundFns;
    for (auto& I : instructions(*F)) if (isRound(I)) roundFns.insert(cast<CallBase>(I).getCalledFunction());
    auto isFlag = [&](const Value* p) { auto* a = dyn_cast<AllocaInst>(strip(p)); return a && a->getAllocatedType()->isIntegerTy(8); };
    // the body of the round: a lambda with access to one thread's data
    fl.onInst = [&](const Instruction& I, U& u, Env&) {
      if (auto* S = dyn_cast<StoreInst>(&I)) if (isFlag(S->getPointerOperand())) { auto* K = dyn_cast<ConstantInt>(S->getValueOperand()); u.st = !K ? 0 : K->isZero() ? 1 : 4; }
      if (isRound(I)) { rounds++; u.st = u.st == 1 ? 2 : 0; }
      if (isEnd(I)) { if (u.st != 3) err(where(&I), "dtor-drains", "reclamation data is destroyed although the last round over all threads may have retired something"); return false; }
      return true; };
    fl.onFact = [&](const Fact& f, U& u, Env&) { bool t; if (auto* L = testedLoad(f.cond, f.val, t)) if (isFlag(L->getPointerOperand()) && !t) { if (u.st == 4) return false; if (u.st == 2) u.st = 3; } return true; };
    fl.run(*F, U{});
    err.flush("dtor-drains", where(F), "loops until a round over all threads finds nothing retired"); R.counts["drain rounds"] += rounds ? 1 : 0;
    // the round body
    int n = 0;
    for (auto* fe : roundFns) for (auto* Gp : bodiesOf(fe)) { Function& G = *Gp; std::string d = dem(&G);
      PrepOptions o; o.keep = keepTS; prepare(G, o); bool cl = false; for (auto& I : instructions(G)) if (isDelete(I)) cl = true; if (!cl) continue; n++; R.functions.insert(d);
      const Value* td = G.getArg(1);
      auto isCell = [&](const Value* p, int64_t off) { Loc l = locOf(DL, p); return l.exact && l.root == td && l.off == off; };
      struct V { bool some = false, flag = false, empty = false, zero = false; bool operator<(const V& o) const { return std::tie(some, flag, empty, zero) < std::tie(o.some, o.flag, o.empty, o.zero); } };
      Flow<V> vf;
      vf.onInst = [&](const Instruction& I, V& u, Env&) { if (auto* S = dyn_cast<StoreInst>(&I)) { auto* K = dyn_cast<ConstantInt>(S->getValueOperand()); if (K && K->isOne() && !isCell(S->getPointerOperand(), dProg)) u.flag = true; }
        if (isDelete(I) && !u.flag) { } if (isa<ReturnInst>(I)) { if (!u.flag && !u.zero && !u.empty) err(where(&I), "dtor-drains", "a thread may be skipped although it still holds retired nodes"); if (u.some && !u.flag) err(where(&I), "dtor-drains", "a round that reclaims something is not reported, so objects retired by it may leak"); if (u.some && !u.empty) err(where(&I), "dtor-drains", "the final clean-up leaves retired nodes behind"); } return true; };
      vf.onFact = [&](const Fact& f, V& u, Env& e) { bool t; if (auto* L = testedLoad(f.cond, f.val, t)) { if (isCell(L->getPointerOperand(), dList + lSize)) (t ? u.some : u.zero) = true; if (isCell(L->getPointerOperand(), dList + lHead) && !t) u.empty = true; }
        const Value* x; bool eq; if (Flow<V>::nullCmp(strip(f.cond), x, eq)) if (auto* L = dyn_cast<LoadInst>(unInt(x))) { if (isCell(L->getPointerOperand(), dList + lHead) && f.val == eq) u.empty = true; } return true; };
      vf.run(G, V{});
      err.flush("dtor-drains", where(&G), "each thread's retired nodes are all destroyed and the round is reported");
    }
    if (!n) R.add("dtor-drains", where(F), false, "no round destroys the retired nodes");
  }
}
