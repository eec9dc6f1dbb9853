// S03: every index of a parallel loop is handed to the body exactly once.
// The index space of each loop entry point is covered by consecutive tiles: body calls, sequential loops and
// the two halves of a fork.  Forks are rewritten to run their two thunks one after the other (S01 shows that each
// runs exactly once); recursion is verified inductively against the interval given by two of its arguments.
#include "tile.h"
#include <deque>
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
using namespace plint;
namespace {
bool isPardo(const Function& F) {
  std::string d = dem(&F);
  auto p = d.find("fork_join_scheduler::pardo<");
  if (p == std::string::npos) return false;
  // the function itself, not something declared inside it
  auto* sp = F.getSubprogram();
  return sp && sp->getName().starts_with("pardo<");
}
bool isLambdaOf(const Function& F) { auto* sp = F.getSubprogram(); return sp && sp->getName() == "operator()"; }
// callee invoked on parameter k of a pardo instantiation
std::map<Function*, std::pair<Function*, Function*>> thunks;
bool findThunks(Function& P, Report& R) {
  if (thunks.count(&P)) return true;
  ValueToValueMapTy vm;
  Function* C = CloneFunction(&P, vm);
  PrepOptions o;
  o.keep = [&](const Function& f) {
    if (isLambdaOf(f)) return dem(&f).find("pardo<") == std::string::npos;
    return false;
  };
  prepare(*C, o);
  Function* l = nullptr; Function* r = nullptr;
  for (auto& I : instructions(*C)) if (auto* cb = dyn_cast<CallBase>(&I)) {
    if (cb->arg_size() < 1 || !cb->getCalledFunction()) continue;
    if (cb->getArgOperand(0)->stripPointerCasts() == C->getArg(1)) l = cb->getCalledFunction();
    if (cb->getArgOperand(0)->stripPointerCasts() == C->getArg(2)) r = cb->getCalledFunction();
  }
  C->eraseFromParent();
  if (!l || !r) { R.brk("thunks of a fork not identified in " + dem(&P)); return false; }
  thunks[&P] = {l, r};
  return true;
}
// inline F, serialising the forks in it
bool serialise(Function& F, Report& R, std::function<bool(const Function&)> keepX, bool loops) {
  for (int round = 0; round < 6; round++) {
    PrepOptions o; o.keep = [&](const Function& f) { return isPardo(f) || keepX(f); };
    o.loops = loops;
    prepare(F, o);
    std::vector<CallBase*> ps;
    for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* c = cb->getCalledFunction()) if (isPardo(*c)) ps.push_back(cb);
    if (ps.empty()) return true;
    for (auto* cb : ps) {
      Function* P = cb->getCalledFunction();
      if (!findThunks(*P, R)) return false;
      R.counts["forks serialised"]++;
      auto t = thunks[P];
      IRBuilder<> B(cb);
      auto mk = [&](Function* f, Value* obj) {
        std::vector<Value*> a{obj}; 
        for (unsigned i = 1; i < f->arg_size(); i++) a.push_back(UndefValue::get(f->getArg(i)->getType()));
        B.CreateCall(f, a);
      };
      mk(t.first, cb->getArgOperand(1)); mk(t.second, cb->getArgOperand(2));
      if (auto* iv = dyn_cast<InvokeInst>(cb)) B.CreateBr(iv->getNormalDest());
      cb->eraseFromParent();
    }
  }
  return true;
}
struct Contract { unsigned i, j; std::vector<unsigned> pos; bool ok = false; };
}  // namespace

RULE(tiling) {
  std::map<Function*, Contract> con;
  auto recursive = [&](Function& F) {
    // does F (through kept thunks and direct calls) call itself?
    std::set<Function*> seen; std::deque<Function*> q{&F};
    while (!q.empty()) {
      auto* f = q.front(); q.pop_front();
      for (auto& I : instructions(*f)) {
        for (auto& op : I.operands()) if (auto* g = dyn_cast<Function>(op->stripPointerCasts())) {
          if (g == &F) return true;
          if (!g->isDeclaration() && seen.insert(g).second) q.push_back(g);
        }
      }
    }
    return false;
  };
  // recursive functions in the library taking part in loops
  std::set<const Function*> rec;
  for (auto& F : M) if (!F.isDeclaration() && F.getSubprogram() && F.getSubprogram()->getFilename().contains("include/parlay")) {
    if (F.getSubprogram()->getName() == "operator()" || isPardo(F)) continue;
    int ints = 0; for (auto& a : F.args()) ints += a.getType()->isIntegerTy(64);
    if (ints >= 2 && recursive(F)) rec.insert(&F);
  }
  // helpers that cannot reach a loop body and are not small stay opaque
  std::map<const Function*, bool> opaque;
  auto isOpaque = [&](const Function& f) {
    auto it = opaque.find(&f); if (it != opaque.end()) return it->second;
    std::set<const Function*> seen{&f}; std::deque<const Function*> q{&f}; long size = 0; bool ev = false;
    while (!q.empty()) {
      auto* g = q.front(); q.pop_front();
      if (g->getName() == "plint_body" || g->getName() == "plint_block") ev = true;
      for (auto& I : instructions(*g)) { if (!isa<DbgInfoIntrinsic>(I)) size++; for (auto& op : I.operands()) if (auto* h = dyn_cast<Function>(op->stripPointerCasts())) if (seen.insert(h).second) q.push_back(h); }
    }
    return opaque[&f] = !ev && size > 60;
  };
  auto keepX = [&](const Function& f) { return rec.count(&f) > 0 || isOpaque(f); };

  auto analyse = [&](Function& F, std::function<std::pair<Poly, Poly>(Arith&)> want, std::function<void(Arith&, Sys&)> pre, const std::string& req, bool record,
                     std::function<void(Arith&, TState&, const CallBase*)> onRec) -> bool {
    Arith A; Tiler T(F, A);
    auto w = want(A);
    T.req = req;
    const CallBase* badBlock = nullptr;
    T.classify = [&](const Instruction& I, TState& st) -> std::optional<std::vector<Region>> {
      auto* cb = dyn_cast<CallBase>(&I);
      if (!cb) return std::nullopt;
      auto* c = cb->getCalledFunction();
      if (!c) return std::nullopt;
      if (c->getName() == "plint_body") { Poly i = A.of(cb->getArgOperand(0)); return std::vector<Region>{{i, i + Poly::c(1)}}; }
      if (c->getName() == "plint_block" && F.arg_size() > 2 && !st.sys.ge.empty())
        if (!A.eq(st.sys, A.of(cb->getArgOperand(1)), A.of(F.getArg(0)) + A.of(cb->getArgOperand(0)) * A.of(F.getArg(2)))) badBlock = cb;
      if (c->getName() == "plint_block") return std::vector<Region>{{A.of(cb->getArgOperand(1)), A.of(cb->getArgOperand(2)), nullptr, true}};
      auto it = con.find(c);
      if (it != con.end()) {
        if (onRec) onRec(A, st, cb);
        return std::vector<Region>{{A.of(cb->getArgOperand(it->second.i)), A.of(cb->getArgOperand(it->second.j))}};
      }
      return std::nullopt;
    };
    Sys s; pre(A, s);
    bool ok = T.run(w.first, w.second, s);
    R.counts[record ? "tiles" : "trial tiles"] += T.regions; R.counts[record ? "paths" : "trial paths"] += T.paths;
    if (record) {
      R.functions.insert(dem(&F));
      if (ok) R.add("index-space-tiled", where(&F), true, req + " covered exactly once");
      for (auto& e : T.errs) R.add("index-space-tiled", e.second.where, false, dem(&F) + ": " + e.second.msg);
      if (badBlock) R.add("block-number", where(badBlock), false, dem(&F) + ": the block number passed to the body does not match the block's start");
      if (T.regions == 0) R.brk("no loop body call found in " + dem(&F));
    }
    return ok;
  };
  for (auto* cf : rec) {
    Function* F = const_cast<Function*>(cf);
    if (!serialise(*F, R, keepX, true)) return;
    std::vector<unsigned> ints; for (auto& a : F->args()) if (a.getType()->isIntegerTy(64)) ints.push_back(a.getArgNo());
    bool found = false; Contract best; 
    for (unsigned i : ints) { for (unsigned j : ints) if (i != j) for (int withPos = 0; withPos < 2 && !found; withPos++) {
      Contract c{i, j}; if (withPos) for (unsigned k : ints) if (k != i && k != j) c.pos.push_back(k);
      con[F] = c;
      bool term = true;
      auto pre = [&](Arith& A, Sys& s) { s.addGe(A.of(F->getArg(j)) - A.of(F->getArg(i))); for (unsigned k : c.pos) s.addGe(A.of(F->getArg(k)) - Poly::c(1)); };
      auto onRec = [&](Arith& A, TState& st, const CallBase* cb) {
        if (cb->getCalledFunction() != F) return;
        for (unsigned k : c.pos) if (!A.le(st.sys, Poly::c(1), A.of(cb->getArgOperand(k)))) term = false;
        Poly len = A.of(cb->getArgOperand(j)) - A.of(cb->getArgOperand(i)), full = A.of(F->getArg(j)) - A.of(F->getArg(i));
        if (!A.lt(st.sys, len, full)) term = false;
      };
      auto want = [&](Arith& A) { return std::make_pair(A.of(F->getArg(i)), A.of(F->getArg(j))); };
      if (analyse(*F, want, pre, "", false, onRec) && term) { found = true; best = c; }
    } }
    if (found) { con[F] = best; con[F].ok = true; }
    else {
      // report against the natural reading: first two integer arguments
      Contract c{ints[0], ints[1]}; for (size_t k = 2; k < ints.size(); k++) c.pos.push_back(ints[k]);
      con[F] = c;
    }
    Contract c = con[F];
    bool term = true; const CallBase* bad = nullptr; const CallBase* badp = nullptr;
    auto pre = [&](Arith& A, Sys& s) { s.addGe(A.of(F->getArg(c.j)) - A.of(F->getArg(c.i))); for (unsigned k : c.pos) s.addGe(A.of(F->getArg(k)) - Poly::c(1)); };
    auto onRec = [&](Arith& A, TState& st, const CallBase* cb) {
      if (cb->getCalledFunction() != F) return;
      for (unsigned k : c.pos) if (!A.le(st.sys, Poly::c(1), A.of(cb->getArgOperand(k)))) badp = cb;
      if (!A.lt(st.sys, A.of(cb->getArgOperand(c.j)) - A.of(cb->getArgOperand(c.i)), A.of(F->getArg(c.j)) - A.of(F->getArg(c.i)))) bad = cb;
    };
    analyse(*F, [&](Arith& A) { return std::make_pair(A.of(F->getArg(c.i)), A.of(F->getArg(c.j))); }, pre, "the given index interval", true, onRec);
    R.add("recursion-shrinks", bad ? where(bad) : badp ? where(badp) : where(F), !bad && !badp,
          bad ? "a recursive piece is not shown to be smaller than the whole" : badp ? "granularity may drop to zero in the recursion" : "every recursive piece is strictly smaller");
  }
  int drv = 0;
  for (auto& F : M) {
    if (F.isDeclaration() || !F.getName().starts_with("drv_")) continue;
    std::string nm = F.getName().str();
    if (nm.rfind("drv_tile_", 0) != 0) continue;
    drv++;
    if (!serialise(F, R, keepX, true)) return;
    const CallBase* badp = nullptr;
    auto onRec = [&](Arith& A, TState& st, const CallBase* cb) {
      auto& c = con[cb->getCalledFunction()];
      for (unsigned k : c.pos) if (!A.le(st.sys, Poly::c(1), A.of(cb->getArgOperand(k)))) badp = cb;
    };
    analyse(F, [&](Arith& A) { return std::make_pair(A.of(F.getArg(0)), A.of(F.getArg(1))); },
            [&](Arith& A, Sys& s) { s.addGe(A.of(F.getArg(1)) - A.of(F.getArg(0))); if (nm.find("zero") != std::string::npos) s.addEq(A.of(F.getArg(0))); if (nm.find("blocked") != std::string::npos) s.addGe(A.of(F.getArg(2)) - Poly::c(1)); },
            "[start, end)", true, onRec);
    if (badp) R.add("recursion-shrinks", where(badp), false, "the recursive loop may be entered with granularity zero, which never reaches its base case");
  }
  if (!drv) R.brk("no driver");
}
