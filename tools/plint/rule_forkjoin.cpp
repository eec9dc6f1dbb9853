// S01: every branch exactly once, join before return, taken jobs are run exactly once.
#include "flow.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
using namespace plint;
namespace {
const char* THUNK[] = {"plint_left", "plint_mid", "plint_right"};
// extern thunks reachable from a constant stored into the job (vtable or function pointer)
std::set<Function*> gExec;
void thunksOf(const Value* c, std::set<const Value*>& seen, std::set<int>& out, int depth = 0) {
  if (!seen.insert(c).second || depth > 12) return;
  if (auto* F = dyn_cast<Function>(c)) {
    for (int t = 0; t < 3; t++) if (F->getName() == THUNK[t]) { out.insert(t); return; }
    for (auto& I : instructions(*F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* G = cb->getCalledFunction()) thunksOf(G, seen, out, depth + 1);
    return;
  }
  if (auto* G = dyn_cast<GlobalVariable>(c)) { if (G->hasInitializer()) thunksOf(G->getInitializer(), seen, out, depth + 1); return; }
  if (auto* U = dyn_cast<User>(c)) for (auto& o : U->operands()) if (isa<Constant>(o)) thunksOf(o, seen, out, depth + 1);
}
bool isDeq(const Instruction& I, const char* n) { return callsDem(I, {"Deque<", n}); }
struct U {
  int ran[3] = {0, 0, 0};
  std::map<const Value*, int> job;       // pushed jobs: 0 pushed, 1 done(relaxed), 2 done(acquire), 3 executed inline
  std::vector<const Value*> stack;       // unresolved pushed jobs, innermost last
  const Value* pend = nullptr; bool pendOwn = false; const Value* pendJob = nullptr;
  const Value* needDone = nullptr;
  int takes = 0; bool fin = false, emptied = false, settled = false;
  auto key() const { return std::make_tuple(ran[0], ran[1], ran[2], job, stack, pend, pendOwn, pendJob, needDone, takes, fin, emptied, settled); }
  bool operator<(const U& o) const { return key() < o.key(); }
};
const Value* base(const Value* p) {
  for (;;) {
    p = p->stripPointerCasts();
    if (auto* G = dyn_cast<GEPOperator>(p)) { p = G->getPointerOperand(); continue; }
    return p;
  }
}
bool ownIndex(const Value* v, std::set<const Value*>& seen, bool& sawTls) {
  v = strip(v);
  if (!seen.insert(v).second) return true;
  if (auto* P = dyn_cast<PHINode>(v)) { for (auto& o : P->incoming_values()) if (!ownIndex(o, seen, sawTls)) return false; return true; }
  if (auto* S = dyn_cast<SelectInst>(v)) return ownIndex(S->getTrueValue(), seen, sawTls) && ownIndex(S->getFalseValue(), seen, sawTls);
  if (auto* C = dyn_cast<CastInst>(v)) return ownIndex(C->getOperand(0), seen, sawTls);
  if (auto* L = dyn_cast<LoadInst>(v)) {
    auto* b = base(L->getPointerOperand());
    if (auto* cb = dyn_cast<CallBase>(b)) if (auto* F = cb->getCalledFunction()) if (F->getIntrinsicID() == Intrinsic::threadlocal_address) { sawTls = true; return true; }
    if (auto* G = dyn_cast<GlobalVariable>(b)) if (G->isThreadLocal()) { sawTls = true; return true; }
    return false;
  }
  return false;
}
const Value* indexOf(const Value* p) {   // last variable index of the deque address
  p = p->stripPointerCasts();
  while (auto* G = dyn_cast<GEPOperator>(p)) {
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!isa<ConstantInt>(*it)) return *it;
    p = G->getPointerOperand()->stripPointerCasts();
  }
  return nullptr;
}

// functions held directly in the constant (vtable slots) that reach a thunk
void execs(const Value* c, int d = 0) {
  if (auto* F = dyn_cast<Function>(c)) { std::set<const Value*> s; std::set<int> t; thunksOf(F, s, t); if (!t.empty()) gExec.insert(const_cast<Function*>(F)); return; }
  if (d > 6) return;
  if (auto* G = dyn_cast<GlobalVariable>(c)) { if (G->hasInitializer()) execs(G->getInitializer(), d + 1); return; }
  if (auto* U = dyn_cast<User>(c)) for (auto& o : U->operands()) if (isa<Constant>(o)) execs(o, d + 1);
}
struct Checker {
  Report& R; Function& F; std::string name; bool cons = false;
  std::set<int> expect;                   // thunks that must be run exactly once
  bool worker = false;
  std::map<const Value*, std::set<int>> jobThunk;
  std::map<std::string, std::pair<bool, std::pair<std::string, std::string>>> res;
  int nPush = 0, nTake = 0, nRun = 0, nRet = 0;
  Checker(Report& r, Function& f, std::string n) : R(r), F(f), name(n) {}
  void bad(const std::string& rule, const Instruction* I, const std::string& msg) {
    std::string k = rule + "@" + where(I);
    if (!res.count(k)) res[k] = {false, {rule, name + ": " + msg}};
    if (res[k].first) res[k] = {false, {rule, name + ": " + msg}};
    wh[k] = where(I);
  }
  void good(const std::string& rule, const Instruction* I) {
    std::string k = rule + "@" + where(I);
    if (!res.count(k)) { res[k] = {true, {rule, ""}}; wh[k] = where(I); }
  }
  std::map<std::string, std::string> wh;

  void run() {
    // static facts about jobs
    std::set<const Value*> jobs;
    for (auto& I : instructions(F)) if (isDeq(I, "::push_bottom")) {
      nPush++;
      auto* j = strip(cast<CallBase>(I).getArgOperand(1)); jobs.insert(j);
      auto* d = cast<CallBase>(I).getArgOperand(0);
      checkOwner(I, d);
    } else if (isDeq(I, "::pop_bottom")) { nTake++; checkOwner(I, cast<CallBase>(I).getArgOperand(0)); }
    else if (isDeq(I, "::pop_top")) nTake++;
    for (auto* j : jobs) {
      std::set<int> t; std::set<const Value*> seen;
      for (auto& I : instructions(F)) if (auto* S = dyn_cast<StoreInst>(&I)) if (base(S->getPointerOperand()) == j) {
        if (isa<Constant>(S->getValueOperand())) { thunksOf(S->getValueOperand(), seen, t); execs(S->getValueOperand()); }
      }
      jobThunk[j] = t;
    }
    Flow<U> fl;
    fl.onInst = [&](const Instruction& I, U& u, Env& e) { return inst(I, u, e); };
    fl.onFact = [&](const Fact& f, U& u, Env& e) { return fact(f, u, e); };
    fl.onEdge = [&](const BasicBlock* a, const BasicBlock* b, U& u, Env& e) {
      if (u.pend) {
        if (!settle(u, e)) return false;
        if (u.pend) for (auto& P : b->phis()) if (strip(P.getIncomingValueForBlock(a)) == u.pend) { u.pend = &P; break; }
      }
      if (u.needDone) for (auto& P : b->phis()) if (strip(P.getIncomingValueForBlock(a)) == u.needDone) { u.needDone = &P; break; }
      return true;
    };
    fl.keepVal = [](const Value* v, const U& u) { return v == u.pend; };
    fl.run(F, U{});
    if (fl.overflow) R.brk(name + ": state limit exceeded");
    for (auto& r : res) R.add(r.second.second.first, wh[r.first], r.second.first, r.second.second.second);
    R.counts["paths"] += fl.states; R.counts["takes"] += nTake; R.counts["pushes"] += nPush; R.counts["returns"] += nRet;
    R.functions.insert(name);
  }
  void checkOwner(const Instruction& I, const Value* deque) {
    auto* ix = indexOf(deque);
    if (!ix) { bad("owner-deque", &I, "operates on a fixed deque instead of the calling worker's own"); return; }
    std::set<const Value*> seen; bool tls = false;
    if (ownIndex(ix, seen, tls) && tls) good("owner-deque", &I);
    else bad("owner-deque", &I, "bottom of a deque is used by a thread that does not own it (index is not the calling worker's id)");
  }
  // The owner uses its end as a stack: a non-null pop is the innermost job still there, a null pop means all were stolen.
  bool settle(U& u, Env& e) {
    if (!u.pend || u.settled) { if (u.pend && Flow<U>::eval(u.pend, e) == 0) u.pend = nullptr; return true; }
    int v = Flow<U>::eval(u.pend, e);
    if (v < 0) return true;
    if (v == 0) { if (u.pendOwn) { u.stack.clear(); u.emptied = true; } u.pend = nullptr; return true; }
    u.settled = true;
    if (!u.pendOwn) return true;
    if (!u.stack.empty()) { u.pendJob = u.stack.back(); u.stack.pop_back(); return true; }
    return !u.emptied;
  }
  void dropCheck(const Instruction& I, U& u, Env& e) {
    settle(u, e);
    if (u.pend) bad("taken-job-run", &I, "a job taken from a deque can be dropped without being run");
    else good("taken-job-run", &I);
    if (u.needDone) bad("done-after-run", &I, "a job was run but its completion is not signalled");
  }
  bool inst(const Instruction& I, U& u, Env& e) {
    if (auto* EV = dyn_cast<ExtractValueInst>(&I)) {
      if (u.pend && EV->getAggregateOperand() == u.pend && EV->getType()->isPointerTy()) u.pend = EV;
      return true;
    }
    if (isa<StoreInst>(I) || isa<AtomicRMWInst>(I)) {
      const Value* p = isa<StoreInst>(I) ? cast<StoreInst>(I).getPointerOperand() : cast<AtomicRMWInst>(I).getPointerOperand();
      const Value* b = base(p);
      AtomicOrdering o = isa<StoreInst>(I) ? cast<StoreInst>(I).getOrdering() : cast<AtomicRMWInst>(I).getOrdering();
      if (u.needDone && b == u.needDone) {
        auto* K = isa<StoreInst>(I) ? dyn_cast<ConstantInt>(cast<StoreInst>(I).getValueOperand()) : nullptr;
        if (K && K->isZero()) bad("done-after-run", &I, "completion flag is cleared after the job ran");
        else if (!isReleaseOrStronger(o)) bad("done-release", &I, "completion is signalled without release ordering: the branch's writes need not be visible to the waiting caller");
        else { good("done-release", &I); }
        u.needDone = nullptr;
        return true;
      }
      auto it = u.job.find(b);
      if (it != u.job.end() && it->second == 0 && !isa<AtomicRMWInst>(I)) bad("job-complete-before-push", &I, "the job object is written after it was published on the deque");
      return true;
    }
    if (auto* FI = dyn_cast<FenceInst>(&I)) {
      if (isAcquireOrStronger(FI->getOrdering())) for (auto& j : u.job) if (j.second == 1) { j.second = 2; resolve(u, j.first); }
      return true;
    }
    for (int t = 0; t < 3; t++) if (calls(I, THUNK[t])) {
      if (u.ran[t] < 2) u.ran[t]++;
      if (u.ran[t] > 1) bad("branch-once", &I, std::string(THUNK[t] + 6) + " branch can be called twice");
      // does a pushed, unresolved job stand for this thunk?
      for (auto& j : u.job) if (jobThunk[j.first].count(t)) {
        if (j.second == 3) continue;
        if (j.second == 2) { bad("branch-once", &I, std::string(THUNK[t] + 6) + " branch is called although its job already ran"); continue; }
        settle(u, e);
        if (!u.pend) bad("claim-before-inline", &I, std::string(THUNK[t] + 6) + " branch is run inline without having taken its job off the deque");
        else if (!u.pendOwn) bad("claim-before-inline", &I, "branch is run inline after taking a job from another worker's deque");
        else if (Flow<U>::eval(u.pend, e) != 1) bad("claim-before-inline", &I, std::string(THUNK[t] + 6) + " branch is run inline although the deque may have been empty (its job was stolen)");
        else if (u.pendJob != j.first) bad("claim-before-inline", &I, "an outer job is run inline while an inner one is on the deque");
        else good("claim-before-inline", &I);
        u.pend = nullptr; u.pendJob = nullptr; j.second = 3; resolve(u, j.first);
      }
      return true;
    }
    if (isDeq(I, "::push_bottom")) {
      const Value* j = strip(cast<CallBase>(I).getArgOperand(1));
      if (u.job.count(j)) { bad("push-once", &I, "a job is pushed twice"); return false; }
      good("push-once", &I);
      u.job[j] = 0; u.stack.push_back(j);
      return true;
    }
    bool own = isDeq(I, "::pop_bottom"), st = isDeq(I, "::pop_top");
    if (own || st) {
      dropCheck(I, u, e);
      u.pend = &I; u.pendOwn = own; u.needDone = nullptr;
      u.pendJob = nullptr; u.settled = false;
      if (cons) {
        if (st) bad("conservative", &I, "a conservative wait steals other work");
        else if (u.takes >= 1) bad("conservative", &I, "a conservative wait takes more work from the deque");
        else good("conservative", &I);
      }
      if (u.takes < 1) u.takes++;
      return true;
    }
    if (auto* cb = dyn_cast<CallBase>(&I)) {
      // running a job: an indirect call (virtual execute) or a direct call that receives the taken job
      for (unsigned a = 0; a < cb->arg_size(); a++) {
        const Value* v = strip(cb->getArgOperand(a));
        if (!v->getType()->isPointerTy()) continue;
        bool ind = cb->getCalledFunction() == nullptr;
        if (u.pend && v == u.pend && ind) {
          if (Flow<U>::eval(u.pend, e) != 1) bad("null-run", &I, "a job pointer that can be null is run");
          good("taken-job-run", &I);
          if (cons) bad("conservative", &I, "a conservative wait runs a job it took from a deque");
          if (u.pendJob && u.job.count(u.pendJob) && u.job[u.pendJob] == 0) {   // own pop: the innermost pushed job, now run
            u.job[u.pendJob] = 2; resolve(u, u.pendJob);
            for (int t : jobThunk[u.pendJob]) if (u.ran[t]) bad("branch-once", &I, "branch was run inline and its job is run as well");
          }
          u.needDone = u.pend; u.pend = nullptr; u.pendJob = nullptr; nRun++;
          return true;
        }
        if (ind && a == 0 && jobThunk.count(v)) { bad("claim-before-inline", &I, "the pushed job is run directly although it is (or was) on the deque"); return true; }
        if (ind && u.needDone && v == u.needDone) { bad("taken-job-run", &I, "a taken job is run twice"); return true; }
      }
      return true;
    }
    if (isa<ReturnInst>(I)) {
      nRet++;
      dropCheck(I, u, e);
      if (worker) { if (!u.fin) bad("worker-exit", &I, "worker can return while the scheduler is not finished"); else good("worker-exit", &I); }
      for (int t : expect) {
        int n = u.ran[t]; const Value* jj = nullptr;
        for (auto& j : u.job) if (jobThunk[j.first].count(t)) { jj = j.first; if (j.second == 2) n++; }
        if (n == 1) good("branch-once", &I);
        else if (n == 0) bad(jj ? "join" : "branch-once", &I, std::string(THUNK[t] + 6) + (jj ? " branch may not have finished when the call returns" : " branch may never be called"));
        else bad("branch-once", &I, std::string(THUNK[t] + 6) + " branch can run more than once");
      }
      for (auto& j : u.job) {
        if (j.second == 1) bad("join-acquire", &I, "completion of a stolen branch is observed without acquire ordering: its writes need not be visible");
        else if (j.second == 0) bad("join", &I, "call can return while its job is still on a deque or being run by a thief");
        else good("join", &I);
      }
      return true;
    }
    return true;
  }
  void resolve(U& u, const Value* j) { for (auto it = u.stack.begin(); it != u.stack.end(); ++it) if (*it == j) { u.stack.erase(it); break; } }
  bool fact(const Fact& f, U& u, Env& e) {
    if (!settle(u, e)) return false;
    bool truth; auto* L = testedLoad(f.cond, f.val, truth);
    if (!L) return true;
    const Value* b = base(L->getPointerOperand());
    auto it = u.job.find(b);
    if (it != u.job.end() && truth && it->second < 2 && L->isAtomic()) {
      it->second = isAcquireOrStronger(L->getOrdering()) ? 2 : 1;
      if (it->second == 2) resolve(u, b);
      for (int t : jobThunk[b]) if (u.ran[t]) bad("branch-once", L, "branch was run inline and its job was run as well");
    }
    if (it != u.job.end() && truth && !L->isAtomic()) bad("join-acquire", L, "completion flag is read non-atomically");
    if (worker && b == F.getArg(0) && L->isAtomic() && truth) u.fin = true;
    return true;
  }
};
}  // namespace

RULE(forkjoin) {
  auto keep = [](const Function& f) {
    std::string d = dem(&f);
    return (d.find("Deque<") != std::string::npos && (d.find("::push_bottom") != std::string::npos || d.find("::pop_bottom") != std::string::npos || d.find("::pop_top") != std::string::npos)) ||
           d.find("parlay::internal::get_current_scheduler") != std::string::npos || d.find("parlay::atomic_wait") != std::string::npos || d.find("parlay::atomic_notify") != std::string::npos;
  };
  struct E { const char* fn; const char* nm; std::set<int> ex; bool cons, worker; int push; };
  std::vector<E> es = {
    {"drv_pardo", "par_do (work-stealing wait)", {0, 2}, false, false, 1}, {"drv_pardo_cons", "par_do (conservative wait)", {0, 2}, true, false, 1},
    {"drv_par_do", "par_do", {0, 2}, false, false, 1}, {"drv_parallel_do", "parallel_do", {0, 2}, false, false, 1},
    {"drv_par_do_if", "par_do_if", {0, 2}, false, false, 1}, {"drv_par_do3", "par_do3", {0, 1, 2}, false, false, 2},
    {"drv_par_do3_if", "par_do3_if", {0, 1, 2}, false, false, 2}, {"drv_par_do_cons", "par_do (conservative)", {0, 2}, true, false, 1},
    {"drv_par_do_if_cons", "par_do_if (conservative)", {0, 2}, true, false, 1}, {"drv_parallel_do_cons", "parallel_do (conservative)", {0, 2}, true, false, 1},
    {"drv_exec_sched", "execute_with_scheduler", {0}, false, false, 0}, {"drv_worker", "worker loop", {}, false, true, 0},
  };
  for (auto& x : es) {
    Function* F = findFn(M, x.fn);
    if (!F) { R.brk(std::string("driver entry missing: ") + x.fn); continue; }
    PrepOptions o; o.keep = keep; prepare(*F, o);
    Checker c(R, *F, x.nm); c.expect = x.ex; c.cons = x.cons; c.worker = x.worker;
    size_t before = R.obl.size(); c.run(); (void)before;
    if (x.push && !c.nPush) {   // never forks: legal only if everything ran inline, which branch-once decided
    }
    if (c.nRet == 0) R.brk(std::string(x.nm) + ": no return reached");
  }
  {  // the body of every job that was pushed runs each branch it stands for exactly once
    std::set<Function*> done;
    while (done.size() < gExec.size()) {
      auto cur = gExec;
      for (auto* F : cur) if (done.insert(F).second) {
        std::set<const Value*> seen; std::set<int> t; thunksOf(F, seen, t);
        PrepOptions o; o.keep = keep; prepare(*F, o);
        Checker c(R, *F, "job body " + dem(F)); c.expect = t; c.run();
      }
    }
  }
  // the job protocol itself
  struct J { const char* fn; const char* nm; };
  for (auto& x : {J{"drv_run_job", "job invocation"}, J{"drv_execute", "job body"}}) {
    Function* F = findFn(M, x.fn);
    if (!F) { R.brk(std::string("driver entry missing: ") + x.fn); continue; }
    prepare(*F);
    R.functions.insert(x.nm);
    bool body = std::string(x.fn) == "drv_execute";
    struct V { int ran = 0; int done = 0; bool operator<(const V& o) const { return std::tie(ran, done) < std::tie(o.ran, o.done); } };
    Flow<V> fl; std::map<std::string, std::pair<bool, std::string>> res; int rets = 0;
    auto put = [&](const std::string& r, const Instruction* I, bool ok, const std::string& m) { auto k = r + "|" + where(I); auto it = res.find(k); if (it == res.end() || it->second.first) res[k] = {ok, m}; };
    fl.onInst = [&](const Instruction& I, V& v, Env&) {
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        bool isRun = calls(I, "plint_right") || (!body && !cb->getCalledFunction() && cb->arg_size() && strip(cb->getArgOperand(0)) == F->getArg(0));
        if (isRun) { if (v.ran < 2) v.ran++; put("job-once", &I, v.ran == 1, std::string(x.nm) + " runs its function twice"); if (v.done) put("done-last", &I, false, "the job is marked finished before its function ran"); }
      }
      if (auto* S = dyn_cast<StoreInst>(&I)) if (!body && base(S->getPointerOperand()) == F->getArg(0)) {
        auto* K = dyn_cast<ConstantInt>(S->getValueOperand());
        if (!K || !K->isZero()) {
          put("done-release", &I, isReleaseOrStronger(S->getOrdering()), "completion flag is not stored with release ordering");
          put("done-last", &I, v.ran == 1, "the job is marked finished before its function ran"); v.done = 1;
        }
      }
      if (auto* S = dyn_cast<AtomicRMWInst>(&I)) if (!body && base(S->getPointerOperand()) == F->getArg(0)) { put("done-release", &I, isReleaseOrStronger(S->getOrdering()), "completion flag is not stored with release ordering"); put("done-last", &I, v.ran == 1, "the job is marked finished before its function ran"); v.done = 1; }
      if (isa<ReturnInst>(I)) { rets++; put("job-once", &I, v.ran == 1, std::string(x.nm) + " does not run its function on some path"); if (!body) put("done-set", &I, v.done == 1, "a job can complete without being marked finished: the joining caller waits forever"); }
      return true;
    };
    fl.run(*F, V{});
    for (auto& r : res) R.add(r.first.substr(0, r.first.find('|')), r.first.substr(r.first.find('|') + 1), r.second.first, r.second.second);
    if (!rets) R.brk(std::string(x.nm) + ": no return reached");
  }
  // waiting on a job observes the flag with acquire
  if (Function* F = findFn(M, "drv_job_wait")) {
    prepare(*F);
    Flow<std::pair<int,int>> fl; int bad = 0, rets = 0; const Instruction* at = nullptr;
    fl.onFact = [&](const Fact& f, std::pair<int,int>& u, Env&) { bool t; auto* L = testedLoad(f.cond, f.val, t); if (L && t && base(L->getPointerOperand()) == F->getArg(0)) u.first = L->isAtomic() && isAcquireOrStronger(L->getOrdering()) ? 2 : 1; return true; };
    fl.onInst = [&](const Instruction& I, std::pair<int,int>& u, Env&) { if (auto* FI = dyn_cast<FenceInst>(&I)) if (isAcquireOrStronger(FI->getOrdering()) && u.first == 1) u.first = 2; if (isa<ReturnInst>(I)) { rets++; at = &I; if (u.first != 2) bad++; } return true; };
    fl.run(*F, {0, 0});
    if (rets) R.add("wait-acquire", where(at), bad == 0, "wait() can return without an acquire load having seen the job finished");
  } else R.brk("driver entry missing: drv_job_wait");
}
