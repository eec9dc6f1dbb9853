// S04: start-up and shutdown of the scheduler.
#include <deque>
#include "tile.h"
#include "mem.h"
#include "flow.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
namespace {
bool keepLib(const Function& f) {
  std::string d = dem(&f);
  for (const char* s : {"std::thread::join", "emplace_back", "push_back", "atomic_wait", "atomic_notify", "::get_job", "::~vector", "::vector(", "::steal_job", "Deque<", "sleep_for", "std::thread::thread<"}) {
    auto p = d.find(s); if (p != std::string::npos) { auto q = d.find("lambda"); if (q == std::string::npos || p < q || std::string(s) == "::get_job") return true; }
  }
  return false;
}
}
RULE(lifecycle) {
  const DataLayout& DL = M.getDataLayout();
  auto off = [&](const char* m) { int64_t o = memberOffset(M, "scheduler<", m); if (o < 0) R.brk(std::string("member scheduler::") + m + " not found"); return o; };
  int64_t oN = off("num_threads"), oFin = off("finished_flag"), oNF = off("num_finished_workers"), oAw = off("num_awake_workers"), oWake = off("wake_up_counter"),
          oPar = off("parent_worker_info"), oDeq = off("deques"), oAtt = off("attempts"), oThr = off("spawned_threads");
  int64_t wId = memberOffset(M, "workerInfo", "worker_id"), wS = memberOffset(M, "workerInfo", "my_scheduler");
  if (wId < 0 || wS < 0) R.brk("workerInfo members not found");
  if (!R.broken.empty()) return;
  auto isField = [&](const Function& F, const Value* p, int64_t o) { Loc l = locOf(DL, p); return l.exact && l.root == F.getArg(0) && l.off == o; };
  auto fn = [&](const char* n) -> Function* { auto* F = findFn(M, n); if (!F) { R.brk(std::string("no ") + n); return nullptr; } PrepOptions o; o.keep = keepLib; prepare(*F, o); R.functions.insert(n); return F; };
  // canonical values for loads of our own fields
  auto hookFor = [&](Function& F, Arith& A, DominatorTree& DT) {
    A.DL = &DL; A.narrow = false;   // the number of threads fits the type of worker ids
    A.hook = [&F, &A, &DT, &DL](const Value* v) -> std::optional<Poly> {
      if (auto* I = dyn_cast<Instruction>(v)) {
        if (I->getOpcode() == Instruction::And) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getZExtValue() == 0xffffffffull) return A.of(I->getOperand(0));
        if (auto* L = dyn_cast<LoadInst>(I); L && !L->isAtomic()) {
          Loc l = locOf(DL, L->getPointerOperand());
          if (!l.exact || l.root != F.getArg(0)) return std::nullopt;
          const StoreInst* only = nullptr; int n = 0;
          for (auto& J : instructions(F)) if (auto* S = dyn_cast<StoreInst>(&J)) { Loc m = locOf(DL, S->getPointerOperand()); if (m.exact && m.root == l.root && m.off == l.off) { only = S; n++; } }
          if (n == 0) { Atoms::A p; return Poly::a(A.at.get("this+" + std::to_string(l.off), p)); }
          if (n == 1 && DT.dominates(only, L)) return A.of(only->getValueOperand());
        }
      }
      return std::nullopt;
    };
  };
  // ---------------------------------------------------------------- constructor
  if (Function* F = fn("drv_ctor")) {
    DominatorTree DT(*F); Arith A; Tiler T(*F, A); hookFor(*F, A, DT);
    auto isSpawn = [&](const Instruction& I) { auto* cb = dyn_cast<CallBase>(&I); if (!cb || cb->arg_size() < 1) return false; auto* c = cb->getCalledFunction(); if (!c) return false;
      std::string d = dem(c); if (d.find("std::thread::thread<") != std::string::npos && d.find("lambda") != std::string::npos && cb->arg_size() >= 2) return true;
      if (d.find("std::thread&&)") != std::string::npos && d.find("lambda") == std::string::npos) return false;   // moves an existing thread into the vector
      return (d.find("emplace_back") != std::string::npos || d.find("push_back") != std::string::npos) && isField(*F, cb->getArgOperand(0), oThr); };
    Poly n = A.of(F->getArg(1));
    const Instruction* badClosure = nullptr; int spawns = 0; std::set<int64_t> idOff;
    T.classify = [&](const Instruction& I, TState&) -> std::optional<std::vector<Region>> {
      if (!isSpawn(I)) return std::nullopt;
      auto* cb = cast<CallBase>(&I); spawns++;
      // worker id: the integer stored into the closure (captured by value)
      if (cb->arg_size() < 2) { badClosure = &I; return std::nullopt; }
      Loc c = locOf(DL, cb->getArgOperand(1)); const StoreInst* st = nullptr; int k = 0;
      for (auto& J : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&J)) { Loc m = locOf(DL, S->getPointerOperand()); if (m.root == c.root && S->getValueOperand()->getType()->isIntegerTy()) { st = S; k++; idOff.insert(m.off); } }
      if (k != 1 || !DT.dominates(st, &I)) { badClosure = &I; return std::nullopt; }
      Poly i = A.of(st->getValueOperand()); return std::vector<Region>{{i, i + Poly::c(1), &I, true}};
    };
    T.req = "one worker for each id in [1, num_threads)";
    Sys pre; pre.addGe(n - Poly::c(1));
    T.run(Poly::c(1), n, pre);
    if (badClosure) R.add("worker-id-captured", where(badClosure), false, "the worker id is not captured by value in the thread's closure");
    else R.add("worker-id-captured", where(F), true, "captured by value");
    if (!spawns) R.brk("no thread is spawned in the constructor");
    for (auto& e : T.errs) R.add("one-worker-per-id", e.second.where, false, e.second.msg);
    if (T.errs.empty()) R.add("one-worker-per-id", where(F), true, "ids 1..num_threads-1, one thread each");
    // initialisation precedes the first thread
    auto before = [&](const std::string& what, IPred init) {
      auto* hit = pathAvoiding(*F, nullptr, isSpawn, init);
      R.add("initialised-before-threads", hit ? where(hit) : where(F), !hit, what + (hit ? ": a worker may start before it is set up" : ""));
      bool any = false; for (auto& I : instructions(*F)) if (init(I)) any = true;
      if (!any) R.add("initialised-before-threads", where(F), false, what + ": never set up as required");
    };
    auto storeVal = [&](int64_t o, std::function<bool(const Value*)> ok) { return [=, &A, &DL](const Instruction& I) {
      auto* S = dyn_cast<StoreInst>(&I); return S && isField(*F, S->getPointerOperand(), o) && ok(S->getValueOperand()); }; };
    auto zero = [](const Value* v) { auto* C = dyn_cast<Constant>(v); return C && C->isNullValue(); };
    Sys none;
    auto isN = [&](const Value* v) { return A.eq(pre, A.of(v), n); };
    before("num_threads equals the requested number", storeVal(oN, isN));
    before("finished flag starts false", storeVal(oFin, zero));
    before("finished-worker count starts at zero", storeVal(oNF, zero));
    before("awake-worker count starts at num_threads", storeVal(oAw, isN));
    auto vecOf = [&](int64_t o) { return [=, &A](const Instruction& I) { auto* cb = dyn_cast<CallBase>(&I); if (!cb || cb->arg_size() < 2 || !cb->getCalledFunction()) return false;
      return dem(cb->getCalledFunction()).find("::vector(") != std::string::npos && isField(*F, cb->getArgOperand(0), o) && cb->getArgOperand(1)->getType()->isIntegerTy() && A.eq(pre, A.of(cb->getArgOperand(1)), n); }; };
    before("one deque per worker", vecOf(oDeq));
    before("one steal-attempt counter per worker", vecOf(oAtt));
    auto tlsStore = [&](int64_t o, std::function<bool(const Value*)> ok) { return [=, &DL](const Instruction& I) { auto* S = dyn_cast<StoreInst>(&I); if (!S) return false; Loc l = locOf(DL, S->getPointerOperand()); return l.tls && l.exact && l.off == o && ok(S->getValueOperand()); }; };
    before("the creating thread becomes worker 0", tlsStore(wId, zero));
    before("the creating thread belongs to this scheduler", tlsStore(wS, [&](const Value* v) { return v->stripPointerCasts() == F->getArg(0); }));
    // previous identity saved before it is overwritten
    auto tlsLoad = [&](const Value* v, int64_t o) { auto* L = dyn_cast<LoadInst>(strip(v)); if (!L) return false; Loc l = locOf(DL, L->getPointerOperand()); return l.tls && l.exact && l.off == o; };
    for (auto [o, nm] : {std::pair<int64_t, const char*>{wId, "worker id"}, {wS, "scheduler"}}) {
      const StoreInst* save = nullptr; for (auto& I : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&I)) if (isField(*F, S->getPointerOperand(), oPar + o) && tlsLoad(S->getValueOperand(), o)) save = S;
      bool ok = save != nullptr;
      if (ok) { // the saved load reads the value the thread had on entry
        auto* L = cast<LoadInst>(strip(save->getValueOperand()));
        int64_t oo = o;
        auto* hit = pathAvoiding(*F, nullptr, [&](const Instruction& I) { auto* S = dyn_cast<StoreInst>(&I); if (!S) return false; Loc l = locOf(DL, S->getPointerOperand()); return l.tls && l.exact && l.off == oo; }, [&](const Instruction& I) { return &I == L; });
        // an assignment guarded against self-aliasing may branch around the save
        if (hit) { bool guarded = false; for (auto& I : instructions(*F)) if (auto* IC = dyn_cast<ICmpInst>(&I); IC && IC->isEquality()) { Loc a = locOf(DL, IC->getOperand(0)), b = locOf(DL, IC->getOperand(1)); if ((a.tls && b.root == F->getArg(0)) || (b.tls && a.root == F->getArg(0))) guarded = true; } ok = guarded && DT.dominates(L, save); }
      }
      R.add("identity-saved", save ? where(save) : where(F), ok, std::string("the creating thread's previous ") + nm + (ok ? " is saved" : " is not saved before it is overwritten"));
    }
    R.counts["constructor obligations"] += 12;
    // ---------------------------------------------------------------- thread body
    Function* body = nullptr;
    for (auto& G : M) if (!G.isDeclaration() && G.getSubprogram() && G.getSubprogram()->getName() == "operator()" && dem(&G).find("scheduler<") != std::string::npos && G.arg_size() == 1) {
      bool w = false; for (auto& I : instructions(G)) if (callsDem(I, {"scheduler<", ">::worker()"})) w = true;
      if (w) { if (body && body != &G) R.brk("two candidates for the thread body of the scheduler"); body = &G; }
    }
    if (!body) R.brk("thread body of the scheduler not found");
    else {
      PrepOptions o; o.keep = [](const Function& f) { auto d = dem(&f); return d.size() > 10 && d.compare(d.size() - 10, 10, "::worker()") == 0; };
      prepare(*body, o); R.functions.insert(dem(body));
      auto isW = [&](const Instruction& I) { return callsDem(I, {">::worker()"}); };
      auto fromClosure = [&](const Value* v, bool ptr) { v = strip(v); if (auto* C = dyn_cast<CastInst>(v)) v = C->getOperand(0); auto* L = dyn_cast<LoadInst>(v); if (!L) return false; Loc l = locOf(DL, L->getPointerOperand());
        return l.root == body->getArg(0) && (ptr ? true : idOff.count(l.off) > 0); };
      int calls = 0; for (auto& I : instructions(*body)) if (isW(I)) { calls++; 
        bool same = fromClosure(cast<CallBase>(I).getArgOperand(0), true);
        R.add("worker-runs", where(&I), same, "the thread runs worker() of the scheduler that spawned it"); }
      auto* ret = pathAvoiding(*body, nullptr, [](const Instruction& I) { return isa<ReturnInst>(I); }, isW);
      R.add("worker-runs", ret ? where(ret) : where(body), !ret && calls >= 1, ret ? "the thread may end without running worker()" : "worker() runs");
      auto id = tlsStore(wId, [&](const Value* v) { return fromClosure(v, false); });
      auto sc = tlsStore(wS, [&](const Value* v) { return fromClosure(v, true); });
      for (auto [p, nm] : {std::pair<IPred, const char*>{id, "worker id"}, {sc, "scheduler"}}) {
        auto* hit = pathAvoiding(*body, nullptr, isW, p);
        R.add("worker-identity-set", hit ? where(hit) : where(body), !hit, std::string("the thread's ") + nm + (hit ? " is not set before it starts to work" : " is set before it starts to work"));
      }
    }
  }
  // ---------------------------------------------------------------- worker loop
  if (Function* F = fn("drv_worker")) {
    struct W { int bal = 0, cnt = 0, fin = 0; bool operator<(const W& o) const { return std::tie(bal, cnt, fin) < std::tie(o.bal, o.cnt, o.fin); } };
    Flow<W> fl; std::map<std::string, std::pair<std::string, std::string>> errs; int waits = 0, rets = 0;
    auto err = [&](const Instruction& I, const char* rule, const char* m) { errs.emplace(where(&I) + rule, std::make_pair(std::string(rule), std::string(m) + "|" + where(&I))); };
    fl.onInst = [&](const Instruction& I, W& u, Env&) {
      if (auto* X = dyn_cast<AtomicRMWInst>(&I)) {
        auto* C = dyn_cast<ConstantInt>(X->getValOperand()); int64_t d = C ? C->getSExtValue() : 99; if (X->getOperation() == AtomicRMWInst::Sub) d = -d; else if (X->getOperation() != AtomicRMWInst::Add) d = 99;
        if (isField(*F, X->getPointerOperand(), oAw)) { u.bal += d; if (u.bal < -1 || u.bal > 0) { err(I, "awake-count", "the awake-worker count is changed out of balance"); return false; } }
        if (isField(*F, X->getPointerOperand(), oNF)) { u.cnt += d; if (u.cnt != 1) { err(I, "finished-count", "the finished-worker count is not raised by exactly one per worker"); return false; } if (!u.fin) err(I, "finished-count", "a worker counts itself finished without having seen the finished flag"); }
      }
      if (callsDem(I, {"atomic_wait"})) {
        waits++;
        if (u.bal != -1) err(I, "awake-count", "a worker goes to sleep while still counted as awake");
        if (u.cnt) err(I, "finished-count", "a worker goes to sleep after counting itself finished");
        auto& cb = cast<CallBase>(I);
        auto* L = dyn_cast<LoadInst>(strip(cb.getArgOperand(1)));
        bool ok = isField(*F, cb.getArgOperand(0), oWake) && L && isField(*F, L->getPointerOperand(), oWake);
        if (!ok) err(I, "sleep-on-counter", "the worker does not wait for a change of the wake-up counter from a value it read");
        R.counts["sleeps"]++;
      }
      if (callsDem(I, {"::get_job"})) { if (u.bal) err(I, "awake-count", "a worker looks for jobs while counted as asleep"); if (u.cnt) err(I, "finished-count", "a worker takes jobs after counting itself finished"); }
      if (isa<ReturnInst>(I)) { rets++; if (u.bal) err(I, "awake-count", "a worker exits while counted as asleep"); if (u.cnt != 1) err(I, "finished-count", "a worker exits without counting itself finished"); if (!u.fin) err(I, "exit-only-when-finished", "a worker exits although the scheduler is not finished"); }
      return true;
    };
    fl.onFact = [&](const Fact& f, W& u, Env&) { bool t; auto* L = testedLoad(f.cond, f.val, t); if (L && isField(*F, L->getPointerOperand(), oFin)) { if (t) { u.fin = 1; } } return true; };
    fl.run(*F, W{});
    if (fl.overflow) R.brk("state limit in worker");
    for (auto& e : errs) { auto p = e.second.second.find('|'); R.add(e.second.first, e.second.second.substr(p + 1), false, e.second.second.substr(0, p)); }
    if (errs.empty()) R.add("worker-protocol", where(F), true, "awake count balanced, finished count raised once, exit only when finished");
    if (!rets) R.brk("worker never returns");
    R.counts["worker states"] += fl.states;
    // the finished flag is tested with acquire
    for (auto& I : instructions(*F)) if (auto* L = dyn_cast<LoadInst>(&I)) if (isField(*F, L->getPointerOperand(), oFin)) R.add("finished-acquire", where(L), L->isAtomic(), "finished flag read atomically");
  }
  // ---------------------------------------------------------------- destructor
  if (Function* F = fn("drv_dtor")) {
    DominatorTree DT(*F);
    auto isJoin = [&](const Instruction& I) { return callsDem(I, {"std::thread::join("}); };
    auto isFin = [&](const Instruction& I) { auto* S = dyn_cast<StoreInst>(&I); if (!S || !isField(*F, S->getPointerOperand(), oFin)) return false; auto* C = dyn_cast<ConstantInt>(S->getValueOperand()); return C && !C->isZero() && S->isAtomic(); };
    auto isRet = [](const Instruction& I) { return isa<ReturnInst>(I); };
    int nj = 0; for (auto& I : instructions(*F)) nj += isJoin(I); if (!nj) R.add("threads-joined", where(F), false, "no worker thread is joined");
    R.counts["joins"] += nj;
    auto isDone = [&](const Instruction& I) { auto* L = dyn_cast<LoadInst>(&I); return L && isField(*F, L->getPointerOperand(), oNF); };
    for (auto [p, nm] : {std::pair<IPred, const char*>{isJoin, "joining a worker"}, {isDone, "waiting for the workers to finish"}, {isRet, "returning"}}) {
      auto* hit = pathAvoiding(*F, nullptr, p, isFin);
      R.add("finish-announced", hit ? where(hit) : where(F), !hit, std::string("the finished flag is set before ") + nm);
    }
    // joins only once every other worker has counted itself finished
    Arith A; Tiler T(*F, A); hookFor(*F, A, DT);
    Poly n; { Atoms::A p; n = Poly::a(A.at.get("this+" + std::to_string(oN), p)); }
    Poly begin; { Atoms::A p; begin = Poly::a(A.at.get("this+" + std::to_string(oThr), p)); }
    Poly end; { Atoms::A p; end = Poly::a(A.at.get("this+" + std::to_string(oThr + 8), p)); }
    const Instruction* early = nullptr;
    T.classify = [&](const Instruction& I, TState& st) -> std::optional<std::vector<Region>> {
      if (!isJoin(I)) return std::nullopt;
      if (!st.sys.ge.empty()) { bool ok = false;
        for (auto& J : instructions(*F)) if (isDone(J)) if (A.le(st.sys, n - Poly::c(1), A.of(&J))) ok = true;
        if (!ok) early = &I; }
      Poly a = A.of(cast<CallBase>(I).getArgOperand(0)); return std::vector<Region>{{a, a + Poly::c(8), &I, true}};
    };
    Sys pre; pre.addGe(n - Poly::c(1)); pre.addEq(end - begin - scale(n - Poly::c(1), 8));
    T.req = "every spawned thread";
    // a spawned thread that has not been joined is joinable: `if (t.joinable()) t.join()` joins
    T.impossible = [&](const Fact& f) {
      if (auto* J = dyn_cast<CallBase>(f.cond)) return !f.val && callsDem(*J, {"std::thread::joinable"});
      auto* C = dyn_cast<ICmpInst>(f.cond); if (!C || !C->isEquality() || (C->getPredicate() == ICmpInst::ICMP_EQ) != f.val) return false;
      auto* L = dyn_cast<LoadInst>(C->getOperand(0)); auto* Z = dyn_cast<Constant>(C->getOperand(1)); if (!L || !Z || !Z->isNullValue()) return false;
      for (auto& J : instructions(*F)) if (isJoin(J) && A.of(cast<CallBase>(J).getArgOperand(0)) == A.of(L->getPointerOperand())) return true;
      return false;
    };
    T.run(begin, begin + scale(n - Poly::c(1), 8), pre);
    for (auto& e : T.errs) R.add("threads-joined", e.second.where, false, "joins: " + e.second.msg);
    if (T.errs.empty()) R.add("threads-joined", where(F), true, "each spawned thread joined exactly once");
    R.add("workers-woken", early ? where(early) : where(F), !early, early ? "a worker is joined before all workers are known to have left their sleep (it may sleep for ever)" : "joins happen after all workers counted themselves finished");
    // waking: each retry raises the counter before notifying everybody, unless all workers are awake
    auto isNotify = [&](const Instruction& I) { return callsDem(I, {"atomic_notify_all"}); };
    auto isInc = [&](const Instruction& I) { auto* X = dyn_cast<AtomicRMWInst>(&I); return X && isField(*F, X->getPointerOperand(), oWake) && X->getOperation() == AtomicRMWInst::Add; };
    int nn = 0;
    for (auto& I : instructions(*F)) if (isNotify(I)) { nn++;
      auto* h1 = pathAvoiding(*F, nullptr, [&](const Instruction& J) { return &J == &I; }, isInc);
      auto* h2 = pathAvoiding(*F, &I, [&](const Instruction& J) { return &J == &I; }, isInc);
      R.add("wake-changes-counter", where(&I), !h1 && !h2 && isField(*F, cast<CallBase>(I).getArgOperand(0), oWake), "every notification follows a change of the counter the sleepers wait on"); }
    if (!nn) R.add("workers-woken", where(F), false, "sleeping workers are never woken for shutdown");
    for (auto& I : instructions(*F)) if (isDone(I)) {
      // around the waiting loop, a wake-up or the observation that everybody is awake
      auto* again = pathAvoiding(*F, &I, isDone, isNotify, [&](const BasicBlock* a, const BasicBlock* b) {
        for (auto& f : edgeFacts(a, b)) { std::vector<Poly> ge; if (A.cmp(f.cond, f.val, ge)) { Sys s; for (auto& p : ge) s.addGe(p);
            for (auto& J : instructions(*F)) if (auto* L = dyn_cast<LoadInst>(&J)) if (isField(*F, L->getPointerOperand(), oAw)) if (A.le(s, n, A.of(L))) return false; } }
        return true; });
      R.add("workers-woken", again ? where(&I) : where(&I), !again, again ? "the shutdown loop can go round without waking sleeping workers" : "every round of the shutdown loop wakes sleepers");
    }
    // the previous identity of the thread is restored after the joins
    for (auto [o, nm] : {std::pair<int64_t, const char*>{wId, "worker id"}, {wS, "scheduler"}}) {
      int64_t oo = o;
      auto restore = [&](const Instruction& I) { auto* S = dyn_cast<StoreInst>(&I); if (!S) return false; Loc l = locOf(DL, S->getPointerOperand()); if (!(l.tls && l.exact && l.off == oo)) return false;
        auto* L = dyn_cast<LoadInst>(strip(S->getValueOperand())); return L && isField(*F, L->getPointerOperand(), oPar + oo); };
      auto* hit = pathAvoiding(*F, nullptr, isRet, restore, [&](const BasicBlock* a, const BasicBlock* b) {
        for (auto& f : edgeFacts(a, b)) if (auto* IC = dyn_cast<ICmpInst>(f.cond); IC && IC->isEquality() && (IC->getPredicate() == ICmpInst::ICMP_EQ) == f.val) { Loc x = locOf(DL, IC->getOperand(0)), y = locOf(DL, IC->getOperand(1)); if ((x.tls && y.root == F->getArg(0)) || (y.tls && x.root == F->getArg(0))) return false; }
        return true; });
      R.add("identity-restored", hit ? where(hit) : where(F), !hit, std::string("the creating thread's previous ") + nm + (hit ? " is not restored on every path" : " is restored"));
      for (auto& I : instructions(*F)) if (restore(I)) { auto* j = pathAvoiding(*F, &I, isJoin, [](const Instruction&) { return false; }); R.add("identity-restored", where(&I), !j, "restored after the workers have been joined"); }
    }
  }
}
