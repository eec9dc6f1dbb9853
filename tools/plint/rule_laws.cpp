// V01: equalities stated by the drivers (plint_eq / plint_ok) hold on every path through them.
#include "seqint.h"
#include "mem.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/PatternMatch.h"
using namespace plint;
// building a message and throwing it: not entered
static bool text(const Function& f) { auto d = dem(&f); return d.find("std::__cxx11::") != std::string::npos || d.find("std::to_string") != std::string::npos || d.find("throw_exception_or_terminate") != std::string::npos; }
RULE(laws) {
  const char* only = getenv("ONLY"); int drv = 0;
  std::vector<Function*> fs; for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("drv_")) fs.push_back(&F);
  for (auto* Fp : fs) {
    Function& F = *Fp; std::string nm = F.getName().str();
    if (only && ("," + std::string(only) + ",").find("," + nm + ",") == std::string::npos) continue;
    drv++;
    PrepOptions o; o.keep = [](const Function& f) { return f.getName().starts_with("plint_") || text(f); };
    o.pipeline = std::string(kLoopPipeline) + ",loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg"; prepare(F, o);
    prepare(F, o);
    if (getenv("SEQDUMP")) F.print(errs());
    SeqInt S(F); S.raw = true; S.windows = true; Arith& A = S.A;
    auto old = A.hook;
    A.hook = [&, old](const Value* v) -> std::optional<Poly> {
      if (auto* cb = dyn_cast<CallBase>(v)) if (auto* c = cb->getCalledFunction(); c && c->getName().starts_with("plint_") && c->getName().ends_with("n") && c->getName() != "plint_fn_") return A.code(c->getName().str(), A.of(cb->getArgOperand(0)));
      return old ? old(v) : std::nullopt;
    };
    std::map<const Instruction*, bool> seen;
    S.onCall = [&](SeqInt& S, SState& st, const CallBase& cb) {
      auto* c = cb.getCalledFunction(); if (!c) return false;
      if (c->getName() == "plint_eq") {
        Poly a = A.of(cb.getArgOperand(0)), b = A.of(cb.getArgOperand(1)); seen[&cb] = true;
        if (!S.eq(st, a, b)) S.error(&cb, "law", A.at.str(S.simp(st.sys, a)) + " is not shown equal to " + A.at.str(S.simp(st.sys, b)));
        return true;
      }
      if (c->getName() == "plint_ok") {
        auto* v = cb.getArgOperand(0); seen[&cb] = true; bool ok = false;
        if (auto* C = dyn_cast<ConstantInt>(v)) ok = !C->isZero();
        else { SState t = st; Fact f; f.cond = v; f.val = false; Value* x2; while (PatternMatch::match(f.cond, PatternMatch::m_Not(PatternMatch::m_Value(x2)))) { f.cond = x2; f.val = !f.val; } ok = !S.learn(t, f) || A.unsat(t.sys); }
        if (!ok) S.error(&cb, "law", "the required relation between positions does not follow");
        return true;
      }
      if (dem(c).find("throw_exception_or_terminate") != std::string::npos) { S.error(&cb, "law", "a valid position is refused"); return true; }
      return c->getName().starts_with("plint_") || text(*c);
    };
    Sys pre; S.run(pre);
    R.functions.insert(nm); R.counts["laws"] += seen.size(); R.counts["paths"] += S.paths;
    const SeqInt::Err* un = nullptr; for (auto& e : S.errs) if (e.second.rule == "not-modelled" || e.second.rule == "understood") { un = &e.second; break; }
    if (un) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": " + un->msg + " (" + un->where + ")"); continue; }
    if (S.errs.empty()) R.add("law", where(&F), true, nm + ": every equality follows");
    for (auto& e : S.errs) R.add(e.second.rule, e.second.where, false, nm + ": " + e.second.msg);
    if (!S.paths) R.brk("no path through " + nm + " reaches its end");
  }
  if (!drv) R.brk("no driver");
}
