// plint core: IR-level static analysis helpers shared by all rules.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace plint {
using namespace llvm;

// ---------------------------------------------------------------- reporting
struct Obligation { std::string rule, where, msg; bool ok; };
struct Report {
  std::vector<Obligation> obl;
  std::vector<std::string> broken;      // analysis could not run (anchor vanished, unknown shape)
  std::vector<std::string> undecided;   // drivers left without a verdict: a construct outside the model
  std::set<std::string> functions;      // functions analysed
  std::map<std::string, long> counts;   // instance counts
  void add(const std::string& rule, const std::string& where, bool ok, const std::string& msg) {
    obl.push_back({rule, where, msg, ok});
  }
  void brk(const std::string& m) { broken.push_back(m); }
};
std::string where(const Instruction* I);
std::string where(const Function* F);
std::string dem(const Function* F);     // demangled name
std::string dem(StringRef s);

// ---------------------------------------------------------------- preparation
struct PrepOptions {
  // true => never inline this callee (kept as an opaque anchor)
  std::function<bool(const Function&)> keep = [](const Function&) { return false; };
  std::string pipeline;  // extra pipeline, empty => default
  bool loops = false;    // canonicalise loops too (rotate, indvars)
  unsigned maxInline = 20000;
};
// Inline everything below F (except kept callees and recursion) and simplify.
void prepare(Function& F, const PrepOptions& o = {});
void simplify(Module& M, Function& F, const std::string& pipeline);
extern const char* kBasePipeline;
extern const char* kLoopPipeline;

Function* findFn(Module& M, const std::string& externCName);

// ---------------------------------------------------------------- queries
bool atLeast(AtomicOrdering have, AtomicOrdering want);
AtomicOrdering loadOrder(const LoadInst* L);
const Value* strip(const Value* v);                 // strip casts / trivial phis
// constant byte offset from a base pointer, if any
bool constOffset(const DataLayout& DL, const Value* p, const Value*& base, int64_t& off);

// dominating branch facts of a block
struct Fact { const Value* cond; bool val; const BranchInst* br; };
std::vector<Fact> factsAt(const BasicBlock* BB, DominatorTree& DT);
// leaves of a value through phis/selects together with the facts under which it is chosen
struct Leaf { const Value* v; std::vector<Fact> facts; const Instruction* at; };
std::vector<Leaf> leaves(const Value* v, const Instruction* at, DominatorTree& DT);

// path search: is there a path from just after `from` (or function entry if null)
// to an instruction satisfying `target`, without executing one satisfying `avoid`
// and without taking an edge for which edgeOk is false?
using IPred = std::function<bool(const Instruction&)>;
using EPred = std::function<bool(const BasicBlock*, const BasicBlock*)>;
const Instruction* pathAvoiding(const Function& F, const Instruction* from, IPred target, IPred avoid,
                                EPred edgeOk = nullptr);

// ---------------------------------------------------------------- linear forms
// canonical linear form: sum of coef*atom + c  (mod 2^bits); atoms are canonical strings
struct Lin {
  std::map<std::string, int64_t> t;
  int64_t c = 0;
  unsigned bits = 64;
  bool operator==(const Lin& o) const { return t == o.t && c == o.c; }
  bool operator!=(const Lin& o) const { return !(*this == o); }
  bool isConst() const { return t.empty(); }
  std::string str() const;
  Lin& norm();
};
Lin operator+(const Lin&, const Lin&);
Lin operator-(const Lin&, const Lin&);
Lin scale(const Lin&, int64_t);
Lin konst(int64_t, unsigned bits = 64);
struct Canon {
  // optional override: map a value to a Lin before default handling
  std::function<std::optional<Lin>(const Value*)> hook;
  Lin lin(const Value* v);
  Lin half(const Value* v, bool hi);     // 32-bit halves of a 64-bit value
  std::string atom(const Value* v);
  std::map<const Value*, Lin> memo;
  std::map<const Value*, unsigned> ids;
  int depth = 0;
};

// comparison facts in canonical form
struct CmpFact { CmpInst::Predicate p; Lin a, b; };
std::vector<CmpFact> cmpFacts(const std::vector<Fact>& fs, Canon& C);
// do the facts contain (an equivalent of)  a p b ?
bool proves(const std::vector<CmpFact>& fs, CmpInst::Predicate p, const Lin& a, const Lin& b);
// is a fact "value v (i1) is val" present?
bool hasFact(const std::vector<Fact>& fs, const Value* v, bool val);
// cmpxchg success facts
const AtomicCmpXchgInst* casSuccess(const Fact& f);
// edge facts: conditions implied by taking the edge a->b
std::vector<Fact> edgeFacts(const BasicBlock* a, const BasicBlock* b);
std::vector<std::vector<Fact>> edgeCases(const BasicBlock* a, const BasicBlock* b);   // one entry per case
bool isRetPath(const BasicBlock* BB);  // can this block reach a return?
using RuleFn = void (*)(Module&, Report&);
struct RuleReg { RuleReg(const char* name, RuleFn f); };
std::map<std::string, RuleFn>& rules();
#define RULE(name) static void rule_##name(llvm::Module&, plint::Report&); \
  static plint::RuleReg reg_##name(#name, rule_##name); \
  static void rule_##name(llvm::Module& M, plint::Report& R)
}  // namespace plint
