#include "core.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <deque>

namespace plint {

const char* kBasePipeline =
    "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,"
    "gvn<no-load-pre>,sccp,instcombine<no-verify-fixpoint>,simplifycfg,adce,simplifycfg";
const char* kLoopPipeline =
    "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,"
    "gvn<no-load-pre>,sccp,instcombine<no-verify-fixpoint>,simplifycfg,adce,simplifycfg,"
    "loop-simplify,lcssa,loop-mssa(licm),gvn<no-load-pre>,instcombine<no-verify-fixpoint>,loop-simplify,lcssa";

std::string dem(StringRef s) { return llvm::demangle(s.str()); }
std::string dem(const Function* F) {
  return llvm::demangle(F->getName().str());
}
static std::string shortFile(StringRef f) {
  size_t p = f.rfind("include/parlay/");
  if (p != StringRef::npos) return f.substr(p).str();
  return f.str();
}
std::string where(const Instruction* I) {
  if (!I) return "?";
  if (const DebugLoc& d = I->getDebugLoc()) {
    const DILocation* L = d.get();
    // report the innermost location that lies in the repository, plus its function
    const DILocation* pick = L;
    for (const DILocation* q = L; q; q = q->getInlinedAt())
      if (q->getFilename().contains("include/parlay/")) { pick = q; break; }
    std::string s = shortFile(pick->getFilename()) + ":" + std::to_string(pick->getLine());
    if (auto* sp = pick->getScope()->getSubprogram()) s += " (" + sp->getName().str() + ")";
    return s;
  }
  return I->getFunction()->getName().str();
}
std::string where(const Function* F) {
  if (auto* sp = F->getSubprogram())
    return shortFile(sp->getFilename()) + ":" + std::to_string(sp->getLine()) + " (" + sp->getName().str() + ")";
  return dem(F);
}

Function* findFn(Module& M, const std::string& n) { return M.getFunction(n); }

void simplify(Module& M, Function& F, const std::string& pipeline) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  if (auto e = PB.parsePassPipeline(FPM, pipeline)) {
    errs() << "bad pipeline: " << toString(std::move(e)) << "\n"; exit(3);
  }
  FPM.run(F, FAM);
}

void prepare(Function& F, const PrepOptions& o) {
  Module& M = *F.getParent();
  F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
  // worklist inlining with history (to refuse recursion)
  struct Item { CallBase* cb; int hist; };
  std::vector<std::pair<Function*, int>> hist;  // (function, parent)
  std::deque<Item> work;
  for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) work.push_back({cb, -1});
  unsigned n = 0;
  while (!work.empty()) {
    Item it = work.front(); work.pop_front();
    Function* callee = dyn_cast_or_null<Function>(it.cb->getCalledOperand()->stripPointerCasts());
    if (!callee || callee->isDeclaration() || callee == &F) continue;
    if (o.keep(*callee)) continue;
    if (callee->getFunctionType() != it.cb->getFunctionType()) continue;
    bool rec = false;
    for (int h = it.hist; h >= 0; h = hist[h].second) if (hist[h].first == callee) { rec = true; break; }
    if (rec) continue;
    if (++n > o.maxInline) break;
    callee->removeFnAttr(Attribute::OptimizeNone); callee->removeFnAttr(Attribute::NoInline);
    InlineFunctionInfo IFI;
    auto r = InlineFunction(*it.cb, IFI, false, nullptr, false);
    if (!r.isSuccess()) continue;
    hist.push_back({callee, it.hist});
    int h = hist.size() - 1;
    for (auto* cb : IFI.InlinedCallSites) work.push_back({cb, h});
  }
  simplify(M, F, o.pipeline.empty() ? (o.loops ? kLoopPipeline : kBasePipeline) : o.pipeline);
}

bool atLeast(AtomicOrdering have, AtomicOrdering want) { return isAtLeastOrStrongerThan(have, want); }
AtomicOrdering loadOrder(const LoadInst* L) { return L->getOrdering(); }

const Value* strip(const Value* v) {
  while (true) {
    if (auto* c = dyn_cast<BitCastOperator>(v)) v = c->getOperand(0);
    else if (auto* f = dyn_cast<FreezeInst>(v)) v = f->getOperand(0);
    else if (auto* p = dyn_cast<PHINode>(v)) {
      const Value* u = nullptr; bool ok = true;
      for (auto& in : p->incoming_values()) { if (in == p) continue; if (!u) u = in; else if (u != in) ok = false; }
      if (ok && u) v = u; else return v;
    } else return v;
  }
}
bool constOffset(const DataLayout& DL, const Value* p, const Value*& base, int64_t& off) {
  APInt o(DL.getIndexTypeSizeInBits(p->getType()), 0);
  base = p->stripAndAccumulateConstantOffsets(DL, o, true);
  off = o.getSExtValue();
  return true;
}

static void splitFact(const Value* c, bool v, const BranchInst* br, std::vector<Fact>& out, int d = 0) {
  if (d > 8) { out.push_back({c, v, br}); return; }
  const Value *a = nullptr, *b = nullptr;
  if (auto* I = dyn_cast<Instruction>(c)) {
    if (I->getOpcode() == Instruction::Xor && isa<ConstantInt>(I->getOperand(1)) &&
        cast<ConstantInt>(I->getOperand(1))->isOne() && I->getType()->isIntegerTy(1)) {
      splitFact(I->getOperand(0), !v, br, out, d + 1); return;
    }
    if (I->getType()->isIntegerTy(1)) {
      if (I->getOpcode() == Instruction::And) { a = I->getOperand(0); b = I->getOperand(1); if (v) { splitFact(a, v, br, out, d+1); splitFact(b, v, br, out, d+1); return; } }
      if (I->getOpcode() == Instruction::Or) { a = I->getOperand(0); b = I->getOperand(1); if (!v) { splitFact(a, v, br, out, d+1); splitFact(b, v, br, out, d+1); return; } }
      if (auto* S = dyn_cast<SelectInst>(I)) {
        // a ? b : false
        if (auto* C = dyn_cast<ConstantInt>(S->getFalseValue()); C && C->isZero() && v) { splitFact(S->getCondition(), true, br, out, d+1); splitFact(S->getTrueValue(), true, br, out, d+1); return; }
        // a ? true : b
        if (auto* C = dyn_cast<ConstantInt>(S->getTrueValue()); C && C->isOne() && !v) { splitFact(S->getCondition(), false, br, out, d+1); splitFact(S->getFalseValue(), false, br, out, d+1); return; }
      }
    }
    // i8 bool idioms: icmp ne (and/zext x), 0 ; trunc(zext x)
    if (auto* IC = dyn_cast<ICmpInst>(I); IC && IC->isEquality()) {
      if (auto* C = dyn_cast<ConstantInt>(IC->getOperand(1)); C && C->isZero()) {
        if (auto* Z = dyn_cast<ZExtInst>(IC->getOperand(0)); Z && Z->getOperand(0)->getType()->isIntegerTy(1)) {
          splitFact(Z->getOperand(0), (IC->getPredicate() == ICmpInst::ICMP_NE) == v, br, out, d+1); return;
        }
      }
    }
    if (auto* T = dyn_cast<TruncInst>(I)) if (auto* Z = dyn_cast<ZExtInst>(T->getOperand(0)); Z && Z->getOperand(0)->getType()->isIntegerTy(1)) {
      splitFact(Z->getOperand(0), v, br, out, d+1); return;
    }
  }
  out.push_back({c, v, br});
}

std::vector<Fact> factsAt(const BasicBlock* BB, DominatorTree& DT) {
  std::vector<Fact> out;
  auto* N = DT.getNode(BB);
  if (!N) return out;
  // every dominating block whose conditional branch has an edge dominating BB
  for (auto* n = N; n; n = n->getIDom()) {
    const BasicBlock* D = n->getBlock();
    auto* br = dyn_cast<BranchInst>(D->getTerminator());
    if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) continue;
    for (int s = 0; s < 2; s++) {
      BasicBlockEdge E(D, br->getSuccessor(s));
      if (DT.dominates(E, BB)) splitFact(br->getCondition(), s == 0, br, out);
    }
  }
  return out;
}

static void leavesRec(const Value* v, const Instruction* at, std::vector<Fact> fs, DominatorTree& DT,
                      std::set<const Value*>& seen, std::vector<Leaf>& out) {
  if (auto* S = dyn_cast<SelectInst>(v)) {
    auto a = fs; splitFact(S->getCondition(), true, nullptr, a);
    leavesRec(S->getTrueValue(), at, a, DT, seen, out);
    auto b = fs; splitFact(S->getCondition(), false, nullptr, b);
    leavesRec(S->getFalseValue(), at, b, DT, seen, out);
    return;
  }
  if (auto* P = dyn_cast<PHINode>(v)) {
    if (!seen.insert(P).second) return;
    for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
      const BasicBlock* B = P->getIncomingBlock(i);
      auto f = factsAt(B, DT);
      f.insert(f.end(), fs.begin(), fs.end());
      if (auto* br = dyn_cast<BranchInst>(B->getTerminator()); br && br->isConditional() &&
          br->getSuccessor(0) != br->getSuccessor(1))
        splitFact(br->getCondition(), br->getSuccessor(0) == P->getParent(), br, f);
      leavesRec(P->getIncomingValue(i), B->getTerminator(), f, DT, seen, out);
    }
    return;
  }
  out.push_back({v, fs, at});
}
std::vector<Leaf> leaves(const Value* v, const Instruction* at, DominatorTree& DT) {
  std::vector<Leaf> out; std::set<const Value*> seen;
  leavesRec(v, at, factsAt(at->getParent(), DT), DT, seen, out);
  return out;
}

const Instruction* pathAvoiding(const Function& F, const Instruction* from, IPred target, IPred avoid, EPred edgeOk) {
  std::set<const BasicBlock*> seen;
  std::deque<const Instruction*> q;
  q.push_back(from ? from->getNextNode() : &F.getEntryBlock().front());
  while (!q.empty()) {
    const Instruction* I = q.front(); q.pop_front();
    const BasicBlock* BB = nullptr; bool stop = false;
    for (; I; I = I->getNextNode()) {
      if (target(*I)) return I;
      if (avoid && avoid(*I)) { stop = true; break; }
      BB = I->getParent();
    }
    if (stop || !BB) continue;
    for (const BasicBlock* S : successors(BB)) {
      if (edgeOk && !edgeOk(BB, S)) continue;
      if (seen.insert(S).second) q.push_back(&S->front());
    }
  }
  return nullptr;
}

bool isRetPath(const BasicBlock* BB) {
  std::set<const BasicBlock*> seen{BB}; std::deque<const BasicBlock*> q{BB};
  while (!q.empty()) {
    auto* b = q.front(); q.pop_front();
    if (isa<ReturnInst>(b->getTerminator())) return true;
    for (auto* s : successors(b)) if (seen.insert(s).second) q.push_back(s);
  }
  return false;
}

// ------------------------------------------------------------------ linear forms
static int64_t sx(int64_t v, unsigned bits) {
  if (bits >= 64) return v;
  uint64_t m = (1ull << bits) - 1; uint64_t u = (uint64_t)v & m;
  if (u >> (bits - 1)) u |= ~m;
  return (int64_t)u;
}
Lin& Lin::norm() {
  c = sx(c, bits);
  for (auto it = t.begin(); it != t.end();) { it->second = sx(it->second, bits); if (it->second == 0) it = t.erase(it); else ++it; }
  return *this;
}
std::string Lin::str() const {
  std::string s;
  for (auto& [a, k] : t) { if (!s.empty()) s += "+"; if (k != 1) s += std::to_string(k) + "*"; s += a; }
  if (c || s.empty()) s += (s.empty() ? "" : "+") + std::to_string(c);
  return "(" + s + ")";
}
Lin operator+(const Lin& a, const Lin& b) { Lin r = a; r.bits = std::max(a.bits, b.bits); for (auto& [k, v] : b.t) r.t[k] = (int64_t)((uint64_t)r.t[k] + (uint64_t)v); r.c = (int64_t)((uint64_t)r.c + (uint64_t)b.c); return r.norm(); }
Lin scale(const Lin& a, int64_t s) { Lin r = a; for (auto& [k, v] : r.t) v = (int64_t)((uint64_t)v * (uint64_t)s); r.c = (int64_t)((uint64_t)r.c * (uint64_t)s); return r.norm(); }
Lin operator-(const Lin& a, const Lin& b) { return a + scale(b, -1); }
Lin konst(int64_t c, unsigned bits) { Lin l; l.c = c; l.bits = bits; return l.norm(); }

std::string Canon::atom(const Value* v) {
  if (auto* A = dyn_cast<Argument>(v)) return "arg" + std::to_string(A->getArgNo());
  if (auto* G = dyn_cast<GlobalValue>(v)) return "@" + G->getName().str();
  auto it = ids.find(v);
  if (it == ids.end()) it = ids.emplace(v, ids.size()).first;
  std::string pre = "v";
  if (isa<LoadInst>(v)) pre = "load"; else if (isa<PHINode>(v)) pre = "phi"; else if (isa<CallBase>(v)) pre = "call";
  return pre + std::to_string(it->second);
}
static Lin one(const std::string& a, unsigned bits) { Lin l; l.bits = bits; l.t[a] = 1; return l; }

Lin Canon::half(const Value* v, bool hi) {
  unsigned b = 32;
  if (auto* C = dyn_cast<ConstantInt>(v)) { uint64_t x = C->getZExtValue(); return konst((int64_t)(int32_t)(hi ? x >> 32 : x), b); }
  if (auto* I = dyn_cast<Instruction>(v)) {
    auto op = I->getOpcode();
    if (op == Instruction::ZExt) {
      auto* s = I->getOperand(0);
      if (s->getType()->getIntegerBitWidth() <= 32) { if (hi) return konst(0, b); Lin l = lin(s); if (s->getType()->getIntegerBitWidth() == 32) { l.bits = 32; return l.norm(); } }
    }
    if (op == Instruction::Shl) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getZExtValue() == 32) return hi ? half(I->getOperand(0), false) : konst(0, b);
    if (op == Instruction::LShr) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getZExtValue() == 32) return hi ? konst(0, b) : half(I->getOperand(0), true);
    if (op == Instruction::Or || op == Instruction::Add || op == Instruction::Xor) {
      Lin a0 = half(I->getOperand(0), hi), a1 = half(I->getOperand(1), hi);
      Lin l0 = half(I->getOperand(0), false), l1 = half(I->getOperand(1), false);
      Lin z = konst(0, b);
      if (op == Instruction::Add) {
        if (!hi) return a0 + a1;
        if (l0 == z || l1 == z) return a0 + a1;
      } else {
        if (a0 == z) return a1;
        if (a1 == z) return a0;
      }
    }
    if (op == Instruction::PHI && depth < 6) {
      depth++; std::optional<Lin> u; bool same = true;
      for (auto& in : cast<PHINode>(I)->incoming_values()) { if (in == I) continue; Lin x = half(in, hi); if (!u) u = x; else if (*u != x) { same = false; break; } }
      depth--;
      if (same && u) return *u;
    }
    if (op == Instruction::And) if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1))) {
      uint32_t m = hi ? (C->getZExtValue() >> 32) : C->getZExtValue();
      if (m == 0xffffffffu) return half(I->getOperand(0), hi);
      if (m == 0) return konst(0, b);
    }
  }
  return one((hi ? "hi[" : "lo[") + lin(v).str() + "]", b);
}

Lin Canon::lin(const Value* v) {
  auto f = memo.find(v);
  if (f != memo.end()) return f->second;
  unsigned bits = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64;
  auto fin = [&](Lin l) { l.bits = bits; l.norm(); memo[v] = l; return l; };
  if (hook) if (auto h = hook(v)) { memo[v] = *h; return *h; }
  if (auto* C = dyn_cast<ConstantInt>(v)) { if (bits <= 64) return fin(konst(C->getSExtValue(), bits)); }
  if (isa<ConstantPointerNull>(v)) return fin(konst(0, 64));
  auto bin = [&](const char* n, const Value* a, const Value* b, bool comm) {
    std::string x = lin(a).str(), y = lin(b).str();
    if (comm && y < x) std::swap(x, y);
    return fin(one(std::string(n) + std::to_string(bits) + "{" + x + "," + y + "}", bits));
  };
  if (auto* I = dyn_cast<Instruction>(v)) {
    const Value* a = I->getNumOperands() > 0 ? I->getOperand(0) : nullptr;
    const Value* b = I->getNumOperands() > 1 ? I->getOperand(1) : nullptr;
    switch (I->getOpcode()) {
      case Instruction::Add: return fin(lin(a) + lin(b));
      case Instruction::Sub: return fin(lin(a) - lin(b));
      case Instruction::Mul: {
        Lin x = lin(a), y = lin(b);
        if (y.isConst()) return fin(scale(x, y.c));
        if (x.isConst()) return fin(scale(y, x.c));
        std::string p = x.str(), q = y.str(); if (q < p) std::swap(p, q);
        return fin(one("mul{" + p + "," + q + "}", bits));
      }
      case Instruction::Shl: if (auto* C = dyn_cast<ConstantInt>(b); C && C->getZExtValue() < 63) return fin(scale(lin(a), 1ll << C->getZExtValue())); return bin("shl", a, b, false);
      case Instruction::Or: if (cast<PossiblyDisjointInst>(I)->isDisjoint()) return fin(lin(a) + lin(b)); return bin("or", a, b, true);
      case Instruction::And: return bin("and", a, b, true);
      case Instruction::Xor: if (auto* C = dyn_cast<ConstantInt>(b); C && C->isMinusOne()) return fin(scale(lin(a), -1) - konst(1)); return bin("xor", a, b, true);
      case Instruction::UDiv: return bin("udiv", a, b, false);
      case Instruction::SDiv: return bin("sdiv", a, b, false);
      case Instruction::URem: return bin("urem", a, b, false);
      case Instruction::SRem: return bin("srem", a, b, false);
      case Instruction::LShr:
        if (auto* C = dyn_cast<ConstantInt>(b); C && C->getZExtValue() < 63) return fin(one("udiv" + std::to_string(bits) + "{" + lin(a).str() + "," + konst(1ll << C->getZExtValue()).str() + "}", bits));
        return bin("lshr", a, b, false);
      case Instruction::AShr:
        if (I->isExact()) if (auto* C = dyn_cast<ConstantInt>(b)) { Lin x = lin(a); int64_t d = 1ll << C->getZExtValue(); bool ok = x.c % d == 0; for (auto& kv : x.t) ok &= kv.second % d == 0; if (ok) { for (auto& kv : x.t) kv.second /= d; x.c /= d; return fin(x); }
          return fin(one("sdivx" + std::to_string(bits) + "{" + x.str() + "," + std::to_string(d) + "}", bits)); }
        return bin("ashr", a, b, false);
      case Instruction::ZExt: { Lin x = lin(a); if (x.isConst()) return fin(konst((int64_t)((uint64_t)x.c & ((a->getType()->getIntegerBitWidth() < 64) ? ((1ull << a->getType()->getIntegerBitWidth()) - 1) : ~0ull)))); return fin(one("z" + std::to_string(a->getType()->getIntegerBitWidth()) + x.str(), bits)); }
      case Instruction::SExt: { Lin x = lin(a); if (x.isConst()) return fin(x); return fin(one("s" + std::to_string(a->getType()->getIntegerBitWidth()) + x.str(), bits)); }
      case Instruction::Trunc: {
        if (a->getType()->isIntegerTy(64) && bits == 32) return fin(half(a, false));
        Lin x = lin(a); if (x.isConst()) return fin(x);
        return fin(one("t" + std::to_string(bits) + x.str(), bits));
      }
      case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::Freeze: return fin(lin(a));
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(I);
        const DataLayout& DL = I->getModule()->getDataLayout();
        Lin r = lin(G->getPointerOperand()); r.bits = 64;
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (G->collectOffset(DL, 64, vo, co)) {
          for (auto& kv : vo) { Lin x = lin(kv.first); if (kv.first->getType()->getIntegerBitWidth() < 64) x = one("s" + std::to_string(kv.first->getType()->getIntegerBitWidth()) + x.str(), 64); r = r + scale(x, kv.second.getSExtValue()); }
          r.c += co.getSExtValue();
          return fin(r);
        }
        break;
      }
      case Instruction::Select: {
        return fin(one("sel{" + lin(I->getOperand(0)).str() + "?" + lin(I->getOperand(1)).str() + ":" + lin(I->getOperand(2)).str() + "}", bits));
      }
      case Instruction::ICmp: {
        auto* IC = cast<ICmpInst>(I); auto p = IC->getPredicate();
        std::string x = lin(a).str(), y = lin(b).str();
        if (IC->isEquality() && y < x) std::swap(x, y);
        if (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_SGE) { p = ICmpInst::getSwappedPredicate(p); std::swap(x, y); }
        return fin(one(std::string("cmp-") + CmpInst::getPredicateName(p).str() + "{" + x + "," + y + "}", bits));
      }
      case Instruction::Call: {
        if (auto* II = dyn_cast<IntrinsicInst>(I)) {
          auto id = II->getIntrinsicID();
          const char* n = id == Intrinsic::umin ? "umin" : id == Intrinsic::umax ? "umax" : id == Intrinsic::smin ? "smin" : id == Intrinsic::smax ? "smax" : id == Intrinsic::usub_sat ? "usubsat" : nullptr;
          if (n) return bin(n, I->getOperand(0), I->getOperand(1), id != Intrinsic::usub_sat);
        }
        break;
      }
      case Instruction::PHI: {
        const Value* s = strip(v); if (s != v) return fin(lin(s));
        // a phi all of whose incoming values have one canonical form is that form
        if (depth < 6) {
          auto* P = cast<PHINode>(I); depth++;
          Lin self = one(atom(v), bits); memo[v] = self;   // cycle guard
          std::optional<Lin> u; bool same = true;
          for (auto& in : P->incoming_values()) {
            if (in == P) continue;
            Lin x = lin(in); if (!u) u = x; else if (*u != x) { same = false; break; }
          }
          depth--;
          memo.erase(v);
          if (same && u && u->t.find(atom(v)) == u->t.end()) return fin(*u);
        }
        break;
      }
      case Instruction::ExtractValue: {
        auto* E = cast<ExtractValueInst>(I); std::string s = "ev" + std::to_string(E->getIndices()[0]) + "[" + atom(E->getAggregateOperand()) + "]";
        return fin(one(s, bits));
      }
      default: break;
    }
  }
  return fin(one(atom(v), bits));
}

static CmpInst::Predicate loosen(CmpInst::Predicate p) { return p; }
std::vector<CmpFact> cmpFacts(const std::vector<Fact>& fs, Canon& C) {
  std::vector<CmpFact> out;
  for (auto& f : fs)
    if (auto* I = dyn_cast<ICmpInst>(f.cond)) {
      auto p = I->getPredicate();
      if (!f.val) p = CmpInst::getInversePredicate(p);
      out.push_back({p, C.lin(I->getOperand(0)), C.lin(I->getOperand(1))});
    }
  return out;
}
bool proves(const std::vector<CmpFact>& fs, CmpInst::Predicate p, const Lin& a, const Lin& b) {
  auto match = [&](CmpInst::Predicate q, const Lin& x, const Lin& y) {
    if (!(x == a && y == b)) return false;
    if (p == q) return true;
    // stronger facts imply weaker ones
    if (p == CmpInst::ICMP_UGE && (q == CmpInst::ICMP_UGT || q == CmpInst::ICMP_EQ)) return true;
    if (p == CmpInst::ICMP_ULE && (q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_EQ)) return true;
    if (p == CmpInst::ICMP_SGE && (q == CmpInst::ICMP_SGT || q == CmpInst::ICMP_EQ)) return true;
    if (p == CmpInst::ICMP_SLE && (q == CmpInst::ICMP_SLT || q == CmpInst::ICMP_EQ)) return true;
    if (p == CmpInst::ICMP_NE && (q == CmpInst::ICMP_UGT || q == CmpInst::ICMP_ULT || q == CmpInst::ICMP_SGT || q == CmpInst::ICMP_SLT)) return true;
    return false;
  };
  for (auto& f : fs) {
    if (match(f.p, f.a, f.b) || match(CmpInst::getSwappedPredicate(f.p), f.b, f.a)) return true;
    // x != 0  <=>  x >u 0 ;  x <u 1 <=> x == 0 ; x >u c-1 <=> x >=u c
    if (f.b.isConst()) {
      if (p == CmpInst::ICMP_UGT && f.p == CmpInst::ICMP_NE && f.a == a && b.isConst() && b.c == 0 && f.b.c == 0) return true;
      if (p == CmpInst::ICMP_NE && f.a == a && b.isConst() && b.c == 0 && f.p == CmpInst::ICMP_UGT) return true;
      if (p == CmpInst::ICMP_EQ && f.a == a && b.isConst() && b.c == 0 && f.p == CmpInst::ICMP_ULT && f.b.c == 1) return true;
      if (p == CmpInst::ICMP_UGE && f.a == a && b.isConst() && f.p == CmpInst::ICMP_UGT && f.b.c + 1 >= b.c && f.b.c >= 0) return true;
    }
  }
  if (p == CmpInst::ICMP_EQ && a == b) return true;
  return false;
}
bool hasFact(const std::vector<Fact>& fs, const Value* v, bool val) {
  for (auto& f : fs) if (f.cond == v && f.val == val) return true;
  return false;
}
const AtomicCmpXchgInst* casSuccess(const Fact& f) {
  if (auto* E = dyn_cast<ExtractValueInst>(f.cond)) {
    if (E->getIndices().size() == 1 && E->getIndices()[0] == 1 && f.val)
      return dyn_cast<AtomicCmpXchgInst>(E->getAggregateOperand());
  }
  if (auto* I = dyn_cast<ICmpInst>(f.cond)) {  // old == expected form
    auto p = f.val ? I->getPredicate() : I->getInversePredicate();
    if (p == CmpInst::ICMP_EQ)
      for (int k = 0; k < 2; k++)
        if (auto* E = dyn_cast<ExtractValueInst>(I->getOperand(k)))
          if (auto* X = dyn_cast<AtomicCmpXchgInst>(E->getAggregateOperand()))
            if (E->getIndices()[0] == 0 && I->getOperand(1 - k) == X->getCompareOperand()) return X;
  }
  return nullptr;
}
std::vector<Fact> edgeFacts(const BasicBlock* a, const BasicBlock* b) {
  std::vector<Fact> out;
  if (auto* br = dyn_cast<BranchInst>(a->getTerminator()); br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1))
    splitFact(br->getCondition(), br->getSuccessor(0) == b, br, out);
  if (auto* sw = dyn_cast<SwitchInst>(a->getTerminator()); sw && sw->getCondition()->getType()->isIntegerTy(1)) {
    std::set<int> v; for (int k = 0; k < 2; k++) if (sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), k))->getCaseSuccessor() == b) v.insert(k);
    if (v.size() == 1) splitFact(sw->getCondition(), *v.begin() == 1, nullptr, out);
    if (v.empty()) { splitFact(sw->getCondition(), true, nullptr, out); splitFact(sw->getCondition(), false, nullptr, out); }   // unreachable default
  }
  return out;
}

// the same, with disjunctive conditions (a && b not taken, a || b taken) split into cases
std::vector<std::vector<Fact>> edgeCases(const BasicBlock* a, const BasicBlock* b) {
  std::vector<std::vector<Fact>> out{edgeFacts(a, b)};
  for (int round = 0; round < 6; round++) {
    bool ch = false; std::vector<std::vector<Fact>> nx;
    for (auto& fs : out) {
      size_t k = 0; const Value *p = nullptr, *q = nullptr;
      for (; k < fs.size() && out.size() < 8; k++) {
        auto* I = dyn_cast<Instruction>(fs[k].cond); if (!I || !I->getType()->isIntegerTy(1)) continue;
        if (I->getOpcode() == Instruction::And && !fs[k].val) { p = I->getOperand(0); q = I->getOperand(1); break; }
        if (I->getOpcode() == Instruction::Or && fs[k].val) { p = I->getOperand(0); q = I->getOperand(1); break; }
        if (auto* S = dyn_cast<SelectInst>(I)) {
          if (auto* C = dyn_cast<ConstantInt>(S->getFalseValue()); C && C->isZero() && !fs[k].val) { p = S->getCondition(); q = S->getTrueValue(); break; }
          if (auto* C = dyn_cast<ConstantInt>(S->getTrueValue()); C && C->isOne() && fs[k].val) { p = S->getCondition(); q = S->getFalseValue(); break; }
        }
      }
      if (!p) { nx.push_back(fs); continue; }
      ch = true; Fact f = fs[k];
      std::vector<Fact> x(fs), y(fs); x.erase(x.begin() + k); y.erase(y.begin() + k);
      splitFact(p, f.val, f.br, x); splitFact(p, !f.val, f.br, y); splitFact(q, f.val, f.br, y);
      nx.push_back(x); nx.push_back(y);
    }
    out = nx; if (!ch) break;
  }
  return out;
}

std::map<std::string, RuleFn>& rules() { static std::map<std::string, RuleFn> r; return r; }
RuleReg::RuleReg(const char* name, RuleFn f) { rules()[name] = f; }

}  // namespace plint

using namespace plint;
int main(int argc, char** argv) {
  if (argc < 3) { errs() << "usage: plint <rule> <bitcode>\n"; return 3; }
  auto it = rules().find(argv[1]);
  if (it == rules().end()) { errs() << "no rule " << argv[1] << "\n"; return 3; }
  LLVMContext C; SMDiagnostic D;
  auto M = parseIRFile(argv[2], D, C);
  if (!M) { D.print("plint", errs()); return 3; }
  Report R;
  it->second(*M, R);
  if (getenv("PLINT_DUMP")) M->print(errs(), nullptr);
  json::Object o; json::Array ob, br, fn; json::Object ct;
  for (auto& x : R.obl) ob.push_back(json::Object{{"rule", x.rule}, {"where", x.where}, {"ok", x.ok}, {"msg", x.msg}});
  for (auto& b : R.broken) br.push_back(b);
  for (auto& f : R.functions) fn.push_back(f);
  for (auto& [k, v] : R.counts) ct[k] = (int64_t)v;
  json::Array un; for (auto& u : R.undecided) un.push_back(u); o["undecided"] = std::move(un);
  o["obligations"] = std::move(ob); o["broken"] = std::move(br); o["functions"] = std::move(fn); o["counts"] = std::move(ct);
  outs() << json::Value(std::move(o)) << "\n";
  return 0;
}
