#include "llvm/BinaryFormat/Dwarf.h"
#include "mem.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/IntrinsicInst.h"
namespace plint {
const DICompositeType* findClass(Module& M, const std::string& cls) {
  DebugInfoFinder f; f.processModule(M);
  const DICompositeType* best = nullptr;
  for (auto* t : f.types()) if (auto* c = dyn_cast<DICompositeType>(t))
    if (c->getName().starts_with(cls) && !c->isForwardDecl() && (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type)) { if (c->getName() == cls) { if (!best || best->getName() != cls) best = c; } else if (!best) best = c; }
  return best;
}
static const DIType* peel(const DIType* t) {
  while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type || d->getTag() == dwarf::DW_TAG_member) break; t = d->getBaseType(); }
  return t;
}
static int64_t memberIn(const DICompositeType* c, const std::string& member, int depth = 0) {
  if (!c || depth > 5) return -1;
  std::string head = member, tail; auto p = member.find('.'); if (p != std::string::npos) { head = member.substr(0, p); tail = member.substr(p + 1); }
  for (auto* e : c->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) {
    if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember() && d->getName() == head) {
      if (tail.empty()) return d->getOffsetInBits() / 8;
      int64_t r = memberIn(dyn_cast_or_null<DICompositeType>(peel(d->getBaseType())), tail, depth + 1);
      return r < 0 ? r : r + (int64_t)d->getOffsetInBits() / 8;
    }
    if (d->getTag() == dwarf::DW_TAG_inheritance) {
      int64_t r = memberIn(dyn_cast_or_null<DICompositeType>(peel(d->getBaseType())), member, depth + 1);
      if (r >= 0) return r + (int64_t)d->getOffsetInBits() / 8;
    }
  }
  return -1;
}
int64_t memberOffset(Module& M, const std::string& cls, const std::string& member) { return memberIn(findClass(M, cls), member); }
Loc locOf(const DataLayout& DL, const Value* p) {
  Loc l;
  for (int i = 0; i < 40; i++) {
    p = strip(p->stripPointerCasts());
    if (auto* G = dyn_cast<GEPOperator>(p)) {
      APInt o(64, 0);
      if (G->accumulateConstantOffset(DL, o)) l.off += o.getSExtValue(); else l.exact = false;
      p = G->getPointerOperand(); continue;
    }
    if (auto* cb = dyn_cast<CallBase>(p)) if (auto* F = cb->getCalledFunction()) if (F->getIntrinsicID() == Intrinsic::threadlocal_address) { p = cb->getArgOperand(0); l.tls = true; continue; }
    break;
  }
  l.root = p;
  if (auto* G = dyn_cast<GlobalVariable>(p)) if (G->isThreadLocal()) l.tls = true;
  return l;
}
const GlobalVariable* tlsOf(const Value* p) {
  while (true) {
    p = strip(p->stripPointerCasts());
    if (auto* G = dyn_cast<GEPOperator>(p)) { p = G->getPointerOperand(); continue; }
    if (auto* cb = dyn_cast<CallBase>(p)) if (auto* F = cb->getCalledFunction()) if (F->getIntrinsicID() == Intrinsic::threadlocal_address) { p = cb->getArgOperand(0); continue; }
    break;
  }
  auto* G = dyn_cast<GlobalVariable>(p); return G && G->isThreadLocal() ? G : nullptr;
}
}
