// Field-level helpers: member offsets from debug info, and addresses as (root, constant offset).
#pragma once
#include "core.h"
#include "llvm/IR/Operator.h"
namespace plint {
// byte offset of a (possibly nested, "a.b") member of the first class whose name starts with cls; -1 if absent
int64_t memberOffset(Module& M, const std::string& cls, const std::string& member);
const DICompositeType* findClass(Module& M, const std::string& clsPrefix);
struct Loc { const Value* root = nullptr; int64_t off = 0; bool exact = true; bool tls = false; 
  bool operator==(const Loc& o) const { return root == o.root && off == o.off && exact == o.exact; }
  bool operator<(const Loc& o) const { return std::tie(root, off, exact) < std::tie(o.root, o.off, o.exact); } };
// root + constant offset (exact=false when a variable index was crossed)
Loc locOf(const DataLayout& DL, const Value* p);
const GlobalVariable* tlsOf(const Value* p);   // the thread-local variable an address is based on
}
