#include "poly.h"
#include <unordered_set>
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/MapVector.h"
#include <numeric>
#include <algorithm>
using namespace plint;
namespace plint {
Poly operator+(const Poly& x, const Poly& y) { Poly r = x; for (auto& kv : y.t) { auto& c = r.t[kv.first]; c += kv.second; if (!c) r.t.erase(kv.first); } return r; }
Poly scale(const Poly& x, int64_t k) { Poly r; if (k) for (auto& kv : x.t) r.t[kv.first] = kv.second * k; return r; }
Poly operator-(const Poly& x, const Poly& y) { return x + scale(y, -1); }
Poly operator*(const Poly& x, const Poly& y) {
  Poly r;
  for (auto& a : x.t) for (auto& b : y.t) {
    std::vector<int> m = a.first; m.insert(m.end(), b.first.begin(), b.first.end()); std::sort(m.begin(), m.end());
    auto& c = r.t[m]; c += a.second * b.second; if (!c) r.t.erase(m);
  }
  return r;
}
int Atoms::get(const std::string& n, const A& proto) {
  auto it = byName.find(n); if (it != byName.end()) return it->second;
  a.push_back(proto); a.back().name = n; return byName[n] = (int)a.size() - 1;
}
std::string Atoms::str(const Poly& p) const {
  if (p.t.empty()) return "0";
  std::string s;
  for (auto& kv : p.t) {
    int64_t c = kv.second;
    if (!s.empty()) s += c < 0 ? " - " : " + "; else if (c < 0) s += "-";
    int64_t ac = c < 0 ? -c : c;
    if (kv.first.empty()) { s += std::to_string(ac); continue; }
    if (ac != 1) s += std::to_string(ac) + "*";
    for (size_t i = 0; i < kv.first.size(); i++) s += (i ? "*" : "") + a[kv.first[i]].name;
  }
  return s;
}
static std::string vname(const Value* v) {
  if (v->hasName() && !isa<Instruction>(v)) return v->getName().str();
  if (auto* A = dyn_cast<Argument>(v)) return "arg" + std::to_string(A->getArgNo());
  if (auto* I = dyn_cast<Instruction>(v)) {
    char buf[32]; snprintf(buf, 32, "%p", (void*)v);
    std::string w = where(I); auto p = w.find(" ("); if (p != std::string::npos) w = w.substr(0, p); p = w.rfind('/'); if (p != std::string::npos) w = w.substr(p + 1);
    return std::string(I->getOpcodeName()) + "@" + w + "#" + std::string(buf + 6);
  }
  char buf[32]; snprintf(buf, 32, "%p", (void*)v); return buf;
}
// every coefficient and every atom is non-negative
bool Arith::synNonneg(const Poly& x, int d) {
  for (auto& kv : x.t) {
    if (kv.second < 0) return false;
    for (int a : kv.first) {
      Atoms::A& q = at.a[a];
      if (q.kind == 'm') { if (d > 3 || !synNonneg(Poly(q.x), d + 1) || !synNonneg(Poly(q.y), d + 1)) return false; }
      else if (q.kind == 'M') { if (d > 3 || (!synNonneg(Poly(q.x), d + 1) && !synNonneg(Poly(q.y), d + 1))) return false; }
      else if (!q.nonneg) return false;
    }
  }
  return true;
}
Poly Arith::mn(const Poly& a, const Poly& b) {
  if (a == b) return a;
  if (a.isConst() && b.isConst()) return a.k() < b.k() ? a : b;
  if (synNonneg(b - a)) return a; if (synNonneg(a - b)) return b;
  Poly x = a, y = b; if (y < x) std::swap(x, y);
  Atoms::A p; p.kind = 'm'; p.x = x; p.y = y; return Poly::a(at.get("min(" + at.str(x) + "," + at.str(y) + ")", p));
}
Poly Arith::mx(const Poly& a, const Poly& b) {
  if (a == b) return a;
  if (a.isConst() && b.isConst()) return a.k() > b.k() ? a : b;
  if (synNonneg(b - a)) return b; if (synNonneg(a - b)) return a;
  Poly x = a, y = b; if (y < x) std::swap(x, y);
  Atoms::A p; p.kind = 'M'; p.x = x; p.y = y; return Poly::a(at.get("max(" + at.str(x) + "," + at.str(y) + ")", p));
}
Poly Arith::dv(const Poly& a, const Poly& b) {
  if (b.isConst() && b.k() == 1) return a;
  if (a.isConst() && b.isConst() && b.k() > 0 && a.k() >= 0) return Poly::c(a.k() / b.k());
  Atoms::A p; p.kind = 'd'; p.x = a; p.y = b; p.nonneg = synNonneg(a) && synNonneg(b); return Poly::a(at.get("div(" + at.str(a) + "," + at.str(b) + ")", p));
}
Poly Arith::pf(const std::string& key, const Poly& x) {
  if (x.isConst() && x.k() <= 0) return Poly();
  Atoms::A p; p.kind = 'p'; p.x = x; p.key = key; return Poly::a(at.get(key + "#(" + at.str(x) + ")", p));
}
bool Arith::mentions(const Poly& p, const std::function<bool(int)>& pred) {
  std::set<int> in; bool hit = false;
  std::function<void(const Poly&)> col = [&](const Poly& q) { for (auto& t : q.t) for (int x : t.first) if (in.insert(x).second) { if (pred(x)) hit = true; Poly a = at.a[x].x, b = at.a[x].y; col(a); col(b); } };
  col(p); return hit;
}
Poly Arith::code(const std::string& key, const Poly& x) { Atoms::A p; p.kind = 'c'; p.key = key; p.x = x; p.nonneg = key.compare(0, 3, "low") != 0; return Poly::a(at.get("code:" + key + "(" + at.str(x) + ")", p)); }
std::optional<Poly> Arith::express(const Sys& s, Poly p, const std::function<bool(int)>& allowed) {
  auto isLeaf = [&](int id) { char k = at.a[id].kind; return k == 'v' || k == 'r'; };
  auto badLeaf = [&](int id) { return isLeaf(id) && !allowed(id); };
  std::set<Poly> all(s.ge.begin(), s.ge.end());
  std::vector<Poly> eqs; for (auto& q : all) if (!q.isConst() && all.count(scale(q, -1))) eqs.push_back(q);
  std::set<int> gone;
  for (int it = 0; it < 40; it++) {
    int id = -1; mentions(p, [&](int x) { if (id < 0 && badLeaf(x)) id = x; return false; });
    if (id < 0) return p;
    if (!gone.insert(id).second) return std::nullopt;
    bool have = false; Poly best; int bestBad = 1 << 30;
    for (auto& e : eqs) {
      auto k = e.t.find({id}); if (k == e.t.end() || (k->second != 1 && k->second != -1)) continue;
      Poly rest = e - scale(Poly::a(id), k->second); if (k->second == 1) rest = scale(rest, -1);
      if (mentions(rest, [&](int x) { return x == id || gone.count(x); })) continue;
      int bad = 0; mentions(rest, [&](int x) { if (badLeaf(x)) bad++; return false; });
      if (!have || bad < bestBad) { have = true; best = rest; bestBad = bad; }
    }
    if (!have) return std::nullopt;
    p = subst(p, {{id, best}});
  }
  return std::nullopt;
}
Poly Arith::fresh(const std::string& h, bool nn) { Atoms::A p; p.nonneg = nn; return Poly::a(at.get(h + "'" + std::to_string(freshN++), p)); }
Poly Arith::subst(const Poly& p, const std::map<int, Poly>& m) {
  Poly r;
  for (auto& kv : p.t) {
    Poly q = Poly::c(kv.second);
    for (int id : kv.first) {
      auto it = m.find(id);
      if (it != m.end()) { q = q * it->second; continue; }
      Atoms::A A = at.a[id];
      if (A.kind == 'p') { q = q * pf(A.key, subst(A.x, m)); continue; }
      if (A.kind == 'c') { q = q * code(A.key, subst(A.x, m)); continue; }
      if (A.name.compare(0, 5, "exdiv") == 0) {
        Poly x = subst(A.x, m); int64_t k = A.y.k(); bool ok = true; for (auto& kv : x.t) ok &= kv.second % k == 0;
        if (ok) { for (auto& kv : x.t) kv.second /= k; q = q * x; continue; }
        Atoms::A p; p.kind = 'd'; p.x = x; p.y = A.y; p.nonneg = false; q = q * Poly::a(at.get("exdiv(" + at.str(x) + "," + std::to_string(k) + ")", p)); continue;
      }
      if (A.kind == 'm' || A.kind == 'M' || A.kind == 'd') {
        Poly x = subst(A.x, m), y = subst(A.y, m);
        q = q * (A.kind == 'm' ? mn(x, y) : A.kind == 'M' ? mx(x, y) : dv(x, y));
      } else q = q * Poly::a(id);
    }
    r = r + q;
  }
  return r;
}
Poly Arith::low(const Poly& x, int bits) {
  if (!narrow) return x;
  if (x.isConst() && x.k() >= 0 && x.k() < (1ll << 31)) return x;
  return code("low" + std::to_string(bits), x);
}
// 32-bit unsigned counting that may go past 2^32
static bool mayWrap32(const Value* v) {
  std::vector<const Value*> w{v}; std::set<const Value*> seen;
  while (!w.empty() && seen.size() < 64) {
    auto* x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue;
    if (auto* P = dyn_cast<PHINode>(x)) for (auto& in : P->incoming_values()) w.push_back(in);
    else if (auto* S = dyn_cast<SelectInst>(x)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
    else if (auto* B = dyn_cast<BinaryOperator>(x); B && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::Shl)) {
      if (!B->hasNoUnsignedWrap() && !B->hasNoSignedWrap()) return true;
      w.push_back(B->getOperand(0));
    }
  }
  return false;
}
Poly Arith::of(const Value* v, int d) {
  auto it = memo.find(v); if (it != memo.end()) return it->second;
  if (hook) if (auto h = hook(v)) return memo[v] = *h;
  auto opaque = [&]() { Atoms::A p; p.v = v; return memo[v] = Poly::a(at.get(vname(v), p)); };
  if (auto* C = dyn_cast<ConstantInt>(v)) { if (C->getBitWidth() <= 64) return memo[v] = Poly::c(C->getBitWidth() == 1 ? C->getZExtValue() : C->getSExtValue()); return opaque(); }
  if (isa<ConstantPointerNull>(v)) return memo[v] = Poly();
  if (d > 60) return opaque();
  auto* G = dyn_cast<GEPOperator>(v);
  if (G && DL) {
    MapVector<Value*, APInt> vo; APInt co(64, 0);
    if (G->collectOffset(*DL, 64, vo, co)) {
      Poly r = of(G->getPointerOperand(), d + 1);
      for (auto& kv : vo) r = r + scale(of(kv.first, d + 1), kv.second.getSExtValue());
      return memo[v] = r + Poly::c(co.getSExtValue());
    }
    return opaque();
  }
  auto* I = dyn_cast<Instruction>(v);
  if (!I) return opaque();
  auto op = [&](unsigned i) { return of(I->getOperand(i), d + 1); };
  switch (I->getOpcode()) {
    case Instruction::Add: return memo[v] = op(0) + op(1);
    case Instruction::Sub: return memo[v] = op(0) - op(1);
    case Instruction::Mul: return memo[v] = op(0) * op(1);
    case Instruction::Or: if (cast<PossiblyDisjointInst>(I)->isDisjoint()) return memo[v] = op(0) + op(1); break;
    case Instruction::Shl: if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getZExtValue() < 62) return memo[v] = scale(op(0), 1ll << C->getZExtValue()); break;
    case Instruction::Xor: if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->isMinusOne() && C->getBitWidth() >= 32) return memo[v] = Poly::c(-1) - op(0); break;
    case Instruction::UDiv: return memo[v] = dv(op(0), op(1));
    case Instruction::LShr: if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1)); C && C->getZExtValue() < 62) return memo[v] = dv(op(0), Poly::c(1ll << C->getZExtValue())); break;
    case Instruction::SDiv: case Instruction::AShr: {
      int64_t k = 0;
      if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1))) k = I->getOpcode() == Instruction::SDiv ? C->getSExtValue() : 1ll << C->getZExtValue();
      if (auto* Sh = dyn_cast<BinaryOperator>(I->getOperand(0)); k > (1 << 15) && I->getOpcode() == Instruction::AShr && Sh && Sh->getOpcode() == Instruction::Shl && Sh->getOperand(1) == I->getOperand(1) && !Sh->hasNoSignedWrap())
        return memo[v] = low(of(Sh->getOperand(0), d + 1), 64 - cast<ConstantInt>(I->getOperand(1))->getZExtValue());
      if (k > 0 && I->isExact()) { Poly x = op(0); bool ok = true; for (auto& kv : x.t) ok &= kv.second % k == 0; if (ok) { for (auto& kv : x.t) kv.second /= k; return memo[v] = x; } 
        Atoms::A p; p.kind = 'd'; p.x = x; p.y = Poly::c(k); p.nonneg = false; return memo[v] = Poly::a(at.get("exdiv(" + at.str(x) + "," + std::to_string(k) + ")", p)); }
      if (k > 0) return memo[v] = dv(op(0), Poly::c(k));
      break;
    }
    case Instruction::URem: case Instruction::SRem: { Poly x = op(0), y = op(1); return memo[v] = x - y * dv(x, y); }
    case Instruction::And: if (auto* C = dyn_cast<ConstantInt>(I->getOperand(1))) { if (C->getValue().isMask()) { Poly x = op(0); int64_t m = C->getValue().countr_one(); if (m < 62) return memo[v] = x - scale(dv(x, Poly::c(1ll << m)), 1ll << m); } } break;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Freeze: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (I->getOperand(0)->getType()->isIntegerTy(1)) break;
      if (isa<ZExtInst>(I) && I->getOperand(0)->getType()->isIntegerTy(32) && mayWrap32(I->getOperand(0))) return memo[v] = low(op(0), 32);
      return memo[v] = op(0);
    case Instruction::Trunc:   // the low bits of a position are not the position
      if (I->getType()->getIntegerBitWidth() >= 32) return memo[v] = I->getType()->isIntegerTy(48) ? op(0) : low(op(0), I->getType()->getIntegerBitWidth());
      break;
    case Instruction::Call:
      if (auto* II = dyn_cast<IntrinsicInst>(I)) {
        auto id = II->getIntrinsicID();
        if (id == Intrinsic::umin || id == Intrinsic::smin) return memo[v] = mn(op(0), op(1));
        if (id == Intrinsic::umax || id == Intrinsic::smax) return memo[v] = mx(op(0), op(1));
        if (id == Intrinsic::usub_sat) { Poly x = op(0), y = op(1); return memo[v] = mx(x, y) - y; }
      }
      break;
    case Instruction::Select: {
      if (!I->getType()->isIntegerTy() && !I->getType()->isPointerTy()) break;
      auto* IC = dyn_cast<ICmpInst>(I->getOperand(0));
      if (IC && !IC->isEquality() && I->getOperand(1)->getType()->isIntegerTy() && IC->getOperand(0)->getType()->isIntegerTy()) {
        Poly a = of(IC->getOperand(0), d + 1), b = of(IC->getOperand(1), d + 1), x = op(1), y = op(2);
        auto p = IC->getPredicate();
        if (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_SGE) std::swap(a, b);  // a < b ? x : y
        if (x == a && y == b) return memo[v] = mn(a, b);
        if (x == b && y == a) return memo[v] = mx(a, b);
        // (a<b ? a+k : b+k)
        if (x - a == y - b) return memo[v] = mn(a, b) + (x - a);
        if (x - b == y - a) return memo[v] = mx(a, b) + (x - b);
      }
      break;
    }
    case Instruction::PHI: { const Value* s = strip(v); if (s != v) return memo[v] = of(s, d + 1); break; }
    default: break;
  }
  return opaque();
}
Poly Arith::reduced(Poly p, bool exact) {   // divided by the common factor of its coefficients
  int64_t g = 0; for (auto& t : p.t) if (!t.first.empty()) g = std::gcd(g, t.second);
  int64_t k = p.k(); if (g <= 1 || (exact && k % g)) return p;
  for (auto& t : p.t) if (!t.first.empty()) t.second /= g;
  p.t.erase(std::vector<int>{}); int64_t q = k >= 0 ? k / g : -((-k + g - 1) / g); if (q) p.t[{}] = q;
  return p;
}
bool Arith::cmp(const Value* cond, bool val, std::vector<Poly>& ge, std::vector<Poly>* ne) {
  std::vector<Poly> g0, n0;
  if (!cmp0(cond, val, g0, &n0)) return false;
  for (auto& p : g0) ge.push_back(reduced(p, false));
  if (ne) for (auto& p : n0) ne->push_back(reduced(p, true));
  return true;
}
bool Arith::cmp0(const Value* cond, bool val, std::vector<Poly>& ge, std::vector<Poly>* ne) {
  auto* IC = dyn_cast<ICmpInst>(cond);
  if (!IC || !(IC->getOperand(0)->getType()->isIntegerTy() || IC->getOperand(0)->getType()->isPointerTy())) return false;
  if (IC->getOperand(0)->getType()->isIntegerTy(1)) return false;
  auto p = val ? IC->getPredicate() : IC->getInversePredicate();
  Poly a = of(IC->getOperand(0)), b = of(IC->getOperand(1));
  switch (p) {
    case ICmpInst::ICMP_EQ: ge.push_back(a - b); ge.push_back(b - a); return true;
    case ICmpInst::ICMP_NE: if (ne) ne->push_back(a - b); return true;
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: ge.push_back(b - a - Poly::c(1)); return true;
    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: ge.push_back(b - a); return true;
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: ge.push_back(a - b - Poly::c(1)); return true;
    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: ge.push_back(a - b); return true;
    default: return false;
  }
}
// ---------------------------------------------------------------- Fourier-Motzkin
namespace {
struct Row { std::vector<i128> c; };   // c[0..n-1] coefs, c[n] const : sum >= 0
void tighten(Row& r) {
  i128 g = 0; size_t n = r.c.size() - 1;
  for (size_t i = 0; i < n; i++) { i128 a = r.c[i] < 0 ? -r.c[i] : r.c[i]; while (a) { i128 b = g % a; g = a; a = b; } }
  if (g > 1) { for (size_t i = 0; i < n; i++) r.c[i] /= g; i128 k = r.c[n]; r.c[n] = k >= 0 ? k / g : -((-k + g - 1) / g); }
}
// -1: trivially false row found
bool fm(std::vector<Row> rows, size_t n, long& budget) {   // true = unsat
  std::set<std::vector<i128>> seen;
  auto norm = [&](std::vector<Row>& rs) -> bool {
    std::map<std::vector<i128>, i128> best;
    for (auto& r : rs) {
      tighten(r);
      bool zero = true; for (size_t i = 0; i < n; i++) if (r.c[i]) { zero = false; break; }
      if (zero) { if (r.c[n] < 0) return true; continue; }
      std::vector<i128> k(r.c.begin(), r.c.begin() + n);
      auto it = best.find(k); if (it == best.end()) best[k] = r.c[n]; else if (r.c[n] < it->second) it->second = r.c[n];
    }
    rs.clear();
    for (auto& kv : best) { Row r; r.c = kv.first; r.c.push_back(kv.second); rs.push_back(r); }
    // opposite pair check: k.x + c >= 0 and -k.x + c' >= 0 with c + c' < 0
    for (auto& kv : best) { std::vector<i128> m = kv.first; for (auto& x : m) x = -x; auto it = best.find(m); if (it != best.end() && kv.second + it->second < 0) return true; }
    return false;
  };
  if (norm(rows)) return true;
  std::vector<bool> done(n, false);
  // eliminate variables fixed by equalities (opposite pairs) by substitution
  for (bool ch = true; ch;) {
    ch = false;
    std::map<std::vector<i128>, size_t> idx;
    for (size_t k = 0; k < rows.size(); k++) idx[rows[k].c] = k;
    for (size_t k = 0; k < rows.size() && !ch; k++) {
      std::vector<i128> m = rows[k].c; for (auto& x : m) x = -x;
      if (!idx.count(m)) continue;
      size_t bv = n; for (size_t v = 0; v < n; v++) if (rows[k].c[v] == 1 || rows[k].c[v] == -1) { bv = v; break; }
      if (bv == n) continue;
      Row e = rows[k]; if (e.c[bv] > 0) for (auto& x : e.c) x = -x;   // -x + rest = 0  =>  x = rest
      std::vector<Row> out;
      for (auto& r : rows) {
        i128 f = r.c[bv];
        if (f) { bool big = false; for (size_t i = 0; i <= n; i++) { r.c[i] += f * e.c[i]; i128 x = r.c[i] < 0 ? -r.c[i] : r.c[i]; if (x > ((i128)1 << 100)) big = true; } if (big) continue; }
        out.push_back(r);
      }
      rows = out; done[bv] = true; ch = true;
      if (norm(rows)) return true;
    }
  }
  for (size_t step = 0; step < n; step++) {
    // pick variable with the smallest product
    long bestCost = -1; size_t bv = n;
    for (size_t v = 0; v < n; v++) if (!done[v]) {
      long p = 0, q = 0; for (auto& r : rows) { if (r.c[v] > 0) p++; else if (r.c[v] < 0) q++; }
      long cost = p * q - p - q;
      if (bv == n || cost < bestCost) { bestCost = cost; bv = v; }
    }
    if (bv == n) break;
    done[bv] = true;
    std::vector<Row> P, Q, Z;
    for (auto& r : rows) (r.c[bv] > 0 ? P : r.c[bv] < 0 ? Q : Z).push_back(r);
    if (P.size() * Q.size() > 4000) return false;
    budget -= (long)(P.size() * Q.size());
    if (budget < 0) return false;
    for (auto& p : P) for (auto& q : Q) {
      i128 a = p.c[bv], b = -q.c[bv]; Row r; r.c.resize(n + 1); bool big = false;
      for (size_t i = 0; i <= n; i++) { r.c[i] = p.c[i] * b + q.c[i] * a; i128 x = r.c[i] < 0 ? -r.c[i] : r.c[i]; if (x > ((i128)1 << 100)) big = true; }
      if (!big) Z.push_back(r);
    }
    rows = Z;
    if (norm(rows)) return true;
  }
  return false;
}
}  // namespace
static uint64_t hashSys(const Sys& s, int salt) {
  uint64_t sum = 0x9e3779b97f4a7c15ull * (salt + 1);
  std::set<Poly> u(s.ge.begin(), s.ge.end());
  for (auto& p : u) { uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; };
    for (auto& kv : p.t) { mix(kv.first.size()); for (int x : kv.first) mix((uint64_t)x * 2654435761u + 17); mix((uint64_t)kv.second); }
    sum = (sum ^ h) * 0xff51afd7ed558ccdull + 0x2545f4914f6cdd1dull; sum ^= sum >> 29; }
  return sum;
}
const std::vector<bool>& Arith::deps(int id) {
  if ((int)depsC.size() <= id) depsC.resize(at.a.size() + 64);
  if (depsC[id].empty()) {
    std::vector<bool> d(id + 1, false); d[id] = true;
    for (int w = 0; w < 2; w++) { Poly q = w ? at.a[id].y : at.a[id].x; for (auto& t : q.t) for (int x : t.first) { std::vector<bool> e = deps(x); if (e.size() > d.size()) d.resize(e.size(), false); for (size_t i = 0; i < e.size(); i++) if (e[i]) d[i] = true; } }
    if ((int)depsC.size() <= id) depsC.resize(at.a.size() + 64);
    depsC[id] = d;
  }
  return depsC[id];
}
bool Arith::has(const Poly& p, int id) {
  for (auto& t : p.t) for (int x : t.first) { if (x == id) return true; char k = at.a[x].kind; if (k == 'v' || k == 'r') continue; auto& d = deps(x); if ((int)d.size() > id && d[id]) return true; }
  return false;
}
uint64_t Arith::polyHash(const Poly& p) {
  uint64_t h = 0;
  for (auto& t : p.t) { uint64_t m = 0x9e3779b97f4a7c15ull; for (int x : t.first) { m ^= (uint64_t)x + 0x9e3779b97f4a7c15ull + (m << 6) + (m >> 2); m *= 0xff51afd7ed558ccdull; m ^= m >> 33; } h += (uint64_t)t.second * m; }
  return h;
}
bool Arith::unsat(Sys s, int depth) {
  uint64_t h = hashSys(s, depth * 2 + noPairs);
  auto it = memoU.find(h); if (it != memoU.end()) return it->second;
  bool r = unsat2(std::move(s), depth);
  return memoU[h] = r;
}
bool Arith::unsat2(Sys s, int depth) {
  queries++;
  // substitute away plain atoms defined by an equality, so that products and divisions line up
  std::vector<uint64_t> hs; for (auto& p : s.ge) hs.push_back(polyHash(p));
  for (int it = 0; it < 200; it++) {
    std::unordered_set<uint64_t> all(hs.begin(), hs.end());
    int id = -1; Poly def;
    for (size_t i = 0; i < s.ge.size() && id < 0; i++) {
      auto& p = s.ge[i];
      if (p.isConst() || !all.count(0 - hs[i])) continue;
      for (auto& kv : p.t) if (kv.first.size() == 1 && (kv.second == 1 || kv.second == -1)) {
        int a = kv.first[0]; char k = at.a[a].kind; if (k != 'v' && k != 'r' && k != 'm' && k != 'M') continue;
        Poly rest = p - scale(Poly::a(a), kv.second); if (kv.second == 1) rest = scale(rest, -1);
        if (has(rest, a)) continue;
        if ((k == 'm' || k == 'M') && rest != at.a[a].x && rest != at.a[a].y) continue;
        id = a; def = rest; break;
      }
    }
    if (id < 0) break;
    std::map<int, Poly> m{{id, def}};
    char kd = at.a[id].kind; bool nn = at.a[id].nonneg && kd != 'm' && kd != 'M';
    std::vector<Poly> g; std::vector<uint64_t> gh; std::unordered_set<uint64_t> seen;
    auto put = [&](const Poly& q, uint64_t h) { if (seen.insert(h).second) { g.push_back(q); gh.push_back(h); } };
    for (size_t i = 0; i < s.ge.size(); i++) {
      auto& p = s.ge[i];
      if (!has(p, id)) { if (p.isConst()) { if (p.k() < 0) return true; continue; } put(p, hs[i]); continue; }
      Poly q = subst(p, m); if (q.isConst()) { if (q.k() < 0) return true; continue; } put(q, polyHash(q));
    }
    auto put1 = [&](const Poly& q) { put(q, polyHash(q)); };
    if (nn) put1(def);
    if (kd == 'm') { Poly x = at.a[id].x, y = at.a[id].y; put1(x - def); put1(y - def); }
    if (kd == 'M') { Poly x = at.a[id].x, y = at.a[id].y; put1(def - x); put1(def - y); }
    s.ge.swap(g); hs.swap(gh);
  }
  // independent groups of facts are decided separately
  {
    std::map<int, int> uf; std::map<std::string, int> fam;
    std::function<int(int)> find = [&](int x) { auto it = uf.find(x); if (it == uf.end()) { uf[x] = x; return x; } if (it->second == x) return x; int r = find(it->second); uf[x] = r; return r; };
    std::set<int> seen;
    std::function<void(int)> nest = [&](int id) {
      if (!seen.insert(id).second) return; find(id);
      auto& A = at.a[id]; if (A.kind == 'p') { std::string key = A.key.substr(0, A.key.find('=')); auto f = fam.find(key); if (f == fam.end()) fam[key] = id; else uf[find(id)] = find(f->second); }
      auto args = {at.a[id].x, at.a[id].y};
      for (auto& q : args) for (auto& t : q.t) for (int x : t.first) { nest(x); uf[find(x)] = find(id); }
    };
    std::vector<int> rep(s.ge.size(), -1);
    for (size_t i = 0; i < s.ge.size(); i++) for (auto& t : s.ge[i].t) for (int x : t.first) { nest(x); if (rep[i] >= 0) uf[find(x)] = find(rep[i]); rep[i] = find(x); }
    std::map<int, Sys> groups;
    for (size_t i = 0; i < s.ge.size(); i++) { if (rep[i] < 0) { if (s.ge[i].k() < 0) return true; continue; } groups[find(rep[i])].ge.push_back(s.ge[i]); }
    if (groups.size() > 1) { for (auto& g : groups) if (unsat(g.second, depth)) return true; return false; }
  }
  // close under axioms of atoms occurring
  std::set<int> atoms; 
  auto collect = [&](const Poly& p) { for (auto& kv : p.t) for (int id : kv.first) atoms.insert(id); };
  for (auto& p : s.ge) collect(p);
  std::set<int> doneA;
  int splitAtom = -1;
  std::vector<Poly> ax; std::set<int> nnHere;
  for (bool ch = true; ch;) {
    ch = false;
    auto cur = atoms;
    for (int id : cur) if (doneA.insert(id).second) {
      ch = true;
      Atoms::A A = at.a[id]; Poly me = Poly::a(id);
      if (A.kind == 'm') { collect(A.x); collect(A.y); ax.push_back(A.x - me); ax.push_back(A.y - me); }
      else if (A.kind == 'M') { collect(A.x); collect(A.y); ax.push_back(me - A.x); ax.push_back(me - A.y); }
      else if (A.kind == 'd') {
        collect(A.x); collect(A.y);
        bool ex = A.name.compare(0, 5, "exdiv") == 0;
        if (A.y.isConst() && A.y.k() > 0) {
          ax.push_back(A.x - scale(me, A.y.k()));
          ax.push_back(scale(me, A.y.k()) + Poly::c(ex ? 0 : A.y.k() - 1) - A.x);
        } else if (!A.y.isConst()) { ax.push_back(A.x - me * A.y); ax.push_back(me * A.y + A.y - Poly::c(1) - A.x); ax.push_back(A.y - Poly::c(1)); }
      }
      if (A.nonneg && A.kind != 'm' && A.kind != 'M') ax.push_back(me);
      else if (A.kind == 'd' && !A.y.isConst() && A.name.compare(0, 5, "exdiv")) {   // floor: non-negative where the dividend is shown to be
        bool ok = false; for (auto& q : s.ge) { Poly r = A.x - q; if (r.isConst() && r.k() >= 0) ok = true; }
        if (!ok && depth <= 2 && !noPairs) { Sys base = s; noPairs = true; ok = le(base, Poly(), A.x); noPairs = false; }
        if (ok) { ax.push_back(me); nnHere.insert(id); }
      }
    }
    if (ch) for (auto& p : ax) collect(p);
  }
  for (auto& p : ax) s.ge.push_back(p);
  // prefix counts: monotone with slope at most one
  std::vector<int> ps; for (int id : atoms) if (at.a[id].kind == 'p') ps.push_back(id);
  if (!ps.empty()) {
    Sys base = s; base.ge.erase(std::remove_if(base.ge.begin(), base.ge.end(), [&](const Poly& q) { for (auto& kv : q.t) for (int x : kv.first) if (at.a[x].kind == 'p') return true; return false; }), base.ge.end());
    bool many = ps.size() > 14;
    struct Up { int a, b; Poly d, g; }; std::vector<Up> ups; std::set<int> pos;
    // (a count below a negative position is 0, so the bound by the position needs the position to be non-negative)
    auto nn = [&](const Poly& x) -> bool {
      if (synNonneg(x)) return true;
      for (auto& q : base.ge) { Poly r = x - q; if (r.isConst() && r.k() >= 0) return true; }
      if (depth == 0 && !noPairs) { noPairs = true; bool r = le(base, Poly(), x); noPairs = false; return r; }
      return false;
    };
    for (int i : ps) { Poly x = at.a[i].x; if (nn(x)) { s.ge.push_back(x - Poly::a(i)); pos.insert(i); } }
    for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j++) if (i != j && at.a[ps[i]].key == at.a[ps[j]].key) {
      Poly x = at.a[ps[i]].x, y = at.a[ps[j]].x, d = y - x;
      bool up = false;
      if (d.isConst()) up = d.k() >= 0;
      else {
        for (auto& q : base.ge) { Poly r = d - q; if (r.isConst() && r.k() >= 0) { up = true; break; } }
        if (!up && depth == 0 && !noPairs && !many) { noPairs = true; up = le(base, x, y); noPairs = false; }
      }
      if (up) { Poly g = Poly::a(ps[j]) - Poly::a(ps[i]); s.ge.push_back(g); s.ge.push_back(d - g); ups.push_back({ps[i], ps[j], d, g}); }
    }
    // counts of different values of the same code: disjoint, so their increments add up to at most the distance
    auto fam = [&](int a, int b) { auto &x = at.a[a].key, &y = at.a[b].key; size_t e = x.find('='); return e != std::string::npos && x != y && y.compare(0, e + 1, x, 0, e + 1) == 0; };
    for (size_t i = 0; i < ps.size(); i++) for (size_t j = i + 1; j < ps.size(); j++) if (fam(ps[i], ps[j]) && at.a[ps[i]].x == at.a[ps[j]].x && pos.count(ps[i])) s.ge.push_back(at.a[ps[i]].x - Poly::a(ps[i]) - Poly::a(ps[j]));
    for (size_t i = 0; i < ups.size(); i++) for (size_t j = i + 1; j < ups.size(); j++) if (fam(ups[i].a, ups[j].a) && at.a[ups[i].a].x == at.a[ups[j].a].x && at.a[ups[i].b].x == at.a[ups[j].b].x) s.ge.push_back(ups[i].d - ups[i].g - ups[j].g);
  }
  // undecided min/max: split (bounded)
  if (depth < 6) {
    for (int id : atoms) {
      Atoms::A A = at.a[id];
      if (A.kind != 'm' && A.kind != 'M') continue;
      bool decided = false;
      Poly me = Poly::a(id);
      for (auto& p : s.ge) if (p == (A.kind == 'm' ? me - A.x : A.x - me) || p == (A.kind == 'm' ? me - A.y : A.y - me)) { decided = true; break; }
      if (!decided) { splitAtom = id; break; }
    }
  }
  if (splitAtom >= 0) {
    Atoms::A A = at.a[splitAtom]; Poly me = Poly::a(splitAtom);
    Sys s1 = s, s2 = s;
    s1.addGe(A.kind == 'm' ? me - A.x : A.x - me);
    s2.addGe(A.kind == 'm' ? me - A.y : A.y - me);
    return unsat(s1, depth + 1) && unsat(s2, depth + 1);
  }
  // products of bounds for non-linear monomials
  std::set<std::vector<int>> mons;
  for (auto& p : s.ge) for (auto& kv : p.t) if (!kv.first.empty()) mons.insert(kv.first);
  std::set<int> multipliers; 
  for (auto& m : mons) if (m.size() == 2) for (int id : m) if (at.a[id].nonneg || nnHere.count(id)) multipliers.insert(id);
  if (!multipliers.empty() && multipliers.size() <= 6) {
    auto base = s.ge;
    for (int y : multipliers) for (auto& f : base) {
      bool lin = true; for (auto& kv : f.t) if (kv.first.size() > 1) { lin = false; break; }
      if (!lin) continue;
      Poly g = f * Poly::a(y); bool ok = true, nl = false;
      for (auto& kv : g.t) { if (kv.first.size() == 2) { nl = true; if (!mons.count(kv.first)) { ok = false; break; } } else if (kv.first.size() == 1 && !mons.count(kv.first)) { ok = false; break; } }
      if (ok && nl) s.ge.push_back(g);
    }
  }
  mons.clear();
  for (auto& p : s.ge) for (auto& kv : p.t) if (!kv.first.empty()) mons.insert(kv.first);
  std::map<std::vector<int>, size_t> col; for (auto& m : mons) { size_t k = col.size(); col[m] = k; }
  size_t n = col.size();
  if (n > 60) return false;
  std::vector<Row> rows;
  for (auto& p : s.ge) { Row r; r.c.assign(n + 1, 0); for (auto& kv : p.t) if (kv.first.empty()) r.c[n] = kv.second; else r.c[col[kv.first]] = kv.second; rows.push_back(r); }
  std::vector<std::vector<i128>> key; for (auto& r : rows) key.push_back(r.c);
  std::sort(key.begin(), key.end());
  static std::map<std::vector<std::vector<i128>>, bool> cache;
  auto ci = cache.find(key); if (ci != cache.end()) return ci->second;
  long b = 60000;
  bool u = fm(rows, n, b);
  return cache[key] = u;
}
bool Arith::le(const Sys& s, const Poly& a, const Poly& b) {
  Poly d = b - a; if (d.isConst()) return d.k() >= 0 || unsat(s);
  Sys q = s; q.addGe(a - b - Poly::c(1)); return unsat(q);
}
bool Arith::lt(const Sys& s, const Poly& a, const Poly& b) { return le(s, a + Poly::c(1), b); }
bool Arith::eq(const Sys& s, const Poly& a, const Poly& b) { if (a == b) return true; return le(s, a, b) && le(s, b, a); }
}  // namespace plint
