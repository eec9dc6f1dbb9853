// Integer polynomial forms and a small polyhedral entailment test (Fourier-Motzkin with integer
// tightening, axioms for min/max/division, products of bounds with non-negative atoms).
#pragma once
#include "core.h"
namespace plint {
using i128 = __int128;
struct Poly {
  std::map<std::vector<int>, int64_t> t;   // sorted atom ids -> coefficient; empty monomial = constant
  static Poly c(int64_t k) { Poly p; if (k) p.t[{}] = k; return p; }
  static Poly a(int id) { Poly p; p.t[{id}] = 1; return p; }
  int64_t k() const { auto it = t.find({}); return it == t.end() ? 0 : it->second; }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  bool operator==(const Poly& o) const { return t == o.t; }
  bool operator!=(const Poly& o) const { return t != o.t; }
  bool operator<(const Poly& o) const { return t < o.t; }
};
Poly operator+(const Poly&, const Poly&);
Poly operator-(const Poly&, const Poly&);
Poly operator*(const Poly&, const Poly&);
Poly scale(const Poly&, int64_t);

struct Poly2;  // fwd
struct Atoms {
  struct A {
    std::string name; const Value* v = nullptr;
    char kind = 'v';          // v value, m min, M max, d div (floor), r opaque
    Poly x, y;                // operands of m/M/d; x: argument of a prefix count (kind p)
    std::string key;          // prefix count: which one
    bool nonneg = true;
  };
  std::vector<A> a;
  std::map<std::string, int> byName;
  int get(const std::string& n, const A& proto);
  std::string str(const Poly& p) const;
};
struct Sys {                       // conjunction of p >= 0
  std::vector<Poly> ge;
  void addGe(const Poly& p) { ge.push_back(p); }
  void addEq(const Poly& p) { ge.push_back(p); ge.push_back(scale(p, -1)); }
};
struct Arith {
  Atoms at;
  const DataLayout* DL = nullptr;
  std::function<std::optional<Poly>(const Value*)> hook;
  std::map<const Value*, Poly> memo;
  Poly of(const Value* v, int d = 0);
  Poly mn(const Poly& a, const Poly& b), mx(const Poly& a, const Poly& b), dv(const Poly& a, const Poly& b);
  // monotone prefix count: number of flagged positions below x (0 <= pf(x+1)-pf(x) <= 1, pf(0) = 0)
  Poly pf(const std::string& key, const Poly& x);
  Poly low(const Poly& x, int bits);                         // x cut down to fewer bits
  Poly code(const std::string& key, const Poly& x);
  // rewrite p through the equalities of s until only allowed atoms remain
  std::optional<Poly> express(const Sys& s, Poly p, const std::function<bool(int)>& allowed);
  bool mentions(const Poly& p, const std::function<bool(int)>& pred);   // some atom (also nested) satisfies pred
  bool synNonneg(const Poly& x, int d = 0);
  const std::vector<bool>& deps(int id);                    // atoms occurring in an atom, itself included
  std::vector<std::vector<bool>> depsC;
  bool has(const Poly& p, int id);
  static uint64_t polyHash(const Poly& p);                  // additive, so hash(-p) == -hash(p)
  bool noPairs = false;
  bool narrow = true;             // 32-bit quantities may lose bits (false: they are known to fit)
  Poly fresh(const std::string& hint, bool nonneg = true);
  Poly subst(const Poly& p, const std::map<int, Poly>& m);   // substitutes inside min/max/div too
  // constraint from taking icmp as `val`; false if not an integer comparison. '!=' yields a disjunction (returned in alt).
  bool cmp(const Value* cond, bool val, std::vector<Poly>& ge, std::vector<Poly>* ne = nullptr);
  static Poly reduced(Poly p, bool exact);
  bool cmp0(const Value* cond, bool val, std::vector<Poly>& ge, std::vector<Poly>* ne);
  bool unsat(Sys s, int depth = 0);
  bool unsat2(Sys s, int depth);
  std::map<uint64_t, bool> memoU;
  bool le(const Sys& s, const Poly& a, const Poly& b);       // s entails a <= b
  bool lt(const Sys& s, const Poly& a, const Poly& b);
  bool eq(const Sys& s, const Poly& a, const Poly& b);
  long queries = 0;
  long budget = 4000000;
  int freshN = 0;
};
}
