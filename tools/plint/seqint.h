// Abstract interpreter for sequence algorithms.  Values of the element type are products of consecutive input
// elements (Seg), integers are polynomials over loop counters and prefix counts, arrays are described by
// index intervals with a symbolic content.  Loops are cut by invariants inferred from one symbolic iteration.
#pragma once
#include "poly.h"
namespace plint {
struct AV {
  enum K { Top, Id, Seg, Num } k = Top;
  int arr = -1; Poly lo, hi; int open = 0;       // Seg: arr[lo,hi);  Num: value in lo
  static AV id() { AV a; a.k = Id; return a; }
  static AV seg(int arr, const Poly& l, const Poly& h) { AV a; a.k = Seg; a.arr = arr; a.lo = l; a.hi = h; return a; }
  static AV num(const Poly& p) { AV a; a.k = Num; a.lo = p; return a; }
};
struct Fill { Poly lo, hi; int var = -1; AV val; int gen = 0; const Instruction* at = nullptr; };   // content of [lo,hi) as a function of the index atom var (-1: only coverage is tracked)
struct SArr {
  std::string name; int base = -1; int64_t esz = 8;
  enum Role { Input, InOut, Flags, Codes, Ints, Out, Internal } role = Internal;   // InOut: starts with its own elements and may be written
  bool covered = false;           // Out: coverage only
  std::string key;                // Flags/Codes: prefix count name
  Poly size; bool hasSize = false;
};
struct SState {
  Sys sys; std::vector<Poly> ne; std::map<const Value*, AV> env; std::map<int, std::vector<Fill>> fills;
  struct Cell { AV v; };
  std::map<std::pair<const Value*, int64_t>, AV> cells;
  std::vector<std::pair<int, Poly>> binds; int gen = 0; bool failed = false;
  std::map<const Value*, const Value*> alias;   // one-bit phis: the value that came in on this path
  std::set<int> sized;             // sequences whose storage was set up on this path
  std::set<int> owned, freed;      // raw: buffers allocated and given back on this path
};
struct SeqInt {
  Function& F; Arith A;
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
  std::vector<SArr> arrs; std::map<int, int> byBase;
  SeqInt(Function& f);
  int addArr(const SArr& a);
  int virt(const std::string& name);                               // array of values that exist only as results of an opaque function
  std::map<std::string, int> virts;
  std::map<int, std::pair<int, std::vector<Fill>>> snaps;           // earlier content of a buffer that consists of several pieces
  std::vector<std::pair<Sys, AV>> pieces(const Sys& sys, int init, const std::vector<Fill>& fs, const Poly& idx);
  bool wrapped(SState& st, const Poly& p);                        // may be -1 (or less)
  bool windows = false;           // comparisons at unrelated positions are allowed (their outcome is unknown)
  bool learn(SState& st, const Fact& f);
  int baseAtom(const Value* ptr);                                  // atom of an external pointer
  std::string seqName(const Value* obj);                           // identity of a sequence object (moves unified)
  int seqArr(const Value* obj, int64_t esz);                       // array owned by a sequence object
  // callbacks
  std::function<std::string(SeqInt&, SState&, int arr, const Poly& idx, const AV& v)> onOut;   // "" when fine
  std::function<void(SeqInt&, SState&, const Instruction*)> onRet;
  std::function<bool(SeqInt&, SState&, const CallBase&)> onCall;   // true when handled
  struct Err { std::string rule, where, msg; };
  std::map<std::string, Err> errs; std::map<std::string, long> counts; std::vector<std::string> notes;
  long paths = 0; bool overflow = false; bool mute = false; bool boolBytes = true;
  bool search = false;            // track where a flag was first met
  bool raw = false; std::set<const Value*> objects;   // containers are analysed down to their memory; objects reached through these roots
  bool noWrap = false;            // operands of unsigned comparisons must be shown non-negative
  void error(const Instruction* I, const std::string& rule, const std::string& m);
  bool run(const Sys& pre);
  bool run(SState st);
  bool cellOf(SState& st, const Value* p, std::pair<const Value*, int64_t>& k);
  // helpers for callbacks
  bool locate(SState& st, const Poly& ptr, int& arr, Poly& idx);
  AV read(SState& st, int arr, const Poly& idx, const Instruction* I);
  void write(SState& st, int arr, const Poly& idx, const AV& v, const Instruction* I);
  void addFill(SState& st, int arr, Fill f);
  AV combine(SState& st, const AV& a, const AV& b, const Instruction* I);
  bool eq(SState& st, const Poly& a, const Poly& b);
  bool same(SState& st, const AV& a, const AV& b);
  std::optional<Atoms::A> codeOf(SState& st, const Poly& p);       // p is the code of one element
  AV inst(const Fill& f, const Poly& idx);
  AV val(SState& st, const Value* v);                              // element value
  Poly simp(const Sys& s, const Poly& p);
  std::string str(const AV& v);
  bool coversExactly(SState& st, int arr, const Poly& lo, const Poly& hi, std::string& why);
  bool summary(const Fill& f, const Sys& s, AV& product);          // ordered product of a filled interval
  bool telescope(SState& st, const Fill& f, Poly& G);              // value(k) = G(k+1) - G(k)
  AV substAV(const AV& v, const std::map<int, Poly>& m);
  int64_t elemSize(StringRef cls);
 private:
  struct Ctx { const Loop* check = nullptr; std::function<void(SState&, const BasicBlock*)> onBack; Ctx* up = nullptr; };
  struct Par { const Loop* L; std::map<int, std::vector<std::pair<Poly, Poly>>> reg; };
  std::vector<Par> pars;
  std::set<std::pair<std::string, Poly>>* flagReads = nullptr;
  std::map<std::string, std::string> uf;
  void walk(const BasicBlock* BB, const BasicBlock* from, SState st, Ctx& ctx);
  void body(const BasicBlock* BB, BasicBlock::const_iterator it, SState st, Ctx& ctx);
  bool exec(const Instruction& I, SState& st);     // false: path ends
  void enterLoop(const Loop* L, const BasicBlock* from, SState st, Ctx& ctx);
  void applyNe(SState& st);
  std::map<int, Poly> phiMap(const Loop* L, const BasicBlock* from);
  std::map<int, Poly> stepBack(const Loop* L);
  bool invariant(const Poly& p, const Loop* L);
  std::optional<Poly> headerForm(SState& st, const Poly& p, const Loop* L, int extra = -1);
  std::optional<AV> headerForm(SState& st, const AV& v, const Loop* L, int extra);
  std::vector<Poly> candidates(const Loop* L, const BasicBlock* from, const Sys& sys);
  bool isParallel(const Loop* L);
  void firstHit(const Loop* L, const SState& best, const std::map<std::pair<const Value*, int64_t>, AV>& killed, const std::map<int, Poly>& init,
                const std::set<std::pair<std::string, Poly>>& fr, std::vector<SState>& heads, Ctx& ctx);
  std::map<std::pair<const Loop*, const BasicBlock*>, std::vector<Poly>> candCache;
};
void markParallel(Module& M);
bool storageMember(const Function& f, std::string& name, std::string& elem);
bool seqMember(const Function& f, std::string& name, std::string& elem);
}
