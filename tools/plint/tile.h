// Coverage of an index space by consecutive tiles: every path through a function must emit regions that
// glue together to exactly the required interval.  Loops are cut by inductive invariants found from
// templates (bounds of loop counters; "covered up to E" with E taken from the loop's own first region).
#pragma once
#include "poly.h"
namespace plint {
struct Region { Poly lo, hi; const Instruction* at = nullptr; bool strict = false; };
struct TState {
  std::vector<Region> iv;           // glued intervals
  Sys sys; std::vector<Poly> ne;
  bool failed = false;
};
struct Tiler {
  Function& F; Arith& A;
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
  // regions covered by executing an instruction (nullopt: not an event)
  std::function<std::optional<std::vector<Region>>(const Instruction&, TState&)> classify;
  std::function<bool(const Fact&)> impossible;   // facts the caller knows cannot hold
  struct Err { std::string where, msg; };
  std::map<std::string, Err> errs; long paths = 0, regions = 0, loops = 0; bool overflow = false;
  Tiler(Function& f, Arith& a);
  // verify that every return has covered exactly [lo,hi)
  bool run(const Poly& lo, const Poly& hi, const Sys& pre);
  std::string req;
 private:
  struct Ctx { const Loop* check = nullptr; std::function<void(TState&, const BasicBlock*)> onBack; bool mute = false; Ctx* up = nullptr; };
  Poly RL, RH;
  void walk(const BasicBlock* BB, const BasicBlock* from, TState st, Ctx& ctx);
  void body(const BasicBlock* BB, BasicBlock::const_iterator it, TState st, Ctx& ctx);
  void enterLoop(const Loop* L, const BasicBlock* from, TState st, Ctx& ctx);
  bool addRegion(TState& st, Region r, Ctx& ctx);
  void finish(const Instruction* I, TState& st, Ctx& ctx);
  bool learn(TState& st, const Fact& f);
  bool feasible(TState& st);
  void applyNe(TState& st);
  std::map<int, Poly> phiMap(const Loop* L, const BasicBlock* from);
  bool loopInvariantPoly(const Poly& p, const Loop* L);
  bool hasEvents(const Loop* L);
  std::vector<Poly> candidates(const Loop* L);
  void err(Ctx& ctx, const Instruction* I, const std::string& m);
};
}
