// A01: the block allocator's free lists.  A list is a chain of numbered nodes (node k has k nodes from itself to the end); the local list's
// length is symbolic, and after every operation the chains reachable from the local list, from what was pushed and from what was returned
// must partition the chains there were, with the recorded lengths.  The invariant on the middle pointer is one of a few candidates.
#include "affine.h"
using namespace plint;
namespace {
using namespace plint::affine;
struct Piece { std::string fam; Poly lo, hi; };
struct Blk {
  Ex X; Arith& A; Module& M; Poly L, bs; int cfg, T;      // T: the middle is known from length list_length + T on
  int64_t oSz, oHead, oMid, oBs, oLen, oCnt, oGl, oBuf, oAl;
  std::map<int, std::pair<std::string, Poly>> nodes;       // atom -> chain, number
  std::vector<Poly> lens, locals; std::map<std::string, std::string> errs; std::string und; std::set<std::string> newLists;
  Blk(Function& F, int cfg_, int t) : X(F), A(X.A), M(*F.getParent()), cfg(cfg_), T(t) {}
  int64_t off(const char* c, const char* m, int64_t dflt) { auto v = memberOffset(M, c, m); return v < 0 ? dflt : v; }
  void say(const Instruction* I, const std::string& m) { errs[where(I) + "|" + m] = m; }
  Poly node(const std::string& fam, const Poly& h) { if (h == Poly()) return Poly(); Poly p = A.code("node " + fam, h); int id = p.t.begin()->first[0]; if (nodes.emplace(id, std::make_pair(fam, h)).second) X.base.push_back(p - Poly::c(4096)); return p; }
  std::optional<std::pair<std::string, Poly>> isNode(const Poly& p, Poly* rest = nullptr) {
    for (auto& t : p.t) if (t.first.size() == 1 && t.second == 1) { auto it = nodes.find(t.first[0]); if (it != nodes.end()) { Poly r = p - Poly::a(t.first[0]); if (r.isConst()) { if (rest) *rest = r; return it->second; } } }
    return std::nullopt;
  }
  Poly local(int k) {
    while ((int)locals.size() <= k) {
      Poly ll = X.ptrRoot("local" + std::to_string(locals.size())), s = A.fresh("len"); locals.push_back(ll); lens.push_back(s);
      if (cfg == 1) X.base.push_back(scale(L, 2) - s);
    }
    return locals[k];
  }
  // a new buffer whose blocks have been chained: its first block
  std::optional<std::string> chained(St& s, const Poly& root) {
    Poly stride = bs; bool last = false, rest = cfg == 0;
    for (auto& e : s.ev) {
      if (e.k == Ev::Store && e.val == Poly() && X.eq(s, e.ptr, root + stride * (L - Poly::c(1)))) last = true;
      if (e.k == Ev::Loop && e.bodies.size() == 1) for (auto& x : e.bodies[0].first) if (x.k == Ev::Store) {
        Poly g = Poly::a(e.g); St t = s; t.sys = e.bodies[0].second;
        for (const Poly& i : {g, L - Poly::c(2) - g}) if (X.eq(t, x.ptr, root + stride * i) && X.eq(t, x.val, root + stride * (i + Poly::c(1))) && X.eq(s, e.n, L - Poly::c(1))) rest = true;
      }
    }
    if (last && rest) return "buffer";
    return std::nullopt;
  }
  // the chain starting at p, as pieces
  bool walk(St& s, Poly p, std::vector<Piece>& out, Poly& len, std::string& why) {
    for (int guard = 0; guard < 12; guard++) {
      if (p == Poly() || X.eq(s, p, Poly())) return true;
      for (auto& r : X.roots) if (r.first.compare(0, 3, "new") == 0 && p == Poly::a(r.second)) { if (!chained(s, p)) { why = "a list that was not chained up to its end"; return false; } p = node("buffer", L); break; }
      Poly rest; auto n = isNode(p, &rest);
      if (!n || rest != Poly()) { why = "something that is not a block (" + A.at.str(p) + ")"; return false; }
      // the topmost changed link in this chain
      std::optional<Poly> top, val; 
      for (auto& m : s.mem) { Poly r2; auto q = isNode(m.first, &r2); if (!q || q->first != n->first || r2 != Poly()) continue;
        if (X.le(s, q->second, n->second) && X.le(s, Poly::c(1), q->second)) { if (top && !X.eq(s, *top, q->second) && X.le(s, q->second, *top)) continue; if (top && !X.eq(s, *top, q->second) && !X.le(s, *top, q->second)) { why = "an undecided order of links"; return false; } top = q->second; val = m.second; }
        else if (!X.le(s, n->second + Poly::c(1), q->second)) { why = "an undecided link"; return false; } }
      if (n->first == "given" && !top) { why = "a block whose link was never set"; return false; }
      Poly lo = top ? *top : Poly::c(1); out.push_back({n->first, lo, n->second}); len = len + n->second - lo + Poly::c(1);
      if (!top) return true; p = *val;
    }
    why = "a list that does not end"; return false;
  }
  void setup(St& s, bool mids) {
    X.slots = false; X.zeroThere = false; X.TS = X.ptrRoot("allocator"); X.P = A.fresh("P");
    if (cfg == 0) L = Poly::c(1); else { Poly l = A.fresh("l"); L = l + Poly::c(2); }
    bs = A.fresh("size"); X.base.push_back(bs - Poly::c(8)); X.nChunks = 0;
    oSz = off("local_list", "sz", 0); oHead = off("local_list", "head", 8); oMid = off("local_list", "mid", 16);
    oBs = off("block_allocator", "block_size", -1); oLen = off("block_allocator", "list_length", -1); oCnt = off("block_allocator", "blocks_allocated", -1); oGl = off("block_allocator", "global_stack", -1); oBuf = off("block_allocator", "allocated_buffers", -1); oAl = off("block_allocator", "block_align", -1);
    s.mem.push_back({X.TS + Poly::c(oBs), bs}); s.mem.push_back({X.TS + Poly::c(oLen), L}); if (oAl >= 0) { Poly al = A.fresh("align"); s.mem.push_back({X.TS + Poly::c(oAl), al}); }
    X.alias = [this](const St& s, const Poly& a, const Poly& b) -> std::optional<bool> {
      Poly ra, rb; auto x = isNode(a, &ra), y = isNode(b, &rb); if (!x && !y) return std::nullopt; if (!x || !y) return false;
      if (x->first != y->first || ra != rb) return false; if (X.eq(s, x->second, y->second)) return true; if (X.le(s, x->second + Poly::c(1), y->second) || X.le(s, y->second + Poly::c(1), x->second)) return false; return std::nullopt;
    };
    X.onRead = [this, mids](St& s, const Poly& a, const Instruction* I) -> std::optional<Poly> {
      for (size_t i = s.mem.size(); i-- > 0;) { if (auto q = X.alias(s, s.mem[i].first, a)) { if (*q) return s.mem[i].second; continue; } if (s.mem[i].first == a) return s.mem[i].second; }
      Poly rest; if (auto n = isNode(a, &rest)) {
        if (rest != Poly()) return std::nullopt;
        if (!X.le(s, Poly::c(1), n->second)) { say(I, "a block is taken from a list that may be empty"); return A.fresh("garbage"); }
        if (n->first == "given") { say(I, "the link of a block is read that was never set"); return A.fresh("garbage"); }
        return node(n->first, n->second - Poly::c(1));
      }
      for (auto& r : X.roots) if (r.first.compare(0, 3, "new") == 0 && a == Poly::a(r.second) && chained(s, a)) return node("buffer", L - Poly::c(1));
      for (size_t k = 0; k < locals.size(); k++) {
        if (a == locals[k] + Poly::c(oSz)) return lens[k];
        std::string fam = "local" + std::to_string(k);
        if (a == locals[k] + Poly::c(oHead)) { if (X.le(s, Poly::c(1), lens[k])) return node(fam, lens[k]); if (X.eq(s, lens[k], Poly())) return A.fresh("garbage"); return node(fam, lens[k]); }
        if (a == locals[k] + Poly::c(oMid)) { if (mids && X.le(s, L + Poly::c(T), lens[k])) return node(fam, L + Poly::c(1)); return A.fresh("stale middle"); }
      }
      return std::nullopt;
    };
    X.onCall = [this](St& s, const CallBase& cb) -> int {
      auto n = cb.getCalledFunction()->getName(); auto arg = [&](unsigned i) { return X.ev(s, cb.getArgOperand(i)); };
      Ev e; e.at = &cb;
      if (n == "plint_local") { int k = 0; for (auto& x : s.ev) if (x.k == Ev::Alloc || (x.k == Ev::Pop)) k++; s.env[&cb] = local(k > 3 ? 3 : k); return 1; }
      if (n == "plint_list") { Poly i = arg(1); s.env[&cb] = X.ptrRoot("element" + std::to_string(i.k())); return 1; }
      if (n == "sysconf") { s.env[&cb] = A.fresh("sysconf"); return 1; }
      bool lists = n.contains("list"); 
      if (n.starts_with("plint_pop_")) {
        Poly f = A.fresh("found"); X.base.push_back(Poly::c(1) - f); s.env[&cb] = f; Poly v = lists ? node("global", L) : A.fresh("buf"); e.k = Ev::Pop; e.isSlot = lists; e.val = v; e.id = f; e.ptr = arg(0);
        for (auto& x : s.ev) if (x.k == Ev::Pop && x.isSlot && lists && X.le(s, Poly::c(1), x.id)) { und = "two lists popped"; }
        X.writeMem(s, arg(1), v); s.ev.push_back(e); return 1; }
      if (n.starts_with("plint_push_")) { e.k = Ev::Push; e.isSlot = lists; e.val = arg(1); e.ptr = arg(0); s.ev.push_back(e); return 1; }
      if (n == "plint_lists") { s.env[&cb] = X.ptrRoot("lists in the pool"); return 1; }
      if (n == "plint_bufs") { s.env[&cb] = A.fresh("buffers"); return 1; }
      if (n.starts_with("plint_clear_")) { e.k = Ev::Call; e.isSlot = lists; e.ptr = arg(0); s.ev.push_back(e); return 1; }
      return -1;
    };
  }
  // pieces must be exactly [1, total] of each chain
  std::string partition(St& s, std::vector<Piece> ps, const std::map<std::string, Poly>& totals) {
    std::map<std::string, Poly> cur = totals;
    while (!ps.empty()) {
      bool ok = false;
      for (size_t i = 0; i < ps.size(); i++) { auto it = cur.find(ps[i].fam); if (it == cur.end()) return "a block of nobody's list is handed on"; if (X.eq(s, ps[i].hi, it->second)) { it->second = ps[i].lo - Poly::c(1); ps.erase(ps.begin() + i); ok = true; break; } }
      if (!ok) return "a block is in two places";
    }
    for (auto& c : cur) if (!X.eq(s, c.second, Poly())) return c.first == "given" ? "the block given back is lost" : "blocks are lost";
    return "";
  }
  void finish(St& s, const Instruction* RI, const Poly* ret) {
    std::vector<Piece> ps; std::map<std::string, Poly> totals; std::string why;
    auto get = [&](const Poly& a) -> std::optional<Poly> { for (size_t i = s.mem.size(); i-- > 0;) if (s.mem[i].first == a) return s.mem[i].second; return std::nullopt; };
    auto takes = [&](const Poly& p, const Poly* want, const std::string& what, const Instruction* I) {
      std::vector<Piece> q; Poly len; if (!walk(s, p, q, len, why)) { say(I, what + " is " + why); return; }
      if (want && !X.eq(s, len, *want)) say(I, what + " has " + A.at.str(len) + " blocks, not " + A.at.str(*want));
      ps.insert(ps.end(), q.begin(), q.end());
    };
    for (auto& e : s.ev) {
      if (e.k == Ev::Pop && e.isSlot && X.le(s, Poly::c(1), e.id)) totals["global"] = L;
      if (e.k == Ev::Alloc) {
        totals["buffer"] = L; if (!X.eq(s, e.n, L * bs)) say(e.at, "a new buffer has " + A.at.str(e.n) + " bytes, not room for a whole list"); if (auto al = get(X.TS + Poly::c(oAl)); al && !X.eq(s, e.id, *al)) say(e.at, "a new buffer is not aligned as its blocks are to be");
        int pushed = 0; Poly cnt; bool counted = false; for (auto& x : s.ev) { if (x.k == Ev::Push && !x.isSlot && X.eq(s, x.val, e.ptr)) pushed++; if (x.k == Ev::Add && x.ptr == X.TS + Poly::c(oCnt)) { cnt = cnt + x.val; counted = true; } }
        if (pushed != 1) say(e.at, "a new buffer is not recorded exactly once"); if (!counted || !X.eq(s, cnt, L)) say(e.at, "the new blocks are not counted correctly");
        if (!chained(s, e.ptr)) say(e.at, "the blocks of a new buffer are not chained up to its end"); }
      if (e.k == Ev::Push && e.isSlot) takes(e.val, &L, "the list put into the pool", e.at);
    }
    if (ret) {   // a single block leaves its list
      Poly p = *ret; for (auto& r : X.roots) if (r.first.compare(0, 3, "new") == 0 && p == Poly::a(r.second) && chained(s, p)) p = node("buffer", L);
      Poly rest; auto n = isNode(p, &rest); if (!n || rest != Poly()) say(RI, "what is returned is not a block (" + A.at.str(p) + ")"); else ps.push_back({n->first, n->second, n->second});
    } else totals["given"] = Poly::c(1);
    for (size_t k = 0; k < locals.size(); k++) {
      std::string fam = "local" + std::to_string(k); bool touched = false; for (auto& m : s.mem) { Poly d = m.first - locals[k]; if (d.isConst()) touched = true; Poly r; auto q = isNode(m.first, &r); if (q && q->first == fam) touched = true; }
      for (auto& p : ps) if (p.fam == fam) touched = true;
      if (!touched) continue; totals[fam] = lens[k];
      Poly sz = get(locals[k] + Poly::c(oSz)).value_or(lens[k]), head = get(locals[k] + Poly::c(oHead)).value_or(node(fam, lens[k]));
      if (!X.eq(s, sz, Poly())) takes(head, &sz, "the thread's list", RI);
      if (cfg == 1 && !X.le(s, sz, scale(L, 2))) say(RI, "the thread's list grows beyond twice the list length");
      auto mid = get(locals[k] + Poly::c(oMid)); Poly M0 = L + Poly::c(T);
      if (cfg == 1 && !X.le(s, sz + Poly::c(1), M0)) {   // the middle must be the block with list_length behind it
        Poly mv; bool known = true; St t = s; t.sys.addGe(sz - M0);
        if (mid) mv = *mid; else if (X.le(t, M0, lens[k])) mv = node(fam, L + Poly::c(1)); else known = false;
        std::vector<Piece> q; Poly len;
        if (!known || !walk(t, mv, q, len, why) || !X.eq(t, len, L + Poly::c(1))) say(RI, "the middle of the thread's list is not where the list can be cut");
      }
    }
    auto m = partition(s, ps, totals); if (!m.empty()) say(RI, m);
  }
};
}

namespace {
// routing of sizes to buckets, and sizes asked for and given back by the typed allocators
void checkRouting(Function& F, const std::string& nm, Report& R, std::map<std::string, std::string>& owners) {
  Module& M = *F.getParent(); Ex X(F); auto& A = X.A; X.slots = false; X.TS = X.ptrRoot("pool"); X.P = A.fresh("P"); X.nChunks = 0; long rets = 0;
  std::map<std::string, std::string> errs; auto say = [&](const Instruction* I, const std::string& m) { errs[where(I) + "|" + m] = m; };
  auto off = [&](const char* m) { return memberOffset(M, "pool_allocator", m); };
  std::map<int64_t, Poly> mem; std::map<int, Poly> szAt; bool pool = nm.find("pool_") == 0;
  int64_t oSizes = pool ? off("sizes") : -1, oSmall = pool ? off("max_small") : -1, oMax = pool ? off("max_size") : -1, oNum = pool ? off("num_small") : -1, oBkt = pool ? off("num_buckets") : -1, oUsed = pool ? off("large_used") : -1, oGot = pool ? off("large_allocated") : -1;
  if (pool && (oSizes < 0 || oSmall < 0 || oMax < 0 || oNum < 0)) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": the pool's members are not found"); return; }
  Poly sizes = X.ptrRoot("sizes"), maxSmall = A.fresh("max_small"), maxSize = A.fresh("max_size"), num = A.fresh("num_small"), bkt = A.fresh("num_buckets");
  X.base.push_back(maxSize - maxSmall); X.base.push_back(bkt - num);
  auto size = [&](const Poly& b) { Poly p = A.code("size of bucket", b); X.base.push_back(p - Poly::c(8)); return p; };
  auto inPool = [&](const Poly& a) -> std::optional<int64_t> { Poly d = a - X.TS; if (d.isConst() && d.k() >= 0 && d.k() < 4096) return d.k(); return std::nullopt; };
  X.onRead = [&](St& s, const Poly& a, const Instruction*) -> std::optional<Poly> {
    if (!pool) return std::nullopt;
    if (auto o = inPool(a)) {
      if (*o == oUsed || *o == oGot) return std::nullopt;
      if (*o == oSizes) return sizes; if (*o == oSmall) return maxSmall; if (*o == oMax) return maxSize; if (*o == oNum) return num; if (*o == oBkt) return bkt;
      return X.ptrRoot("member" + std::to_string(*o));
    }
    Poly d = a - sizes; bool mult = true; for (auto& r : X.roots) if (A.mentions(d, [&](int i) { return i == r.second; })) mult = false; Poly b; for (auto& t : d.t) { if (t.second % 8) mult = false; b.t[t.first] = t.second / 8; }
    if (mult) return size(b);
    return std::nullopt;
  };
  X.onCall = [&](St& s, const CallBase& cb) -> int {
    auto n = cb.getCalledFunction()->getName(); auto d = dem(cb.getCalledFunction()); auto arg = [&](unsigned i) { return X.ev(s, cb.getArgOperand(i)); }; Ev e; e.at = &cb; e.k = Ev::Call;
    if (n == "plint_ba_alloc" || n == "plint_pool_alloc") { Poly b = A.fresh("block"); if (n == "plint_pool_alloc") b = scale(b, 8); X.base.push_back(b - Poly::c(4096)); e.k = Ev::Alloc; e.isSlot = true; e.ptr = b; e.id = arg(0); if (cb.arg_size() > 1) e.n = arg(1); s.env[&cb] = b; s.ev.push_back(e); return 1; }
    if (n == "plint_ba_free" || n == "plint_pool_free") { e.k = Ev::Free; e.isSlot = true; e.ptr = arg(1); e.id = arg(0); if (cb.arg_size() > 2) e.n = arg(2); s.ev.push_back(e); return 1; }
    if (n == "plint_pop_list") { Poly f = A.fresh("found"), v = A.fresh("pooled"); X.base.push_back(Poly::c(1) - f); s.env[&cb] = f; e.k = Ev::Pop; e.id = f; e.val = v; e.ptr = arg(0); X.writeMem(s, arg(1), v); s.ev.push_back(e); return 1; }
    if (n == "plint_push_list") { e.k = Ev::Push; e.ptr = arg(0); e.val = arg(1); s.ev.push_back(e); return 1; }
    if (n == "plint_built" || n == "plint_gone") { e.k = n == "plint_built" ? Ev::Make : Ev::Kill; e.ptr = arg(0); s.ev.push_back(e); return 1; }
    if (d.find("operator<<") != std::string::npos) { s.env[&cb] = X.ptrRoot("stream"); return 1; }
    if (d.find("get_default_allocator") != std::string::npos) { s.env[&cb] = X.ptrRoot("@default"); return 1; }
    if (d.find("get_block_allocator") != std::string::npos) { s.env[&cb] = X.ptrRoot("@" + d.substr(0, d.find("(")).substr(d.find("get_block_allocator"))); return 1; }
    return -1;
  };
  St s; Poly n = A.fresh("n"), p = A.fresh("given"); X.base.push_back(p - Poly::c(4096));
  int64_t unit = 0, al = 0; bool arr = nm.find("array_") == 0, one = nm.find("one_") == 0, mal = nm.find("malloc_") == 0;
  { auto q = nm.rfind('_'); if (arr || one) { al = atoi(nm.c_str() + q + 1); auto r = nm.rfind('_', q - 1); unit = atoi(nm.c_str() + r + 1); } else if (mal) al = atoi(nm.c_str() + q + 1); }
  bool isFree = nm.find("_free") != std::string::npos || nm.find("_destroy") != std::string::npos, clr = nm == "pool_clear";
  { unsigned i = 0; if (pool) s.env[F.getArg(i++)] = X.TS; if (isFree) s.env[F.getArg(i++)] = p; if (i < F.arg_size()) s.env[F.getArg(i++)] = n; }
  // the bucket of an address base + stride * b; both the base and b
  auto bucket = [&](const Poly& a, int64_t stride, std::string& who) -> std::optional<Poly> {
    Poly d = a; for (auto& r : X.roots) if (A.mentions(d, [&](int i) { return i == r.second; })) { who = r.first; d = d - Poly::a(r.second); }
    Poly b; for (auto& t : d.t) { if (t.second % stride) return std::nullopt; b.t[t.first] = t.second / stride; } return b;
  };
  auto least = [&](St& st, const Instruction* I, const Poly& b, const Poly& lo, const Poly& n) {   // the first bucket, from lo on, that is large enough
    St t = st; if (lo == num) t.sys.addGe(bkt - num - Poly::c(1)); bool last = lo == num && X.eq(t, b, bkt - Poly::c(1)) && X.le(st, n, maxSize);      // the last bucket holds max_size
    if (!last && !X.le(st, n, size(b))) say(I, "a bucket whose blocks may be too small"); else if (!X.le(st, lo, b)) say(I, "a bucket below the first of its kind");
    else if (!X.eq(st, b, lo) && !X.le(st, size(b - Poly::c(1)) + Poly::c(1), n)) say(I, "a bucket that is not the first large enough: allocation and release may disagree");
  };
  X.onRet = [&](St& st, const ReturnInst* RI) {
    if (X.dead(st)) return; rets++; std::vector<Ev> alloc, free_, pop, push, made, gone; Poly used, got; bool uses = false, gots = false;
    for (auto& e : st.ev) {
      if (e.k == Ev::Alloc) alloc.push_back(e); if (e.k == Ev::Free) free_.push_back(e); if (e.k == Ev::Pop) pop.push_back(e); if (e.k == Ev::Push) push.push_back(e); if (e.k == Ev::Make) made.push_back(e); if (e.k == Ev::Kill) gone.push_back(e);
      if (pool && e.k == Ev::Add) { if (e.ptr == X.TS + Poly::c(oUsed)) { used = used + e.val; uses = true; } if (e.ptr == X.TS + Poly::c(oGot)) { got = got + e.val; gots = true; } }
    }
    R.counts["routes"]++; auto ret = [&] { return X.ev(st, RI->getReturnValue()); }; std::string who;
    auto bytes = [&](const Poly& q) { return q; };
    (void)bytes; (void)gots; (void)uses;
    if (nm == "pool_alloc") {
      if (alloc.size() + pop.size() < 1) { say(RI, "nothing is allocated"); return; }
      if (alloc.size() == 1 && alloc[0].isSlot) {
        auto b = bucket(alloc[0].id, 256, who); if (!b) { say(RI, "an allocator outside the table"); return; } least(st, alloc[0].at, *b, Poly(), n); if (!X.le(st, n, maxSmall)) say(alloc[0].at, "a size beyond the small buckets goes to one");
        if (!X.eq(st, ret(), alloc[0].ptr)) say(RI, "what is returned is not the block obtained"); if (!(used == Poly() && got == Poly())) say(RI, "small blocks are counted as large ones"); return;
      }
      if (!X.le(st, maxSmall + Poly::c(1), n)) say(RI, "a small size is not served by a small bucket");
      if (!X.eq(st, used, n)) say(RI, "the bytes in use are not counted");
      bool direct = X.le(st, maxSize + Poly::c(1), n); std::optional<Poly> b; if (!direct) { if (!X.le(st, n, maxSize)) say(RI, "a size that may exceed all buckets is taken from one"); if (pop.size() != 1) { say(RI, "the pool is not asked exactly once"); return; } b = bucket(pop[0].ptr, 128, who); if (!b) { say(RI, "a pool outside the table"); return; } *b = *b + num; least(st, pop[0].at, *b, num, n); }
      bool found = !pop.empty() && X.le(st, Poly::c(1), pop[0].id);
      if (found) { if (!X.eq(st, ret(), pop[0].val)) say(RI, "what is returned is not the block obtained"); if (!alloc.empty()) say(RI, "a second block is obtained and lost"); if (got != Poly()) say(RI, "a reused block is counted as new"); return; }
      if (alloc.size() != 1) { say(RI, "not exactly one block is obtained"); return; }
      if (!X.eq(st, ret(), alloc[0].ptr)) say(RI, "what is returned is not the block obtained");
      if (!X.le(st, n, alloc[0].n) || (b && !X.le(st, size(*b), alloc[0].n))) say(alloc[0].at, "a block is obtained that is smaller than its bucket");
      if (!X.le(st, Poly::c(128), alloc[0].id)) say(alloc[0].at, "a block is obtained with too small an alignment");
      if (!X.eq(st, got, alloc[0].n)) say(RI, "the bytes obtained (" + A.at.str(alloc[0].n) + ") are counted as " + A.at.str(got));
    } else if (nm == "pool_free") {
      if (free_.size() + push.size() != 1) { say(RI, "the block is not given back exactly once"); return; }
      if (free_.size() == 1 && free_[0].isSlot) {
        auto b = bucket(free_[0].id, 256, who); if (!b) { say(RI, "an allocator outside the table"); return; } least(st, free_[0].at, *b, Poly(), n); if (!X.le(st, n, maxSmall)) say(free_[0].at, "a size beyond the small buckets goes to one"); if (!X.eq(st, free_[0].ptr, p)) say(RI, "another block is given back"); if (!(used == Poly() && got == Poly())) say(RI, "small blocks are counted as large ones"); return;
      }
      if (!X.le(st, maxSmall + Poly::c(1), n)) say(RI, "a small block is not given back to a small bucket");
      if (!X.eq(st, used, scale(n, -1))) say(RI, "the bytes in use are not counted");
      if (push.size() == 1) { if (!X.le(st, n, maxSize)) say(RI, "a block that belongs to no bucket is kept"); auto b = bucket(push[0].ptr, 128, who); if (!b) { say(RI, "a pool outside the table"); return; } *b = *b + num; least(st, push[0].at, *b, num, n); if (!X.eq(st, push[0].val, p)) say(RI, "another block is given back"); if (got != Poly()) say(RI, "a kept block is counted as released"); }
      else { if (!X.le(st, maxSize + Poly::c(1), n)) say(RI, "a block of a bucket is released"); if (!X.eq(st, free_[0].ptr, p)) say(RI, "another block is released"); if (!X.eq(st, free_[0].id, Poly::c(128))) say(RI, "a block is released with another alignment");
        Poly r = n + Poly::c(127) - (n + Poly::c(127) - scale(A.dv(n + Poly::c(127), Poly::c(128)), 128)), m = scale(got, -1); bool ok = X.eq(st, m, r) || (X.eq(st, n - scale(A.dv(n, Poly::c(128)), 128), Poly()) && X.eq(st, m, n)) || X.eq(st, m, n + Poly::c(128) - (n - scale(A.dv(n, Poly::c(128)), 128))); if (!ok) say(RI, "the bytes released are counted as " + A.at.str(m)); }
    } else if (clr) {
      for (auto& e : st.ev) if (e.k == Ev::Pop && !X.eq(st, e.id, Poly())) { bool f = false; for (auto& y : st.ev) if (y.k == Ev::Free && X.eq(st, y.ptr, e.val)) f = true; if (!f) say(e.at, "a block taken from a pool is not released"); }
    } else if (arr && !isFree) { if (alloc.size() != 1 || !X.eq(st, ret(), alloc[0].ptr)) say(RI, "not exactly one block is obtained and returned"); else if (!X.eq(st, alloc[0].n, scale(n, unit))) say(alloc[0].at, A.at.str(alloc[0].n) + " bytes are asked for, not " + A.at.str(scale(n, unit))); }
    else if (arr) { if (free_.size() != 1 || !X.eq(st, free_[0].ptr, p)) say(RI, "the block is not given back exactly once"); else if (!X.eq(st, free_[0].n, scale(n, unit))) say(free_[0].at, "a block is given back as " + A.at.str(free_[0].n) + " bytes, not " + A.at.str(scale(n, unit))); }
    else if (one) {
      auto& l = isFree ? free_ : alloc; if (l.size() != 1 || !X.eq(st, l[0].ptr, isFree ? p : ret())) { say(RI, isFree ? "the block is not given back exactly once" : "not exactly one block is obtained and returned"); return; }
      bucket(l[0].id, 1, who); size_t q = who.find("<"); long sz = q == std::string::npos ? -1 : atol(who.c_str() + q + 1); size_t c = who.find(","); long ga = c == std::string::npos ? -1 : atol(who.c_str() + c + 1); int64_t rs = std::max<int64_t>(unit, al); rs = (unit + al - 1) / al * al;
      if (sz < rs) say(l[0].at, "blocks of " + std::to_string(sz) + " bytes serve objects of " + std::to_string(rs)); if (sz > 0 && ga < al) say(l[0].at, "blocks are aligned less than their objects"); auto& ow = owners[nm.substr(nm.find('_', nm.find('_') + 1))]; if (ow.empty()) ow = who; else if (ow != who) say(l[0].at, "blocks are obtained from one allocator and given back to another (" + ow + ", " + who + ")");
      bool cr = nm.find("create") != std::string::npos, ds = nm.find("destroy") != std::string::npos;
      if (cr && (made.size() != 1 || !X.eq(st, made[0].ptr, l[0].ptr))) say(RI, "the object is not built once, in its block"); if (ds && (gone.size() != 1 || !X.eq(st, gone[0].ptr, p))) say(RI, "the object is not destroyed once");
      if (ds) { bool freed = false; for (auto& e : st.ev) { if (e.k == Ev::Free) freed = true; if (e.k == Ev::Kill && freed) say(e.at, "the object is destroyed after its block was given back"); } }
      if (!cr && !made.empty()) say(RI, "an object is built"); if (!ds && !gone.empty()) say(RI, "an object is destroyed");
    } else if (mal) {
      if (alloc.size() != 1) { say(RI, "not exactly one block is obtained"); return; }
      Poly b = alloc[0].ptr, e = b + alloc[0].n, r = ret(); if (!X.le(st, b + Poly::c(8), r)) say(RI, "there is no room for the header"); if (!X.le(st, r + n, e)) say(RI, "the storage returned ends beyond the block (returned " + A.at.str(r) + ", block " + A.at.str(b) + " of " + A.at.str(alloc[0].n) + ")");
      Poly al2 = r; for (auto& t : al2.t) if (t.second % al) { say(RI, "the storage returned is not aligned as asked (" + A.at.str(r) + ")"); break; }
      bool hd = false; for (auto& x : st.ev) if (x.k == Ev::Store && X.le(st, b, x.ptr)) { if (X.le(st, r, x.ptr)) say(x.at, "the header overwrites the storage"); if (X.eq(st, x.ptr, r - Poly::c(8))) hd = true; } if (!hd) say(RI, "the header is not just before the storage");
    }
  };
  X.run(s); for (auto& e : X.errs) say(e.first, e.second);
  std::string und; if (!X.bad.empty()) und = X.bad + " (" + where(X.badAt) + ")";
  if (!rets && und.empty()) und = "no path reaches its end";
  R.functions.insert("drv_" + nm); R.counts["paths"] += rets;
  if (!und.empty()) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": " + und); return; }
  if (errs.empty()) R.add("blocks", where(&F), true, nm + ": holds on " + std::to_string(rets) + " paths");
  for (auto& e : errs) R.add("blocks", e.first.substr(0, e.first.find('|')), false, nm + ": " + e.second);
}
}
RULE(ballock) {
  const char* only = getenv("ONLY"); int drv = 0; std::map<std::string, std::string> owners;
  for (auto& F : M) {
    if (F.isDeclaration() || !F.getName().starts_with("drv_")) continue;
    std::string nm = F.getName().str().substr(4); if (only && nm != only) continue; drv++;
    bool route = nm.find("pool_") == 0 || nm.find("array_") == 0 || nm.find("one_") == 0 || nm.find("malloc_") == 0;
    PrepOptions o; o.keep = [](const Function& f) { return f.getName().starts_with("plint_") || f.getName().contains("get_default_allocator") || f.getName().contains("get_block_allocator"); }; o.loops = true; prepare(F, o);
    if (getenv("SEQDUMP")) F.print(errs());
    if (route) { checkRouting(F, nm, R, owners); continue; }
    bool list = nm == "alloc" || nm == "free"; std::map<std::string, std::string> errs; std::string und; long paths = 0;
    for (int cfg = 0; cfg < 2; cfg++) {
      std::map<std::string, std::string> first; bool done = false;
      for (int T : {2, 1}) {
        if (!list && T == 1) break;
        Blk B(F, cfg, T); auto& X = B.X; auto& A = B.A; St s; B.setup(s, true); long rets = 0;
        s.env[F.getArg(0)] = X.TS; Poly given = B.node("given", Poly::c(1)); if (nm == "free") s.env[F.getArg(1)] = given;
        bool ctor = nm.find("ctor") == 0; std::vector<Poly> par; if (ctor) for (unsigned i = 1; i < F.arg_size(); i++) { par.push_back(A.fresh("par")); s.env[F.getArg(i)] = par.back(); X.base.push_back(Poly::c(BIG) - par.back()); }
        Poly cnt = A.fresh("allocated"); if (!list && !ctor) s.mem.push_back({X.TS + Poly::c(B.oCnt), cnt});
        if (ctor) s.mem.clear();
        X.onRet = [&](St& st, const ReturnInst* RI) {
          if (X.dead(st)) return; rets++; auto get = [&](const Poly& a) -> std::optional<Poly> { for (size_t i = st.mem.size(); i-- > 0;) if (X.eq(st, st.mem[i].first, a)) return st.mem[i].second; return std::nullopt; };
          auto is = [&](const Poly& a, const Poly& b, const std::string& m) { R.counts["results"]++; if (!X.eq(st, a, b)) B.say(RI, m + " (" + A.at.str(a) + ", not " + A.at.str(b) + ")"); };
          if (nm == "alloc") { Poly r = X.ev(st, RI->getReturnValue()); B.finish(st, RI, &r); R.counts["list states"]++; }
          if (nm == "free") { B.finish(st, RI, nullptr); R.counts["list states"]++; }
          Poly e0 = X.ptrRoot("element0"), e1 = X.ptrRoot("element1"), pool = X.ptrRoot("lists in the pool");
          auto z = [&](const Poly& e) { St t = st; std::optional<Poly> v = get(e + Poly::c(B.oSz)); return v ? *v : A.fresh("?"); };
          Poly s0, s1; for (auto& m : st.mem) { if (m.first == e0 + Poly::c(B.oSz)) { s0 = m.second; break; } } for (auto& m : st.mem) { if (m.first == e1 + Poly::c(B.oSz)) { s1 = m.second; break; } }
          Poly used = cnt - pool * B.L - s0 - s1;
          if (nm == "used") { is(X.ev(st, RI->getReturnValue()), used, "the number of blocks in use is wrong"); }
          if (nm == "allocated") is(X.ev(st, RI->getReturnValue()), cnt, "the number of allocated blocks is wrong");
          if (nm == "size") is(X.ev(st, RI->getReturnValue()), B.bs, "the block size is wrong");
          if (nm == "clear" || nm == "dtor") {
            bool freed = false, loop = false, glob = false, zero = false;
            for (auto& e : st.ev) {
              if (e.k == Ev::Free || e.k == Ev::Call) freed = true;
              if (e.k == Ev::Call && e.isSlot) glob = true;
              if (e.k == Ev::Loop) { for (auto& b : e.bodies) { int fr = 0, pp = 0; bool okv = true; for (auto& x : b.first) if (x.k == Ev::Free) { fr++; freed = true; St t = st; t.sys = b.second; bool mine = false; for (auto& y : b.first) if (y.k == Ev::Pop && !y.isSlot && X.eq(t, y.val, x.ptr)) mine = true; okv &= mine; if (B.oAl >= 0) { auto al = get(X.TS + Poly::c(B.oAl)); if (!al || !X.eq(t, x.id, *al)) B.say(x.at, "a buffer is given back with another alignment than it was obtained with"); } } else if (x.k == Ev::Pop && !x.isSlot) pp++;
                  if (pp == 1 && (fr != 1 || !okv)) B.say(e.at, "a buffer taken off the record is not given back exactly once"); if (pp && fr) loop = true; bool gl = false; for (auto& x : b.first) if (x.k == Ev::Pop && x.isSlot) gl = true; if (gl && !fr) glob = true; } }
            }
            bool popEnd = false; for (auto& e : st.ev) if (e.k == Ev::Pop && !e.isSlot && X.eq(st, e.id, Poly())) popEnd = true;
            auto now = get(X.TS + Poly::c(B.oCnt)); bool any = freed || popEnd;
            bool quietPath = X.le(st, Poly::c(1), used) || X.le(st, used, Poly::c(-1)); bool must = X.eq(st, used, Poly());
            R.counts["clear paths"]++;
            if (any && !must) B.say(RI, "memory is given back although blocks are in use");
            if (!any && must) B.say(RI, "nothing is given back although no block is in use");
            if (must && any) {
              if (!popEnd) B.say(RI, "not every buffer is given back"); (void)loop;
              if (nm == "clear" || true) { if (!glob) B.say(RI, "the pool still holds blocks of freed buffers"); auto a = get(e0 + Poly::c(B.oSz)), b = get(e1 + Poly::c(B.oSz)); if (!a || !b || !X.eq(st, *a, Poly()) || !X.eq(st, *b, Poly())) B.say(RI, "a thread's list still holds blocks of freed buffers"); if (!now || !X.eq(st, *now, Poly())) B.say(RI, "freed blocks are still counted"); }
            }
            if (nm == "clear") { Poly r = X.ev(st, RI->getReturnValue()); (void)r; (void)quietPath; (void)zero; }
          }
          if (ctor) {
            auto v = [&](int64_t o) { auto q = get(X.TS + Poly::c(o)); return q ? *q : A.fresh("unset"); };
            Poly len = v(B.oLen), size = v(B.oBs), al = v(B.oAl); R.counts["results"]++;
            if (!X.le(st, par[0], size)) B.say(RI, "blocks are smaller than asked for"); if (!X.le(st, Poly::c(8), size)) B.say(RI, "blocks are too small for a link");
            if (!X.le(st, par[1], al)) B.say(RI, "blocks are aligned less than asked for");
            if (nm == "ctor_all" && X.le(st, Poly::c(1), par[3])) is(len, par[3], "the list length is not the one given");
            if (!X.le(st, Poly::c(1), len)) B.say(RI, "lists may be empty (length " + A.at.str(len) + ")");
            is(v(B.oCnt), Poly(), "blocks are counted before any was allocated");
          }
        };
        if (B.oBs < 0 || B.oLen < 0 || B.oCnt < 0) { und = "the allocator's members are not found"; break; }
        X.run(s);
        for (auto& e : X.errs) B.say(e.first, e.second);
        if (!B.und.empty()) und = B.und; if (!X.bad.empty()) und = X.bad + " (" + where(X.badAt) + ")";
        if (!rets && X.bad.empty()) und = "no path reaches its end";
        paths += rets; if (B.errs.empty()) { done = true; break; } if (first.empty()) first = B.errs;
      }
      if (!done) for (auto& e : first) errs.insert(e);
    }
    R.functions.insert("drv_" + nm); R.counts["paths"] += paths;
    if (!und.empty()) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": " + und); continue; }
    if (errs.empty()) R.add("blocks", where(&F), true, nm + ": holds on " + std::to_string(paths) + " paths");
    for (auto& e : errs) R.add("blocks", e.first.substr(0, e.first.find('|')), false, nm + ": " + e.second);
  }
  if (!drv) R.brk("no driver");
}
