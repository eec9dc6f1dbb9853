// K01: merging and merge sort.  Ghost counters follow how many elements of A and of B have been placed; pp(x) is the number of elements of B
// that come before A[x].  Loops are cut at inferred linear invariants; recursive calls and the calls below are used by their contracts.
#include "affine.h"
using namespace plint;
namespace {
using namespace plint::affine;
constexpr int64_t EL = 16; enum G { gA, gB, gK, gS, gP, gT };
struct CallRec { std::string what; Poly p[6], n; int flag = -1; const Instruction* at; size_t pos; };
struct Mg {
  Ex X; Arith& A; std::map<std::string, std::string> errs; Poly a, b, r, v, nA, nB; std::string nm; bool reloc = false, top = false; std::map<int, Poly> ppIdx; std::set<int> upIdx; std::vector<CallRec> recs; long takes = 0, compares = 0;
  Mg(Function& F) : X(F), A(X.A) {}
  void say(const Instruction* I, const std::string& m) { if (!X.mute) errs[where(I) + "|" + m] = m; }
  std::optional<Poly> index(const Poly& p, const Poly& base) {
    Poly d = p - base; for (auto& q : X.roots) if (A.mentions(d, [&](int i) { return i == q.second; })) return std::nullopt;
    Poly o; for (auto& t : d.t) { if (t.second % EL) return std::nullopt; o.t[t.first] = t.second / EL; } return o;
  }
  Poly pp(const St& s, Poly x) { if (!x.isConst() && X.eq(s, x, s.ghost[gA])) x = s.ghost[gA]; Poly q = A.code("rank", x); int id = q.t.begin()->first[0]; if (ppIdx.emplace(id, x).second) { X.base.push_back(q); X.base.push_back(nB - q); X.limits.push_back(q); } return q; }
  // how many elements of B are not after A[x]
  Poly upper(const St& s, Poly x) { Poly k = pp(s, x); if (!x.isConst() && X.eq(s, x, s.ghost[gA])) x = s.ghost[gA]; Poly q = A.code("upper rank", x); int id = q.t.begin()->first[0]; if (upIdx.insert(id).second) { X.base.push_back(q - k); X.base.push_back(nB - q); X.limits.push_back(q); } return q; }
  // the element at src goes to dst
  void take(St& s, const CallBase& cb, const Poly& dst, const Poly& src) {
    takes++; auto x = index(src, a), y = index(src, b), k = index(dst, r); Poly &ga = s.ghost[gA], &gb = s.ghost[gB];
    if (!k) { say(&cb, "an element is placed outside the result (" + A.at.str(dst) + ")"); return; }
    if (!X.eq(s, *k, ga + gb)) say(&cb, "an element is placed at " + A.at.str(*k) + ", not at the next free place");
    if (x) {
      if (!X.eq(s, *x, ga)) say(&cb, "an element of the first range is placed out of turn"); if (!X.le(s, ga + Poly::c(1), nA)) say(&cb, "an element beyond the first range is placed");
      if (!X.eq(s, gb, nB) && !X.le(s, pp(s, ga), gb)) say(&cb, "an element of the first range is placed although one of the second may have to come before it");
      ga = ga + Poly::c(1);
    } else if (y) {
      if (!X.eq(s, *y, gb)) say(&cb, "an element of the second range is placed out of turn"); if (!X.le(s, gb + Poly::c(1), nB)) say(&cb, "an element beyond the second range is placed");
      if (!X.eq(s, ga, nA) && !X.le(s, gb + Poly::c(1), pp(s, ga))) say(&cb, "an element of the second range is placed although an equal or smaller one of the first remains");
      gb = gb + Poly::c(1);
    } else say(&cb, "something that is no element of the ranges is placed (" + A.at.str(src) + ")");
  }
  bool contracts(const std::string& d, const char* n) { return d.find(n) != std::string::npos; }
  void hooks() {
    X.onCall = [this](St& s, const CallBase& cb) -> int {
      auto n = cb.getCalledFunction()->getName(); auto arg = [&](unsigned i) { return X.ev(s, cb.getArgOperand(i)); };
      if (n == "plint_copy" || n == "plint_move") { take(s, cb, arg(0), arg(1)); if (n == "plint_move" && reloc) s.ghost[gK] = s.ghost[gK] + Poly::c(1); if (n == "plint_copy" && reloc) say(&cb, "an element is copied where it should move"); if (n == "plint_move" && nm.find("copy") != std::string::npos) say(&cb, "an element is moved where it should be copied"); Ev e; e.k = Ev::Make; e.at = &cb; e.ptr = arg(1); s.ev.push_back(e); return 1; }
      if (n == "plint_kill") { bool ok = false; for (size_t i = s.ev.size(); i-- > 0;) if (s.ev[i].k == Ev::Make || s.ev[i].k == Ev::Kill) { ok = s.ev[i].k == Ev::Make && X.eq(s, s.ev[i].ptr, arg(0)); break; } if (!ok || !reloc) say(&cb, "an element is destroyed that was not just moved on"); s.ghost[gK] = s.ghost[gK] - Poly::c(1); Ev e; e.k = Ev::Kill; e.at = &cb; e.ptr = arg(0); s.ev.push_back(e); return 1; }
      if (n == "plint_less") {
        compares++; Poly p = arg(0), q = arg(1);
        if (nm == "insertion") { auto x = index(p, a), y = index(q, a); if (!x || !y) { say(&cb, "something outside the range is compared"); return 2; } for (auto* z : {&*x, &*y}) if (!X.le(s, Poly(), *z) || !X.le(s, *z + Poly::c(1), nA)) say(&cb, "an element outside the range is compared (" + A.at.str(*z) + ")"); return 2; }
        auto y = index(p, b), x = index(q, a); if (nm == "search") { y = index(p, a); x = index(q, v); }
        if (!x || !y) {      // the other way round
          y = index(q, b); x = index(p, a); if (nm == "search") { y = index(q, a); x = index(p, v); }
          if (x && y) { if (!X.le(s, Poly(), *y) || !X.le(s, *y + Poly::c(1), nB)) say(&cb, "an element outside the range is compared (" + A.at.str(*y) + ")"); if (nm != "search" && (!X.le(s, Poly(), *x) || !X.le(s, *x + Poly::c(1), nA))) say(&cb, "an element outside the first range is compared (" + A.at.str(*x) + ")"); X.points.push_back(*y); upper(s, *x); return 2; }
        }
        if (!x || !y) { X.fail(&cb, "a comparison that is not of the second range against the first"); return 0; }
        if (!X.le(s, Poly(), *y) || !X.le(s, *y + Poly::c(1), nB)) say(&cb, "an element outside the range is compared (" + A.at.str(*y) + ")"); if (nm != "search" && (!X.le(s, Poly(), *x) || !X.le(s, *x + Poly::c(1), nA))) say(&cb, "an element outside the first range is compared (" + A.at.str(*x) + ")");
        X.points.push_back(*y); pp(s, *x); return 2; }
      if (n == "plint_swap") {
        if (nm != "insertion") { X.fail(&cb, "a swap"); return 0; }
        auto x = index(arg(0), a), y = index(arg(1), a); Poly P = s.ghost[gP];
        bool ok = x && y && ((X.eq(s, *x, P) && X.eq(s, *y, P - Poly::c(1))) || (X.eq(s, *y, P) && X.eq(s, *x, P - Poly::c(1)))); if (!ok) say(&cb, "elements are swapped that are not the one being inserted and its neighbour"); else if (!X.eq(s, s.ghost[gT], Poly::c(1))) say(&cb, "elements are swapped that were not found to be in the wrong order");
        s.ghost[gP] = P - Poly::c(1); s.ghost[gT] = Poly(); return 1; }
      if (n == "plint_assign") { X.fail(&cb, "an assignment"); return 0; }
      auto d = dem(cb.getCalledFunction()); CallRec c; c.at = &cb; c.pos = 0; int want = -1;
      if (contracts(d, "::pool_allocator::allocate(") ) { Poly q = X.ptrRoot("buffer"); s.env[&cb] = q; Ev e; e.k = Ev::Alloc; e.at = &cb; e.ptr = q; e.n = arg(1); s.ev.push_back(e); return 1; }
      if (contracts(d, "::pool_allocator::deallocate(")) { Ev e; e.k = Ev::Free; e.at = &cb; e.ptr = arg(1); s.ev.push_back(e); return 1; }
      if (contracts(d, "get_default_allocator")) { s.env[&cb] = X.ptrRoot("@pool"); return 1; }
      if (contracts(d, "::insertion_sort<")) { c.what = "insert"; want = 1; } else if (contracts(d, "::seq_merge<")) { c.what = "seqmerge"; want = 6; } else if (contracts(d, "::merge_into<")) { c.what = "merge"; want = 6; } else if (contracts(d, "::merge_sort_<")) { c.what = "sort"; want = 4; }
      if (want < 0) return -1;
      for (int i = 0; i < want; i++) { if ((unsigned)i >= cb.arg_size()) { X.fail(&cb, "a call whose arguments are not understood"); return 0; } c.p[i] = arg(i); }
      if (c.what == "insert") c.n = arg(1); if (c.what == "sort") { Poly f = arg(cb.arg_size() - 1); auto* fv = cb.getArgOperand(cb.arg_size() - 1); if (!f.isConst() && fv->getType()->isIntegerTy(1)) { bool t = !X.split(s, fv, true).empty(), n2 = !X.split(s, fv, false).empty(); if (t != n2) f = Poly::c(t); else if (top) { say(&cb, "where the range is sorted to depends on more than what was asked for"); f = Poly::c(1); } } if (!f.isConst()) { X.fail(&cb, "an unknown flag"); return 0; } c.flag = f.k() & 1; }
      Ev e; e.k = Ev::Call; e.at = &cb; e.g = recs.size(); s.ev.push_back(e); recs.push_back(c); return 1;
    };
    X.onSplit = [this](St& s, const CallBase& cb, int res) {
      if (cb.getCalledFunction()->getName() != "plint_less") return; Poly p = X.ev(s, cb.getArgOperand(0)), q = X.ev(s, cb.getArgOperand(1));
      if (nm == "insertion") {
        auto x = index(p, a), y = index(q, a); if (!x || !y) return; Poly P = s.ghost[gP];
        if (X.eq(s, *x, P) && X.eq(s, *y, P - Poly::c(1))) { if (res) s.ghost[gT] = Poly::c(1); else { s.ghost[gT] = Poly(); s.ghost[gS] = s.ghost[gS] + Poly::c(1); s.ghost[gP] = s.ghost[gS]; } }
        return;
      }
      auto y = index(p, b), x = index(q, a); if (nm == "search") { y = index(p, a); x = index(q, v); }
      if (!x || !y) { y = index(q, b); x = index(p, a); if (nm == "search") { y = index(q, a); x = index(p, v); } if (!x || !y) return; Poly k = upper(s, *x); s.sys.addGe(res ? *y - k : k - *y - Poly::c(1)); return; }
      Poly k = pp(s, *x); s.sys.addGe(res ? k - *y - Poly::c(1) : *y - k);
    };
    X.onLoopLeave = [this](St& s) { if (nm == "insertion" && X.eq(s, s.ghost[gP], Poly())) { s.ghost[gS] = s.ghost[gS] + Poly::c(1); s.ghost[gP] = s.ghost[gS]; } };
  }
  std::vector<CallRec> calls(const St& s) { std::vector<CallRec> o; for (auto& e : s.ev) if (e.k == Ev::Call && e.g >= 0) { o.push_back(recs[e.g]); o.back().pos = &e - &s.ev[0]; } return o; }
  bool range(const St& s, const Poly& lo, const Poly& hi, const Poly& base, Poly& i, Poly& j) { auto x = index(lo, base), y = index(hi, base); if (!x || !y) return false; i = *x; j = *y; return true; }
  // merge calls cover A and B in pieces that may be merged separately
  void chain(St& s, const Instruction* RI, std::vector<CallRec> cs) {
    Poly cA, cB; size_t total = cs.size();
    while (!cs.empty()) {
      bool hit = false;
      for (size_t k = 0; k < cs.size() && !hit; k++) {
        auto& c = cs[k]; Poly i, j, x, y; auto o = index(c.p[4], r), oe = index(c.p[5], r); if (!range(s, c.p[0], c.p[1], a, i, j) || !range(s, c.p[2], c.p[3], b, x, y) || !o || !oe) { say(c.at, "a merge of something other than parts of the two ranges into the result"); return; }
        if (!X.eq(s, i, cA) || !X.eq(s, x, cB)) continue; hit = true;
        if (!X.eq(s, *o, cA + cB)) say(c.at, "a part is merged to another place than where it belongs");
        if (!X.le(s, i, j) || !X.le(s, x, y)) say(c.at, "a part may have negative length");
        if (!X.eq(s, *oe - *o, j - i + y - x)) say(c.at, "the part of the result has another length than what is merged into it");
        if (c.what == "merge" && nm != "sort" && !X.le(s, j - i + y - x + Poly::c(1), nA + nB)) say(c.at, "a recursive merge may be as large as the whole");
        if (c.what == "merge" && nm != "sort" && total > 1 && !X.le(s, Poly::c(1), j - i + y - x)) {}
        cA = j; cB = y; cs.erase(cs.begin() + k);
        if (!cs.empty() || !(X.eq(s, cA, nA) && X.eq(s, cB, nB))) {   // may the ranges be cut here?
          bool lowOk = X.eq(s, cA, Poly()) || X.eq(s, cB, nB), highOk = X.eq(s, cA, nA) || X.eq(s, cB, Poly());
          for (auto& q : ppIdx) { Poly at = Poly::a(q.first); if (X.le(s, cA - Poly::c(1), q.second) && X.le(s, at, cB)) lowOk = true; if (X.le(s, q.second, cA) && X.le(s, cB, at)) highOk = true; }
          if (!lowOk) say(RI, "the ranges are cut where a later element of the second may have to come before an earlier one of the first"); if (!highOk) say(RI, "the ranges are cut where an element of the second is put before an equal or smaller one of the first");
        }
      }
      if (!hit) { say(RI, "the parts that are merged leave a gap or overlap"); return; }
    }
    if (!X.eq(s, cA, nA) || !X.eq(s, cB, nB)) say(RI, "not everything is merged");
  }
};
}
RULE(merging) {
  const char* only = getenv("ONLY"); int drv = 0;
  for (auto& F : M) {
    if (F.isDeclaration() || !F.getName().starts_with("drv_")) continue;
    std::string full = F.getName().str().substr(4), nm = full.substr(0, full.find('_')); if (only && full != only) continue; drv++;
    PrepOptions o; o.loops = true; o.keep = [nm, full](const Function& f) { if (f.getName().starts_with("plint_")) return true; auto d = dem(&f); auto has = [&](const char* c) { return d.find(c) != std::string::npos; };
      if (has("get_default_allocator") || has("::pool_allocator::")) return true; if (nm == "merge" && has("void parlay::internal::seq_merge<")) return true; if (nm == "sort" && (has("void parlay::internal::merge_into<") || has("void parlay::internal::seq_merge<") || has("void parlay::internal::insertion_sort<"))) return true; if (full == "sort_top" && has("void parlay::internal::merge_sort_<")) return true; return false; };
    (void)0;
    prepare(F, o); if (getenv("SEQDUMP")) F.print(errs());
    Mg G(F); auto& X = G.X; auto& A = G.A; G.nm = nm; G.reloc = full.find("reloc") != std::string::npos || nm == "sort"; X.slots = false; X.houdini = true; X.strides = {1, EL}; G.top = full == "sort_top"; X.TS = X.ptrRoot("this"); X.P = A.fresh("P"); X.nChunks = 0;
    G.a = X.ptrRoot("A"); G.b = X.ptrRoot("B"); G.r = X.ptrRoot("R"); G.v = X.ptrRoot("V"); G.nA = A.fresh("nA"); G.nB = A.fresh("nB"); St s; s.ghost.assign(6, Poly()); if (nm == "insertion") { s.ghost[gS] = s.ghost[gP] = Poly::c(1); }
    X.base.push_back(Poly::c(BIG) - G.nA); X.base.push_back(Poly::c(BIG) - G.nB); bool top = full == "sort_top", in = full == "sort_in" || top; unsigned i = 0; auto set = [&](const Poly& p) { if (i < F.arg_size()) s.env[F.getArg(i++)] = p; };
    bool two = nm == "seqmerge" || nm == "merge";
    if (two) { set(G.a); set(G.nA); set(G.b); set(G.nB); set(G.r); } else if (nm == "search") { set(G.a); set(G.nB); set(G.v); } else if (nm == "insertion") { set(G.a); set(G.nA); } else { set(G.a); set(G.nA); if (!top) set(G.r); G.nB = Poly(); }
    X.limits = {G.nA, G.nB, Poly(), Poly::c(1), G.a + scale(G.nA, EL), G.b + scale(G.nB, EL), G.r + scale(G.nA + G.nB, EL)}; if (two) X.limits.push_back(G.nA + G.nB); G.hooks(); long rets = 0;
    X.onRet = [&](St& st, const ReturnInst* RI) {
      if (X.dead(st)) return; rets++; auto cs = G.calls(st); Poly &ga = st.ghost[gA], &gb = st.ghost[gB];
      if (nm == "seqmerge" || nm == "merge") {
        if (cs.empty()) { if (!X.eq(st, ga, G.nA) || !X.eq(st, gb, G.nB)) G.say(RI, "not every element is placed (" + A.at.str(ga) + " and " + A.at.str(gb) + ")"); }
        else { if (!X.eq(st, ga + gb, Poly())) X.fail(RI, "elements placed besides merged parts"); else G.chain(st, RI, cs); }
        if (G.reloc && !X.eq(st, st.ghost[gK], Poly())) G.say(RI, "not every element moved on is destroyed at its old place");
      } else if (nm == "search") { Poly p = X.ev(st, RI->getReturnValue()); if (!X.eq(st, p, G.pp(st, Poly()))) G.say(RI, "the position returned (" + A.at.str(p) + ") may not be the first that is not before the value"); }
      else if (nm == "insertion") { if (!X.le(st, G.nA, st.ghost[gS])) G.say(RI, "not every element is inserted"); }
      else {
        Poly other = G.r; bool haveBuf = false; if (top) for (auto& e : st.ev) if (e.k == Ev::Alloc) { other = e.ptr; haveBuf = true; if (!X.le(st, scale(G.nA, EL), e.n)) G.say(e.at, "the buffer is smaller than what is sorted through it"); }
        auto whole = [&](const CallRec& c, int lo, const Poly& base, Poly& i, Poly& j) { return G.range(st, c.p[lo], c.p[lo + 1], base, i, j); };
        std::vector<CallRec> ins, srt, mrg; for (auto& c : cs) (c.what == "insert" ? ins : c.what == "sort" ? srt : mrg).push_back(c);
        if (!ins.empty()) {
          auto x = G.index(ins[0].p[0], G.a); if (ins.size() != 1 || !srt.empty() || !mrg.empty() || !x || !X.eq(st, *x, Poly()) || !X.eq(st, ins[0].n, G.nA)) G.say(RI, "not the whole range is sorted");
          if (in) { if (!X.eq(st, ga, Poly())) G.say(RI, "elements are moved away from where the result belongs"); } else { if (!X.eq(st, ga, G.nA)) G.say(RI, "not every element is brought to where the result belongs"); if (!X.eq(st, st.ghost[gK], Poly())) G.say(RI, "not every element moved on is destroyed at its old place"); for (auto& e : st.ev) if (e.k == Ev::Make) { if (ins[0].pos > (size_t)(&e - &st.ev[0])) G.say(e.at, "elements are moved on before they are sorted"); break; } }
          return;
        }
        if (top && srt.empty() && mrg.empty()) { if (!X.le(st, G.nA, Poly::c(1))) G.say(RI, "the range is not sorted"); return; }
        if (srt.empty() && mrg.empty()) { if (X.le(st, G.nA, Poly::c(1)) && (in ? X.eq(st, ga, Poly()) : X.eq(st, ga, G.nA))) return; G.say(RI, "the range is not sorted"); return; }
        if (!X.eq(st, ga, Poly())) { X.fail(RI, "elements moved besides sorting parts"); return; }
        Poly at; int flag = srt.empty() ? -1 : srt[0].flag; std::vector<Poly> cuts; auto rest = srt; size_t last = 0;
        while (!rest.empty()) {
          bool hit = false;
          for (size_t k = 0; k < rest.size() && !hit; k++) { auto& c = rest[k]; Poly i, j, x, y; if (!whole(c, 0, G.a, i, j) || !whole(c, 2, other, x, y)) { G.say(c.at, "something other than a part of the range is sorted through a part of the buffer"); return; } if (!X.eq(st, i, at)) continue; hit = true;
            if (!X.eq(st, x, i) || !X.eq(st, y, j)) G.say(c.at, "a part is sorted through another part of the buffer"); if (c.flag != flag) G.say(c.at, "the parts are sorted to different places"); if (!X.le(st, i, j)) G.say(c.at, "a part may have negative length"); if (!top && !X.le(st, j - i + Poly::c(1), G.nA)) G.say(c.at, "a recursive sort may be as large as the whole");
            last = std::max(last, c.pos); cuts.push_back(j); at = j; rest.erase(rest.begin() + k); }
          if (!hit) { G.say(RI, "the parts that are sorted leave a gap or overlap"); return; }
        }
        if (srt.empty() || !X.eq(st, at, G.nA)) { G.say(RI, "not the whole range is sorted"); return; }
        if (mrg.empty()) { if (srt.size() != 1 || !top || flag != 1) G.say(RI, "the sorted parts are not merged to where the result belongs"); return; }
        if (mrg.size() != 1 || cuts.size() != 2) { X.fail(RI, "a merge of more than two parts"); return; }
        auto& m = mrg[0]; const Poly &src = flag ? G.a : other, &dst = in ? G.a : other; Poly i, j, x, y; auto o = G.index(m.p[4], dst), oe = G.index(m.p[5], dst);
        if (m.pos < last) G.say(m.at, "parts are merged before they are sorted");
        if (!G.range(st, m.p[0], m.p[1], src, i, j) || !G.range(st, m.p[2], m.p[3], src, x, y)) G.say(m.at, "what is merged is not where the sorted parts are"); else if (!X.eq(st, i, Poly()) || !X.eq(st, j, cuts[0]) || !X.eq(st, x, cuts[0]) || !X.eq(st, y, G.nA)) G.say(m.at, "what is merged is not the sorted parts in order");
        if (flag == (in ? 1 : 0)) G.say(m.at, "parts are merged over themselves"); if (!o || !oe || !X.eq(st, *o, Poly()) || !X.eq(st, *oe, G.nA)) G.say(m.at, "the merge does not go to where the result belongs");
      }
    };
    X.run(s); std::string und; if (!X.bad.empty()) und = X.bad + " (" + where(X.badAt) + ")"; if (!rets && und.empty()) und = "no path reaches its end";
    R.functions.insert("drv_" + full); R.counts["paths"] += rets; R.counts["placements"] += G.takes; R.counts["comparisons"] += G.compares; R.counts["contracts"] += G.recs.size();
    if (!und.empty()) { R.counts["undecided drivers"]++; R.undecided.push_back(full + ": " + und); continue; }
    if (G.errs.empty()) R.add("merging", where(&F), true, full + ": holds on " + std::to_string(rets) + " paths");
    for (auto& e : G.errs) R.add("merging", e.first.substr(0, e.first.find('|')), false, full + ": " + e.second);
  }
  if (!drv) R.brk("no driver");
}
