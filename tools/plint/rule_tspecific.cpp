// S06: every thread reaches its own element, which was built exactly once before anybody could see it.
// Path-wise abstract interpretation with affine forms.  The chunk number is case-split (0, 1, k+2), so that
// chunk sizes are P, P, 2P*2^k; loops are summarised by their iteration number (linear and doubling variables).
#include "affine.h"
using namespace plint;
namespace {
using namespace plint::affine;
// the elements at positions [0, n) from V on are made (or destroyed) by the events before `upto`, each once
std::string cover(Ex& X, const St& s, const std::vector<Ev>& evs, size_t upto, Ev::K kind, const Poly& V, const Poly& n, const Poly* start) {
  Arith& A = X.A; Poly lo, hi; bool any = false;
  auto pos = [&](const Poly& ptr, Poly& out) { Poly d = ptr - V; out = Poly(); for (auto& t : d.t) { if (t.second % 64) return false; out.t[t.first] = t.second / 64; } return true; };
  auto mine = [&](const Ev& e) { Poly d = e.ptr - V; return !X.A.mentions(d, [&](int i) { for (auto& r : X.roots) if (r.second == i) return true; return false; }); };
  auto add = [&](const Poly& a, const Poly& b) { if (!any) { lo = a; hi = b; any = true; return true; } if (X.eq(s, a, hi)) { hi = b; return true; } if (X.eq(s, b, lo)) { lo = a; return true; } return false; };
  for (size_t i = 0; i < upto; i++) {
    auto& e = evs[i]; Poly p;
    if (e.k == kind) {
      if (!mine(e)) return "an element elsewhere is touched (" + A.at.str(e.ptr) + ")";
      if (!pos(e.ptr, p) || !add(p, p + Poly::c(1))) return "the positions are not consecutive";
      if (start && !X.eq(s, e.id, *start + p)) return "the element at position " + A.at.str(p) + " of the chunk is built for thread " + A.at.str(e.id);
    }
    if (e.k == Ev::Loop) {
      bool first = true, have = false; Poly a; int dir = 0;
      for (auto& b : e.bodies) {
        int k = 0; for (auto& x : b.first) { if (x.k == Ev::Loop) for (auto& y : x.bodies) for (auto& z : y.first) if (z.k == kind) return "nested loops"; if (x.k == kind) { k++; p = Poly(); if (!mine(x)) return "an element elsewhere is touched (" + A.at.str(x.ptr) + ")"; if (!pos(x.ptr, p)) return "the positions are not whole elements (" + A.at.str(x.ptr - V) + ")";
            if (start) { St t = s; t.sys = b.second; if (!X.eq(t, x.id, *start + p)) return "the element at position " + A.at.str(p) + " of the chunk is built for thread " + A.at.str(x.id); } } }
        if (k > 1) return "two elements in one iteration";
        if (first) have = k == 1; else if (have != (k == 1)) return "only some iterations handle an element";
        if (k) {
          Poly g = Poly::a(e.g), off = p - g; int d = 1; if (A.has(off, e.g)) { off = p + g; d = -1; if (A.has(off, e.g)) return "the iterations do not handle consecutive elements"; }
          if (!first && (off != a || d != dir)) return "the iterations do not handle consecutive elements"; a = off; dir = d;
        }
        first = false;
      }
      if (!have) continue;
      if (!(dir > 0 ? add(a, a + e.n) : add(a - e.n + Poly::c(1), a + Poly::c(1)))) return "the positions are not consecutive";
    }
  }
  if (!any) return X.eq(s, n, Poly()) ? "" : "no element is handled";
  if (!X.eq(s, lo, Poly()) || !X.eq(s, hi, n)) return "positions [" + A.at.str(lo) + ", " + A.at.str(hi) + ") are handled instead of [0, " + A.at.str(n) + ")";
  return "";
}
bool keepTs(const Function& f) {
  auto* sp = f.getSubprogram(); std::string d = dem(&f);
  if (sp && (sp->getName() == "get_chunk_data" || sp->getName() == "num_thread_ids" || sp->getName() == "get_thread_id")) return true;
  if (f.getName().starts_with("plint_")) return true;
  return d.find("std::function<X (unsigned") != std::string::npos;
}
}
RULE(tspecific) {
  const char* only = getenv("ONLY"); int drv = 0; std::set<Poly> mutexes; bool mutexBad = false;
  int64_t offC = memberOffset(M, "ThreadListChunkData", "chunk_id"), offP = memberOffset(M, "ThreadListChunkData", "chunk_position"); if (offC < 0) offC = 8; if (offP < 0) offP = 16;
  std::vector<Function*> fs; for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("drv_")) fs.push_back(&F);
  StructType* TT = nullptr; for (auto* t : M.getIdentifiedStructTypes()) if (t->getName() == "class.parlay::ThreadSpecific") TT = t;
  int64_t offChunks = -1, nChunks = 0;
  std::function<void(StructType*, int64_t)> find = [&](StructType* t, int64_t at) {
    for (unsigned i = 0; i < t->getNumElements(); i++) {
      int64_t o = at + M.getDataLayout().getStructLayout(t)->getElementOffset(i); auto* e = t->getElementType(i);
      if (auto* ar = dyn_cast<ArrayType>(e)) { if (offChunks < 0 && ar->getNumElements() > 4 && M.getDataLayout().getTypeAllocSize(ar->getElementType()) == 8) { offChunks = o; nChunks = ar->getNumElements(); } }
      else if (auto* st = dyn_cast<StructType>(e)) find(st, o);
    }
  };
  if (TT) find(TT, 0);
  if (offChunks < 0) { R.brk("no table of chunks found in ThreadSpecific"); return; }
  for (auto* Fp : fs) {
    Function& F = *Fp; std::string nm = F.getName().str().substr(4);
    if (only && ("," + std::string(only) + ",").find(",drv_" + nm + ",") == std::string::npos) continue;
    drv++;
    PrepOptions o; o.keep = keepTs; o.loops = true; prepare(F, o);
    if (getenv("SEQDUMP")) F.print(errs());
    bool plus = nm.find("plus") == 0, minus = nm.find("minus") == 0, diff = nm.find("diff") == 0 || nm.find("greater") == 0, same = nm.find("same") == 0; bool placed = nm.find("get") == 0 || nm.find("star") == 0 || nm.find("arrow") == 0, iter = nm.find("deref") == 0, inc = nm.find("inc") == 0, dec = nm.find("dec") == 0;
    int cfgs = placed || iter || inc || dec || plus || minus || same ? 3 : diff ? 7 : 1; long drvPaths = 0;
    std::map<std::string, std::string> errs; std::string undecided;
    for (int cfg = 0; cfg < cfgs; cfg++) {
      Ex X(F); Arith& A = X.A; X.offChunks = offChunks; X.nChunks = nChunks; St s; long rets = 0;
      X.P = A.fresh("P"); X.base.push_back(X.P - Poly::c(1)); X.TS = X.ptrRoot("TS");
      if (cfgs == 3) { if (cfg < 2) X.c = Poly::c(cfg); else { Poly k = A.fresh("k"); X.c = k + Poly::c(2); X.base.push_back(Poly::c(nChunks - 3) - k); } X.p = A.fresh("p"); X.base.push_back(X.size(X.c) - X.p - Poly::c(1)); }
      X.ids = A.fresh("ids"); X.base.push_back(X.ids - Poly::c(1));
      Poly cd = X.ptrRoot("chunk data"); s.mem.push_back({cd + Poly::c(offC), X.c}); s.mem.push_back({cd + Poly::c(offP), X.p});
      auto setArg = [&](unsigned i, const Poly& v) { if (i < F.arg_size()) s.env[F.getArg(i)] = v; };
      Poly id = A.fresh("id"), dst = X.ptrRoot("dst");
      if (nm == "place") { setArg(0, dst); setArg(1, id); } else { setArg(0, X.TS); if (iter || inc || dec || plus || minus || same) { setArg(1, X.c); setArg(2, X.p); } }
      X.zeroThere = nm != "ctor" && nm != "dtor"; X.bounds.push_back(X.ids); X.noUpper = plus || minus || inc || dec || nm == "visit";
      Poly d = A.fresh("d", false); if (plus || minus) { setArg(3, d); X.base.push_back(X.start(X.c) + X.p + (plus ? d : scale(d, -1))); }
      Poly e2, q2;
      if (diff) {   // from (e2, q2) up to (c, p)
        Poly k = A.fresh("k"), k3 = A.fresh("l"); Poly lo[] = {Poly(), Poly(), Poly(), Poly::c(1), Poly::c(1), k + Poly::c(2), k + Poly::c(2)}, hi[] = {Poly(), Poly::c(1), k + Poly::c(2), Poly::c(1), k + Poly::c(2), k + Poly::c(2), k + k3 + Poly::c(3)};
        e2 = lo[cfg]; X.c = hi[cfg]; X.p = A.fresh("p"); q2 = A.fresh("q"); X.base.push_back(X.size(X.c) - X.p - Poly::c(1)); X.base.push_back(X.size(e2) - q2 - Poly::c(1)); if (e2 == X.c) X.base.push_back(X.p - q2 - Poly::c(nm == "diff" ? 0 : 1));
        X.base.push_back(Poly::c(nChunks - 1) - X.c); setArg(1, X.c); setArg(2, X.p); setArg(3, e2); setArg(4, q2); X.bounds.push_back(X.c);
      }
      if (dec) { if (cfg == 0) X.base.push_back(X.p - Poly::c(1)); }
      std::vector<std::array<Poly, 3>> its;
      auto say = [&](const Instruction* I, const std::string& m) { errs[where(I) + "|" + m] = m; };
      X.source = [&](const Value* v, St& st) -> std::optional<Poly> {
        auto* cb = dyn_cast<CallBase>(v); if (!cb || !cb->getCalledFunction()) return std::nullopt; auto* f = cb->getCalledFunction(); auto* sp = f->getSubprogram();
        if (sp && sp->getName() == "get_chunk_data") return cd;
        if (sp && sp->getName() == "num_thread_ids") return X.ids;
        if (f->getName() == "plint_ok") { R.counts["comparisons"]++; if (!X.split(st, cb->getArgOperand(0), false).empty()) say(cb, "a comparison of iterators does not agree with their positions"); return Poly(); }
        if (f->getName() == "plint_it") {
          Poly c2 = X.ev(st, cb->getArgOperand(0)), p2 = X.ev(st, cb->getArgOperand(1)), t2 = X.ev(st, cb->getArgOperand(2));
          Ev e; e.k = Ev::Visit; e.at = cb; e.slot = c2; e.val = p2; e.ptr = t2; e.id = Poly::c(1); st.ev.push_back(e); return Poly();
        }
        return std::nullopt;
      };
      // position (c2, p2) is number `want` of the whole list
      auto isPos = [&](const St& st, const Instruction* I, const Poly& c2, const Poly& p2, const Poly& want, const std::string& what) {
        Poly cs = c2; if (!c2.isConst() && X.eq(st, c2, Poly())) cs = Poly();
        R.counts["positions"]++;
        if (!X.eq(st, X.start(cs) + p2, want)) say(I, what + " is position " + A.at.str(p2) + " of chunk " + A.at.str(c2) + ", not number " + A.at.str(want) + " of the list");
        else if (!X.le(st, Poly(), p2) || !X.le(st, p2 + Poly::c(1), X.size(cs))) say(I, what + " lies outside its chunk");
      };
      auto publications = [&](St& st) {
        for (size_t i = 0; i < st.ev.size(); i++) { auto& e = st.ev[i];
          if (e.k == Ev::Lock || e.k == Ev::Unlock) { Poly m = e.ptr - X.TS; mutexes.insert(m); if (!m.isConst()) mutexBad = true; }
          if (e.k == Ev::Store && e.isSlot && nm != "ctor") {
            R.counts["publications"]++;
            if (!e.locked) say(e.at, "a chunk is published without holding the lock");
            if (!atLeast(e.ord, AtomicOrdering::Release)) say(e.at, "a chunk is published without release ordering");
            bool re = false; for (size_t j = 0; j < i; j++) { auto& l = st.ev[j]; if (l.k == Ev::Load && l.locked && l.lockNo == e.lockNo && X.eq(st, l.slot, e.slot) && X.eq(st, l.val, Poly())) re = true; }
            if (!re) say(e.at, "a chunk is published although another thread may have published it: no check under the same lock");
          }
          if (e.k == Ev::Store && e.isSlot && e.val != Poly()) {
            const Ev* al = nullptr; for (size_t j = 0; j < i; j++) if (st.ev[j].k == Ev::Alloc && (e.val - st.ev[j].ptr).isConst()) al = &st.ev[j];
            if (!al) { say(e.at, "what is published is not a new chunk"); continue; }
            Poly head = e.val - al->ptr, n = X.size(e.slot), sz = head + scale(n, 64);
            if (!X.eq(st, al->n, sz)) say(e.at, "the chunk has room for " + A.at.str(al->n) + " bytes, not for " + A.at.str(sz));
            if (head == Poly::c(64)) { bool ck = false; for (size_t j = 0; j < i; j++) if (st.ev[j].k == Ev::Store && !st.ev[j].isSlot && X.eq(st, st.ev[j].ptr, e.val - Poly::c(8))) ck = X.eq(st, st.ev[j].val, n); if (!ck) say(e.at, "the chunk does not remember its number of elements"); }
            Poly sta = X.start(e.slot); size_t upto = nm == "ctor" ? st.ev.size() : i;
            auto m = cover(X, st, st.ev, upto, Ev::Make, e.val, n, &sta); if (!m.empty()) say(e.at, "elements built before the chunk is published: " + m);
            if (nm != "ctor") for (size_t j = i + 1; j < st.ev.size(); j++) { bool mk = st.ev[j].k == Ev::Make; if (st.ev[j].k == Ev::Loop) for (auto& b : st.ev[j].bodies) for (auto& x : b.first) mk |= x.k == Ev::Make; if (mk) say(st.ev[j].at, "an element is built after its chunk was published"); }
          }
          if (e.k == Ev::Loop && nm != "ctor" && nm != "dtor") for (auto& b : e.bodies) for (auto& x : b.first) if ((x.k == Ev::Store || x.k == Ev::Load) && x.isSlot) { undecided = "chunks are handled in a loop (" + where(x.at) + ")"; }
        }
      };
      auto present = [&](const St& st, const Poly& slot) { if (X.eq(st, slot, Poly())) return true; for (auto& e : st.ev) if (e.isSlot && X.eq(st, e.slot, slot) && X.le(st, Poly::c(1), e.val) && (e.k == Ev::Store || e.locked || atLeast(e.ord, AtomicOrdering::Acquire))) return true; return false; };
      auto visited = [&](St& st, const Poly& h, const Poly& from, const Poly& n, std::string& why) {
          if (!X.eq(st, from, X.start(h))) return false;
          for (auto& e : st.ev) if (e.isSlot && X.eq(st, e.slot, h) && X.le(st, Poly::c(1), e.val)) {
            auto m = cover(X, st, st.ev, st.ev.size(), Ev::Visit, e.val, n, nullptr);
            if (!m.empty()) { why = m; continue; }
            if (!present(st, h)) { why = "the chunk is used although its contents may not be visible yet"; continue; }
            return true;
          }
          return false;
      };
      X.onLeave = [&](St& st, const std::vector<Poly>& at, const Poly& h) {
        if (nm != "visit") return;
        bool vis = false; const Instruction* I = F.getEntryBlock().getTerminator(); for (auto& e : st.ev) { if (e.k == Ev::Visit) vis = true; if (e.k == Ev::Loop) for (auto& b : e.bodies) for (auto& x : b.first) if (x.k == Ev::Visit) { vis = true; I = e.at; } }
        std::string why = "the list is left before every thread's element was passed on"; bool ok = false;
        for (auto& v : at) { if (!vis && X.le(st, X.ids, v)) ok = true; if (vis && visited(st, h, v, X.ids - v, why)) ok = true; }
        publications(st);
        if (!ok) say(I, "visiting the last chunk: " + why);
      };
      if (nm == "visit") X.onBody = [&](St& st, const std::vector<Poly>& at, const std::vector<Poly>& next, const Poly& h) {
        publications(st); R.counts["chunks visited"]++;
        std::string why = "the elements of the chunk are not passed on in step with the thread number"; bool ok = false; const Instruction* I = F.getEntryBlock().getTerminator();
        for (auto& e : st.ev) if (e.k == Ev::Loop) I = e.at;
        for (size_t i = 0; i < at.size() && !ok; i++) {
          if (X.eq(st, next[i], at[i])) continue;
          ok = visited(st, h, at[i], next[i] - at[i], why);
          if (ok && !X.le(st, next[i], X.ids)) { ok = false; why = "elements of threads that do not exist are passed on"; }
        }
        if (!ok) say(I, "visiting a chunk: " + why);
      };
      X.onRet = [&](St& st, const ReturnInst* RI) {
        if (X.dead(st)) return; rets++;
        if (st.locked) say(RI, "the lock is still held at the end");
        publications(st);
        if (placed || iter) {
          Poly r = X.ev(st, RI->getReturnValue()); bool ok = false; R.counts["results"]++;
          for (auto& e : st.ev) if (e.isSlot && X.eq(st, e.slot, X.c) && X.eq(st, r, e.val + scale(X.p, 64))) ok = true;
          if (!ok) say(RI, "the result is not position " + A.at.str(X.p) + " of chunk " + A.at.str(X.c));
          else if (!present(st, X.c)) say(RI, "the chunk is used although it may not exist, or its contents may not be visible yet");
        }
        std::vector<Ev> out; for (auto& e : st.ev) if (e.k == Ev::Visit && e.id == Poly::c(1)) out.push_back(e);
        if (inc || dec) {
          bool post = nm.find("post") != std::string::npos; Poly at0 = X.start(X.c) + X.p, at1 = inc ? at0 + Poly::c(1) : at0 - Poly::c(1);
          if (out.size() != 2) { undecided = "two iterators expected"; return; }
          isPos(st, out[0].at, out[0].slot, out[0].val, at1, "the iterator"); isPos(st, out[1].at, out[1].slot, out[1].val, post ? at0 : at1, "the returned iterator");
          for (auto& e : out) if (!X.eq(st, e.ptr, X.TS)) say(e.at, "the iterator belongs to another list");
        }
        if (plus || minus) {
          if (out.size() != 2) { undecided = "two iterators expected"; return; }
          Poly at0 = X.start(X.c) + X.p, at1 = plus ? at0 + d : at0 - d; bool copy = nm == "plus" || nm == "minus";
          isPos(st, out[0].at, out[0].slot, out[0].val, copy ? at0 : at1, "the iterator"); isPos(st, out[1].at, out[1].slot, out[1].val, at1, "the returned iterator");
          for (auto& e : out) if (!X.eq(st, e.ptr, X.TS)) say(e.at, "the iterator belongs to another list");
        }
        if (nm == "visit" && !R.counts["chunks visited"]) undecided = "no loop over the chunks";
        if (nm.find("begin") == 0 || nm.find("end") == 0) {
          if (out.size() != 1) { undecided = "one iterator expected"; return; }
          isPos(st, out[0].at, out[0].slot, out[0].val, nm.find("begin") == 0 ? Poly() : X.ids, nm); if (!X.eq(st, out[0].ptr, X.TS)) say(RI, "the iterator belongs to another list");
        }
        if (nm == "diff") { Poly r = X.ev(st, RI->getReturnValue()), w = X.start(X.c) + X.p - X.start(e2) - q2; R.counts["results"]++; if (!X.eq(st, r, w)) say(RI, "the distance is " + A.at.str(r) + ", not " + A.at.str(w)); }
        if (nm == "place") { St t = st; Poly c2 = X.readMem(t, dst + Poly::c(offC), "c"), p2 = X.readMem(t, dst + Poly::c(offP), "p"); isPos(st, RI, c2, p2, id, "the place of a thread"); }
        if (nm == "ctor") {
          Poly cur; bool any = false, zero = false; size_t need = 0; (void)need; std::set<int64_t> nul; bool rest = false;
          for (auto& e : st.ev) {
            if (e.k == Ev::Store && e.isSlot && e.slot.isConst()) { if (e.val == Poly()) { nul.insert(e.slot.k()); if (e.slot == Poly()) zero = false; } else { if (e.slot == Poly()) zero = true; else say(e.at, "a later chunk is not empty at the start"); } }
            if (e.k == Ev::Loop) for (auto& b : e.bodies) for (auto& x : b.first) if (x.k == Ev::Store && x.isSlot) {
              Poly a = x.slot - Poly::a(e.g); if (!a.isConst() || x.val != Poly()) { undecided = "the table is filled in an unusual way"; continue; }
              if (a.k() == 0) zero = false;
              for (int64_t i = 0; i < nChunks; i++) if (i >= a.k() && X.le(st, Poly::c(i + 1), a + e.n)) nul.insert(i);
            }
          }
          (void)any; (void)cur; (void)rest;
          if (!zero) say(RI, "the first chunk is not there at the start");
          for (int64_t i = 1; i < nChunks; i++) if (!nul.count(i)) { say(RI, "chunk " + std::to_string(i) + " of the table is left uninitialised"); break; }
        }
        if (nm == "dtor") {
          Poly nx; 
          auto handle = [&](const std::vector<Ev>& evs, const St& t, const Instruction* at) -> std::optional<Poly> {   // one chunk: returns its slot
            std::vector<const Ev*> ld, fr; for (auto& x : evs) { if (x.k == Ev::Load && x.isSlot) ld.push_back(&x); if (x.k == Ev::Free) fr.push_back(&x); }
            if (ld.empty()) { if (!fr.empty()) say(fr[0]->at, "something else is given back"); return std::nullopt; }
            const Ev* l = ld[0]; bool null = X.eq(t, l->val, Poly());
            if (null) { if (!fr.empty()) say(fr[0]->at, "a missing chunk is given back"); return l->slot; }
            bool killed = false; for (auto& x : evs) { killed |= x.k == Ev::Kill; if (x.k == Ev::Loop) for (auto& b : x.bodies) for (auto& y : b.first) killed |= y.k == Ev::Kill; }
            if (!X.le(t, Poly::c(1), l->val) && !killed && fr.size() == 1) { say(at, "the elements of a chunk are not destroyed"); return l->slot; }
            if (!X.le(t, Poly::c(1), l->val)) { undecided = "a chunk is not tested for presence"; return l->slot; }
            if (fr.size() != 1 || !X.eq(t, fr[0]->ptr, l->val - Poly::c(64))) say(at, fr.empty() ? "a chunk is never given back" : "a chunk is given back more than once or at a wrong address");
            Poly ck; bool have = false; for (auto& m : t.mem) if (X.eq(t, m.first, l->val - Poly::c(8))) { ck = m.second; have = true; }
            if (getenv("TSDBG") && !have) { fprintf(stderr, "V=%s mem %zu\n", A.at.str(l->val).c_str(), t.mem.size()); for (auto& m : t.mem) fprintf(stderr, "  %s -> %s\n", A.at.str(m.first).c_str(), A.at.str(m.second).c_str()); }
            if (have) { auto m = cover(X, t, evs, evs.size(), Ev::Kill, l->val, ck, nullptr); if (!m.empty()) say(at, "elements destroyed with their chunk: " + m); } else say(at, "the elements of a chunk are not destroyed");
            R.counts["chunks freed"]++;
            return l->slot;
          };
          bool loop = false;
          for (auto& e : st.ev) if (e.k == Ev::Loop) {
            bool ours = false; for (auto& b : e.bodies) for (auto& x : b.first) ours |= x.isSlot; if (!ours) continue;
            loop = true;
            for (auto& b : e.bodies) { St t = st; t.sys = b.second; t.mem = e.mems[&b - &e.bodies[0]]; auto sl = handle(b.first, t, e.at); if (!sl) { say(e.at, "an iteration skips a chunk"); continue; } if (!X.eq(t, *sl, nx + Poly::a(e.g)) && !(nx == Poly() && X.eq(t, *sl, Poly::c(nChunks - 1) - Poly::a(e.g)))) say(e.at, "chunk " + A.at.str(*sl) + " is handled where chunk " + A.at.str(nx + Poly::a(e.g)) + " is due"); }
            nx = nx + e.n;
          }
          if (!loop) {
            std::set<Poly> seen; for (auto& e : st.ev) if (e.k == Ev::Load && e.isSlot) seen.insert(e.slot);
            if ((int64_t)seen.size() < nChunks) say(RI, "only " + std::to_string(seen.size()) + " of " + std::to_string(nChunks) + " chunks are looked at"); else undecided = "no loop over the chunks";
            return;
          }
          if (!X.eq(st, nx, Poly::c(nChunks))) say(RI, A.at.str(nx) + " chunks are handled, not " + std::to_string(nChunks));
        }
      };
      X.run(s);
      for (auto& e : X.errs) say(e.first, e.second);
      if (!X.bad.empty()) undecided = X.bad + " (" + where(X.badAt) + ")";
      if (!rets && undecided.empty()) R.brk("no path through drv_" + nm + " reaches its end");
      drvPaths += rets; R.counts["paths"] += rets;
    }
    R.functions.insert("drv_" + nm);
    if (!undecided.empty()) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": " + undecided); continue; }
    if (errs.empty()) R.add("own-element", where(&F), true, nm + ": holds on " + std::to_string(drvPaths) + " paths");
    for (auto& e : errs) R.add("own-element", e.first.substr(0, e.first.find('|')), false, nm + ": " + e.second);
  }
  if (!only && (mutexBad || mutexes.size() > 1)) R.add("one-lock", "ThreadSpecific", false, "chunks are added under different locks");
  if (!drv) R.brk("no driver");
}
