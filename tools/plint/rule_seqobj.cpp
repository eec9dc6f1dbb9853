// Container operations, analysed down to their memory: contents, sizes, lifetimes of elements and buffers.
#include "seqint.h"
#include "mem.h"
#include "llvm/IR/InstIterator.h"
using namespace plint;
namespace {
bool keepFn(const Function& f) {
  auto* sp = f.getSubprogram(); if (!sp) return false;
  std::string d = dem(&f);
  if (d.find("parlay::allocator<") != std::string::npos && (sp->getName() == "allocate" || sp->getName() == "deallocate")) return true;
  if (sp->getName() == "get_default_allocator" || sp->getName().starts_with("throw_exception_or_terminate")) return true;
  return false;
}
enum Op { None, Def, Copy, Move, CopyAs, MoveAs, Dtor, Make };
Op opOf(StringRef n) {
  if (n == "_ZN1XC1Ev" || n == "_ZN1XC2Ev") return Def;
  if (n == "_ZN1XC1ERKS_" || n == "_ZN1XC2ERKS_") return Copy;
  if (n == "_ZN1XC1EOS_" || n == "_ZN1XC2EOS_") return Move;
  if (n == "_ZN1XaSERKS_") return CopyAs;
  if (n == "_ZN1XaSEOS_") return MoveAs;
  if (n == "_ZN1XD1Ev" || n == "_ZN1XD2Ev") return Dtor;
  if (n == "plint_make") return Make;
  return None;
}
// contents of one sequence object in the specification: consecutive segments
struct Piece { Poly len; char kind; std::string obj; Poly from; };   // kind: 'e' elements of obj from `from` on, 'v' the given value, 'd' value-initialised, 'g' generated, 'r' elements of the range argument
struct Spec {
  bool known = false;
  std::map<std::string, std::vector<Piece>> obj;   // final contents of each object argument (absent: destroyed)
  std::string retObj; std::optional<Poly> retPos;   // returned position
  std::optional<Poly> retNum;
};
}
RULE(seqobj) {
  const char* only = getenv("ONLY"); int drv = 0;
  markParallel(M);
  std::vector<Function*> fs; for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("drv_")) fs.push_back(&F);
  for (auto* Fp : fs) {
    Function& F = *Fp; std::string nm = F.getName().str();
    if (only && ("," + std::string(only) + ",").find("," + nm + ",") == std::string::npos) continue;
    drv++;
    std::map<std::string, Argument*> arg;
    for (auto& BB : F) for (auto& I : BB) if (auto* d = dyn_cast<DbgVariableIntrinsic>(&I)) if (auto* v = d->getVariable(); v && v->getArg() && v->getArg() <= F.arg_size() && !d->getDebugLoc()->getInlinedAt()) arg[v->getName().str()] = F.getArg(v->getArg() - 1);
    PrepOptions o; o.keep = keepFn; o.loops = true;
    prepare(F, o);
    if (getenv("SEQDUMP")) F.print(errs());
    SeqInt S(F); S.raw = true; Arith& A = S.A; const Poly one = Poly::c(1);
    // element temporaries
    for (auto& I : instructions(F)) if (auto* al = dyn_cast<AllocaInst>(&I)) if (auto* st = dyn_cast<StructType>(al->getAllocatedType()); st && st->hasName() && (st->getName() == "struct.X" || st->getName() == "class.X")) {
      SArr a; a.name = "a temporary element"; a.base = S.baseAtom(al); a.size = one; a.hasSize = true; S.addArr(a);
    }
    struct Obj { std::string name; Argument* a; int arr = -1; Poly n, cap; };
    std::vector<Obj> objs;
    for (const char* k : {"s", "t"}) if (arg.count(k)) {
      Obj x; x.name = k; x.a = arg[k]; S.objects.insert(x.a);
      SArr b; b.name = std::string("the buffer of ") + k; Poly base = A.fresh(std::string("buffer(") + k + ")"); b.base = base.t.begin()->first[0]; b.role = SArr::InOut;
      x.n = A.fresh(std::string("size(") + k + ")"); x.cap = A.fresh(std::string("capacity(") + k + ")"); b.size = x.cap + one; b.hasSize = true;
      x.arr = S.addArr(b); objs.push_back(x);
    }
    if (arg.count("d")) S.objects.insert(arg["d"]);
    int av = -1, ar = -1; Poly c = arg.count("n") ? A.of(arg["n"]) : Poly(), k = arg.count("k") ? A.of(arg["k"]) : Poly(), k2 = arg.count("k2") ? A.of(arg["k2"]) : Poly();
    if (arg.count("v")) { SArr a; a.name = "v"; a.base = S.baseAtom(arg["v"]); a.role = nm.find("move") != std::string::npos ? SArr::InOut : SArr::Input; a.size = one; a.hasSize = true; av = S.addArr(a); }
    if (arg.count("r")) { SArr a; a.name = "range"; a.base = S.baseAtom(arg["r"]); a.role = SArr::Input; a.size = c; a.hasSize = true; ar = S.addArr(a); }
    std::map<const Value*, int> bufs;
    for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* f = cb->getCalledFunction(); f && f->getSubprogram() && f->getSubprogram()->getName() == "allocate") {
      SArr a; a.name = "a new buffer"; a.base = S.baseAtom(cb); a.size = A.fresh("slots"); a.hasSize = true; bufs[cb] = S.addArr(a);
    }
    auto N = [&](const char* x) { for (auto& q : objs) if (q.name == x) return q.n; return Poly(); };
    Poly n = N("s"), m = N("t");
    Spec sp; sp.known = true;
    auto E = [&](const char* ob, const Poly& from, const Poly& to) { return Piece{to - from, 'e', ob, from}; };
    auto V = [&](const Poly& len) { return Piece{len, 'v', "", Poly()}; };
    auto R0 = [&](const Poly& len) { return Piece{len, 'r', "", Poly()}; };
    auto ret = [&](const char* ob, const Poly& p) { sp.retObj = ob; sp.retPos = p; };
    Sys pre; const Poly z; std::string al;
    auto is = [&](const char* x) { return nm == std::string("drv_") + x; };
    auto all = [&](const char* x) { return std::vector<Piece>{E(x, z, N(x))}; };
    auto ins = [&](const Poly& at, const Piece& p) { return std::vector<Piece>{E("s", z, at), p, E("s", at, n)}; };
    auto G = [&](const Poly& len) { return Piece{len, 'g', "", Poly()}; };
    auto D = [&](const Poly& len) { return Piece{len, 'd', "", Poly()}; };
    if (is("dtor")) {}
    else if (is("ctor_n")) sp.obj["d"] = {D(c)};
    else if (is("ctor_fill")) sp.obj["d"] = {V(c)};
    else if (is("ctor_range")) sp.obj["d"] = {R0(c)};
    else if (is("ctor_empty")) sp.obj["d"] = {};
    else if (is("from_function")) sp.obj["d"] = {G(c)};
    else if (is("copy") || is("to_sequence")) sp.obj["d"] = all("s"), sp.obj["s"] = all("s");
    else if (is("move")) sp.obj["d"] = all("s"), sp.obj["s"] = {};
    else if (is("copy_assign")) sp.obj["s"] = sp.obj["t"] = all("t");
    else if (is("move_assign") || is("assign_seq")) sp.obj["s"] = all("t"), sp.obj["t"] = {};
    else if (is("self_assign") || is("self_move_assign")) sp.obj["s"] = all("s");
    else if (is("swap") || is("std_swap")) sp.obj["s"] = all("t"), sp.obj["t"] = all("s");
    else if (is("push_back") || is("push_back_move") || is("emplace_back_v")) { sp.obj["s"] = {E("s", z, n), V(one)}; ret("s", n); }
    else if (is("emplace_back")) { sp.obj["s"] = {E("s", z, n), D(one)}; ret("s", n); }
    else if (is("push_back_alias")) { pre.addGe(k); pre.addGe(n - one - k); sp.obj["s"] = {E("s", z, n), E("s", k, k + one)}; ret("s", n); }
    else if (is("pop_back")) { pre.addGe(n - one); sp.obj["s"] = {E("s", z, n - one)}; }
    else if (is("append_n")) { sp.obj["s"] = {E("s", z, n), V(c)}; ret("s", n); }
    else if (is("append_range")) { sp.obj["s"] = {E("s", z, n), R0(c)}; ret("s", n); }
    else if (is("append_copy")) { sp.obj["s"] = {E("s", z, n), E("t", z, m)}; sp.obj["t"] = all("t"); ret("s", n); }
    else if (is("append_seq_move")) { sp.obj["s"] = {E("s", z, n), E("t", z, m)}; sp.obj["t"] = {}; ret("s", n); }
    else if (is("insert") || is("insert_move") || is("emplace")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = ins(k, V(one)); ret("s", k); }
    else if (is("insert_alias")) { pre.addGe(k); pre.addGe(n - k); pre.addGe(k2); pre.addGe(n - one - k2); sp.obj["s"] = ins(k, E("s", k2, k2 + one)); ret("s", k); }
    else if (is("insert_n")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = ins(k, V(c)); ret("s", k); }
    else if (is("insert_range")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = ins(k, R0(c)); ret("s", k); }
    else if (is("insert_copy")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = ins(k, E("t", z, m)); sp.obj["t"] = all("t"); ret("s", k); }
    else if (is("insert_seq_move")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = ins(k, E("t", z, m)); sp.obj["t"] = {}; ret("s", k); }
    else if (is("erase")) { pre.addGe(k); pre.addGe(n - one - k); sp.obj["s"] = {E("s", z, k), E("s", k + one, n)}; ret("s", k); }
    else if (is("erase2")) { pre.addGe(k); pre.addGe(k2 - k); pre.addGe(n - k2); sp.obj["s"] = {E("s", z, k), E("s", k2, n)}; ret("s", k); }
    else if (is("resize_up")) { pre.addGe(c - n); sp.obj["s"] = {E("s", z, n), V(c - n)}; }
    else if (is("resize_down")) { pre.addGe(n - c); sp.obj["s"] = {E("s", z, c)}; }
    else if (is("resize_alias")) { pre.addGe(c - n); pre.addGe(k); pre.addGe(n - one - k); sp.obj["s"] = {E("s", z, n), Piece{c - n, 'c', "s", k}}; }
    else if (is("append_n_alias")) { pre.addGe(k); pre.addGe(n - one - k); sp.obj["s"] = {E("s", z, n), Piece{c, 'c', "s", k}}; ret("s", n); }
    else if (is("reserve")) sp.obj["s"] = all("s");
    else if (is("clear")) sp.obj["s"] = {};
    else if (is("assign_n")) sp.obj["s"] = {V(c)};
    else if (is("assign_range")) sp.obj["s"] = {R0(c)};
    else if (is("assign_list")) sp.obj["s"] = {R0(c)};
    else if (is("pop_tail")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = {E("s", z, k)}; sp.obj["d"] = {E("s", k, n)}; }
    else if (is("pop_tail_len")) { pre.addGe(k); pre.addGe(n - k); sp.obj["s"] = {E("s", z, n - k)}; sp.obj["d"] = {E("s", n - k, n)}; }
    else if (is("index") || is("at")) { pre.addGe(k); pre.addGe(n - one - k); sp.obj["s"] = all("s"); ret("s", k); }
    else if (is("begin") || is("data")) { sp.obj["s"] = all("s"); ret("s", z); }
    else if (is("end")) { sp.obj["s"] = all("s"); ret("s", n); }
    else if (is("front")) { pre.addGe(n - one); sp.obj["s"] = all("s"); ret("s", z); }
    else if (is("back")) { pre.addGe(n - one); sp.obj["s"] = all("s"); ret("s", n - one); }
    else if (is("size")) { sp.obj["s"] = all("s"); sp.retNum = n; }
    else { R.brk("no specification for " + nm); continue; }
    // ---- element operations and buffers
    auto place = [&](SState& st, const Value* p, int& arr, Poly& idx, const CallBase* cb) {
      if (S.locate(st, A.of(p), arr, idx)) return true;
      S.error(cb, "understood", "an element operation at an unknown place"); return false;
    };
    auto live = [&](const AV& v) { return v.k == AV::Seg; };
    S.onCall = [&](SeqInt&, SState& st, const CallBase& cb) -> bool {
      auto* f = cb.getCalledFunction(); if (!f) return false;
      if (auto* sp = f->getSubprogram()) {
        if (sp->getName() == "allocate" && bufs.count(&cb)) {
          int a = bufs[&cb]; if (st.owned.count(a)) { S.error(&cb, "understood", "a buffer is allocated repeatedly"); return true; }
          st.owned.insert(a); st.sys.addEq(scale(S.arrs[a].size, 8) - A.of(cb.getArgOperand(cb.arg_size() - 1))); st.sys.addGe(A.of(&cb) - one); if (!S.mute) S.counts["allocations"]++;
          return true;
        }
        if (sp->getName() == "deallocate" && cb.arg_size() >= 2) {
          int a; Poly ix; Poly p = A.of(cb.getArgOperand(cb.arg_size() - 2)); if (!S.mute) S.counts["deallocations"]++;
          if (!S.locate(st, p, a, ix)) { S.error(&cb, "buffer-freed-once", "gives back " + A.at.str(p) + ", which is not shown to be a buffer"); return true; }
          if (!A.eq(st.sys, ix, Poly())) S.error(&cb, "buffer-freed-once", "gives back the middle of " + S.arrs[a].name);
          if (st.freed.count(a)) S.error(&cb, "buffer-freed-once", "gives back " + S.arrs[a].name + " a second time");
          if (!A.eq(st.sys, scale(S.arrs[a].size, 8), A.of(cb.getArgOperand(cb.arg_size() - 1)))) S.error(&cb, "buffer-size", "gives back " + S.arrs[a].name + " with " + A.at.str(A.of(cb.getArgOperand(cb.arg_size() - 1))) + " bytes, allocated " + A.at.str(scale(S.arrs[a].size, 8)));
          if (getenv("SEQDBG5")) { fprintf(stderr, "dealloc of %s at %s\n", S.arrs[a].name.c_str(), where(&cb).c_str()); for (auto& f : st.fills[a]) fprintf(stderr, "  fill [%s,%s) = %s gen %d\n", A.at.str(f.lo).c_str(), A.at.str(f.hi).c_str(), f.var < 0 ? "-" : S.str(f.val).c_str(), f.gen); for (auto& g : st.sys.ge) fprintf(stderr, "    %s >= 0\n", A.at.str(g).c_str()); }
          if (!S.mute) {   // nothing alive is left in it
            Poly j = A.fresh("j"); SState q = st; q.sys.addGe(j - one); q.sys.addGe(S.arrs[a].size - one - j);
            std::function<void(SState&, size_t)> at = [&](SState& q, size_t fi) {
              if (A.unsat(q.sys, 2)) return;
              auto& v = q.fills[a];
              if (fi == 0) { if (S.arrs[a].role == SArr::InOut) S.error(&cb, "element-destroyed", "gives back " + S.arrs[a].name + " while it holds elements that were not destroyed"); return; }
              auto fl = v[fi - 1];
              SState in = q; in.sys.addGe(j - fl.lo); in.sys.addGe(fl.hi - one - j); if (!A.unsat(in.sys, 2) && !(fl.var >= 0 && fl.val.k == AV::Id)) S.error(&cb, "element-destroyed", "gives back " + S.arrs[a].name + " while it may hold elements that were not destroyed: [" + A.at.str(fl.lo) + ", " + A.at.str(fl.hi) + ") = " + S.str(fl.val));
              SState lo = q; lo.sys.addGe(fl.lo - one - j); at(lo, fi - 1);
              SState hi = q; hi.sys.addGe(j - fl.hi); at(hi, fi - 1);
            };
            at(q, q.fills[a].size());
          }
          st.freed.insert(a);
          return true;
        }
      }
      Op op = opOf(f->getName()); if (op == None) return false;
      int a; Poly i; if (!S.mute) S.counts["element operations"]++;
      if (!place(st, cb.getArgOperand(0), a, i, &cb)) return true;
      AV old = S.read(st, a, i, &cb), v; int b = -1; Poly bi;
      bool needLive = op == Dtor || op == CopyAs || op == MoveAs;
      if (op == Copy || op == Move || op == CopyAs || op == MoveAs) {
        if (!place(st, cb.getArgOperand(1), b, bi, &cb)) return true;
        v = S.read(st, b, bi, &cb);
        if (!live(v)) { S.error(&cb, "element-alive", "takes its value from " + S.arrs[b].name + "[" + A.at.str(bi) + "], not shown to hold an element"); v = AV(); }
      }
      if (needLive && !live(old)) S.error(&cb, op == Dtor ? "destroyed-once" : "element-alive", std::string(op == Dtor ? "destroys " : "assigns to ") + S.arrs[a].name + "[" + A.at.str(i) + "], not shown to hold an element");
      if (!needLive && old.k != AV::Id) S.error(&cb, "constructed-once", "constructs an element over " + S.arrs[a].name + "[" + A.at.str(i) + "], which is not shown to be vacant: " + S.str(old));
      if (op == Dtor) v = AV::id();
      if (op == Def) v = AV::seg(S.virt("T()"), Poly(), one);
      if (op == Make) { Poly j = A.of(cb.getArgOperand(1)); v = AV::seg(S.virt("f"), j, j + one); }
      S.write(st, a, i, v, &cb);
      if ((op == Move || op == MoveAs) && !(a == b && S.eq(st, i, bi))) S.write(st, b, bi, AV::seg(S.virt("moved-from"), Poly(), one), &cb);
      return true;
    };
    S.onRet = [&](SeqInt&, SState& st, const Instruction* I) {
      std::set<int> owned = st.owned; for (auto& x : objs) { auto it = st.fills.find(x.arr); (void)it; }
      std::map<int, std::string> owner;
      std::map<std::string, int> arrOf;
      for (auto& ob : sp.obj) {
        Value* root = arg[ob.first];
        auto cp = st.cells.find({root, 0}), cn = st.cells.find({root, 8});
        if (cp == st.cells.end() || cn == st.cells.end() || cp->second.k != AV::Num || cn->second.k != AV::Num) { S.error(I, "valid-object", ob.first + " is left without a buffer or size"); continue; }
        Poly len; for (auto& p : ob.second) len = len + p.len;
        if (!S.eq(st, cn->second.lo, len)) S.error(I, "right-size", "the size of " + ob.first + " is " + A.at.str(cn->second.lo) + ", required " + A.at.str(len));
        int a = -1; Poly ix;
        if (A.eq(st.sys, cp->second.lo, Poly())) { if (!A.le(st.sys, len, Poly())) S.error(I, "right-size", ob.first + " has no buffer although it holds elements"); }
        else if (!S.locate(st, cp->second.lo, a, ix) || !A.eq(st.sys, ix, Poly())) S.error(I, "valid-object", ob.first + " is left with something that is not a buffer");
        else if (st.freed.count(a)) S.error(I, "valid-object", ob.first + " is left with a buffer that was given back");
        else {
          if (owner.count(a)) S.error(I, "valid-object", ob.first + " shares its buffer with " + owner[a]);
          owner[a] = ob.first;
          AV cap = S.read(st, a, Poly(), I);
          if (cap.k != AV::Num || !A.eq(st.sys, cap.lo + one, S.arrs[a].size)) S.error(I, "buffer-size", "the recorded capacity of " + ob.first + " is not what was allocated");
          if (!A.le(st.sys, len + one, S.arrs[a].size)) S.error(I, "right-size", ob.first + " holds more elements than its buffer has room for");
          // slot by slot
          Poly j = A.fresh("j"); SState q0 = st; q0.sys.addGe(j - one); q0.sys.addGe(S.arrs[a].size - one - j);
          auto want = [&](SState& q, const Fill* f, bool init) {
            auto bad = [&](const std::string& w) { S.error(I, "right-contents", "slot " + A.at.str(j - one) + " of " + ob.first + " holds " + (f ? S.str(f->var >= 0 ? S.inst(*f, j) : AV()) : init ? std::string("an element it held before") : std::string("nothing")) + ", required " + w); };
            Poly at = one; AV have = f ? S.inst(*f, j) : init ? AV::seg(a, j, j + one) : AV::id();
            for (auto& p : ob.second) {
              SState r = q; r.sys.addGe(j - at); r.sys.addGe(at + p.len - one - j); Poly lo = at; at = at + p.len;
              if (A.unsat(r.sys, 2)) continue;
              AV w; Poly pos = j - lo + p.from;
              if (p.kind == 'e' || p.kind == 'c') { for (auto& x : objs) if (x.name == p.obj) { Poly e = (p.kind == 'c' ? p.from : pos) + one; w = AV::seg(x.arr, e, e + one); } }
              else if (p.kind == 'v') w = AV::seg(av, Poly(), one);
              else if (p.kind == 'r') w = AV::seg(ar, pos, pos + one);
              else if (p.kind == 'd') w = AV::seg(S.virt("T()"), Poly(), one);
              else w = AV::seg(S.virt("f"), pos, pos + one);
              if (!S.same(r, have, w)) bad(S.str(w));
            }
            SState r = q; r.sys.addGe(j - at); if (!A.unsat(r.sys, 2) && have.k != AV::Id) bad("nothing, lying beyond the end");
          };
          std::function<void(SState&, size_t)> go = [&](SState& q, size_t fi) {
            if (A.unsat(q.sys, 2)) return;
            auto& v = q.fills[a];
            if (fi == 0) { want(q, nullptr, S.arrs[a].role == SArr::InOut); return; }
            Fill fl = v[fi - 1];
            SState in = q; in.sys.addGe(j - fl.lo); in.sys.addGe(fl.hi - one - j); if (!A.unsat(in.sys, 2)) want(in, &fl, false);
            SState lo = q; lo.sys.addGe(fl.lo - one - j); go(lo, fi - 1);
            SState hi = q; hi.sys.addGe(j - fl.hi); go(hi, fi - 1);
          };
          go(q0, q0.fills[a].size());
          arrOf[ob.first] = a;
        }
      }
      for (int a : st.owned) if (!st.freed.count(a) && !owner.count(a)) S.error(I, "buffer-freed-once", S.arrs[a].name + " is neither owned by an object nor given back");
      for (size_t a = 0; a < S.arrs.size(); a++) if (S.arrs[a].name == "a temporary element") if (AV v = S.read(st, a, Poly(), I); v.k != AV::Id) S.error(I, "element-destroyed", "a temporary element is not destroyed");
      if (av >= 0) if (AV v = S.read(st, av, Poly(), I); v.k != AV::Seg) S.error(I, "element-alive", "the argument was destroyed");
      auto* r = cast<ReturnInst>(I)->getReturnValue();
      if (sp.retNum) { if (!r || !S.eq(st, A.of(r), *sp.retNum)) S.error(I, "right-result", "returns " + (r ? A.at.str(A.of(r)) : std::string("nothing")) + ", required " + A.at.str(*sp.retNum)); S.counts["results"]++; }
      if (sp.retPos) {
        Poly base; if (arrOf.count(sp.retObj)) base = Poly::a(S.arrs[arrOf[sp.retObj]].base) + Poly::c(8);
        Poly want = base + scale(*sp.retPos, 8);
        if (!r || !S.eq(st, A.of(r), want)) S.error(I, "right-result", "returns " + (r ? A.at.str(A.of(r)) : std::string("nothing")) + ", required " + A.at.str(want)); S.counts["results"]++;
      }
    };
    // ---- run for every combination of "no buffer" / "with buffer"
    for (unsigned mask = 0; mask < (1u << objs.size()); mask++) {
      SState st; st.sys = pre;
      for (size_t i = 0; i < objs.size(); i++) {
        auto& x = objs[i]; bool buf = mask >> i & 1;
        if (!buf) { st.sys.addEq(x.n); st.sys.addEq(x.cap); st.cells[{x.a, 0}] = AV::num(Poly()); st.cells[{x.a, 8}] = AV::num(Poly()); continue; }
        st.sys.addGe(x.cap - x.n); st.sys.addGe(Poly::a(S.arrs[x.arr].base) - one);
        st.cells[{x.a, 0}] = AV::num(Poly::a(S.arrs[x.arr].base)); st.cells[{x.a, 8}] = AV::num(x.n); st.owned.insert(x.arr);
        Fill c; c.lo = Poly(); c.hi = one; c.var = A.fresh("k").t.begin()->first[0]; c.val = AV::num(x.cap); c.gen = -2; st.fills[x.arr].push_back(c);
        Fill d; d.lo = x.n + one; d.hi = x.cap + one; d.var = A.fresh("k").t.begin()->first[0]; d.val = AV::id(); d.gen = -3; st.fills[x.arr].push_back(d);
      }
      if (A.unsat(st.sys, 2)) continue;
      S.run(st);
    }
    R.functions.insert(nm);
    for (auto& c : S.counts) R.counts[c.first] += c.second;
    R.counts["paths"] += S.paths;
    if (S.errs.empty()) R.add("container-operation", where(&F), true, nm + ": every path leaves exactly the specified contents, every element and buffer accounted for");
    // a construct outside the model leaves the driver undecided: whatever else was derived after it means nothing
    const SeqInt::Err* un = nullptr; for (auto& e : S.errs) if (e.second.rule == "not-modelled") { un = &e.second; break; }
    if (un) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": " + un->msg + " (" + un->where + ")"); continue; }
    for (auto& e : S.errs) R.add(e.second.rule, e.second.where, false, nm + ": " + e.second.msg);
    if (!S.paths) R.brk("no path through " + nm + " reaches its end");
  }
  if (!drv) R.brk("no driver");
}
