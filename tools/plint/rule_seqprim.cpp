// Sequence primitives: what every reduce / scan / pack / filter / split computes, for every input length.
#include "seqint.h"
#include "mem.h"
#include <cstring>
using namespace plint;
namespace {
bool keepFn(const Function& f) {
  std::string n, e;
  if (seqMember(f, n, e)) {   // members whose own loops are part of what is analysed are looked into
    if (n == "from_function" || n.rfind("from_function<", 0) == 0 || n.rfind("initialize_range", 0) == 0) return false;
    if (n.rfind("sequence", 0) == 0) { std::string d = dem(&f); if (d.find("_from_function_tag") != std::string::npos) return false; auto p = d.find(", 0>("); if (p != std::string::npos) return false; }
    return true;
  }
  if (storageMember(f, n, e)) return n != "storage_impl" && n != "initialize" && n != "initialize_explicit" && n.rfind("initialize<", 0) && n.rfind("initialize_with", 0) && n != "destroy" && n != "get_T_allocator";
  auto* sp = f.getSubprogram(); if (!sp) return false;
  if (sp->getName() == "get_default_allocator" || sp->getName().starts_with("write_min<")) return true;
  std::string d = dem(&f);
  if (sp->getName().starts_with("reduce<") && (d.find("internal::reduce<parlay::sequence<double") != std::string::npos || d.find("internal::reduce<parlay::sequence<unsigned long") != std::string::npos)) return true;
  if (sp->getName().starts_with("scan_<") && d.find("internal::scan_<parlay::slice<unsigned long") != std::string::npos) return true;
  return false;
}
}
RULE(seqprim) {
  const char* only = getenv("ONLY");
  int drv = 0;
  std::vector<Function*> fs; for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("drv_")) fs.push_back(&F);
  markParallel(M);
  for (auto* Fp : fs) {
    Function& F = *Fp; std::string nm = F.getName().str();
    if (only && ("," + std::string(only) + ",").find("," + nm + ",") == std::string::npos) continue;
    drv++;
    std::map<std::string, Argument*> arg;    // arguments by source name
    for (auto& BB : F) for (auto& I : BB) if (auto* d = dyn_cast<DbgVariableIntrinsic>(&I)) if (auto* v = d->getVariable(); v && v->getArg() && v->getArg() <= F.arg_size() && !d->getDebugLoc()->getInlinedAt()) arg[v->getName().str()] = F.getArg(v->getArg() - 1);
    PrepOptions o; bool self = nm == "drv_reduce_seq";   // one level of the recursion, its inner call stays
    o.keep = [&](const Function& f) { return !(self && f.getSubprogram() && f.getSubprogram()->getName().starts_with("reduce<")) && keepFn(f); }; o.loops = true;
    if (nm.find("zip") != std::string::npos || nm.find("enumerate") != std::string::npos) o.pipeline = std::string(kLoopPipeline) + ",loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>";   // std::min over a two-element list
    prepare(F, o);
    if (getenv("SEQDUMP")) F.print(errs());
    SeqInt S(F); Arith& A = S.A; Sys pre;
    Poly n = arg.count("n") ? A.of(arg["n"]) : Poly();
    auto ext = [&](const char* name, SArr::Role role, int64_t es, const Poly& size, const char* key = "") { SArr a; a.name = name; a.base = S.baseAtom(arg[name]); a.esz = es; a.role = role; a.size = size; a.hasSize = true; a.key = key; return S.addArr(a); };
    int in = -1, out = -1, fl = -1; bool isPred = nm.find("filter") != std::string::npos;
    bool remove = nm == "drv_remove_if", uniq = nm == "drv_unique"; if (remove) isPred = false;
    std::string key = isPred ? "pred" : "flag";
    if (arg.count("in")) in = ext("in", SArr::Input, 8, n);
    if (arg.count("fl")) fl = ext("fl", SArr::Flags, 1, n, "flag");
    Poly total = nm.find("pack") != std::string::npos || isPred ? A.pf(key, n) : n;
    if (arg.count("out")) { out = ext("out", SArr::Out, 8, nm.find("pack") != std::string::npos || isPred ? n : n, ""); S.arrs[out].covered = true; }
    if (arg.count("seq")) { in = S.seqArr(arg["seq"], 8); S.arrs[in].role = SArr::Input; S.arrs[in].name = "seq"; n = S.arrs[in].size; total = n; }
    if (nm.find("inplace") != std::string::npos) { out = in; S.arrs[in].covered = true; }
    static const std::set<std::string> searches{"drv_find_if", "drv_find_if_not", "drv_adjacent_find", "drv_mismatch", "drv_equal", "drv_lexicographical_compare", "drv_is_sorted_until", "drv_is_partitioned", "drv_search", "drv_find_end"};
    bool find = searches.count(nm); if (find) S.search = S.noWrap = true;
    bool window = nm == "drv_search" || nm == "drv_find_end"; S.windows = window;
    bool inlineCount = nm.find("count") != std::string::npos; if (inlineCount) { isPred = true; key = "pred"; total = A.pf(key, n); }
    if (remove) total = n - A.pf("pred", n);
    if (nm == "drv_dl_scan") nm = "drv_scan"; if (nm == "drv_dl_scan_incl") nm = "drv_scan_incl";
    auto has = [&](const char* x) { return nm.find(x) != std::string::npos; };
    int first = nm == "drv_dl_scan_map" || nm == "drv_dl_zip_with" || has("dl_foreach") || has("dl_reduce") || has("dl_map_ra") || has("enumerate") ? S.virt("f(in)") : in;   // what the elements are
    int visited = has("dl_zip") ? S.virt("(in, in2)") : first;
    if (nm == "drv_dl_scan_map") nm = "drv_scan"; if (nm == "drv_dl_map_scan") nm = "drv_scan_incl";
    const std::string dup = "eq(in+0,in-1)"; if (uniq) { total = n - A.pf(dup, n); pre.addEq(A.pf(dup, Poly::c(1))); }
    int in2 = -1; Poly n2; if (arg.count("in2")) { n2 = A.of(arg["n2"]); in2 = ext("in2", SArr::Input, 8, n2); if (nm == "drv_append") total = n + n2; if (nm.find("zip") != std::string::npos) total = A.mn(n, n2); }
    if (nm == "drv_rotate") pre.addGe(n - A.of(arg["t"]));
    if (nm == "drv_for_each" || nm.find("dl_foreach") != std::string::npos || (nm.find("dl_zip") != std::string::npos && nm != "drv_dl_zip_size") || nm == "drv_dl_enumerate") { SArr a; a.name = "visited elements"; a.base = A.fresh("visited").t.begin()->first[0]; a.role = SArr::Out; a.covered = true; out = S.addArr(a); }
    if (nm == "drv_reverse_inplace") S.arrs[in].covered = false, S.arrs[in].role = SArr::InOut, out = -1;
    int codes = -1; if (arg.count("code")) { codes = ext("code", SArr::Codes, 1, n, "code"); S.boolBytes = false; }
    bool split2 = nm.find("split_two") != std::string::npos, split3 = nm.find("split_three") != std::string::npos;
    Poly n0, n1; if (split2) n0 = n - A.pf("flag", n); if (split3) { n0 = A.pf("code=0", n); n1 = A.pf("code=1", n); } (void)codes;
    // a returned sequence
    for (auto& BB : F) for (auto& I : BB) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "plint_result") { out = S.seqArr(cb->getArgOperand(0), 8); S.arrs[out].role = SArr::Out; S.arrs[out].covered = true; S.arrs[out].name = "result"; }
    auto one = Poly::c(1);
    S.onOut = [&](SeqInt&, SState& st, int arr, const Poly& idx, const AV& v) -> std::string {
      if (nm.rfind("drv_scan", 0) == 0) {
        AV want = AV::seg(first, Poly(), nm.find("incl") != std::string::npos ? idx + one : idx);
        return S.same(st, v, want) ? "" : "expected the combination of the elements before it (" + S.str(want) + ")";
      }
      if (split2 || split3) {
        if (v.k != AV::Seg || v.arr != in || !A.eq(st.sys, v.hi, v.lo + one)) return "expected an input element";
        Poly e = v.lo; auto at = [&](const char* k) { return A.pf(k, e); };
        auto is = [&](const char* k, int b) { return A.eq(st.sys, A.pf(k, e + one) - A.pf(k, e), Poly::c(b)); };
        Poly want;
        if (split2) { if (is("flag", 0)) want = e - at("flag"); else if (is("flag", 1)) want = n0 + at("flag"); else return "the class of element [" + A.at.str(e) + "] is not known"; }
        else if (is("code=0", 1)) want = at("code=0"); else if (is("code=1", 1)) want = n0 + at("code=1");
        else if (is("code=0", 0) && is("code=1", 0)) want = n0 + n1 + e - at("code=0") - at("code=1"); else return "the class of element [" + A.at.str(e) + "] is not known";
        return A.eq(st.sys, idx, want) ? "" : "its position in the output must be [" + A.at.str(want) + "]";
      }
      auto elt = [&](int a, const Poly& e, const char* what) -> std::string { return S.same(st, v, AV::seg(a, e, e + one)) ? "" : std::string("expected ") + what + " [" + A.at.str(e) + "]"; };
      if (nm.find("tabulate") != std::string::npos) return elt(S.virt("gen"), idx, "the generated element");
      if (nm == "drv_map" || nm == "drv_dl_map" || nm == "drv_dl_map_ra" || has("dl_foreach") || has("enumerate")) return elt(S.virt("f(in)"), idx, "the image of element");
      if (nm == "drv_copy" || nm == "drv_to_sequence" || nm == "drv_for_each") return elt(in, idx, "element");
      if (has("dl_zip")) return elt(visited, idx, "the pair at");
      if (nm == "drv_reverse") return elt(in, n - one - idx, "element");
      if (nm == "drv_rotate") { Poly t = A.of(arg["t"]); if (A.lt(st.sys, idx + t, n)) return elt(in, idx + t, "element"); if (A.le(st.sys, n, idx + t)) return elt(in, idx + t - n, "element"); return "the element does not depend on whether the position wraps around"; }
      if (nm == "drv_append") { if (A.lt(st.sys, idx, n)) return elt(in, idx, "first range element"); if (A.le(st.sys, n, idx)) return elt(in2, idx - n, "second range element"); return "the element does not depend on which range the position falls into"; }
      if (remove || uniq) {
        if (v.k != AV::Seg || v.arr != in || !A.eq(st.sys, v.hi, v.lo + one)) return "expected an input element";
        std::string k = remove ? "pred" : dup;
        if (!A.eq(st.sys, A.pf(k, v.lo + one), A.pf(k, v.lo))) return "element [" + A.at.str(v.lo) + "] is not shown to be one that stays";
        return A.eq(st.sys, idx, v.lo - A.pf(k, v.lo)) ? "" : "position differs from the number of elements that stay before it";
      }
      if (nm.find("pack") != std::string::npos || isPred) {
        Poly e;
        if (nm.find("index") != std::string::npos) { if (v.k != AV::Num) return "expected an index"; e = v.lo; }
        else { if (v.k != AV::Seg || v.arr != in || !A.eq(st.sys, v.hi, v.lo + one)) return "expected an input element"; e = v.lo; }
        if (!A.eq(st.sys, A.pf(key, e + one) - A.pf(key, e), one)) return "element [" + A.at.str(e) + "] is not shown to be selected";
        if (!A.eq(st.sys, idx, A.pf(key, e))) return "position differs from the number of selected elements before it";
        return "";
      }
      return "";
    };
    bool sawResult = false;
    S.onCall = [&](SeqInt&, SState& st, const CallBase& cb) -> bool {
      auto* c = cb.getCalledFunction(); if (!c) return false;
      if (c->getName() == "plint_ptr") {
        sawResult = true; int a; Poly R; if (!S.mute) S.counts["returned values"]++;
        if (!S.locate(st, A.of(cb.getArgOperand(0)), a, R)) { S.error(&cb, "complete", "returns an unknown position"); return true; }
        bool second = nm == "drv_mismatch" && a == in2;
        if (a != in && !second) { S.error(&cb, "complete", "returns a position in the wrong range"); return true; }
        // first position in [0,N) whose flag is `on`; off: where position 0 is counted
        auto first = [&](const std::string& k, Poly R, const Poly& N, int off, bool on) -> std::string {
          Poly o = Poly::c(off); SState q = st; 
          if (!A.le(q.sys, Poly(), R) || !A.le(q.sys, R, N)) return "the position [" + A.at.str(R) + "] is not shown to lie in the range";
          if (!S.eq(q, A.pf(k, R + o) - A.pf(k, o), on ? Poly() : R)) return "there may be a match before the returned position [" + A.at.str(R) + "]";
          q.sys.addGe(N - one - R);
          if (!A.unsat(q.sys, 2) && !S.eq(q, A.pf(k, R + o + one) - A.pf(k, R + o), Poly::c(on))) return "the returned position [" + A.at.str(R) + "] is not shown to match";
          return "";
        };
        std::string e;
        if (window) {   // end, or a place where the whole pattern fits
          if (!A.le(st.sys, Poly(), R) || !A.le(st.sys, R, n)) e = "the position [" + A.at.str(R) + "] is not shown to lie in the range";
          SState q = st; q.sys.addGe(n - one - R); Sys f = q.sys; f.addGe(R + n2 - n - one); if (e.empty() && !A.unsat(f, 2)) e = "the returned position [" + A.at.str(R) + "] may leave no room for the pattern";
        }
        if (nm == "drv_find_if" || nm == "drv_find_if_not") e = first("pred", R, n, 0, nm == "drv_find_if");
        if (nm == "drv_mismatch") { SState q = st; Poly N = A.mn(n, n2); e = first("eq(in+0,in2+0)", R, N, 0, false); }
        if (nm == "drv_adjacent_find" || nm == "drv_is_sorted_until") {
          bool adj = nm == "drv_adjacent_find"; std::string k = adj ? "eq(in-1,in+0)" : "lt(in+0,in-1)"; SState keep = st;
          auto with = [&](const Poly& fact, const Poly& pos, const Poly& N) { st = keep; st.sys.addGe(fact); if (e.empty() && !A.unsat(st.sys, 2)) e = first(k, pos, N, 1, true); };
          with(Poly::c(1) - n, adj ? R - n : R - n, Poly());                                      // fewer than two elements: the end
          if (adj) { keep.sys.addGe(n - Poly::c(2)); with(R - n, R - one, n - one); with(n - one - R, R, n - one); }   // end means no pair
          else { keep.sys.addGe(n - Poly::c(2)); with(Poly(), R - one, n - one); }
          st = keep;
        }
        if (!e.empty()) S.error(&cb, "first-match", e);
        return true;
      }
      if (c->getName() == "plint_visit") {
        AV v = S.val(st, cb.getArgOperand(0)); if (v.k != AV::Seg || v.arr != visited) { S.error(&cb, "right-value", "the function is applied to " + S.str(v)); return true; }
        S.write(st, out, v.lo, v, &cb); return true;
      }
      if (c->getName() == "plint_at") {
        Poly i = A.of(cb.getArgOperand(0)); AV a = S.val(st, cb.getArgOperand(1));
        if (a.k != AV::Seg || a.arr != first || !A.eq(st.sys, a.lo, i)) S.error(&cb, "right-value", "pairs position [" + A.at.str(i) + "] with " + S.str(a));
        st.env[&cb] = a; return true;
      }
      if (c->getName() == "plint_zip") {
        AV a = S.val(st, cb.getArgOperand(0)), b = S.val(st, cb.getArgOperand(1));
        if (a.k != AV::Seg || b.k != AV::Seg || a.arr != first || b.arr != in2 || !A.eq(st.sys, a.lo, b.lo) || !A.eq(st.sys, a.hi, a.lo + one)) { S.error(&cb, "right-value", "pairs " + S.str(a) + " with " + S.str(b)); st.env[&cb] = AV(); return true; }
        st.env[&cb] = AV::seg(visited, a.lo, a.hi); return true;
      }
      if (c->getName() == "plint_counts") {
        if (!S.eq(st, A.of(cb.getArgOperand(0)), n0) || (split3 && !S.eq(st, A.of(cb.getArgOperand(1)), n1))) S.error(&cb, "complete", "the returned class sizes are not the numbers of elements of each class");
        S.counts["returned values"]++; return true;
      }
      if (c->getName() == "plint_result") {
        sawResult = true; std::string why;
        if (!S.coversExactly(st, out, Poly(), total, why)) S.error(&cb, "complete", "result: " + why);
        if (!S.eq(st, S.arrs[out].size, total)) S.error(&cb, "complete", "the result has length " + A.at.str(S.arrs[out].size) + ", required " + A.at.str(total));
        return true;
      }
      std::string d = dem(c);
      if (keepFn(*c) && d.find("internal::reduce<parlay::sequence<unsigned long") != std::string::npos) {
        int a = S.seqArr(cb.getArgOperand(0), 8); std::vector<Fill> fs; for (auto& f : st.fills[a]) if (f.gen != -1) fs.push_back(f);
        Poly G; if (!S.mute) S.counts["recursive reductions"]++;
        if (d.find("plus<unsigned long>") == std::string::npos) S.error(&cb, "understood", "reduction of integers with an unknown operation");
        else if (fs.size() == 1 && A.eq(st.sys, fs[0].lo, Poly()) && A.eq(st.sys, fs[0].hi, S.arrs[a].size) && S.telescope(st, fs[0], G))
          st.sys.addEq(A.of(&cb) - (A.subst(G, {{fs[0].var, fs[0].hi}}) - A.subst(G, {{fs[0].var, fs[0].lo}})));
        else S.error(&cb, "in-order", "the partial counts are not shown to be those of consecutive pieces of the input");
        return true;
      }
      if (keepFn(*c) && d.find("internal::reduce<") != std::string::npos) {
        int a = S.seqArr(cb.getArgOperand(0), 8); AV v;
        std::vector<Fill> fs = st.fills[a];
        if (fs.size() == 1 && A.eq(st.sys, fs[0].lo, Poly()) && A.eq(st.sys, fs[0].hi, S.arrs[a].size)) { if (S.summary(fs[0], st.sys, v)) { Poly len = S.arrs[a].size; if (!A.lt(st.sys, Poly(), len)) v = AV(); } }
        if (S.arrs[a].role == SArr::Input) v = AV::seg(a, Poly(), S.arrs[a].size);
        if (v.k == AV::Top && !S.mute) S.error(&cb, "in-order", "the partial results are not shown to be consecutive pieces of the input");
        if (!S.mute) S.counts["recursive reductions"]++;
        st.env[&cb] = v; return true;
      }
      if (keepFn(*c) && d.find("internal::scan_<") != std::string::npos) {
        auto cell = [&](int64_t off) -> std::optional<Poly> { Loc l = locOf(*A.DL, cb.getArgOperand(0)); auto it = st.cells.find({l.root, l.off + off}); if (it == st.cells.end() || it->second.k != AV::Num) return std::nullopt; return it->second.lo; };
        auto b = cell(0), e = cell(8); int ai = -1, ao = -1, ae = -1; Poly ib, ie, ob;
        if (!b || !e || !S.locate(st, *b, ai, ib) || !S.locate(st, *e, ae, ie) || ai != ae || !S.locate(st, A.of(cb.getArgOperand(1)), ao, ob) || ao != ai) { S.error(&cb, "understood", "prefix sum over an unknown range"); return true; }
        if (d.find("plus<unsigned long>") == std::string::npos) S.error(&cb, "understood", "prefix combination of integers with an unknown operation");
        auto* flg = dyn_cast<ConstantInt>(cb.getArgOperand(cb.arg_size() - 2));
        if (!flg || flg->getZExtValue() & 16) S.error(&cb, "understood", "prefix sum with unexpected flags");
        std::vector<Fill> fs = st.fills[ai]; std::vector<Fill> live; for (auto& f : fs) if (f.gen != -1) live.push_back(f);
        if (live.empty()) live = fs;
        Poly G; bool ok = live.size() == 1 && A.eq(st.sys, live[0].lo, ib) && A.eq(st.sys, live[0].hi, ie) && A.eq(st.sys, ib, ob) && S.telescope(st, live[0], G);
        if (!S.mute) S.counts["prefix sums"]++;
        if (!ok) { if (A.eq(st.sys, ib, ie)) { st.sys.addEq(A.of(&cb)); return true; }
          S.error(&cb, "in-order", "the per-block counts are not shown to cover consecutive blocks"); st.fills[ai].clear(); return true; }
        Fill f = live[0]; Poly G0 = A.subst(G, {{f.var, f.lo}}); f.val = AV::num(G - G0); f.gen = st.gen;
        st.fills[ai].clear(); st.fills[ai].push_back(f);
        if (!cb.getType()->isVoidTy()) st.sys.addEq(A.of(&cb) - (A.subst(G, {{f.var, f.hi}}) - G0));
        return true;
      }
      return false;
    };
    S.onRet = [&](SeqInt&, SState& st, const Instruction* I) {
      auto* r = cast<ReturnInst>(I)->getReturnValue();
      std::string why;
      if (out >= 0 && !sawResult && !S.coversExactly(st, out, Poly(), total, why)) S.error(I, "complete", "output: " + why);
      if (r && r->getType()->isDoubleTy()) { AV v = S.val(st, r); AV want = AV::seg(first, Poly(), n); if (!S.same(st, v, want)) S.error(I, "complete", "returns " + S.str(v) + " instead of the combination of all elements in order"); S.counts["returned values"]++; }
      if (nm == "drv_reverse_inplace") {
        Poly k = A.fresh("k"); SState q = st; q.sys.addGe(k); q.sys.addGe(n - one - k);
        std::vector<Fill> fs; for (auto& f : st.fills[in]) if (!S.eq(st, f.lo, f.hi)) fs.push_back(f);
        // the untouched middle: at most the one element that is its own mirror image
        Poly lo, hi = n; std::vector<std::pair<Poly, Poly>> gaps; bool ok = fs.size() <= 2;
        if (fs.size() == 2) { if (!A.le(st.sys, fs[0].hi, fs[1].lo)) std::swap(fs[0], fs[1]); ok = S.eq(st, fs[0].lo, Poly()) && S.eq(st, fs[1].hi, n) && A.le(st.sys, fs[0].hi, fs[1].lo) && S.eq(st, fs[0].hi + fs[1].lo, n) && A.le(st.sys, fs[1].lo - fs[0].hi, one); }
        if (fs.empty()) ok = A.le(st.sys, n, one);
        if (fs.size() == 1) ok = S.eq(st, fs[0].lo, Poly()) && S.eq(st, fs[0].hi, n);
        for (auto& f : fs) { SState q = st; Poly k = A.fresh("k"); q.sys.addGe(k - f.lo); q.sys.addGe(f.hi - one - k); AV v = S.inst(f, k); if (!S.same(q, v, AV::seg(in, n - one - k, n - k))) S.error(I, "right-value", "position k holds " + S.str(v) + " instead of element n-1-k"); }
        if (!ok) { std::string w; for (auto& f : fs) w += " [" + A.at.str(f.lo) + ", " + A.at.str(f.hi) + ")"; S.error(I, "complete", "the exchanged positions" + w + " leave out more than the middle element"); }
        S.counts["returned values"]++;
      }
      if (r && r->getType()->isIntegerTy(1)) {
        for (int b = 0; b < 2; b++) {
          SState q = st; if (!S.learn(q, Fact{r, b == 1, nullptr})) continue;
          if (find) {
            auto imp = [&](Sys s, const std::vector<Poly>& hyp, bool want) {   // under the hypotheses the answer must be `want`
              if ((b == 1) == want) return; for (auto& h : hyp) s.addGe(h);
              if (A.unsat(s, 0)) return; for (auto& p : q.ne) if (A.eq(s, p, Poly())) return;
              if (getenv("SEQDBG")) { fprintf(stderr, "not excluded: returns %d\n", b); for (auto& p : s.ge) fprintf(stderr, "   %s >= 0\n", A.at.str(p).c_str()); }
              S.error(I, "first-match", std::string("returns ") + (b ? "true" : "false") + " where that is not shown to be the answer");
            };
            auto eq0 = [&](const Poly& p) { return std::vector<Poly>{p, scale(p, -1)}; };
            auto cat = [](std::vector<Poly> a, const std::vector<Poly>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
            if (nm == "drv_equal") {
              Poly c = A.pf("eq(in+0,in2+0)", n);
              imp(q.sys, cat(eq0(n - n2), eq0(c - n)), true);
              imp(q.sys, {n - n2 - one}, false); imp(q.sys, {n2 - n - one}, false); imp(q.sys, cat(eq0(n - n2), {n - one - c}), false);
            }
            if (nm == "drv_is_partitioned" || nm == "drv_lexicographical_compare") {
              Poly d = A.fresh("first"); Poly m = nm == "drv_is_partitioned" ? n : A.mn(n, n2);
              // the first position where the answer is decided agrees with any position the code has found to be first
              auto agree = [&](Sys& s, const std::vector<std::string>& ks) {
                std::set<Poly> xs; for (auto& x : A.at.a) if (x.kind == 'p' && std::find(ks.begin(), ks.end(), x.key) != ks.end()) xs.insert(x.x);
                for (auto& x : xs) if (A.eq(s, x, d)) for (auto& k : ks) { s.addEq(A.pf(k, x) - A.pf(k, d)); s.addEq(A.pf(k, x + one) - A.pf(k, d + one)); }
              };
              if (nm == "drv_is_partitioned") {
                Sys s = q.sys; s.addGe(d); s.addGe(m - d); s.addEq(A.pf("pred", d) - d);
                Sys e1 = s; e1.addEq(d - m); imp(e1, {}, true);
                Sys e2 = s; e2.addGe(m - one - d); e2.addEq(A.pf("pred", d + one) - A.pf("pred", d)); agree(e2, {"pred"});
                imp(e2, eq0(A.pf("pred", n) - d), true); imp(e2, {A.pf("pred", n) - d - one}, false);
              } else {
                std::string ab = "lt(in+0,in2+0)", ba = "lt(in2+0,in+0)"; Sys s = q.sys; s.addGe(d); s.addGe(m - d); s.addEq(A.pf(ab, d)); s.addEq(A.pf(ba, d));
                Sys e1 = s; e1.addEq(d - m); imp(e1, {n2 - n - one}, true); imp(e1, {n - n2}, false);
                Sys e2 = s; e2.addGe(m - one - d); Poly sa = A.pf(ab, d + one) - A.pf(ab, d), sb = A.pf(ba, d + one) - A.pf(ba, d); e2.addGe(sa + sb - one); agree(e2, {ab, ba});
                imp(e2, eq0(sa - one), true); imp(e2, cat(eq0(sa), eq0(sb - one)), false);
              }
            }
            S.counts["returned values"]++; continue;
          }
          Poly c = A.pf("pred", n), want = nm == "drv_all_of" ? n : Poly();
          bool flip = nm == "drv_any_of"; Sys e = q.sys; e.addEq(c - want);
          bool good = (b == 1) != flip ? A.eq(q.sys, c, want) : A.unsat(e);
          if (!good) S.error(I, "complete", std::string("returns ") + (b ? "true" : "false") + " where that is not shown to be the answer");
          S.counts["returned values"]++;
        }
        return;
      }
      if (r && r->getType()->isIntegerTy() && total != n) { if (!S.eq(st, A.of(r), total)) S.error(I, "complete", "returns " + A.at.str(A.of(r)) + ", required the number of selected elements"); S.counts["returned values"]++; }
    };
    S.run(pre);
    R.functions.insert(nm);
    for (auto& c : S.counts) R.counts[c.first] += c.second;
    R.counts["paths"] += S.paths;
    if (S.errs.empty()) R.add("sequence-result", where(&F), true, nm + ": every path produces exactly the specified result");
    // a construct outside the model leaves the driver undecided: whatever else was derived after it means nothing
    const SeqInt::Err* un = nullptr; for (auto& e : S.errs) if (e.second.rule == "not-modelled") { un = &e.second; break; }
    if (un) { R.counts["undecided drivers"]++; R.undecided.push_back(nm + ": " + un->msg + " (" + un->where + ")"); continue; }
    for (auto& e : S.errs) R.add(e.second.rule, e.second.where, false, nm + ": " + e.second.msg);
    if (!S.paths) R.brk("no path through " + nm + " reaches its end");
  }
  if (!drv) R.brk("no driver");
}
