U="utilities.h"; MO="monoid.h"; RA="random.h"; DQ="internal/work_stealing_deque.h"; SC="scheduler.h"; JB="internal/work_stealing_job.h"; PA="parallel.h"; SO="internal/sequence_ops.h"; PR="primitives.h"
MINL="  T c;\n  bool r = false;\n  do {\n    c = a->load();\n  } while (less(b, c) && !(r = std::atomic_compare_exchange_weak(a, &c, b)));\n  return r;"
MAXL="  T c;\n  bool r = false;\n  do {\n    c = a->load();\n  } while (less(c, b) && !(r = std::atomic_compare_exchange_weak(a, &c, b)));\n  return r;"
ADDL="  T newV, oldV;\n  do {\n    oldV = a->load();\n    newV = oldV + b;\n  } while (!std::atomic_compare_exchange_weak(a, &oldV, newV));"
MUT=[
# ---- U01
("U01","r-min-forever",U,[(MINL,"  while (true) {\n    T c = a->load();\n    if (!less(b, c)) return false;\n    if (a->compare_exchange_weak(c, b)) return true;\n  }")],"Q"),
("U01","r-max-for",U,[(MAXL,"  for (T c = a->load(); less(c, b); ) {\n    if (std::atomic_compare_exchange_strong(a, &c, b)) return true;\n  }\n  return false;")],"Q"),
("U01","r-max-min",U,[(MAXL,"  return write_min(a, b, [&less](const T& x, const T& y) { return less(y, x); });")],"Q"),
("U01","r-add-for",U,[(ADDL,"  for (;;) {\n    T oldV = a->load();\n    const T newV = static_cast<T>(oldV + b);\n    if (a->compare_exchange_strong(oldV, newV)) break;\n  }")],"Q"),
("U01","r-helper",U,[(ADDL,"  T newV, oldV;\n  auto attempt = [&]() {\n    oldV = a->load();\n    newV = oldV + b;\n    return a->compare_exchange_weak(oldV, newV);\n  };\n  while (!attempt()) {}")],"Q"),
("U01","r-min-break",U,[(MINL,"  bool updated = false;\n  while (!updated) {\n    T c = a->load();\n    if (!less(b, c)) break;\n    updated = std::atomic_compare_exchange_weak(a, &c, b);\n  }\n  return updated;")],"Q"),
# ---- M01
("M01","r-max-tern",MO,[("{ return std::max<T>(std::forward<T1>(x), std::forward<T2>(y)); }","{ return static_cast<T>(x < y ? y : x); }")],"Q"),
("M01","r-min-if",MO,[("{ return std::min<T>(std::forward<T1>(x), std::forward<T2>(y)); }","{\n    const T& a = x;\n    const T& b = y;\n    if (b < a) return b;\n    return a;\n  }")],"Q"),
("M01","r-max-id",MO,[("maximum() : identity(std::numeric_limits<T>::lowest()) { }","maximum() : maximum(std::numeric_limits<T>::lowest()) { }")],"Q"),
("M01","r-and-id",MO,[("bit_and() : identity(~static_cast<T>(0)) { }","bit_and() : identity(static_cast<T>(~T{})) { }")],"Q"),
("M01","r-pair",MO,[("    return P(m1.f(std::get<0>(std::forward<decltype(a)>(a)), std::get<0>(std::forward<decltype(b)>(b))),\n             m2.f(std::get<1>(std::forward<decltype(a)>(a)), std::get<1>(std::forward<decltype(b)>(b))));","    auto first = m1.f(a.first, b.first);\n    auto second = m2.f(a.second, b.second);\n    return P(std::move(first), std::move(second));")],"Q"),
("M01","r-array",MO,[("    Ar r;\n    for (size_t i = 0; i < n; i++) r[i] = m.f(a[i], b[i]);\n    return r;","    for (size_t i = 0; i < n; i++) a[i] = m.f(a[i], b[i]);\n    return a;")],"Q"),
("M01","r-array-id",MO,[("  for (size_t i = 0; i < n; i++) id[i] = m.identity;","  id.fill(m.identity);")],"Q"),
("M01","r-addm",MO,[("  static T f(T a, T b) { return a + b; }","  static T f(T a, T b) { a += b; return a; }")],"Q"),
("M01","r-xorm",MO,[("  static T f(T a, T b) { return a ^ b; }","  static T f(T a, T b) { T r = a; r ^= b; return r; }")],"Q"),
("M01","r-mm",MO,[("    return T((std::min)(a.first, b.first), (std::max)(a.second, b.second));","    TT lo = b.first < a.first ? b.first : a.first;\n    TT hi = a.second < b.second ? b.second : a.second;\n    return std::make_pair(lo, hi);")],"Q"),
("M01","r-legacy",MO,[("{ return this->f(std::forward<T1>(x), std::forward<T2>(y)); }","{\n    return LegacyMonoid::f(std::forward<T1>(x), std::forward<T2>(y));\n  }")],"Q"),
# ---- R01
("R01","r-gen-idx",RA,[("    return random_generator(static_cast<size_t>(hash64((i+1)*0x7fffffff + state))); }","    const uint64_t key = (i + 1) * 0x7fffffff + state;\n    random_generator g;\n    g.seed(static_cast<size_t>(hash64(key)));\n    return g; }")],"Q"),
("R01","r-gen-next",RA,[("  result_type operator()() { return state = hash64(state); }","  result_type operator()() {\n    const result_type next = hash64(state);\n    state = next;\n    return next;\n  }")],"Q"),
("R01","r-fork",RA,[("  random fork(uint64_t i) const { return random(static_cast<size_t>(hash64(hash64(i + state)))); }","  random fork(uint64_t i) const {\n    const auto once = hash64(state + i);\n    return random(static_cast<size_t>(hash64(once)));\n  }")],"Q"),
("R01","r-ith",RA,[("  size_t operator[](size_t i) const { return ith_rand(i); }","  size_t operator[](size_t i) const { return static_cast<size_t>(hash64(state + i)); }")],"Q"),
("R01","r-hc-array",U,[("      hash_combine(h, parlay::hash<V>{}(a[i]));","      const size_t hi = parlay::hash<V>{}(a[i]);\n      hash_combine(h, hi);")],"Q"),
# ---- S02
("S02","r-top-atomic",DQ,[("      if (age.compare_exchange_strong(old_age, new_age))\n        return {job, (local_bot == old_age.top + 1)};\n      else\n        return {nullptr, (local_bot == old_age.top + 1)};","      const bool last = (local_bot == old_age.top + 1);\n      if (!age.compare_exchange_strong(old_age, new_age)) job = nullptr;\n      return {job, last};")],"Q"),
("S02","r-cmp-flip",DQ,[("    if (local_bot > old_age.top) {\n      auto job","    if (old_age.top < local_bot) {\n      auto job")],"Q"),
("S02","r-newage-brace",DQ,[("      auto new_age = old_age;\n      new_age.top = new_age.top + 1;","      const age_t new_age{old_age.tag, static_cast<qidx>(old_age.top + 1)};")],"Q"),
("S02","r-bot-early",DQ,[("    Job* result = nullptr;\n    auto local_bot = bot.load(std::memory_order_acquire);  // atomic load\n    if (local_bot != 0) {","    Job* result = nullptr;\n    auto local_bot = bot.load(std::memory_order_acquire);  // atomic load\n    if (local_bot == 0) return nullptr;\n    {")],"Q"),
("S02","r-bot-ret",DQ,[("      if (local_bot > old_age.top)\n        result = job;\n      else {","      if (local_bot > old_age.top) {\n        return job;\n      } else {")],"Q"),
("S02","r-reset-helper",DQ,[("        bot.store(0, std::memory_order_release);  // shared store\n        auto new_age = age_t{old_age.tag + 1, 0};\n        if ((local_bot == old_age.top) &&\n            age.compare_exchange_strong(old_age, new_age))\n          result = job;\n        else {\n          age.store(new_age, std::memory_order_seq_cst);  // shared store\n          result = nullptr;\n        }","        if (take_last(old_age, local_bot)) result = job;"),("  // Pop an item from the bottom of the queue. Only","  bool take_last(age_t old_age, qidx local_bot) {\n    bot.store(0, std::memory_order_release);\n    const auto new_age = age_t{old_age.tag + 1, 0};\n    if (local_bot == old_age.top && age.compare_exchange_strong(old_age, new_age)) return true;\n    age.store(new_age, std::memory_order_seq_cst);\n    return false;\n  }\n\n  // Pop an item from the bottom of the queue. Only")],"Q"),
("S02","r-push-slot",DQ,[("    deq[local_bot].job.store(job, std::memory_order_release);  // shared store\n    local_bot += 1;\n    if (local_bot == q_size) {","    auto& slot = deq[local_bot].job;\n    slot.store(job, std::memory_order_release);  // shared store\n    const qidx next = local_bot + 1;\n    local_bot = next;\n    if (next == q_size) {")],"Q"),
# ---- S01
("S01","r-pardo-ptr",SC,[("    if (const Job* job = scheduler.get_own_job(); job != nullptr) {\n      assert(job == &right_job);\n      execute_right();\n    }\n    else {\n      auto done = [&]() { return right_job.finished(); };\n      scheduler.wait_until(done, conservative);\n      assert(right_job.finished());\n    }","    const Job* popped = scheduler.get_own_job();\n    if (popped == nullptr) {\n      scheduler.wait_until([&]() { return right_job.finished(); }, conservative);\n      return;\n    }\n    execute_right();")],"Q"),
("S01","r-join-helper",SC,[("      auto done = [&]() { return right_job.finished(); };\n      scheduler.wait_until(done, conservative);\n      assert(right_job.finished());","      join(scheduler, right_job, conservative);"),("  template <typename F>\n  static void parfor(","  template <typename J>\n  static void join(scheduler_t& scheduler, const J& job, bool conservative) {\n    scheduler.wait_until([&]() { return job.finished(); }, conservative);\n  }\n\n  template <typename F>\n  static void parfor(")],"Q"),
("S01","r-steal-for",SC,[("    do {\n      // By coupon","    for (;;) {\n      // By coupon"),("    } while (!timeout || std::chrono::steady_clock::now() - start_time < STEAL_TIMEOUT);\n    return nullptr;","      if (timeout && std::chrono::steady_clock::now() - start_time >= STEAL_TIMEOUT) return nullptr;\n    }")],"Q"),
("S01","r-getjob-tern",SC,[("    if (job) return job;\n    else job = steal_job(std::forward<F>(break_early), timeout);\n    return job;","    return job != nullptr ? job : steal_job(std::forward<F>(break_early), timeout);")],"Q"),
("S01","r-dwu-for",SC,[("    while (true) {\n      Job* job = get_job(done, false);  // timeout MUST BE false\n      if (!job) return;\n      (*job)();\n    }","    for (Job* job = get_job(done, false); job != nullptr; job = get_job(done, false)) {\n      (*job)();\n    }")],"Q"),
("S01","r-worker-run",SC,[("      if (job)(*job)();\n","      if (job) { job->operator()(); }\n")],"Q"),
("S01","r-try-steal",SC,[("    auto [job, empty] = deques[target].pop_top();\n#if PARLAY_ELASTIC_PARALLELISM\n    if (!empty) wake_up_a_worker();\n#endif\n    return job;","    const std::pair<Job*, bool> stolen = deques[target].pop_top();\n#if PARLAY_ELASTIC_PARALLELISM\n    if (!stolen.second) wake_up_a_worker();\n#endif\n    return stolen.first;")],"Q"),
("S01","r-target",SC,[("    size_t target = (hash(id) + hash(attempts[id].val)) % num_deques;\n    attempts[id].val++;","    auto& my_attempts = attempts[id].val;\n    size_t target = (hash(id) + hash(my_attempts++)) % num_deques;")],"Q"),
("S01","r-job-run",JB,[("    execute();\n    done.store(true, std::memory_order_release);","    execute();\n    mark_done();"),(" protected:\n  virtual"," protected:\n  void mark_done() noexcept { done.store(true, std::memory_order_release); }\n  virtual")],"Q"),
# ---- S03
("S03","r-parfor-else",SC,[("    if ((end - start) <= granularity)\n      for (size_t i = start; i < end; i++) f(i);\n    else {\n      size_t n = end - start;","    const size_t n = end - start;\n    if (n <= granularity) {\n      for (size_t i = start; i != end; ++i) f(i);\n      return;\n    }\n    {")],"Q"),
("S03","r-parfor-gran",SC,[("      granularity = std::max(done, (end - start) / static_cast<size_t>(128 * scheduler.num_threads));\n      start += done;","      const size_t even = (end - start) / static_cast<size_t>(128 * scheduler.num_threads);\n      granularity = done < even ? even : done;\n      start = start + done;")],"Q"),
("S03","r-gran-while",SC,[("    } while (ticks < 1000 && done < (end - start));\n    return done;","      if (done >= end - start) break;\n    } while (ticks < 1000);\n    return done;")],"Q"),
("S03","r-gran-helper",SC,[("      for (size_t i = 0; i < sz; i++) f(start + done + i);\n","      run_serial(start + done, start + done + sz, f);\n"),("  template <typename F>\n  static size_t get_granularity(","  template <typename F>\n  static void run_serial(size_t from, size_t to, F& f) {\n    for (size_t i = from; i < to; i++) f(i);\n  }\n\n  template <typename F>\n  static size_t get_granularity(")],"Q"),
("S03","r-gran-helper2",SC,[("      for (size_t i = start; i < end; i++) f(i);\n    else","      run_serial(start, end, f);\n    else"),("  template <typename F>\n  static size_t get_granularity(","  template <typename F>\n  static void run_serial(size_t from, size_t to, F& f) {\n    while (from < to) { f(from); ++from; }\n  }\n\n  template <typename F>\n  static size_t get_granularity(")],"Q"),
# ---- S04
("S04","r-spawn-helper",SC,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads.emplace_back([&, i]() {\n        worker_info = {i, this};\n        worker();\n      });\n    }\n  }\n\n  ~","    for (worker_id_type i = 1; i < num_threads; ++i) spawn_worker(i);\n  }\n\n  void spawn_worker(worker_id_type i) {\n    spawned_threads.emplace_back([this, i]() {\n      worker_info = {i, this};\n      worker();\n    });\n  }\n\n  ~")],"Q"),
("S04","r-join-helper",SC,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();\n    }\n  }","    join_workers();\n  }\n\n  void join_workers() {\n    for (auto& t : spawned_threads) t.join();\n  }")],"Q"),
("S04","r-wake-helper",SC,[("  void wake_up_a_worker() {\n    if (num_awake_workers.load(std::memory_order_acquire) < num_threads) {","  bool anyone_asleep() const { return num_awake_workers.load(std::memory_order_acquire) < num_threads; }\n\n  void wake_up_a_worker() {\n    if (anyone_asleep()) {")],"Q"),
("S04","r-wait-local",SC,[("    parlay::atomic_wait(&wake_up_counter, wake_up_counter.load());","    const size_t seen = wake_up_counter.load();\n    parlay::atomic_wait(&wake_up_counter, seen);")],"Q"),
("S04","r-worker-loop",SC,[("      if (job)(*job)();\n#if PARLAY_ELASTIC_PARALLELISM\n      else if (!finished()) {","      if (job) {\n        (*job)();\n        continue;\n      }\n#if PARLAY_ELASTIC_PARALLELISM\n      if (!finished()) {")],"Q"),
("S04","r-shutdown-cond",SC,[("    while (num_finished_workers.load() < num_threads - 1) {","    const size_t expected = num_threads - 1;\n    while (num_finished_workers.load() != expected) {")],"Q"),
# ---- P01
("P01","r-ser-helper",SO,[("  T r = A[0];\n  for (size_t j = 1; j < A.size(); j++) {\n    r = m(std::move(r), A[j]);\n  }\n  return r;","  const size_t n = A.size();\n  auto it = std::begin(A);\n  T acc = *it;\n  while (++it != std::begin(A) + n) acc = m(std::move(acc), *it);\n  return acc;")],"Q"),
("P01","r-scan-lambda",SO,[("      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;\n    }\n  } else {","      put(Out[i], r);\n    }\n  } else {"),("      T t = In[i];\n      if (out_uninitialized) assign_uninitialized(Out[i], r);\n      else Out[i] = r;","      T t = In[i];\n      put(Out[i], r);"),("  bool inclusive = fl & fl_scan_inclusive;\n","  bool inclusive = fl & fl_scan_inclusive;\n  auto put = [&](auto&& dest, const T& value) {\n    if (out_uninitialized) assign_uninitialized(dest, value);\n    else dest = value;\n  };\n")],"Q"),
("P01","r-scan-lq",SO,[("  if (l <= 2 || fl & fl_sequential)\n    return scan_serial(In, Out, m, m.identity, fl, out_uninitialized);","  const bool serial = (fl & fl_sequential) != 0;\n  if (serial || l < 3) {\n    return scan_serial(In, Out, m, m.identity, fl, out_uninitialized);\n  }")],"Q"),
("P01","r-scan-swap",SO,[("    auto O = make_slice(Out).cut(s, e);\n    scan_serial(make_slice(In).cut(s, e), O, m, sums[i], fl, out_uninitialized);","    auto src = make_slice(In).cut(s, e);\n    auto dst = make_slice(Out).cut(s, e);\n    const T& start = sums[i];\n    scan_serial(src, dst, m, start, fl, out_uninitialized);")],"Q"),
("P01","r-scan-inpl",SO,[("  T total = scan_(make_slice(Out), make_slice(Out), std::forward<Monoid>(m), fl);\n  return","  auto out_slice = make_slice(Out);\n  T total = scan_inplace(out_slice, std::forward<Monoid>(m), fl);\n  return")],"Q"),
# ---- P02
("P02","r-ser-while",SO,[("  for (size_t i = 0; i < In.size(); i++)\n    if (Fl[i]) assign_uninitialized(Out[k++], In[i]);\n  return k;","  const size_t len = In.size();\n  for (size_t i = 0; i < len; ++i) {\n    if (!Fl[i]) continue;\n    assign_uninitialized(Out[k], In[i]);\n    ++k;\n  }\n  return k;")],"Q"),
("P02","r-sum-tern",SO,[("    r += static_cast<bool>(I[j]);","    r += I[j] ? 1 : 0;")],"Q"),
("P02","r-sum-it",SO,[("  for (size_t j = 0; j < I.size(); j++) {\n    r += static_cast<bool>(I[j]);\n  }","  for (auto&& flag : I) {\n    if (flag) ++r;\n  }")],"Q"),
("P02","r-pack-helper",SO,[("template <typename In_Seq, typename Bool_Seq>\nauto pack(In_Seq const &In","template <typename Sums_Seq>\nsize_t block_end(const Sums_Seq& sums, size_t i, size_t l, size_t total) {\n  if (i + 1 == l) return total;\n  return sums[i + 1];\n}\n\ntemplate <typename In_Seq, typename Bool_Seq>\nauto pack(In_Seq const &In"),("make_slice(Out).cut(sums[i], (i == l - 1) ? m : sums[i + 1]));","make_slice(Out).cut(sums[i], block_end(sums, i, l, m)));")],"Q"),
("P02","r-fl-if",SO,[("    for (size_t j = s; j < e; j++) r += (Fl[j] = f(In[j]));\n    Sums[i] = r;","    for (size_t j = s; j < e; j++) {\n      const bool keep = f(In[j]);\n      Fl[j] = keep;\n      if (keep) r++;\n    }\n    Sums[i] = r;")],"Q"),
("P02","r-out-serial",SO,[("    return pack_serial_at(In, make_slice(Fl).cut(0, In.size()), Out);","    const auto flags_all = make_slice(Fl).cut(0, n);\n    const size_t written = pack_serial_at(In, flags_all, Out);\n    return written;")],"Q"),
("P02","r-pack-ser",SO,[("  size_t k = 0;\n  for (size_t i = 0; i < n; i++)\n    if (Fl[i]) assign_uninitialized(Out[k++], In[i]);\n  return Out;","  pack_serial_at(make_slice(In), make_slice(Fl), make_slice(Out));\n  return Out;"),("template <typename In_Seq, typename Bool_Seq>\nauto pack_serial(","template <class Slice, class Slice2, typename Out_Seq>\nsize_t pack_serial_at(Slice In, Slice2 Fl, Out_Seq Out);\n\ntemplate <typename In_Seq, typename Bool_Seq>\nauto pack_serial(")],"Q"),
# ---- P03
("P03","r-s2-count",SO,[("    for (size_t j = s; j < e; j++) c += (Fl[j] == false);","    for (size_t j = s; j < e; j++) {\n      if (!Fl[j]) c++;\n    }")],"Q"),
("P03","r-s2-tern",SO,[("      if (Fl[j] == false)\n        assign_uninitialized(Out[c0++], In[j]);\n      else\n        assign_uninitialized(Out[c1++], In[j]);","      size_t& pos = Fl[j] ? c1 : c0;\n      assign_uninitialized(Out[pos], In[j]);\n      pos++;")],"Q"),
("P03","r-s2-c1",SO,[("    size_t c1 = s + (m - c0);","    const size_t before_true = s - c0;\n    size_t c1 = m + before_true;")],"Q"),
("P03","r-s3-c2",SO,[("    size_t c2 = m0 + m1 + (s - Sums0[i] - Sums1[i]);","    const size_t lower = Sums0[i] + Sums1[i];\n    size_t c2 = m0 + m1 + s - lower;")],"Q"),
("P03","r-s3-val",SO,[("      if (Fl[j] == 0) {\n        assign_dispatch(Out[c0++]","      const auto bucket = Fl[j];\n      if (bucket == 0) {\n        assign_dispatch(Out[c0++]"),("      } else if (Fl[j] == 1) {\n        assign_dispatch","      } else if (bucket == 1) {\n        assign_dispatch")],"Q"),
]
