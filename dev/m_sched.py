F = "scheduler.h"
J = "internal/work_stealing_job.h"
PA = "parallel.h"
MUT = [
 ("S01","done-relaxed",J,[("done.store(true, std::memory_order_release)","done.store(true, std::memory_order_relaxed)")],"V"),
 ("S01","done-early",J,[("    execute();\n    done.store(true, std::memory_order_release);","    done.store(true, std::memory_order_release);\n    execute();")],"V"),
 ("S01","fin-relaxed",J,[("return done.load(std::memory_order_acquire)","return done.load(std::memory_order_relaxed)")],"V"),
 ("S01","drop-after-steal",F,[("        Job* job = try_steal(id);\n        if (job) return job;","        Job* job = try_steal(id);\n        if (break_early()) return nullptr;\n        if (job) return job;")],"V"),
 ("S01","nowait",F,[("      scheduler.wait_until(done, conservative);","      if (conservative) scheduler.wait_until(done, conservative);")],"V"),
 ("S01","timeout-join",F,[("get_job(done, false);","get_job(done, true);")],"V"),
 ("S01","cons-steals",F,[("    if (conservative) {\n      while (!done())\n        std::this_thread::yield();\n    }","    if (conservative) {\n      while (!done()) { if (Job* j = get_own_job()) (*j)(); std::this_thread::yield(); }\n    }")],"V"),
 ("S01","no-null-check",F,[("if (const Job* job = scheduler.get_own_job(); job != nullptr) {","if (scheduler.get_own_job(); true) {")],"V"),
 ("S01","right-before",F,[("    std::forward<L>(left)();\n    if (const","    std::forward<L>(left)();\n    if (right_job.finished()) { execute_right(); return; }\n    if (const")],"V"),
 ("S01","worker-drop",F,[("      if (job)(*job)();","      if (job && !finished())(*job)();")],"V"),
 ("S01","worker-exit",F,[("      else if (!finished()) {\n        // If","      else if (!finished() && num_threads > 64) return;\n      else if (!finished()) {\n        // If")],"V"),
 ("S01","push-other",F,[("    int id = worker_id();\n    [[maybe_unused]] bool first = deques[id].push_bottom(job);","    int id = (worker_id() + 1) % num_threads;\n    [[maybe_unused]] bool first = deques[id].push_bottom(job);")],"V"),
 ("S01","pop-zero",F,[("    auto id = worker_id();\n    return deques[id].pop_bottom();","    return deques[0].pop_bottom();")],"V"),
 ("S01","do3-twice",PA,[("  auto left_mid = [&]() { par_do(std::forward<Lf>(left), std::forward<Mf>(mid)); };","  auto left_mid = [&]() { par_do(std::forward<Lf>(left), std::forward<Lf>(left)); };")],"V"),
 ("S01","doif-drop",PA,[("    std::forward<Lf>(left)();\n    std::forward<Rf>(right)();\n  }\n}\n\ntemplate <typename Lf, typename Mf, typename Rf>\ninline","    std::forward<Lf>(left)();\n    if (!cons) std::forward<Rf>(right)();\n  }\n}\n\ntemplate <typename Lf, typename Mf, typename Rf>\ninline")],"V"),
 ("S01","job-double",J,[("  void execute() override {\n    f();","  void execute() override {\n    if (!finished()) f();\n    f();")],"V"),
 ("S01","cons-ignored",PA,[("std::forward<Rf>(right), conservative);\n}\n\n// Execute","std::forward<Rf>(right), false);\n}\n\n// Execute")],"V"),
 ("S01","do-work-once",F,[("      if (!job) return;\n      (*job)();\n    }\n    assert(done());","      if (!job) return;\n      (*job)();\n      if (finished()) return;\n    }\n    assert(done());")],"V"),
 # behaviour preserving
 ("S01","q-lambda-inline",F,[("    auto execute_right = [&]() { std::forward<R>(right)(); };\n",""),("      execute_right();","      std::forward<R>(right)();")],"Q"),
 ("S01","q-early-ret",F,[("    else {\n      auto done = [&]() { return right_job.finished(); };\n      scheduler.wait_until(done, conservative);\n      assert(right_job.finished());\n    }","    else {\n      if (right_job.finished()) return;\n      scheduler.wait_until([&] { return right_job.finished(); }, conservative);\n    }")],"Q"),
 ("S01","q-worker",F,[("      if (job)(*job)();\n","      if (job) { (*job)(); continue; }\n"),("      else if (!finished()) {\n        // If","      if (!finished()) {\n        // If")],"Q"),
 ("S01","q-getjob",F,[("    Job* job = get_own_job();\n    if (job) return job;\n    else job = steal_job(std::forward<F>(break_early), timeout);\n    return job;","    if (Job* mine = get_own_job()) return mine;\n    return steal_job(std::forward<F>(break_early), timeout);")],"Q"),
 ("S01","q-do-work",F,[("    while (true) {\n      Job* job = get_job(done, false);  // timeout MUST BE false\n      if (!job) return;\n      (*job)();\n    }","    for (Job* job = get_job(done, false); job != nullptr; job = get_job(done, false)) (*job)();")],"Q"),
 ("S01","q-seqcst",J,[("done.store(true, std::memory_order_release)","done = true"),("return done.load(std::memory_order_acquire)","return done")],"Q"),
 ("S01","q-spawn-helper",F,[("    int id = worker_id();\n    [[maybe_unused]] bool first = deques[id].push_bottom(job);","    auto& mine = deques[worker_id()];\n    [[maybe_unused]] bool first = mine.push_bottom(job);")],"Q"),
 ("S01","q-do3",PA,[("  auto left_mid = [&]() { par_do(std::forward<Lf>(left), std::forward<Mf>(mid)); };\n  par_do(left_mid, std::forward<Rf>(right));","  par_do(std::forward<Lf>(left), [&]() { par_do(std::forward<Mf>(mid), std::forward<Rf>(right)); });")],"Q"),
 ("S01","q-yield-order",F,[("      while (!done())\n        std::this_thread::yield();","      for (;;) { if (done()) break; std::this_thread::yield(); }")],"Q"),
 ("S01","q-virtual-fn",J,[("struct JobImpl : WorkStealingJob {","struct JobImpl final : WorkStealingJob {")],"Q"),
]
