F = "internal/work_stealing_deque.h"
MUT = [
 ("S02","nofence",F,[("std::atomic_thread_fence(std::memory_order_seq_cst);","")],"V"),
 ("S02","acqrelfence",F,[("std::atomic_thread_fence(std::memory_order_seq_cst);","std::atomic_thread_fence(std::memory_order_acq_rel);")],"V"),
 ("S02","fence-late",F,[("      std::atomic_thread_fence(std::memory_order_seq_cst);\n",""),("      if (local_bot > old_age.top)\n        result","      std::atomic_thread_fence(std::memory_order_seq_cst);\n      if (local_bot > old_age.top)\n        result")],"V"),
 ("S02","relaxed-push",F,[("bot.store(local_bot, std::memory_order_seq_cst)","bot.store(local_bot, std::memory_order_relaxed)")],"V"),
 ("S02","notag",F,[("age_t{old_age.tag + 1, 0}","age_t{old_age.tag, 0}")],"V"),
 ("S02","bot-before-age",F,[("    auto old_age = age.load(std::memory_order_acquire);    // atomic load\n    auto local_bot = bot.load(std::memory_order_acquire);  // atomic load\n","    auto local_bot = bot.load(std::memory_order_acquire);\n    auto old_age = age.load(std::memory_order_acquire);\n")],"V"),
 ("S02","ret-on-fail",F,[("        return {nullptr, (local_bot == old_age.top + 1)};","        return {job, (local_bot == old_age.top + 1)};")],"V"),
 ("S02","ge",F,[("if (local_bot > old_age.top)\n        result","if (local_bot >= old_age.top)\n        result")],"V"),
 ("S02","ge2",F,[("if (local_bot > old_age.top) {","if (local_bot >= old_age.top) {")],"V"),
 ("S02","overflow-late",F,[("if (local_bot == q_size)","if (local_bot > q_size)")],"V"),
 ("S02","overflow-off1",F,[("if (local_bot == q_size)","if (local_bot == q_size + 1)")],"V"),
 ("S02","no-age-store",F,[("          age.store(new_age, std::memory_order_seq_cst);  // shared store\n","")],"V"),
 ("S02","reset-late",F,[("        bot.store(0, std::memory_order_release);  // shared store\n",""),("          age.store(new_age, std::memory_order_seq_cst);  // shared store","          age.store(new_age, std::memory_order_seq_cst); bot.store(0);")],"V"),
 ("S02","slot-after",F,[("    deq[local_bot].job.store(job, std::memory_order_release);  // shared store\n",""),("    return (local_bot == 1);","    deq[local_bot-1].job.store(job, std::memory_order_release);\n    return (local_bot == 1);")],"V"),
 ("S02","skip-eq",F,[("(local_bot == old_age.top) &&\n","")],"V"),
 ("S02","relaxed-age",F,[("auto old_age = age.load(std::memory_order_acquire);    // atomic load","auto old_age = age.load(std::memory_order_relaxed);")],"V"),
 ("S02","cas-relaxed",F,[("if (age.compare_exchange_strong(old_age, new_age))\n        return","if (age.compare_exchange_strong(old_age, new_age, std::memory_order_relaxed))\n        return")],"V"),
 ("S02","steal-after",F,[("      auto job = deq[old_age.top].job.load(std::memory_order_acquire);  // atomic load\n      auto new_age","      auto new_age"),("        return {job, (local_bot == old_age.top + 1)};","        return {deq[old_age.top].job.load(std::memory_order_acquire), (local_bot == old_age.top + 1)};")],"V"),
 # behaviour-preserving
 ("S02","q-early",F,[("    if (local_bot > old_age.top) {\n      auto job","    if (local_bot <= old_age.top) return {nullptr, true};\n    {\n      auto job")],"Q"),
 ("S02","q-helper",F,[("  // Pop an item from the bottom of the queue.","  bool claim(age_t& o, age_t n) { return age.compare_exchange_strong(o, n); }\n  // Pop an item from the bottom"),("if (age.compare_exchange_strong(old_age, new_age))\n        return","if (claim(old_age, new_age))\n        return"),("age.compare_exchange_strong(old_age, new_age))\n          result","claim(old_age, new_age))\n          result")],"Q"),
 ("S02","q-idx",F,[("    deq[local_bot].job.store(job, std::memory_order_release);  // shared store\n    local_bot += 1;","    auto& slot = deq[local_bot];\n    slot.job.store(job, std::memory_order_release);\n    ++local_bot;")],"Q"),
 ("S02","q-guardfirst",F,[("    deq[local_bot].job.store(job, std::memory_order_release);  // shared store\n    local_bot += 1;","    auto i = local_bot; local_bot += 1;"),("    bot.store(local_bot, std::memory_order_seq_cst);","    deq[i].job.store(job, std::memory_order_release);\n    bot.store(local_bot, std::memory_order_seq_cst);")],"Q"),
 ("S02","q-ternary",F,[("      if (age.compare_exchange_strong(old_age, new_age))\n        return {job, (local_bot == old_age.top + 1)};\n      else\n        return {nullptr, (local_bot == old_age.top + 1)};","      const bool won = age.compare_exchange_strong(old_age, new_age);\n      return {won ? job : nullptr, (local_bot == old_age.top + 1)};")],"Q"),
 ("S02","q-restructure",F,[("""      if (local_bot > old_age.top)
        result = job;
      else {
        bot.store(0, std::memory_order_release);  // shared store
        auto new_age = age_t{old_age.tag + 1, 0};
        if ((local_bot == old_age.top) &&
            age.compare_exchange_strong(old_age, new_age))
          result = job;
        else {
          age.store(new_age, std::memory_order_seq_cst);  // shared store
          result = nullptr;
        }
      }""","""      if (local_bot > old_age.top) return job;
      bot.store(0, std::memory_order_release);
      age_t new_age; new_age.top = 0; new_age.tag = old_age.tag + 1;
      if (local_bot != old_age.top || !age.compare_exchange_strong(old_age, new_age)) {
        age.store(new_age, std::memory_order_seq_cst);
        return nullptr;
      }
      return job;""")],"Q"),
]
