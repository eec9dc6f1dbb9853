F = "scheduler.h"
MUT = [
 ("S04","range-short",F,[("for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads.emplace_back","for (worker_id_type i = 1; i + 1 < num_threads; ++i) {\n      spawned_threads.emplace_back")],"V"),
 ("S04","id-by-ref",F,[("emplace_back([&, i]()","emplace_back([&]()")],"V"),
 ("S04","id-off",F,[("worker_info = {i, this};","worker_info = {i - 1, this};")],"V"),
 ("S04","id-after",F,[("worker_info = {i, this};\n        worker();","worker();\n        worker_info = {i, this};")],"V"),
 ("S04","awake-init",F,[("num_awake_workers(num_threads)","num_awake_workers(num_threads - 1)")],"V"),
 ("S04","deq-less",F,[("num_deques(num_threads)","num_deques(num_threads > 1 ? num_threads - 1 : 1)")],"V"),
 ("S04","no-save",F,[("parent_worker_info(std::exchange(worker_info, workerInfo{0, this}))","parent_worker_info(workerInfo{workerInfo::UNINITIALIZED, std::exchange(worker_info, workerInfo{0, this}).my_scheduler})")],"V"),
 ("S04","no-restore",F,[("    shutdown();\n    worker_info = std::move(parent_worker_info);","    shutdown();\n    if (num_threads > 1) worker_info = std::move(parent_worker_info);")],"V"),
 ("S04","restore-before",F,[("    shutdown();\n    worker_info = std::move(parent_worker_info);","    worker_info = std::move(parent_worker_info);\n    shutdown();")],"V"),
 ("S04","sleep-unbal",F,[("wake_up_counter.load());\n    num_awake_workers.fetch_add(1);","wake_up_counter.load());\n    if (!finished()) num_awake_workers.fetch_add(1);")],"V"),
 ("S04","sleep-zero",F,[("atomic_wait(&wake_up_counter, wake_up_counter.load())","atomic_wait(&wake_up_counter, num_finished_workers.load())")],"V"),
 ("S04","no-inc",F,[("      wake_up_counter.fetch_add(1);\n      parlay::atomic_notify_all(&wake_up_counter);","      parlay::atomic_notify_all(&wake_up_counter);")],"V"),
 ("S04","notify-one-shut",F,[("parlay::atomic_notify_all(&wake_up_counter)","parlay::atomic_notify_one(&wake_up_counter)")],"V"),
 ("S04","wake-order",F,[("      wake_up_counter.fetch_add(1);\n      parlay::atomic_notify_all(&wake_up_counter);","      parlay::atomic_notify_all(&wake_up_counter);\n      wake_up_counter.fetch_add(1);")],"V"),
 ("S04","wake-cond",F,[("    if (num_awake_workers.load(std::memory_order_acquire) < num_threads) {\n      wake_up_counter.fetch_add(1);\n      parlay::atomic_notify_all","    if (num_awake_workers.load(std::memory_order_acquire) < num_threads - 1) {\n      wake_up_counter.fetch_add(1);\n      parlay::atomic_notify_all")],"V"),
 ("S04","wake-once",F,[("    while (num_finished_workers.load() < num_threads - 1) {\n      wake_up_all_workers();","    wake_up_all_workers();\n    while (num_finished_workers.load() < num_threads - 1) {")],"V"),
 ("S04","join-early",F,[("num_finished_workers.load() < num_threads - 1)","num_finished_workers.load() + 2 < num_threads)")],"V"),
 ("S04","fin-late",F,[("    finished_flag.store(true, std::memory_order_release);\n",""),("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();","    finished_flag.store(true, std::memory_order_release);\n    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();")],"V"),
 ("S04","join-short",F,[("      spawned_threads[i - 1].join();","      if (i > 1) spawned_threads[i - 1].join();")],"V"),
 ("S04","count-early",F,[("    assert(finished());\n    num_finished_workers.fetch_add(1);",""),("    while (!finished()) {\n      Job* job","    num_finished_workers.fetch_add(1);\n    while (!finished()) {\n      Job* job")],"V"),
 ("S04","exit-on-idle",F,[("        wait_for_work();\n      }\n#endif\n    }\n","        wait_for_work();\n        if (num_awake_workers.load() == 0) break;\n      }\n#endif\n    }\n")],"V"),
 ("S04","fin-in-init",F,[("finished_flag(false) {","finished_flag(num_workers == 1) {")],"V"),
 ("S04","nf-skip",F,[("    num_finished_workers.fetch_add(1);\n  }","    if (worker_id() != 0) num_finished_workers.fetch_add(1);\n  }")],"V"),
 # quiet
 ("S04","q-zero-based",F,[("for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads.emplace_back([&, i]() {","for (worker_id_type k = 0; k + 1 < num_threads; ++k) {\n      const worker_id_type i = k + 1;\n      spawned_threads.emplace_back([this, i]() {")],"Q"),
 ("S04","q-reserve",F,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads.emplace_back","    spawned_threads.reserve(num_threads);\n    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads.emplace_back")],"Q"),
 ("S04","q-push-back",F,[("spawned_threads.emplace_back([&, i]() {\n        worker_info = {i, this};\n        worker();\n      });","spawned_threads.push_back(std::thread([&, i]() {\n        worker_info = {i, this};\n        worker();\n      }));")],"Q"),
 ("S04","q-range-join",F,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();\n    }","    for (auto& t : spawned_threads) t.join();")],"Q"),
 ("S04","q-join-zero",F,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();\n    }","    for (size_t i = 0; i < spawned_threads.size(); ++i) spawned_threads[i].join();")],"Q"),
 ("S04","q-id-swap",F,[("worker_info = {i, this};","worker_info.worker_id = i;\n        worker_info.my_scheduler = this;")],"Q"),
 ("S04","q-wait-expected",F,[("    parlay::atomic_wait(&wake_up_counter, wake_up_counter.load());","    const size_t seen = wake_up_counter.load();\n    parlay::atomic_wait(&wake_up_counter, seen);")],"Q"),
 ("S04","q-wait-before",F,[("    num_awake_workers.fetch_sub(1);\n    parlay::atomic_wait(&wake_up_counter, wake_up_counter.load());","    const size_t seen = wake_up_counter.load();\n    num_awake_workers.fetch_sub(1);\n    parlay::atomic_wait(&wake_up_counter, seen);")],"Q"),
 ("S04","q-inc-op",F,[("num_awake_workers.fetch_sub(1);","--num_awake_workers;"),("num_finished_workers.fetch_add(1);","num_finished_workers++;")],"Q"),
 ("S04","q-early-return-wake",F,[("    if (num_awake_workers.load(std::memory_order_acquire) < num_threads) {\n      wake_up_counter.fetch_add(1);\n      parlay::atomic_notify_all(&wake_up_counter);\n    }","    if (num_awake_workers.load(std::memory_order_acquire) >= num_threads) return;\n    wake_up_counter.fetch_add(1);\n    parlay::atomic_notify_all(&wake_up_counter);")],"Q"),
 ("S04","q-wake-always",F,[("    if (num_awake_workers.load(std::memory_order_acquire) < num_threads) {\n      wake_up_counter.fetch_add(1);\n      parlay::atomic_notify_all(&wake_up_counter);\n    }","    wake_up_counter.fetch_add(1);\n    parlay::atomic_notify_all(&wake_up_counter);")],"Q"),
 ("S04","q-while-true",F,[("    while (!finished()) {\n      Job* job","    while (true) {\n      if (finished()) break;\n      Job* job")],"Q"),
 ("S04","q-num-deques",F,[("deques(num_deques)","deques(num_threads)")],"Q"),
 ("S04","q-fin-body",F,[("finished_flag(false) {\n","finished_flag(false) {\n    finished_flag.store(false, std::memory_order_relaxed);\n")],"Q"),
 ("S04","q-done-loop",F,[("    while (num_finished_workers.load() < num_threads - 1) {\n      wake_up_all_workers();\n      std::this_thread::yield();\n    }","    for (;;) {\n      const size_t done = num_finished_workers.load();\n      if (done + 1 >= num_threads) break;\n      wake_up_all_workers();\n      std::this_thread::yield();\n    }")],"Q"),
 ("S04","q-swap-save",F,[("parent_worker_info(std::exchange(worker_info, workerInfo{0, this})),","parent_worker_info(std::move(worker_info)),"),("finished_flag(false) {\n","finished_flag(false) {\n    worker_info = workerInfo{0, this};\n")],"Q"),
]
