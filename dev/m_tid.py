F = "internal/thread_id_pool.h"
MUT = [
 ("S05","no-lock",F,[("      static std::mutex m_;\n      std::lock_guard<std::mutex> g_{m_};\n","")],"V"),
 ("S05","tls-mutex",F,[("static std::mutex m_;","static thread_local std::mutex m_;")],"V"),
 ("S05","early-unlock",F,[("      std::lock_guard<std::mutex> g_{m_};\n\n      ThreadId* current = available_ids.load(std::memory_order_relaxed);","      ThreadId* current = available_ids.load(std::memory_order_relaxed);\n      std::lock_guard<std::mutex> g_{m_};\n")],"V"),
 ("S05","pop-relaxed",F,[("std::memory_order_acquire, std::memory_order_relaxed)) {}\n      if","std::memory_order_relaxed, std::memory_order_relaxed)) {}\n      if")],"V"),
 ("S05","push-relaxed",F,[("             std::memory_order_release, std::memory_order_relaxed)) {}\n  }","             std::memory_order_relaxed, std::memory_order_relaxed)) {}\n  }")],"V"),
 ("S05","ret-raw",F,[("      if (current) { return current; }","      if (current && available_ids.load() != current) { return current; }\n      if (current) return available_ids.load() ? available_ids.load() : current;")],"V"),
 ("S05","load-store-id",F,[("new ThreadId(num_thread_ids.fetch_add(1))","new ThreadId((num_thread_ids.store(num_thread_ids.load() + 1), num_thread_ids.load() - 1))")],"V"),
 ("S05","id-plus",F,[("new ThreadId(num_thread_ids.fetch_add(1))","new ThreadId(++num_thread_ids)")],"V"),
 ("S05","push-exch",F,[("    p->next = available_ids.load(std::memory_order_relaxed);\n    while (!available_ids.compare_exchange_weak(p->next, p,\n             std::memory_order_release, std::memory_order_relaxed)) {}","    p->next = available_ids.exchange(p);")],"V"),
 ("S05","push-local",F,[("    p->next = available_ids.load(std::memory_order_relaxed);\n    while (!available_ids.compare_exchange_weak(p->next, p,","    auto h = available_ids.load(std::memory_order_relaxed);\n    p->next = h;\n    while (!available_ids.compare_exchange_weak(h, p,")],"V"),
 ("S05","no-rel",F,[("~ThreadIdOwner() { pool->relinquish(node); }","~ThreadIdOwner() { if (id != 0) pool->relinquish(node); }")],"V"),
 ("S05","id-acq2",F,[("node(pool->acquire()), id(node->id)","node(pool->acquire()), id(pool->acquire()->id)")],"V"),
 ("S05","static-not-tls",F,[("static const thread_local ThreadIdPool::ThreadIdOwner my_id","static const ThreadIdPool::ThreadIdOwner my_id")],"V"),
 ("S05","num-minus",F,[("return ThreadIdPool::instance().num_thread_ids.load();","return ThreadIdPool::instance().num_thread_ids.load() - 1;")],"V"),
 ("S05","dtor-uaf",F,[("      auto old = std::exchange(current, current->next);\n      delete old;","      auto old = current;\n      delete old;\n      current = old->next;")],"V"),
 ("S05","q-unique-lock",F,[("std::lock_guard<std::mutex> g_{m_};","std::unique_lock<std::mutex> g_{m_};")],"Q"),
 ("S05","q-strong",F,[("available_ids.compare_exchange_weak(current","available_ids.compare_exchange_strong(current")],"Q"),
 ("S05","q-loop",F,[("      while (current && !available_ids.compare_exchange_weak(current, current->next,\n               std::memory_order_acquire, std::memory_order_relaxed)) {}\n      if (current) { return current; }","      while (current) {\n        if (available_ids.compare_exchange_weak(current, current->next, std::memory_order_acquire, std::memory_order_relaxed)) return current;\n      }")],"Q"),
 ("S05","q-always-lock",F,[("    if (available_ids.load(std::memory_order_relaxed)) {","    {")],"Q"),
 ("S05","q-push-local",F,[("    p->next = available_ids.load(std::memory_order_relaxed);\n    while (!available_ids.compare_exchange_weak(p->next, p,\n             std::memory_order_release, std::memory_order_relaxed)) {}","    auto h = available_ids.load(std::memory_order_relaxed);\n    do { p->next = h; } while (!available_ids.compare_exchange_weak(h, p,\n             std::memory_order_release, std::memory_order_relaxed));")],"Q"),
 ("S05","q-split-new",F,[("    return new ThreadId(num_thread_ids.fetch_add(1));","    auto fresh_id = num_thread_ids++;\n    return new ThreadId(static_cast<thread_id_type>(fresh_id));")],"Q"),
 ("S05","q-member-mutex",F,[("      static std::mutex m_;\n      std::lock_guard<std::mutex> g_{m_};","      std::lock_guard<std::mutex> g_{m_};"),("  std::atomic<size_t> num_thread_ids;\n","  std::mutex m_;\n  std::atomic<size_t> num_thread_ids;\n")],"Q"),
 ("S05","q-dtor",F,[("    for (auto current = available_ids.load(std::memory_order_relaxed); current; num_destroyed++) {\n      auto old = std::exchange(current, current->next);\n      delete old;\n    }","    auto current = available_ids.load(std::memory_order_relaxed);\n    while (current != nullptr) {\n      auto next = current->next;\n      delete current;\n      current = next;\n      ++num_destroyed;\n    }")],"Q"),
]
