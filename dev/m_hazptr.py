A = "internal/concurrency/acquire_retire.h"; S = "internal/concurrency/hazptr_stack.h"
MUT = [
 ("A03","no-validate",A,[("    } while (p.load(std::memory_order_seq_cst) != result);","    } while (false);")],"V"),
 ("A03","validate-acquire",A,[("while (p.load(std::memory_order_seq_cst) != result)","while (p.load(std::memory_order_acquire) != result)")],"V"),
 ("A03","announce-release",A,[("slot.store(static_cast<T*>(result), std::memory_order_seq_cst)","slot.store(static_cast<T*>(result), std::memory_order_release)")],"V"),
 ("A03","announce-late",A,[("    U result;\n    do {\n      result = p.load(std::memory_order_seq_cst);\n      PARLAY_PREFETCH(result, 0, 0);\n      slot.store(static_cast<T*>(result), std::memory_order_seq_cst);\n    } while (p.load(std::memory_order_seq_cst) != result);\n    return result;","    U result = p.load(std::memory_order_seq_cst);\n    while (true) {\n      auto again = p.load(std::memory_order_seq_cst);\n      slot.store(static_cast<T*>(again), std::memory_order_seq_cst);\n      if (again == result) return result;\n      result = again;\n    }")],"V"),
 ("A03","no-fence",A,[("    std::atomic_thread_fence(std::memory_order_seq_cst);\n","")],"V"),
 ("A03","fence-acq",A,[("    std::atomic_thread_fence(std::memory_order_seq_cst);\n","    std::atomic_thread_fence(std::memory_order_acq_rel);\n")],"V"),
 ("A03","scan-first",A,[("    data->retired.push(static_cast<T*>(p));\n    work_toward_ejects();","    work_toward_ejects();\n    if (p) data->retired.push(static_cast<T*>(p));")],"V"),
 ("A03","scan-skip-same",A,[("[&](T* reserved) { announced.insert(reserved); }","[&](T* reserved) { if (announced.size() < 64) announced.insert(reserved); }")],"V"),
 ("A03","protect-inverted",A,[("return announced.count(p) != 0;","return announced.count(p) > 1;")],"V"),
 ("A03","own-scan-only",A,[("    data.for_each([&](auto&& local_data) {\n      auto x = local_data.announcement.load(std::memory_order_seq_cst);\n      if (x != nullptr) f(x);\n    });","    auto x = data->announcement.load(std::memory_order_seq_cst);\n    if (x != nullptr) f(x);")],"V"),
 ("A03","cleanup-head-only",A,[("        if (!is_protected(current)) {","        if (!is_protected(head) || !is_protected(current)) {")],"V"),
 ("A03","cleanup-uaf",A,[("            auto next = intrusive_get_next(current);\n            intrusive_set_next(prev, next);\n            destroy(current);","            destroy(current);\n            auto next = intrusive_get_next(current);\n            intrusive_set_next(prev, next);")],"V"),
 ("A03","cleanup-nolink",A,[("            intrusive_set_next(prev, next);\n","")],"V"),
 ("A03","cleanup-prev",A,[("            prev = std::exchange(current, intrusive_get_next(current));","            current = intrusive_get_next(current);")],"V"),
 ("A03","cleanup-size",A,[("            current = next;\n            size--;","            current = next;")],"V"),
 ("A03","push-lost",A,[("intrusive_set_next(p, std::exchange(head, p));","intrusive_set_next(p, head ? intrusive_get_next(head) : nullptr); head = p;")],"V"),
 ("A03","no-progress",A,[("      data->in_progress = true;\n\n","\n")],"V"),
 ("A03","progress-stuck",A,[("\n      data->in_progress = false;\n","\n")],"V"),
 ("A03","dtor-once",A,[("          retired = true;\n","")],"V"),
 ("A03","dtor-break",A,[("    while (retired) {\n      retired = false;","    while (retired) {\n      retired = false; ")],"Q"),
 ("A03","dtor-skip",A,[("if (local_data.retired.get_size() > 0) {\n          retired = true;","if (local_data.retired.get_size() > 1) {\n          retired = true;")],"V"),
 ("A03","pop-noacq",S,[("      p = hazptr_instance().acquire(head);\n      if (p == nullptr) return {};","      p = head.load();\n      if (p == nullptr) return {};")],"V"),
 ("A03","pop-acq-once",S,[("    Node* p;\n    do {\n      p = hazptr_instance().acquire(head);\n      if (p == nullptr) return {};\n    } while","    Node* p = hazptr_instance().acquire(head);\n    do {\n      if (p == nullptr) return {};\n    } while")],"V"),
 ("A03","pop-early-release",S,[("    auto val = std::make_optional(std::move(p->t));\n    hazptr_instance().retire(p);\n    hazptr_instance().release();","    hazptr_instance().release();\n    hazptr_instance().retire(p);\n    auto val = std::make_optional(std::move(p->t));")],"V"),
 ("A03","pop-delete",S,[("    hazptr_instance().retire(p);\n","    delete p;\n")],"V"),
 ("A03","pop-leak",S,[("    hazptr_instance().retire(p);\n","")],"V"),
 ("A03","pop-read-early",S,[("    } while (!head.compare_exchange_weak(p, p->next));\n    auto val = std::make_optional(std::move(p->t));","      val = std::make_optional(std::move(p->t));\n    } while (!head.compare_exchange_weak(p, p->next));"),("    Node* p;\n    do {","    Node* p; std::optional<T> val;\n    do {")],"V"),
 ("A03","push-relaxed",S,[("while (!head.compare_exchange_weak(p->next, p))","while (!head.compare_exchange_weak(p->next, p, std::memory_order_relaxed))")],"V"),
 ("A03","push-len-unprot",S,[("      auto h = hazptr_instance().acquire(head);\n      p->next = h;","      auto h = head.load();\n      p->next = h;")],"V"),
 ("A03","push-load-twice",S,[("      p->next = h;\n","      p->next = head.load();\n")],"V"),
 ("A03","push-len-after",S,[("      p->length = h ? h->length + 1 : 1;\n    } while (!head.compare_exchange_weak(p->next, p));","    } while (!head.compare_exchange_weak(p->next, p));\n    p->length = p->next ? p->next->length + 1 : 1;")],"V"),
 ("A03","size-unprot",S,[("    auto p = hazptr_instance().acquire(head);\n    auto result = p ? p->length : 0;\n    hazptr_instance().release();","    auto p = head.load();\n    auto result = p ? p->length : 0;")],"V"),
 ("A03","size-late",S,[("    auto result = p ? p->length : 0;\n    hazptr_instance().release();\n    return result;","    hazptr_instance().release();\n    return p ? p->length : 0;")],"V"),
 ("A03","dtor-uaf",S,[("      p = p->next;\n      delete prev;","      delete prev;\n      p = prev->next;")],"V"),
 ("A03","release-relaxed",A,[("data->announcement.store(nullptr);","data->announcement.store(nullptr, std::memory_order_relaxed);")],"V"),
 ("A03","q-release-order",A,[("data->announcement.store(nullptr);","data->announcement.store(nullptr, std::memory_order_release);")],"Q"),
 ("A03","q-strong",S,[("head.compare_exchange_weak(p, p->next)","head.compare_exchange_strong(p, p->next)")],"Q"),
 ("A03","q-for",A,[("    U result;\n    do {\n      result = p.load(std::memory_order_seq_cst);\n      PARLAY_PREFETCH(result, 0, 0);\n      slot.store(static_cast<T*>(result), std::memory_order_seq_cst);\n    } while (p.load(std::memory_order_seq_cst) != result);\n    return result;","    for (;;) {\n      U result = p.load(std::memory_order_acquire);\n      slot.store(static_cast<T*>(result), std::memory_order_seq_cst);\n      U check = p.load(std::memory_order_seq_cst);\n      if (check == result) return check;\n    }")],"Q"),
 ("A03","q-reuse",A,[("    U result;\n    do {\n      result = p.load(std::memory_order_seq_cst);\n      PARLAY_PREFETCH(result, 0, 0);\n      slot.store(static_cast<T*>(result), std::memory_order_seq_cst);\n    } while (p.load(std::memory_order_seq_cst) != result);\n    return result;","    U result = p.load(std::memory_order_seq_cst);\n    while (true) {\n      slot.store(static_cast<T*>(result), std::memory_order_seq_cst);\n      auto again = p.load(std::memory_order_seq_cst);\n      if (again == result) return result;\n      result = again;\n    }")],"Q"),
 ("A03","q-pop",S,[("    Node* p;\n    do {\n      p = hazptr_instance().acquire(head);\n      if (p == nullptr) return {};\n    } while (!head.compare_exchange_weak(p, p->next));","    Node* p = nullptr;\n    while (true) {\n      p = hazptr_instance().acquire(head);\n      if (!p) { hazptr_instance().release(); return std::nullopt; }\n      Node* expected = p;\n      Node* successor = p->next;\n      if (head.compare_exchange_strong(expected, successor)) break;\n    }")],"Q"),
 ("A03","q-push",S,[("    do {\n      auto h = hazptr_instance().acquire(head);\n      p->next = h;\n      p->length = h ? h->length + 1 : 1;\n    } while (!head.compare_exchange_weak(p->next, p));","    bool done = false;\n    while (!done) {\n      Node* h = hazptr_instance().acquire(head);\n      p->length = 1;\n      if (h != nullptr) p->length += h->length;\n      p->next = h;\n      done = head.compare_exchange_weak(h, p);\n    }")],"Q"),
 ("A03","q-push-list",A,[("intrusive_set_next(p, std::exchange(head, p));\n      size++;","intrusive_set_next(p, head);\n      head = p;\n      ++size;")],"Q"),
 ("A03","q-cleanup-single",A,[("            auto next = intrusive_get_next(current);\n            intrusive_set_next(prev, next);\n            destroy(current);\n            current = next;\n            size--;","            T* victim = current;\n            current = intrusive_get_next(victim);\n            intrusive_set_next(prev, current);\n            --size;\n            destroy(victim);")],"Q"),
 ("A03","q-cleanup-head",A,[("        T* old = std::exchange(head, intrusive_get_next(head));\n        destroy(old);\n        size--;","        T* old = head;\n        T* rest = intrusive_get_next(old);\n        destroy(old);\n        head = rest;\n        size--;")],"Q"),
 ("A03","q-scan-named",A,[("      std::unordered_set<T*> announced;\n      scan_slots([&](T* reserved) { announced.insert(reserved); });","      std::unordered_set<T*> announced;\n      announced.reserve(64);\n      auto note = [&announced](T* reserved) { announced.emplace(reserved); };\n      scan_slots(note);")],"Q"),
 ("A03","q-scan-inline",A,[("      scan_slots([&](T* reserved) { announced.insert(reserved); });","      std::atomic_thread_fence(std::memory_order_seq_cst);\n      data.for_each([&announced](auto& td) {\n        if (T* x = td.announcement.load(); x) announced.insert(x);\n      });")],"Q"),
 ("A03","q-pred",A,[("return announced.count(p) != 0;","return announced.count(p) > 0;")],"Q"),
 ("A03","q-pred-find",A,[("return announced.count(p) != 0;","return announced.find(p) != announced.end();")],"Q"),
 ("A03","q-retire-helper",A,[("    data->retired.push(static_cast<T*>(p));\n    work_toward_ejects();","    auto& mine = *data;\n    mine.retired.push(static_cast<T*>(p));\n    work_toward_ejects(1);")],"Q"),
 ("A03","q-work",A,[("    while (!(data->in_progress) && data->amortized_work >= threshold) {\n      data->amortized_work = 0;\n      if (data->retired.get_size() == 0) break;  // nothing to collect","    while (data->amortized_work >= threshold && !(data->in_progress)) {\n      data->amortized_work = 0;\n      if (data->retired.get_size() == 0) return;")],"Q"),
 ("A03","q-dtor",A,[("    bool retired = true;\n    while (retired) {\n      retired = false;\n      data.for_each(","    bool retired;\n    do {\n      retired = false;\n      data.for_each("),("          local_data.retired.cleanup([](auto&&) { return false; }, deleter);\n        }\n      });\n    }","          local_data.retired.cleanup([](auto&&) { return false; }, deleter);\n        }\n      });\n    } while (retired);")],"Q"),
 ("A03","q-st-dtor",S,[("    Node* p = head.load();\n    Node* prev = nullptr;\n    while (p) {\n      prev = p;\n      p = p->next;\n      delete prev;\n    }","    for (Node* p = head.load(); p != nullptr; ) {\n      Node* next = p->next;\n      delete p;\n      p = next;\n    }")],"Q"),
]
