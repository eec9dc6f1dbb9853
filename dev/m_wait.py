F = "internal/atomic_wait.h"
MUT = [
 ("S07","no-fence-notify",F,[("            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);\n            __atomic_thread_fence(__ATOMIC_SEQ_CST);","            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);")],"V"),
 ("S07","acqrel-fence",F,[("            __atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED);\n            __atomic_thread_fence(__ATOMIC_SEQ_CST);","            __atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED);\n            __atomic_thread_fence(__ATOMIC_ACQ_REL);")],"V"),
 ("S07","fence-before-announce",F,[("            __atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED);\n            __atomic_thread_fence(__ATOMIC_SEQ_CST);","            __atomic_thread_fence(__ATOMIC_SEQ_CST);\n            __atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED);")],"V"),
 ("S07","version-late",F,[("            auto const version = __atomic_load_n(&c->version, __ATOMIC_RELAXED);\n            if (__builtin_expect(val != __atomic_load_n(ptr, order), 1))\n                return;","            if (__builtin_expect(val != __atomic_load_n(ptr, order), 1))\n                return;\n            auto const version = __atomic_load_n(&c->version, __ATOMIC_RELAXED);")],"V"),
 ("S07","no-recheck",F,[("            if (__builtin_expect(val != __atomic_load_n(ptr, order), 1))\n                return;\n","")],"V"),
 ("S07","no-bump",F,[("            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);\n","")],"V"),
 ("S07","bump-late",F,[("            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);\n            __atomic_thread_fence(__ATOMIC_SEQ_CST);\n            if (0 != __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED))\n","            __atomic_thread_fence(__ATOMIC_SEQ_CST);\n            auto w = __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED);\n            __atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED);\n            if (0 != w)\n")],"V"),
 ("S07","wake-one-shared",F,[("                __do_direct_wake(&c->version, true);","                __do_direct_wake(&c->version, false);")],"V"),
 ("S07","notify-all-one",F,[("            __do_direct_wake(ptr, true);","            __do_direct_wake(ptr, false);")],"V"),
 ("S07","no-timeout",F,[("            __do_direct_wait(&c->version, version, &timeout);","            __do_direct_wait(&c->version, version, nullptr);")],"V"),
 ("S07","wait-once",F,[("    while(val == __atomic_load_n(ptr, order))\n","    if(val == __atomic_load_n(ptr, order))\n")],"V"),
 ("S07","spin-return",F,[("        else\n            __YIELD();\n    }\n#endif\n    while","        else\n            __YIELD();\n        if(i == 15 && order == 5) return;\n    }\n#endif\n    while")],"V"),
 ("S07","direct-sub-twice",F,[("        __do_direct_wait(ptr, val, nullptr);\n    #ifdef __TABLE\n","        __do_direct_wait(ptr, val, nullptr);\n    #ifdef __TABLE\n        __atomic_fetch_sub(&c->waiters, 1, __ATOMIC_RELAXED);\n")],"V"),
 ("S07","direct-announce-late",F,[("        __atomic_fetch_add(&c->waiters, 1, __ATOMIC_RELAXED);\n        __atomic_thread_fence(__ATOMIC_SEQ_CST);\n    #endif\n        __do_direct_wait(ptr, val, nullptr);","    #endif\n        __do_direct_wait(ptr, val, nullptr);\n        __atomic_fetch_add(&c->waiters, 1, __ATOMIC_RELAXED);\n        __atomic_thread_fence(__ATOMIC_SEQ_CST);")],"V"),
 ("S07","table-index",F,[("((uintptr_t)p & 255)","((uintptr_t)p & 511)")],"V"),
 ("S07","other-slot",F,[("            auto * const c = __contention(ptr);\n            __atomic_fetch_add(&c->version","            auto * const c = __contention((char const*)ptr + 1);\n            __atomic_fetch_add(&c->version")],"V"),
 ("S07","relaxed-load",F,[("    while(val == __atomic_load_n(ptr, order))","    while(val == __atomic_load_n(ptr, __ATOMIC_RELAXED))")],"V"),
 ("S07","q-loop",F,[("    while(val == __atomic_load_n(ptr, order))\n#ifndef __NO_WAIT\n        __cxx_atomic_try_wait_slow(ptr, val, order)\n#endif\n        ;","    for (;;) {\n        if (__atomic_load_n(ptr, order) != val) return;\n        __cxx_atomic_try_wait_slow(ptr, val, order);\n    }")],"Q"),
 ("S07","q-seq",F,[("__atomic_fetch_add(&c->version, 1, __ATOMIC_RELAXED)","__atomic_fetch_add(&c->version, 1, __ATOMIC_SEQ_CST)"),("__atomic_store_n(&c->waiters, 1, __ATOMIC_RELAXED)","__atomic_exchange_n(&c->waiters, 1, __ATOMIC_SEQ_CST)")],"Q"),
 ("S07","q-early",F,[("            if (0 != __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED))\n                __do_direct_wake(&c->version, true);","            if (__atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED) == 0) return;\n            __do_direct_wake(&c->version, true);")],"Q"),
 ("S07","q-notify-unconditional",F,[("            if (0 != __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED))\n                __do_direct_wake","            __atomic_exchange_n(&c->waiters, 0, __ATOMIC_RELAXED);\n                __do_direct_wake")],"Q"),
 ("S07","q-spin8",F,[("i < 16","i < 32"),("i < 12","i < 20")],"Q"),
 ("S07","q-timeout1",F,[("timeout = { 2, 0 }","timeout = { 1, 0 }")],"Q"),
 ("S07","q-mod",F,[("((uintptr_t)p & 255)","(((uintptr_t)p >> 3) % 256)")],"Q"),
 ("S07","q-ptrloc",F,[("            auto const version = __atomic_load_n(&c->version, __ATOMIC_RELAXED);","            auto * const v = &c->version;\n            auto const version = __atomic_load_n(v, __ATOMIC_RELAXED);")],"Q"),
]
