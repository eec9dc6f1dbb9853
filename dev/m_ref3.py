SQ="sequence.h"; SB="internal/sequence_base.h"; SC="scheduler.h"; PR="primitives.h"; SO="internal/sequence_ops.h"; PA="parallel.h"; DQ="internal/work_stealing_deque.h"; TP="internal/thread_id_pool.h"
Q="Q01+Q02"
MUT=[
(Q,"s-emplace-early",SQ,[("    if (p == end()) {\n      return emplace_back(std::forward<Args>(args)...);\n    } else {\n      // args might","    if (p == end()) return emplace_back(std::forward<Args>(args)...);\n    {\n      // args might")],"Q"),
(Q,"s-emplace-pos",SQ,[("      p = begin() + pos;\n\n      // Note that \"it\"","\n      // Note that \"it\""),("auto the_tail = pop_tail(p);\n      auto it = emplace_back","auto the_tail = pop_tail(begin() + pos);\n      auto it = emplace_back")],"Q"),
(Q,"s-emplace-ret",SQ,[("      append(std::move(the_tail));\n      return it;","      append(std::move(the_tail));\n      return begin() + pos;")],"Q"),
(Q,"s-back-flip",SQ,[("    if (size() < capacity()) {\n      storage.initialize(end(), std::forward<Args>(args)...);\n    } else {","    if (size() != capacity()) {\n      storage.initialize(end(), std::forward<Args>(args)...);\n    } else {")],"Q"),
(Q,"s-back-n",SQ,[("    storage.set_size(size() + 1);\n    return end() - 1;","    const auto n = size();\n    storage.set_size(n + 1);\n    return begin() + n;")],"Q"),
(Q,"s-back-helper",SQ,[("    if (size() < capacity()) {\n      storage.initialize(end(), std::forward<Args>(args)...);\n    } else {","    if (has_room_for(1)) {\n      storage.initialize(end(), std::forward<Args>(args)...);\n    } else {"),("  iterator push_back(const value_type& v) {","  bool has_room_for(size_t k) const { return size() + k <= capacity(); }\n\n  iterator push_back(const value_type& v) {")],"Q"),
(Q,"s-append-n-one",SQ,[("    if (size() + n > capacity()) {","    const auto needed = size() + n;\n    if (capacity() < needed) {"),("      storage.ensure_capacity(size() + n);\n      return append_n_within_capacity(n, v);","      storage.ensure_capacity(needed);\n      return append_n_within_capacity(n, v);")],"Q"),
(Q,"s-append-n-idx",SQ,[("    auto it = end();\n    parallel_for(0, n, [&](size_t i) {\n      storage.initialize_explicit(it + i, t);\n    }, this->copy_granularity(n));\n    storage.set_size(size() + n);\n    return it;","    const size_t old = size();\n    auto buffer = storage.data();\n    parallel_for(old, old + n, [&](size_t i) {\n      storage.initialize_explicit(buffer + i, t);\n    }, copy_granularity(n));\n    storage.set_size(old + n);\n    return buffer + old;")],"Q"),
(Q,"s-range-buf",SQ,[("      auto n = std::distance(first, last);\n      storage.ensure_capacity(size() + n);\n      auto it = end();\n      parallel_for(0, n, [&](size_t i) {\n        storage.initialize(it + i, first[i]);\n      }, copy_granularity(n));\n      storage.set_size(size() + n);\n      return it;","      const size_t n = static_cast<size_t>(last - first);\n      const size_t old_size = size();\n      const size_t new_size = old_size + n;\n      storage.ensure_capacity(new_size);\n      auto dest = storage.data() + old_size;\n      parallel_for(0, n, [&, dest](size_t i) {\n        storage.initialize(&dest[i], *(first + i));\n      }, copy_granularity(n));\n      storage.set_size(new_size);\n      return dest;")],"Q"),
(Q,"s-insert-n-pos",SQ,[("    storage.ensure_capacity(size() + n);\n    p = begin() + pos;\n\n    // Note that append takes","    reserve(size() + n);\n    p = data() + pos;\n\n    // Note that append takes")],"Q"),
(Q,"s-insert-n-it",SQ,[("    append_n(n, v);\n    append(std::move(the_tail));\n    return begin() + pos;","    append(n, v);\n    this->append(std::move(the_tail));\n    return storage.data() + pos;")],"Q"),
(Q,"s-insert-range-pos",SQ,[("    auto the_tail = pop_tail(p);\n    auto it = append(first, last);\n    auto pos = it - begin();\n    append(std::move(the_tail));\n    return begin() + pos;","    const auto pos = p - begin();\n    auto the_tail = pop_tail(p);\n    append_range(first, last);\n    append(std::move(the_tail));\n    return begin() + pos;")],"Q"),
(Q,"s-erase-range",SQ,[("      auto pos = q - begin();\n      auto the_tail = pop_tail(q + 1);\n      pop_back();\n      append(std::move(the_tail));\n      return begin() + pos;","      return erase(q, q + 1);")],"Q"),
(Q,"s-erase2-loop",SQ,[("    resize(size() - (q2 - q1));\n","    for (auto k = q2 - q1; k > 0; k--) pop_back();\n")],"Q"),
(Q,"s-erase2-new",SQ,[("    resize(size() - (q2 - q1));\n    append","    const size_t kept = static_cast<size_t>(pos);\n    if (size() > kept) resize(kept);\n    append")],"Q"),
(Q,"s-resize-helper",SQ,[("      if constexpr (!std::is_trivially_destructible_v<value_type>) {\n        auto buffer = storage.data();\n        parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });\n      }\n      storage.set_size(new_size);","      truncate(new_size);"),("  void reserve(size_t amount) {","  void truncate(size_t new_size) {\n    if constexpr (!std::is_trivially_destructible_v<value_type>) {\n      auto first = begin() + new_size;\n      const size_t extra = size() - new_size;\n      parallel_for(0, extra, [&](size_t i) { storage.destroy(first + i); });\n    }\n    storage.set_size(new_size);\n  }\n\n  void reserve(size_t amount) {")],"Q"),
(Q,"s-resize-three",SQ,[("    } else {\n      append_n(new_size - current, v);\n    }","    } else if (new_size > current) {\n      append_n(new_size - current, v);\n    }")],"Q"),
(Q,"s-pop-tail-local",SQ,[("      auto the_tail = sequence_type::uninitialized(end() - p);\n      parlay::uninitialized_relocate(p, end(), the_tail.begin());\n      storage.set_size(p - begin());\n      return the_tail;","      const auto last = end();\n      const size_t kept = static_cast<size_t>(p - begin());\n      sequence_type the_tail = uninitialized(static_cast<size_t>(last - p));\n      parlay::uninitialized_relocate(p, last, the_tail.begin());\n      storage.set_size(kept);\n      return the_tail;")],"Q"),
(Q,"s-pop-tail-n",SQ,[("      parlay::uninitialized_relocate(p, end(), the_tail.begin());","      parlay::uninitialized_relocate_n(p, the_tail.size(), the_tail.begin());")],"Q"),
(Q,"s-append-mv-early",SQ,[("    if (empty() && capacity() <= r.size()) {\n      *this = std::move(r);\n      return begin();\n    } else {","    if (r.empty()) return end();\n    if (empty() && capacity() <= r.size()) {\n      *this = std::move(r);\n      return begin();\n    } else {")],"Q"),
(Q,"s-append-mv-n",SQ,[("      parlay::uninitialized_relocate(r.begin(), r.end(), append_begin);\n","      parlay::uninitialized_relocate_n(r.begin(), r.size(), append_begin);\n")],"Q"),
(Q,"s-initlist-assign",SQ,[("    storage.clear();\n    initialize_range(std::begin(l), std::end(l));\n    return *this;","    assign(l.begin(), l.end());\n    return *this;")],"Q"),
(Q,"s-assign-n",SQ,[("    storage.clear();\n    return initialize_fill(n, v);","    *this = sequence_type(n, v);")],"Q"),
(Q,"s-fill-early-size",SQ,[("    storage.initialize_capacity(n);\n    auto buffer = storage.data();\n    parallel_for(0, n, [&](size_t i) {\n      storage.initialize_explicit(buffer + i, v);\n    }, copy_granularity(n));\n    storage.set_size(n);","    storage.initialize_capacity(n);\n    append_n_within_capacity(n, v);")],"Q"),
(Q,"s-default-lam",SQ,[("    parallel_for(0, n, [&](size_t i) {      // Calling initialize with\n      storage.initialize(buffer + i);                 // no arguments performs\n    }, initialization_granularity(n));       // value initialization","    auto construct_one = [this, buffer](size_t i) { storage.initialize(&buffer[i]); };\n    parallel_for(0, n, construct_one, initialization_granularity(n));")],"Q"),
(Q,"b-copy-unified",SB,[("        auto n = other.size();\n        initialize_capacity(n);\n        auto buffer = data();\n        auto other_buffer = other.data();\n        parallel_for(\n            0, n, [&](size_t i) { initialize_explicit(buffer + i, other_buffer[i]); }, copy_granularity(n));\n        set_size(n);","        const size_t n = other.size();\n        const auto* src = other.data();\n        initialize_capacity(n);\n        auto* dst = data();\n        auto copy_one = [&](size_t i) { initialize_explicit(&dst[i], src[i]); };\n        parallel_for(0, n, copy_one, copy_granularity(n));\n        set_size(n);")],"Q"),
(Q,"b-move-assign",SB,[("      clear();\n      move_from(std::move(other));\n      return *this;","      if (this != &other) {\n        clear();\n        move_from(std::move(other));\n      }\n      return *this;")],"Q"),
(Q,"b-clear-two",SB,[("        destroy_all();\n        auto alloc = get_raw_allocator();\n        _data.long_mode.buffer.free_buffer(alloc);\n      }\n\n      set_to_empty_representation();\n    }\n\n    // Free the buffer without","        destroy_all();\n      }\n      clear_without_destruction();\n    }\n\n    // Free the buffer without")],"Q"),
(Q,"b-ensure-order",SB,[("        // Destroy the old stuff\n        if (!is_small()) {\n          _data.long_mode.buffer.free_buffer(alloc);\n        }\n\n        // Assign the new stuff\n        if constexpr (use_sso) {\n          _data.flag = 1;  // mark as a large sequence\n        }\n        _data.long_mode = long_seq(new_buffer, n);","        replace_buffer(new_buffer, n, alloc);"),("    // Ensure that the capacity is at least new_capacity.","    template<typename A>\n    void replace_buffer(capacitated_buffer fresh, size_t n, A& alloc) {\n      if (!is_small()) _data.long_mode.buffer.free_buffer(alloc);\n      if constexpr (use_sso) _data.flag = 1;\n      _data.long_mode = long_seq(fresh, n);\n    }\n\n    // Ensure that the capacity is at least new_capacity.")],"Q"),
(Q,"b-data-tern",SB,[("      if (buffer != nullptr) {\n          return buffer->get_data();\n        } else {\n          return nullptr;\n        }\n      }\n\n      const","      return buffer == nullptr ? nullptr : buffer->get_data();\n      }\n\n      const")],"Q"),
(Q,"b-cap-tern",SB,[("        if (buffer != nullptr) {\n          return buffer->capacity;\n        } else {\n          return 0;\n        }","        return buffer ? buffer->capacity : 0;")],"Q"),
(Q,"b-header-size",SB,[("          auto buffer_size = offsetof(header, data) + capacity * sizeof(value_type);\n          std::byte* bytes = std::allocator","          const size_t buffer_size = bytes_for(capacity);\n          std::byte* bytes = std::allocator"),("          auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);","          const size_t buffer_size = bytes_for(p->capacity);"),("        static header* create(","        static size_t bytes_for(size_t capacity) { return offsetof(header, data) + sizeof(value_type) * capacity; }\n\n        static header* create(")],"Q"),
(Q,"b-initcap-neg",SB,[("        if (short_capacity < desired) {\n          auto alloc = get_raw_allocator();\n          _data.flag = 1;\n          _data.long_mode = long_seq(capacitated_buffer(desired, alloc), 0);\n        } else {\n          _data.flag = 0;\n        }","        const bool fits = desired <= short_capacity;\n        _data.flag = fits ? 0 : 1;\n        if (!fits) {\n          auto alloc = get_raw_allocator();\n          _data.long_mode = long_seq(capacitated_buffer(desired, alloc), 0);\n        }")],"Q"),
(Q,"b-set-size",SB,[("      if constexpr (use_sso) {\n        if (is_small())\n          _data.small_n = new_size;\n        else\n          _data.long_mode.set_size(new_size);\n      } else {\n        _data.long_mode.set_size(new_size);\n      }","      if constexpr (use_sso) {\n        if (is_small()) {\n          _data.small_n = new_size;\n          return;\n        }\n      }\n      _data.long_mode.n = new_size;")],"Q"),
("P05","s-cmp-while",SQ,[("    size_t i;\n    for (i = 0; i < (std::min)(granularity, n); i++)\n      if (!(self[i] == other[i])) return false;\n    if (i == n) return true;\n    size_t start = granularity;","    const size_t head_len = (std::min)(granularity, n);\n    for (size_t i = 0; i < head_len; i++) {\n      if (!(self[i] == other[i])) return false;\n    }\n    if (head_len == n) return true;\n    size_t start = head_len;")],"Q"),
# scheduler
("S01+S04","c-parfor-pardo",SC,[("      pardo(scheduler,\n            [&]() { parfor_(scheduler, start, mid, f, granularity, conservative); },\n            [&]() { parfor_(scheduler, mid, end, f, granularity, conservative); },\n            conservative);","      auto left_half = [&]() { parfor_(scheduler, start, mid, f, granularity, conservative); };\n      auto right_half = [&]() { parfor_(scheduler, mid, end, f, granularity, conservative); };\n      pardo(scheduler, left_half, right_half, conservative);")],"Q"),
("S03+S01","c-parfor-leaf",SC,[("    if ((end - start) <= granularity)\n      for (size_t i = start; i < end; i++) f(i);\n    else {\n      size_t n = end - start;","    const size_t n = end - start;\n    if (n <= granularity) {\n      run_serially(start, end, f);\n    } else {"),("  template <typename F>\n  static void parfor_(","  template <typename F>\n  static void run_serially(size_t start, size_t end, F& f) {\n    for (size_t i = start; i < end; i++) f(i);\n  }\n\n  template <typename F>\n  static void parfor_(")],"Q"),
("S01+S02+S04","c-spawn-own",SC,[("    int id = worker_id();\n    [[maybe_unused]] bool first = deques[id].push_bottom(job);","    auto& my_deque = deques[worker_id()];\n    [[maybe_unused]] const bool first = my_deque.push_bottom(job);")],"Q"),
("S01+S04","c-own-helper",SC,[("    auto id = worker_id();\n    return deques[id].pop_bottom();","    return own_deque().pop_bottom();"),(" private:\n  // Align to avoid false sharing."," private:\n  internal::Deque<Job>& own_deque() { return deques[worker_id()]; }\n\n  // Align to avoid false sharing.")],"Q"),
("S01+S04","c-getjob-first",SC,[("    Job* job = get_own_job();\n    if (job) return job;\n    else job = steal_job(std::forward<F>(break_early), timeout);\n    return job;","    if (Job* mine = get_own_job()) return mine;\n    return steal_job(std::forward<F>(break_early), timeout);")],"Q"),
("S01+S04","c-steal-dl",SC,[("    const auto start_time = std::chrono::steady_clock::now();\n    do {","    const auto deadline = std::chrono::steady_clock::now() + STEAL_TIMEOUT;\n    const size_t rounds = YIELD_FACTOR * num_deques;\n    do {"),("i <= YIELD_FACTOR * num_deques; i++","i <= rounds; i++"),("std::chrono::steady_clock::now() - start_time < STEAL_TIMEOUT","std::chrono::steady_clock::now() < deadline")],"Q"),
("S04+S01","c-wake-merge",SC,[("  void wake_up_a_worker() {\n    if (num_awake_workers.load(std::memory_order_acquire) < num_threads) {\n      wake_up_counter.fetch_add(1);","  bool somebody_sleeps() const { return num_awake_workers.load(std::memory_order_acquire) < num_threads; }\n\n  void wake_up_a_worker() {\n    if (somebody_sleeps()) {\n      wake_up_counter.fetch_add(1);"),("  void wake_up_all_workers() {\n    if (num_awake_workers.load(std::memory_order_acquire) < num_threads) {","  void wake_up_all_workers() {\n    if (somebody_sleeps()) {")],"Q"),
("S04","c-shutdown-for",SC,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();\n    }","    for (auto& t : spawned_threads) {\n      if (t.joinable()) t.join();\n    }")],"Q"),
("S04","c-shutdown-help",SC,[("    while (num_finished_workers.load() < num_threads - 1) {\n      wake_up_all_workers();\n      std::this_thread::yield();\n    }","    auto all_done = [&]() { return num_finished_workers.load() >= num_threads - 1; };\n    while (!all_done()) {\n      wake_up_all_workers();\n      std::this_thread::yield();\n    }")],"Q"),
("S04","c-ctor-helper",SC,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads.emplace_back([&, i]() {\n        worker_info = {i, this};\n        worker();\n      });\n    }","    spawned_threads.reserve(num_threads - 1);\n    for (worker_id_type i = 1; i < num_threads; ++i) start_worker(i);"),("  // Start an individual worker task,","  void start_worker(worker_id_type i) {\n    spawned_threads.emplace_back([this, i]() {\n      worker_info = workerInfo{i, this};\n      worker();\n    });\n  }\n\n  // Start an individual worker task,")],"Q"),
]
MUT += [
("S04","c-shutdown-one",SC,[("    for (worker_id_type i = 1; i < num_threads; ++i) {\n      spawned_threads[i - 1].join();\n    }","    if (spawned_threads[0].joinable()) spawned_threads[0].join();\n    for (worker_id_type i = 3; i < num_threads; ++i) {\n      if (spawned_threads[i - 1].joinable()) spawned_threads[i - 1].join();\n    }")],"V"),
]
