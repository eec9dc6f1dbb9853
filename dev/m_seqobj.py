SQ="sequence.h"; SB="internal/sequence_base.h"; RL="relocation.h"; UT="utilities.h"
MUT=[
("Q01+Q02","destroy-size",SB,[("          auto buffer_size = offsetof(header, data) + p->capacity * sizeof(value_type);\n          std::byte* bytes = reinterpret_cast","          auto buffer_size = p->capacity * sizeof(value_type);\n          std::byte* bytes = reinterpret_cast")],"V"),
("Q01+Q02","no-free",SB,[("        if (!is_small()) {\n          _data.long_mode.buffer.free_buffer(alloc);\n        }\n\n        // Assign","        if (!is_small() && n != 0) {\n          _data.long_mode.buffer.free_buffer(alloc);\n        }\n\n        // Assign")],"V"),
("Q01+Q02","grow-last",SB,[("parlay::uninitialized_relocate_n(current_buffer, n, dest_buffer);","parlay::uninitialized_relocate_n(current_buffer, (std::min)(n, current), dest_buffer); if (n > 2 * desired) return;")],"Q"),
("Q01+Q02","grow-cap",SB,[("size_t new_capacity = (std::max)(desired, (5 * current)/ 2);","size_t new_capacity = current ? (5 * current)/ 2 : desired;")],"V"),
("Q01+Q02","grow-keep",SB,[("if (current < desired) {\n        // Allocate a new buffer that is at least","if (current + 1 < desired || current == 0) {\n        // Allocate a new buffer that is at least")],"V"),
("Q01+Q02","move-no-reset",SB,[("      other.set_to_empty_representation();\n","      if (!is_small() && size() != 0) other.set_to_empty_representation();\n")],"V"),
("Q01+Q02","clear-nofree",SB,[("        destroy_all();\n        auto alloc = get_raw_allocator();\n        _data.long_mode.buffer.free_buffer(alloc);","        destroy_all();\n        auto alloc = get_raw_allocator();\n        if (size()) _data.long_mode.buffer.free_buffer(alloc);")],"V"),
("Q01+Q02","clear-norep",SB,[("        destroy_all();\n        auto alloc = get_raw_allocator();\n        _data.long_mode.buffer.free_buffer(alloc);\n      }\n\n      set_to_empty","        destroy_all();\n        auto alloc = get_raw_allocator();\n        _data.long_mode.buffer.free_buffer(alloc);\n        return;\n      }\n\n      set_to_empty")],"V"),
("Q01+Q02","destroy-half",SB,[("parallel_for(0, n, [&](size_t i) { destroy(&current_buffer[i]); });","parallel_for(0, n > 4096 ? n - 1 : n, [&](size_t i) { destroy(&current_buffer[i]); });")],"V"),
("Q01+Q02","insert-range-it",SQ,[("    append(std::move(the_tail));\n    return begin() + pos;\n  }\n\n  // Return true","    append(std::move(the_tail));\n    return it;\n  }\n\n  // Return true")],"V"),
("Q01+Q02","insert-seq-p",SQ,[("    return begin() + idx;   // p might","    return the_tail.empty() ? begin() + idx : p;   // p might")],"Q"),
("Q01+Q02","erase-order",SQ,[("      auto the_tail = pop_tail(q + 1);\n      pop_back();","      pop_back();\n      auto the_tail = pop_tail(q);")],"V"),
("Q01+Q02","erase-end",SQ,[("      pop_back();\n      return end();","      pop_back();\n      return q + 1;")],"V"),
("Q01+Q02","erase2-resize",SQ,[("    resize(size() - (q2 - q1));","    resize(size() - (q2 - q1) - (q1 == q2 && pos > 0 ? 1 : 0));")],"V"),
("Q01+Q02","pop-nodestroy",SQ,[("    storage.destroy(end() - 1);\n    storage.set_size(size() - 1);","    storage.set_size(size() - 1);\n    storage.destroy(end() - 1);")],"V"),
("Q01+Q02","resize-down",SQ,[("parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });","parallel_for(new_size + 1, current, [&](size_t i) { storage.destroy(&buffer[i]); });")],"V"),
("Q01+Q02","resize-down0",SQ,[("parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });","parallel_for(new_size, new_size == 0 ? capacity() : current, [&](size_t i) { storage.destroy(&buffer[i]); });")],"V"),
("Q01+Q02","append-move-cap",SQ,[("if (empty() && capacity() <= r.size())","if (capacity() <= r.size())")],"V"),
("Q01+Q02","append-move-cap2",SQ,[("if (empty() && capacity() <= r.size())","if (empty())")],"Q"),
("Q01+Q02","append-noclear",SQ,[("      clear_relocated(r);  ","      if (!empty()) clear_relocated(r);  ")],"V"),
("Q01+Q02","append-clear",SQ,[("      clear_relocated(r);  ","      r.clear();  ")],"V"),
("Q01+Q02","append-ret",SQ,[("      auto append_begin = end();\n      parlay::uninit","      auto append_begin = begin() + (size() < 1024 ? size() : new_size - r.size() - 1);\n      parlay::uninit")],"V"),
("Q01+Q02","append-late",SQ,[("      storage.ensure_capacity(new_size);\n      auto append_begin = end();\n","      auto append_begin = end();\n      storage.ensure_capacity(new_size);\n")],"V"),
("Q01+Q02","range-late",SQ,[("      auto n = std::distance(first, last);\n      storage.ensure_capacity(size() + n);\n      auto it = end();\n      parallel_for","      auto n = std::distance(first, last);\n      auto it = end();\n      storage.ensure_capacity(size() + n);\n      parallel_for")],"V"),
("Q01+Q02","pop-tail-size",SQ,[("      storage.set_size(p - begin());\n      return the_tail;","      storage.set_size(p - begin());\n      if (p == begin()) storage.clear();\n      return the_tail;")],"V"),
("Q01+Q02","pop-tail-clear",SQ,[("      storage.set_size(p - begin());\n      return the_tail;","      if (p == begin()) storage.clear();\n      else storage.set_size(p - begin());\n      return the_tail;")],"V"),
("Q01+Q02","pop-tail-relocated",SQ,[("      storage.set_size(p - begin());\n      return the_tail;","      if (p == begin()) storage.clear_without_destruction();\n      else storage.set_size(p - begin());\n      return the_tail;")],"V"),
("Q01+Q02","emplace-ref",SQ,[("      auto it = emplace_back(std::move(v));","      auto it = emplace_back(std::forward<Args>(args)...);")],"V"),
("Q01+Q02","back-ref",SQ,[("      value_type v(std::forward<Args>(args)...);\n      storage.ensure_capacity(size() + 1);\n      storage.initialize(end(), std::move(v));","      storage.ensure_capacity(size() + 1);\n      storage.initialize(end(), std::forward<Args>(args)...);")],"V"),
("Q01+Q02","assign-noclear",SQ,[("  void assign(size_t n, const value_type& v) {\n    storage.clear();","  void assign(size_t n, const value_type& v) {\n    if (n) storage.clear();")],"V"),
("Q01+Q02","assign-nodestr",SQ,[("    storage.clear();\n    initialize_range(first, last);\n  }\n\n  void assign(size_t","    storage.clear_without_destruction();\n    initialize_range(first, last);\n  }\n\n  void assign(size_t")],"V"),
("Q01+Q02","reloc-nodestroy",UT,[("struct guard { T *t; ~guard() { std::destroy_at(t);","struct guard { T *t; ~guard() { if (!std::is_nothrow_move_constructible_v<T>) std::destroy_at(t);")],"V"),
("Q01+Q02","fill-size",SQ,[("    }, copy_granularity(n));\n    storage.set_size(n);\n  }\n\n  template<typename Iterator_>\n  void initialize_range","    }, copy_granularity(n));\n    storage.set_size(storage.capacity());\n  }\n\n  template<typename Iterator_>\n  void initialize_range")],"Q"),
("Q01+Q02","emplace-ret",SQ,[("    storage.set_size(size() + 1);\n    return end() - 1;","    storage.set_size(size() + 1);\n    return end();")],"V"),
# refactorings
("Q01+Q02","r-emplace-back",SQ,[("    storage.set_size(size() + 1);\n    return end() - 1;","    const auto old_size = size();\n    storage.set_size(old_size + 1);\n    return begin() + old_size;")],"Q"),
("Q01+Q02","r-pop-back",SQ,[("    storage.destroy(end() - 1);\n    storage.set_size(size() - 1);","    const size_t last = size() - 1;\n    storage.destroy(data() + last);\n    storage.set_size(last);")],"Q"),
("Q01+Q02","r-pop-back2",SQ,[("    storage.destroy(end() - 1);\n    storage.set_size(size() - 1);","    storage.set_size(size() - 1);\n    storage.destroy(end());")],"Q"),
("Q01+Q02","r-ensure",SB,[("      if (current < desired) {\n        // Allocate","      if (desired > current) {\n        // Allocate"),("(std::max)(desired, (5 * current)/ 2)","(5 * current) / 2 > desired ? (5 * current) / 2 : desired")],"Q"),
("Q01+Q02","r-growth",SB,[("(std::max)(desired, (5 * current)/ 2)","(std::max)(desired, 2 * current)")],"Q"),
("Q01+Q02","r-clear",SB,[("        destroy_all();\n        auto alloc = get_raw_allocator();\n        _data.long_mode.buffer.free_buffer(alloc);\n      }\n\n      set_to_empty_representation();\n    }\n\n    // Free","        destroy_all();\n      }\n      clear_without_destruction();\n    }\n\n    // Free")],"Q"),
("Q01+Q02","r-swap",SB,[("      std::byte tmp[sizeof(*this)];\n      // cppcheck-suppress memsetClass\n      std::memcpy(std::addressof(tmp), static_cast<void*>(this), sizeof(*this));    // NOLINT\n      // cppcheck-suppress memsetClass\n      std::memcpy(static_cast<void*>(this), &other, sizeof(*this));                 // NOLINT\n      // cppcheck-suppress memsetClass\n      std::memcpy(static_cast<void*>(std::addressof(other)), &tmp, sizeof(*this));  // NOLINT","      storage_impl tmp(std::move(other));\n      other.move_from(std::move(*this));\n      move_from(std::move(tmp));")],"Q"),
("Q01+Q02","r-destroy-all",SB,[("      if (!std::is_trivially_destructible<value_type>::value) {\n        auto n = size();\n        auto current_buffer = data();\n        parallel_for(0, n, [&](size_t i) { destroy(&current_buffer[i]); });","      if constexpr (!std::is_trivially_destructible_v<value_type>) {\n        parallel_for(0, size(), [first = data(), this](size_t i) { destroy(first + i); });")],"Q"),
("Q01+Q02","r-append-move",SQ,[("    if (empty() && capacity() <= r.size()) {\n      *this = std::move(r);\n      return begin();\n    } else {\n      auto new_size = size() + r.size();\n      storage.ensure_capacity(new_size);\n      auto append_begin = end();\n      parlay::uninitialized_relocate(r.begin(), r.end(), append_begin);","    if (size() == 0 && !(r.size() < capacity())) {\n      swap(r);\n      r.clear();\n      return begin();\n    } else {\n      const auto added = r.size();\n      auto new_size = size() + added;\n      storage.ensure_capacity(new_size);\n      auto append_begin = begin() + size();\n      parlay::uninitialized_relocate_n(r.begin(), added, append_begin);")],"Q"),
("Q01+Q02","r-erase",SQ,[("    if (q == end() - 1) {\n      pop_back();\n      return end();\n    } else {\n      auto pos = q - begin();\n      auto the_tail = pop_tail(q + 1);\n      pop_back();\n      append(std::move(the_tail));\n      return begin() + pos;\n    }","    return erase(q, q + 1);")],"Q"),
("Q01+Q02","r-insert-seq",SQ,[("    append(std::move(r));\n    append(std::move(the_tail));\n    return begin() + idx;","    append(std::move(r));\n    if (!the_tail.empty()) append(std::move(the_tail));\n    return begin() + idx;")],"Q"),
("Q01+Q02","r-init-range",SQ,[("      parallel_for(0, n, [&](size_t i) {\n        storage.initialize(buffer + i, first[i]);\n      }, copy_granularity(n));\n      storage.set_size(n);","      storage.set_size(n);\n      parallel_for(0, n, [&](size_t i) {\n        auto* slot = &buffer[i];\n        storage.initialize(slot, *(first + i));\n      }, copy_granularity(n));")],"Q"),
("Q01+Q02","r-assign",SQ,[("  sequence_type& operator=(sequence_type b) {\n    swap(b);","  sequence_type& operator=(sequence_type b) {\n    using std::swap;\n    swap(*this, b);")],"Q"),
("Q01+Q02","r-pop-tail",SQ,[("    if (p == end()) {\n      return sequence_type{};\n    } else {\n      auto the_tail = sequence_type::uninitialized(end() - p);\n      parlay::uninitialized_relocate(p, end(), the_tail.begin());\n      storage.set_size(p - begin());\n      return the_tail;\n    }","    const size_t keep = p - begin();\n    const size_t len = size() - keep;\n    if (len == 0) return {};\n    auto the_tail = sequence_type::uninitialized(len);\n    parlay::uninitialized_relocate_n(p, len, the_tail.begin());\n    storage.set_size(keep);\n    return the_tail;")],"Q"),
("Q01+Q02","r-resize",SQ,[("    auto current = size();\n    if (new_size < current) {","    const size_t current = size();\n    if (current > new_size) {")],"Q"),
]
