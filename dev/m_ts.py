F = "thread_specific.h"
ENS = """    std::lock_guard<std::mutex> lock(growing_mutex);
    if (chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) {
      auto chunk_size = get_chunk_size(chunk_id);
      auto chunk = new internal::Uninitialized<T>[chunk_size];
      for (std::size_t i = 0; i < chunk_size; i++) {
        new (static_cast<void*>(chunk[i].get())) T(constructor(chunk_size + i));
      }
      chunks[chunk_id].store(chunk, std::memory_order_release);
    }
"""
GET = """    if (chunk_id > 0 && chunks[chunk_id].load(std::memory_order_acquire) == nullptr) PARLAY_UNLIKELY
      ensure_chunk_exists(chunk_id);
    return get_by_index_nocheck(chunk_id, chunk_position);
  }

  const T& get_by"""
FE = """      for (std::size_t i = 0; tid < num_threads && i < chunk_size; i++, tid++) {
        f(*chunk[i]);
      }
"""
DT = """    for (internal::Uninitialized<T>* chunk : chunks) {
      delete[] chunk;
    }
"""
def v(n, *subs): MUT.append(("S06", n, F, list(subs), "V"))
def q(n, *subs): MUT.append(("S06", n, F, list(subs), "Q"))
MUT = []
v("ts-store-relaxed", ("chunks[chunk_id].store(chunk, std::memory_order_release)", "chunks[chunk_id].store(chunk, std::memory_order_relaxed)"))
v("ts-no-recheck", (ENS, ENS.replace("if (chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) ", "")))
v("ts-no-lock", (ENS, ENS.replace("    std::lock_guard<std::mutex> lock(growing_mutex);\n", "")))
v("ts-check-before-lock", (ENS, ENS.replace("    std::lock_guard<std::mutex> lock(growing_mutex);\n    if (chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) {\n", "    if (chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) {\n      std::lock_guard<std::mutex> lock(growing_mutex);\n")))
v("ts-lock-build-only", (ENS, ENS.replace("    std::lock_guard<std::mutex> lock(growing_mutex);\n    if", "    bool missing; { std::lock_guard<std::mutex> lock(growing_mutex); missing = chunks[chunk_id].load(std::memory_order_relaxed) == nullptr; }\n    if").replace("(chunks[chunk_id].load(std::memory_order_relaxed) == nullptr) {", "(missing) {")))
v("ts-acq-relaxed", (GET, GET.replace("acquire", "relaxed")))
v("ts-id-plain", (ENS, ENS.replace("constructor(chunk_size + i)", "constructor(i)")))
v("ts-id-double", (ENS, ENS.replace("constructor(chunk_size + i)", "constructor(2 * chunk_size + i)")))
v("ts-publish-early", (ENS, ENS.replace("      for (std", "      chunks[chunk_id].store(chunk, std::memory_order_release);\n      for (std").replace("      }\n      chunks[chunk_id].store(chunk, std::memory_order_release);\n", "      }\n")))
v("ts-build-short", (ENS, ENS.replace("i < chunk_size; i++", "i + 1 < chunk_size; i++")))
v("ts-alloc-short", (ENS, ENS.replace("Uninitialized<T>[chunk_size]", "Uninitialized<T>[chunk_size - 1]")))
v("ts-size-shift", ("return internal::ThreadListChunkData::thread_list_chunk_size << (chunk_id - 1);\n  }\n\n  T& get_by", "return internal::ThreadListChunkData::thread_list_chunk_size << chunk_id;\n  }\n\n  T& get_by"))
v("ts-place-lt", ("while (k <= id)", "while (k < id)"))
v("ts-place-pos", ("return id - high_bit;", "return id - thread_list_chunk_size;"))
v("ts-place-shift", ("thread_list_chunk_size << (chunk_id - 1);\n      assert", "thread_list_chunk_size << (chunk_id > 1 ? chunk_id - 2 : 0);\n      assert"))
v("ts-place-mask", ("return id - high_bit;", "return id & (high_bit >> 1);"))
v("ts-inc-gt", ("if (position == get_chunk_size(chunk_id)) {", "if (position > get_chunk_size(chunk_id)) {"))
v("ts-inc-no-reset", ("        position = 0;\n", "        if (chunk_id < n_chunks - 1) position = 0;\n"))
v("ts-dec-last", ("position = get_chunk_size(--chunk_id) - 1;", "position = get_chunk_size(--chunk_id);"))
v("ts-dec-order", ("position = get_chunk_size(--chunk_id) - 1;", "position = get_chunk_size(chunk_id--) - 1;"))
v("ts-plus-gt", ("      if (position >= get_chunk_size(chunk_id)) {\n        do", "      if (position > get_chunk_size(chunk_id)) {\n        do"))
v("ts-plus-order", ("position -= get_chunk_size(chunk_id++);", "position -= get_chunk_size(++chunk_id);"))
v("ts-plus-once", ("        } while (position >= get_chunk_size(chunk_id));", "        } while (false);"))
v("ts-minus-le", ("} while (pos < 0);", "} while (pos <= 0);"))
v("ts-minus-order", ("get_chunk_size(--chunk_id));\n        } while", "get_chunk_size(chunk_id--));\n        } while"))
v("ts-diff-order", ("get_chunk_size(chunk_id_++)", "get_chunk_size(++chunk_id_)"))
v("ts-diff-le", ("while (chunk_id_ < chunk_id) {", "while (chunk_id_ <= chunk_id) {"))
v("ts-eq-pos", ("return chunk_id == other.chunk_id && position == other.position;\n    }\n\n    bool operator!=", "return position == other.position;\n    }\n\n    bool operator!="))
v("ts-lt-pos", ("return chunk_id < other.chunk_id || (chunk_id == other.chunk_id && position < other.position);", "return chunk_id < other.chunk_id || position < other.position;"))
v("ts-ge-strict", ("return chunk_id > other.chunk_id || (chunk_id == other.chunk_id && position >= other.position);", "return chunk_id > other.chunk_id || (chunk_id == other.chunk_id && position > other.position);"))
v("ts-ne-and", ("return chunk_id != other.chunk_id || position != other.position;", "return chunk_id != other.chunk_id && position != other.position;"))
v("ts-swap-pos", ("      std::swap(left.position, right.position);\n", ""))
v("ts-fe-relaxed", ("chunk = chunks[++chunk_id].load(std::memory_order_acquire)", "chunk = chunks[++chunk_id].load(std::memory_order_relaxed)"))
v("ts-fe-size", (FE, FE.replace("i < chunk_size", "i + 1 < chunk_size")))
v("ts-fe-skip", ("        ensure_chunk_exists(chunk_id);\n        chunk = chunks[chunk_id].load(std::memory_order_relaxed);\n", "        tid += chunk_size; continue;\n"))
v("ts-fe-all", (FE, FE.replace("tid < num_threads && ", "")))
v("ts-fe-tid", (FE, FE.replace("i++, tid++", "i++") .replace("f(*chunk[i]);\n", "f(*chunk[i]);\n").replace("      }\n", "      }\n      tid += chunk_size - 1;\n")))
v("ts-fe-stop", ("tid < num_threads; chunk = chunks", "tid + 1 < num_threads; chunk = chunks"))
v("ts-init-fill", ("std::fill(chunks.begin() + 1, chunks.end(), nullptr);", "std::fill(chunks.begin() + 2, chunks.end(), nullptr);"))
v("ts-init-fill-end", ("std::fill(chunks.begin() + 1, chunks.end(), nullptr);", "std::fill(chunks.begin() + 1, chunks.end() - 1, nullptr);"))
v("ts-init-build", ("for (std::size_t i = 0; i < internal::ThreadListChunkData::thread_list_chunk_size; i++) {", "for (std::size_t i = 1; i < internal::ThreadListChunkData::thread_list_chunk_size; i++) {"))
v("ts-init-id", ("T(constructor(i));\n    }\n  }\n\n  static", "T(constructor(internal::get_chunk_data().thread_id));\n    }\n  }\n\n  static"))
v("ts-dtor-first", (DT, "    for (std::size_t i = 1; i < n_chunks; i++) {\n      delete[] chunks[i].load();\n    }\n"))
v("ts-dtor-break", (DT, DT.replace("      delete[]", "      if (!chunk) break;\n      delete[]").replace("chunk;\n    }", "chunk;\n    }")))
v("ts-dtor-raw", (DT, DT.replace("delete[] chunk;", "::operator delete[](static_cast<void*>(chunk), std::align_val_t{64});")))
v("ts-end-minus", ("    internal::ThreadListChunkData data{num_thread_ids()};\n    return iterator{", "    internal::ThreadListChunkData data{num_thread_ids() - 1};\n    return iterator{"))
v("ts-begin-one", ("return const_iterator{0,0,this};", "return const_iterator{0,1,this};"))
v("ts-get-gt1", (GET, GET.replace("chunk_id > 0", "chunk_id > 1")))
v("ts-get-swap", ("return get_by_index(chunk_data.chunk_id, chunk_data.chunk_position);\n  }\n\n  const T& operator*", "return get_by_index(chunk_data.chunk_id, chunk_data.thread_id);\n  }\n\n  const T& operator*"))
v("ts-deref-nocheck", ("return parent->get_by_index(chunk_id, position); }", "return parent->get_by_index_nocheck(chunk_id, position); }"))
v("ts-arrow", ("T* operator->() { return std::addressof(get()); }", "T* operator->() { return std::addressof(get_by_index_nocheck(internal::get_chunk_data().chunk_id, internal::get_chunk_data().chunk_position)); }"))
q("ts-q-double-check", (ENS, ENS.replace("    std::lock_guard", "    if (chunks[chunk_id].load(std::memory_order_acquire) != nullptr) return;\n    std::lock_guard")))
q("ts-q-unique-lock", (ENS, ENS.replace("std::lock_guard<std::mutex> lock", "std::unique_lock<std::mutex> lock")))
q("ts-q-early-return", (ENS, ENS.replace("== nullptr) {", "!= nullptr) return;\n    {")))
q("ts-q-explicit-lock", (ENS, ENS.replace("    std::lock_guard<std::mutex> lock(growing_mutex);\n", "    growing_mutex.lock();\n") + "    growing_mutex.unlock();\n"))
q("ts-q-ptr-loop", (ENS, ENS.replace("for (std::size_t i = 0; i < chunk_size; i++) {", "std::size_t id = chunk_size;\n      for (auto* p = chunk; p != chunk + chunk_size; ++p, ++id) {").replace("chunk[i].get())) T(constructor(chunk_size + i))", "p->get())) T(constructor(id))")))
q("ts-q-down-loop", (ENS, ENS.replace("for (std::size_t i = 0; i < chunk_size; i++) {", "for (std::size_t i = chunk_size; i-- > 0; ) {")))
q("ts-q-while", (ENS, ENS.replace("for (std::size_t i = 0; i < chunk_size; i++) {", "std::size_t i = 0;\n      while (i != chunk_size) {").replace("chunk_size + i));\n", "chunk_size + i));\n        ++i;\n")))
q("ts-q-helper", (ENS, ENS.replace("      for (std::size_t i = 0; i < chunk_size; i++) {\n        new (static_cast<void*>(chunk[i].get())) T(constructor(chunk_size + i));\n      }\n", "      build(chunk, chunk_size, chunk_size);\n")), ("  void ensure_chunk_exists(std::size_t chunk_id) const {\n", "  void build(internal::Uninitialized<T>* chunk, std::size_t n, std::size_t first) const {\n    for (std::size_t i = 0; i < n; i++) new (static_cast<void*>(chunk[i].get())) T(constructor(first + i));\n  }\n\n  void ensure_chunk_exists(std::size_t chunk_id) const {\n"))
q("ts-q-seq-cst", ("chunks[chunk_id].store(chunk, std::memory_order_release)", "chunks[chunk_id].store(chunk)"))
q("ts-q-temp", (ENS, ENS.replace("        new (static_cast<void*>(chunk[i].get())) T(constructor(chunk_size + i));", "        T value = constructor(chunk_size + i);\n        new (static_cast<void*>(chunk[i].get())) T(std::move(value));")))
q("ts-q-get-acq", ("return *(chunks[chunk_id].load(std::memory_order_relaxed)[chunk_position]);", "return *(chunks[chunk_id].load(std::memory_order_acquire)[chunk_position]);"))
q("ts-q-get-one-load", (GET, """    auto chunk = chunks[chunk_id].load(std::memory_order_acquire);
    if (chunk == nullptr) PARLAY_UNLIKELY {
      ensure_chunk_exists(chunk_id);
      chunk = chunks[chunk_id].load(std::memory_order_acquire);
    }
    return *chunk[chunk_position];
  }

  const T& get_by"""))
q("ts-q-get-const-cast", ("    auto chunk_data = internal::get_chunk_data();\n    return get_by_index(chunk_data.chunk_id, chunk_data.chunk_position);\n  }\n\n  template", "    return const_cast<ThreadSpecific*>(this)->get();\n  }\n\n  template"))
q("ts-q-get-ref", ("    auto chunk_data = internal::get_chunk_data();\n", "    const auto& chunk_data = internal::get_chunk_data();\n"))
q("ts-q-place-shift", ("      chunk++;\n      k *= 2;\n", "      ++chunk;\n      k <<= 1;\n"))
q("ts-q-place-for", ("    std::size_t k = thread_list_chunk_size;\n    std::size_t chunk = 0;\n    while (k <= id) {\n      chunk++;\n      k *= 2;\n    }\n    return chunk;", "    std::size_t chunk = 0;\n    for (std::size_t k = thread_list_chunk_size; !(id < k); k += k) ++chunk;\n    return chunk;"))
q("ts-q-place-shift2", ("    std::size_t k = thread_list_chunk_size;\n    std::size_t chunk = 0;\n    while (k <= id) {\n      chunk++;\n      k *= 2;\n    }\n    return chunk;", "    std::size_t chunk = 0;\n    while ((thread_list_chunk_size << chunk) <= id) ++chunk;\n    return chunk;"))
q("ts-q-inc", ("      position++;\n      if (position == get_chunk_size(chunk_id)) {", "      if (++position >= get_chunk_size(chunk_id)) {"))
q("ts-q-inc-noensure", ("        if (++chunk_id < n_chunks && parent->chunks[chunk_id].load(std::memory_order_acquire) == nullptr) PARLAY_UNLIKELY\n          parent->ensure_chunk_exists(chunk_id);\n", "        ++chunk_id;\n"))
q("ts-q-inc-plus", ("      position++;\n      if (position == get_chunk_size(chunk_id)) {\n        if (++chunk_id < n_chunks && parent->chunks[chunk_id].load(std::memory_order_acquire) == nullptr) PARLAY_UNLIKELY\n          parent->ensure_chunk_exists(chunk_id);\n        position = 0;\n      }\n      return *this;", "      return *this += 1;"))
q("ts-q-dec", ("      if (position == 0) {\n        position = get_chunk_size(--chunk_id) - 1;", "      if (position < 1) {\n        chunk_id--;\n        position = get_chunk_size(chunk_id) - 1;"))
q("ts-q-plus-while", ("      if (position >= get_chunk_size(chunk_id)) {\n        do {\n          position -= get_chunk_size(chunk_id++);\n        } while (position >= get_chunk_size(chunk_id));\n        if", "      while (position >= get_chunk_size(chunk_id)) {\n        position -= get_chunk_size(chunk_id);\n        ++chunk_id;\n      }\n      {\n        if"))
q("ts-q-minus-while", ("      if (pos < 0) {\n        do {\n          pos += static_cast<difference_type>(get_chunk_size(--chunk_id));\n        } while (pos < 0);\n        if", "      while (pos < 0) {\n        --chunk_id;\n        pos += static_cast<difference_type>(get_chunk_size(chunk_id));\n      }\n      {\n        if"))
q("ts-q-diff-for", ("      auto chunk_id_ = other.chunk_id;\n      while (chunk_id_ < chunk_id) {\n        result += static_cast<difference_type>(get_chunk_size(chunk_id_++));\n      }\n", "      for (auto k = other.chunk_id; k < chunk_id; ++k) result += static_cast<difference_type>(get_chunk_size(k));\n"))
q("ts-q-eq-tie", ("return chunk_id == other.chunk_id && position == other.position;\n    }\n\n    bool operator!=", "return std::tie(chunk_id, position) == std::tie(other.chunk_id, other.position);\n    }\n\n    bool operator!="), ("#include <type_traits>", "#include <type_traits>\n#include <tuple>"))
q("ts-q-lt-pair", ("return chunk_id < other.chunk_id || (chunk_id == other.chunk_id && position < other.position);", "return std::make_pair(chunk_id, position) < std::make_pair(other.chunk_id, other.position);"))
q("ts-q-le-not-gt", ("return chunk_id < other.chunk_id || (chunk_id == other.chunk_id && position <= other.position);", "return !(*this > other);"))
q("ts-q-fe-while", (FE, "      auto limit = (std::min<std::size_t>)(chunk_size, num_threads - tid);\n      for (std::size_t i = 0; i < limit; i++) f(*chunk[i]);\n      tid += static_cast<thread_id_type>(limit);\n"), ("#include <type_traits>", "#include <type_traits>\n#include <algorithm>"))
q("ts-q-fe-break", (FE, "      for (std::size_t i = 0; i < chunk_size; i++) {\n        if (tid == num_threads) return;\n        f(*chunk[i]);\n        ++tid;\n      }\n"))
q("ts-q-fe-index", ("    internal::Uninitialized<T>* chunk = chunks[0].load(std::memory_order_relaxed);\n\n    for (std::size_t chunk_id = 0; tid < num_threads; chunk = chunks[++chunk_id].load(std::memory_order_acquire)) {\n", "    for (std::size_t chunk_id = 0; tid < num_threads; chunk_id++) {\n      internal::Uninitialized<T>* chunk = chunks[chunk_id].load(std::memory_order_acquire);\n"))
q("ts-q-fe-nocheck", ("      if (!chunk) PARLAY_UNLIKELY {\n        ensure_chunk_exists(chunk_id);\n        chunk = chunks[chunk_id].load(std::memory_order_relaxed);\n      }\n", "      if (!chunk) ensure_chunk_exists(chunk_id);\n      chunk = chunks[chunk_id].load(std::memory_order_acquire);\n"))
q("ts-q-fe-iter", ("    auto num_threads = num_thread_ids();\n    thread_id_type tid = 0;", "    const thread_id_type num_threads = num_thread_ids();\n    thread_id_type tid{};"))
q("ts-q-init-loop", ("std::fill(chunks.begin() + 1, chunks.end(), nullptr);", "for (std::size_t c = 1; c < n_chunks; c++) chunks[c].store(nullptr, std::memory_order_relaxed);"))
q("ts-q-init-first", ("    chunks[0].store(new internal::Uninitialized<T>[internal::ThreadListChunkData::thread_list_chunk_size], std::memory_order_relaxed);\n    std::fill(chunks.begin() + 1, chunks.end(), nullptr);\n    auto chunk = chunks[0].load(std::memory_order_relaxed);", "    auto chunk = new internal::Uninitialized<T>[get_chunk_size(0)];\n    std::fill(chunks.begin(), chunks.end(), nullptr);\n    chunks[0].store(chunk, std::memory_order_relaxed);"))
q("ts-q-dtor-index", (DT, "    for (std::size_t i = 0; i < n_chunks; i++) {\n      auto* chunk = chunks[i].load(std::memory_order_relaxed);\n      if (chunk != nullptr) delete[] chunk;\n    }\n"))
q("ts-q-dtor-down", (DT, "    for (std::size_t i = n_chunks; i > 0; i--) delete[] chunks[i - 1].load();\n"))
q("ts-q-end-cache", ("    internal::ThreadListChunkData data{num_thread_ids()};\n    return iterator{", "    const auto n = num_thread_ids();\n    const internal::ThreadListChunkData data(n);\n    return iterator{"))
q("ts-q-size-cond", ("    if (chunk_id == 0) return internal::ThreadListChunkData::thread_list_chunk_size;\n    else return internal::ThreadListChunkData::thread_list_chunk_size << (chunk_id - 1);", "    return internal::ThreadListChunkData::thread_list_chunk_size << (chunk_id > 0 ? chunk_id - 1 : 0);"))
