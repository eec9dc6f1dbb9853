B = "internal/block_allocator.h"; P = "internal/pool_allocator.h"; A = "alloc.h"
MUT = []
def v(n, f, *subs): MUT.append(("A01", "al-" + n, f, list(subs), "V"))
def q(n, f, *subs): MUT.append(("A01", "al-q-" + n, f, list(subs), "Q"))
FR = """    if (my_local_list->sz == list_length+1) {
      my_local_list->mid = my_local_list->head;
    } else if (my_local_list->sz == 2*list_length) {
      global_stack.push(my_local_list->mid->next);
      my_local_list->mid->next = nullptr;
      my_local_list->sz = list_length;
    }
"""
FR2 = """    auto new_node = new (ptr) block{my_local_list->head};
    my_local_list->head = new_node;
    my_local_list->sz++;
"""
AL = """      if (my_local_list->sz == 0) {
        my_local_list->head = new_list;
        my_local_list->sz = list_length;
      }
      else {"""
TK = """    block* p = my_local_list->head;
    my_local_list->head = my_local_list->head->next;
    my_local_list->sz--;
"""
v("mid-early", B, (FR, FR.replace("list_length+1", "list_length")))
v("mid-late", B, (FR, FR.replace("list_length+1", "list_length+2")))
v("no-cut", B, (FR, FR.replace("      my_local_list->mid->next = nullptr;\n", "")))
v("push-mid", B, (FR, FR.replace("mid->next);", "mid);")))
v("push-head", B, (FR, FR.replace("push(my_local_list->mid->next)", "push(my_local_list->head)")))
v("no-sz", B, (FR, FR.replace("      my_local_list->sz = list_length;\n", "")))
v("sz-off", B, (FR, FR.replace("sz = list_length;", "sz = list_length + 1;")))
v("no-head", B, (FR2, FR2.replace("    my_local_list->head = new_node;\n", "")))
v("free-no-inc", B, (FR2, FR2.replace("    my_local_list->sz++;\n", "")))
v("free-null-link", B, (FR2, FR2.replace("block{my_local_list->head}", "block{nullptr}")))
v("flush-after", B, (FR, ""), (FR2, FR2 + FR))
v("alloc-no-dec", B, (TK, TK.replace("    my_local_list->sz--;\n", "")))
v("alloc-no-pop", B, (TK, TK.replace("    my_local_list->head = my_local_list->head->next;\n", "")))
v("alloc-no-recheck", B, (AL, AL.replace("if (my_local_list->sz == 0) {\n        my", "if (true) {\n        my")))
v("alloc-sz-short", B, (AL, AL.replace("sz = list_length", "sz = list_length - 1")))
v("alloc-drop-list", B, ("        global_stack.push(new_list);\n", ""))
q("alloc-cached-list", B, ("    if (my_local_list->sz == 0)  {\n      auto new_list", "    local_list& mine = *my_local_list;\n    if (mine.sz == 0)  {\n      auto new_list"), (AL, AL.replace("my_local_list->", "mine.")), (TK, TK.replace("my_local_list->", "mine.")))
v("alloc-cached-half", B, (AL, "      local_list& mine = *my_local_list;\n" + AL.replace("my_local_list->head", "mine.head").replace("sz = list_length", "sz = 2 * list_length")))
v("init-short", B, ("i < list_length - 1; i++", "i + 1 < list_length - 1; i++"))
v("init-self", B, ("block{get_block(buffer, i+1)}", "block{get_block(buffer, i)}"))
v("init-no-end", B, ("block{nullptr};\n    return get", "block{get_block(buffer, 0)};\n    return get"))
v("init-stride", B, ("new (buffer + i * block_size) block{get", "new (buffer + i * (block_size + sizeof(block))) block{get"))
v("init-ret", B, ("return get_block(buffer, 0);", "return get_block(buffer, 1);"))
v("buf-size", B, ("::operator new(num_blocks * block_size, block_align)", "::operator new((num_blocks - 1) * block_size, block_align)"))
v("buf-size-word", B, ("::operator new(num_blocks * block_size, block_align)", "::operator new(num_blocks * sizeof(block), block_align)"))
v("count-one", B, ("blocks_allocated.fetch_add(num_blocks)", "blocks_allocated.fetch_add(1)"))
v("no-record", B, ("    allocated_buffers.push(buffer); // keep track so can free later\n", ""))
v("align-drop", B, ("::operator new(num_blocks * block_size, block_align)", "::operator new(num_blocks * block_size)"))
v("rem-lost", B, ("if (rem) return *rem;", "if (rem && list_length > 1) return *rem;"))
v("used-plus", B, ("return blocks_allocated.load() - free_blocks;", "return blocks_allocated.load() - free_blocks + 1;"))
v("used-global", B, ("global_stack.size()*list_length;", "global_stack.size();"))
v("used-list", B, ("      free_blocks += list.sz;\n", "      free_blocks = list.sz;\n"))
v("size-small", B, ("block_size(std::max<size_t>(block_size_, sizeof(block)))", "block_size(std::max<size_t>(block_size_, 4))"))
v("size-min", B, ("block_size(std::max<size_t>(block_size_, sizeof(block)))", "block_size(std::min<size_t>(block_size_, default_list_bytes))"))
v("align-min", B, ("std::max<size_t>(block_align_, min_alignment)", "std::min<size_t>(block_align_, min_alignment)"))
v("len-zero", B, ("(default_list_bytes + block_size + 1) / block_size : list_length_", "default_list_bytes / block_size : list_length_"))
v("clear-in-use", B, ("if (num_used_blocks() > 0) {", "if (num_used_blocks() > 1) {"))
v("clear-no-count", B, ("      blocks_allocated.store(0);\n", ""))
v("clear-no-local", B, ("        list.sz = 0;\n", "        list.head = nullptr;\n"))
v("clear-no-global", B, ("      global_stack.clear();\n", ""))
v("clear-one", B, ("while ((x = allocated_buffers.pop())) ::operator", "if ((x = allocated_buffers.pop())) ::operator"))
v("clear-leak", B, ("while ((x = allocated_buffers.pop())) ::operator delete(*x, block_align);", "while ((x = allocated_buffers.pop())) { if (list_length > 1) ::operator delete(*x, block_align); }"))
v("clear-noalign", B, ("::operator delete(*x, block_align)", "::operator delete(*x, std::align_val_t{min_alignment})"))
# free list: behaviour kept
q("cache-ref", B, (FR, "    local_list& mine = *my_local_list;\n" + FR.replace("my_local_list->", "mine.")), (FR2, FR2.replace("my_local_list->", "mine.")))
q("mid-after", B, (FR2, FR2 + "    if (my_local_list->sz == list_length + 1) my_local_list->mid = new_node;\n"), (FR, FR.replace("""    if (my_local_list->sz == list_length+1) {
      my_local_list->mid = my_local_list->head;
    } else if""", "    if")))
q("cut-helper", B, ("  void free(void* ptr) {\n", """  // gives the older half of the list to everybody
  void share(local_list& mine) {
    block* rest = mine.mid->next;
    mine.mid->next = nullptr;
    mine.sz -= list_length;
    global_stack.push(rest);
  }

  void free(void* ptr) {
"""), (FR, FR.replace("""      global_stack.push(my_local_list->mid->next);
      my_local_list->mid->next = nullptr;
      my_local_list->sz = list_length;
""", "      share(*my_local_list);\n")))
q("exchange", B, (FR, FR.replace("""      global_stack.push(my_local_list->mid->next);
      my_local_list->mid->next = nullptr;
""", "      global_stack.push(std::exchange(my_local_list->mid->next, nullptr));\n")))
q("node-pre", B, (FR2, """    block* node = static_cast<block*>(ptr);
    new (node) block{nullptr};
    node->next = my_local_list->head;
    my_local_list->sz += 1;
    my_local_list->head = node;
"""))
q("take-helper", B, (TK, """    local_list& mine = *my_local_list;
    block* p = std::exchange(mine.head, mine.head->next);
    --mine.sz;
"""))
q("flip-recheck", B, (AL, """      if (my_local_list->sz > 0) {
        global_stack.push(new_list);
      }
      else {
        my_local_list->sz = list_length;
        my_local_list->head = new_list;
      }
      if (false) {"""))
q("init-ptr", B, ("""    for (size_t i=0; i < list_length - 1; i++) {
      new (buffer + i * block_size) block{get_block(buffer, i+1)};
    }
""", """    for (size_t i = 1; i < list_length; ++i) {
      new (buffer + (i - 1) * block_size) block{get_block(buffer, i)};
    }
"""))
q("init-rev", B, ("""    for (size_t i=0; i < list_length - 1; i++) {
      new (buffer + i * block_size) block{get_block(buffer, i+1)};
    }
    new (buffer + (list_length - 1) * block_size) block{nullptr};
""", """    new (buffer + (list_length - 1) * block_size) block{nullptr};
    for (size_t i = list_length - 1; i > 0; i--) {
      new (buffer + (i - 1) * block_size) block{get_block(buffer, i)};
    }
"""))
q("record-first", B, ("    blocks_allocated.fetch_add(num_blocks);\n", "    allocated_buffers.push(buffer);\n    blocks_allocated += num_blocks;\n"), ("    allocated_buffers.push(buffer); // keep track so can free later\n", ""))
q("get-value-or", B, ("    if (rem) return *rem;\n    std::byte* buffer = allocate_blocks(list_length);\n    return initialize_list(buffer);\n", "    return rem.has_value() ? rem.value() : initialize_list(allocate_blocks(list_length));\n"))
q("used-down", B, ("    size_t free_blocks = global_stack.size()*list_length;\n    my_local_list.for_each([&](auto&& list) {\n      free_blocks += list.sz;\n    });\n    return blocks_allocated.load() - free_blocks;\n", "    size_t used = blocks_allocated.load();\n    used -= list_length * global_stack.size();\n    my_local_list.for_each([&](const auto& list) { used -= list.sz; });\n    return used;\n"))
q("clear-eq", B, ("if (num_used_blocks() > 0) {\n      return false;\n    }\n    else {", "if (const auto in_use = num_used_blocks(); in_use != 0) return false;\n    {"))
q("clear-order", B, ("      // clear lists\n      my_local_list.for_each([](auto&& list) {\n        list.sz = 0;\n      });\n", "      blocks_allocated.store(0);\n      global_stack.clear();\n"), ("      global_stack.clear();\n      blocks_allocated.store(0);\n      return true;", "      my_local_list.for_each([](auto&& list) { list.sz = 0; list.head = nullptr; list.mid = nullptr; });\n      return true;"))
q("clear-for", B, ("      std::optional<std::byte*> x;\n      while ((x = allocated_buffers.pop())) ::operator delete(*x, block_align);\n", "      for (auto x = allocated_buffers.pop(); x; x = allocated_buffers.pop()) { ::operator delete(*x, block_align); }\n"))
q("ctor-round", B, ("(default_list_bytes + block_size + 1) / block_size : list_length_", "default_list_bytes / block_size + 1 : list_length_"))
# pool
LP = "      while (n > sizes[bucket]) bucket++;\n      std::optional"
v("alloc-ge", P, ("    size_t bucket = 0;\n    while (n > sizes[bucket]) bucket++;\n    return small", "    size_t bucket = 0;\n    while (n >= sizes[bucket]) bucket++;\n    return small"))
v("free-ge", P, ("      size_t bucket = 0;\n      while (n > sizes[bucket]) bucket++;\n      small_allocators[bucket].free", "      size_t bucket = 0;\n      while (n >= sizes[bucket]) bucket++;\n      small_allocators[bucket].free"))
v("free-next", P, ("      while (n > sizes[bucket]) bucket++;\n      large_buckets[bucket-num_small].push(ptr)", "      while (n >= sizes[bucket]) bucket++;\n      large_buckets[bucket-num_small].push(ptr)"))
v("alloc-half", P, ("    while (n > sizes[bucket]) bucket++;\n    return small", "    while (n > sizes[bucket] + 7) bucket++;\n    return small"))
v("large-n", P, ("      alloc_size = sizes[bucket];", "      alloc_size = n;"))
v("threshold", P, ("    if (n > max_small) deallocate_large(ptr, n);", "    if (n >= max_small) deallocate_large(ptr, n);"))
v("max-free", P, ("    if (n > max_size) {\n      ::operator delete", "    if (n >= max_size) {\n      ::operator delete"))
v("max-alloc", P, ("    if (n <= max_size) {", "    if (n < max_size) {"))
v("bucket-shift", P, ("large_buckets[bucket-num_small].push(ptr)", "large_buckets[bucket-num_small+1].push(ptr)"))
v("pop-lost", P, ("      if (r) return *r;", "      if (r && *r != nullptr && n > max_small + 1) return *r;"))
v("align-16", P, ("::operator new(alloc_size, std::align_val_t{max_alignment})", "::operator new(alloc_size, std::align_val_t{16})"))
v("used-drift", P, ("    large_used -= n;\n", "    if (n <= max_size) large_used -= n;\n"))
v("used-bucket", P, ("    large_used += n;\n\n    if (n <= max_size) {\n", "    if (n > max_size) large_used += n;\n\n    if (n <= max_size) {\n"))
q("for-loop", P, ("    size_t bucket = 0;\n    while (n > sizes[bucket]) bucket++;\n    return small", "    size_t bucket = 0;\n    for (; sizes[bucket] < n; ++bucket) { }\n    return small"))
q("helper", P, ("  void* allocate_large(size_t n) {\n", "  size_t bucket_for(size_t n, size_t from) const {\n    size_t b = from;\n    while (sizes[b] < n) b++;\n    return b;\n  }\n\n  void* allocate_large(size_t n) {\n"), ("    size_t bucket = 0;\n    while (n > sizes[bucket]) bucket++;\n    return small_allocators[bucket].alloc();", "    return small_allocators[bucket_for(n, 0)].alloc();"), ("      size_t bucket = num_small;\n      while (n > sizes[bucket]) bucket++;\n      large_buckets[bucket-num_small].push(ptr);", "      large_buckets[bucket_for(n, num_small) - num_small].push(ptr);"))
q("flip", P, ("    if (n > max_small) return allocate_large(n);\n    size_t bucket = 0;\n    while (n > sizes[bucket]) bucket++;\n    return small_allocators[bucket].alloc();", "    if (n <= max_small) {\n      size_t bucket = 0;\n      while (n > sizes[bucket]) bucket++;\n      return small_allocators[bucket].alloc();\n    }\n    return allocate_large(n);"))
q("scan-all", P, ("      size_t bucket = num_small;\n      while (n > sizes[bucket]) bucket++;\n      large", "      size_t bucket = num_small;\n      while (bucket + 1 < num_buckets && n > sizes[bucket]) bucket++;\n      large"))
# typed
v("array-bytes", A, ("static_cast<void*>(ptr), n * sizeof(T));", "static_cast<void*>(ptr), n);"))
v("array-pad", A, ("get_default_allocator().allocate(n * sizeof(T));", "get_default_allocator().allocate(n * sizeof(T) + alignof(T));"))
v("array-align", A, ("void deallocate(T* ptr, [[maybe_unused]] size_t n) {\n    assert(reinterpret_cast<uintptr_t>(ptr) % alignof(T) == 0);\n    if constexpr (alignof(T) > internal", "void deallocate(T* ptr, [[maybe_unused]] size_t n) {\n    assert(reinterpret_cast<uintptr_t>(ptr) % alignof(T) == 0);\n    if constexpr (alignof(T) >= internal"))
v("type-size", A, ("get_block_allocator<sizeof(T), alignof(T)>();", "get_block_allocator<sizeof(T*), alignof(T)>();"))
v("type-align", A, ("get_block_allocator<sizeof(T), alignof(T)>();", "get_block_allocator<sizeof(T), alignof(char)>();"))
v("destroy-leak", A, ("    ptr->~T();\n    free(ptr);\n", "    ptr->~T();\n    if constexpr (!std::is_trivially_destructible_v<T>) { if (reinterpret_cast<uintptr_t>(ptr) % 32 != 0) free(ptr); } else free(ptr);\n"))
v("destroy-late", A, ("    ptr->~T();\n    free(ptr);\n", "    free(ptr);\n    ptr->~T();\n"))
v("malloc-pad", A, ("allocate(size + pad_size);", "allocate(size + pad_size - sizeof(internal::p_malloc_header));"))
v("malloc-pad16", A, ("return  (n >= 1024) ? 64 : (n & 15) ? 8 : (n & 63) ? 16 : 64;", "return  (n >= 1024) ? 64 : 8;"), ("std::max<size_t>(internal::alloc_padding_size(size), align)", "std::max<size_t>(internal::alloc_padding_size(size), 8)"))
v("malloc-nohdr", A, ("void* offset_buffer = static_cast<void*>(static_cast<std::byte*>(buffer) + sizeof(internal::p_malloc_header));\n  size_t space = size + pad_size - sizeof(internal::p_malloc_header);", "void* offset_buffer = buffer;\n  size_t space = size + pad_size;"))
q("array-const", A, ("      void* buffer = internal::get_default_allocator().allocate(n * sizeof(T));", "      const size_t bytes = sizeof(T) * n;\n      void* buffer = internal::get_default_allocator().allocate(bytes);"))
q("destroy-at", A, ("    ptr->~T();\n    free(ptr);\n", "    std::destroy_at(ptr);\n    get_allocator().free(ptr);\n"))
q("malloc-order", A, ("  size_t pad_size = std::max<size_t>(internal::alloc_padding_size(size), align);\n  void* buffer = internal::get_default_allocator().allocate(size + pad_size);", "  const size_t base_pad = internal::alloc_padding_size(size);\n  const size_t pad_size = base_pad < align ? align : base_pad;\n  const size_t total = pad_size + size;\n  void* buffer = internal::get_default_allocator().allocate(total);"))
