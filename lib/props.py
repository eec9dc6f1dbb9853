"""The properties (source of properties.jsonl). Run dev/gen.py after editing."""
B = "include/parlay/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": [B + f for f in files], "mechanism": [{"name": n, "where": B + w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": B + w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


prop("S01", "Fork-join runs every branch exactly once and joins before returning",
     """par_do (default and conservative), parallel_do, par_do_if, par_do3 and par_do3_if invoke each branch exactly once and
     return only after every branch has finished, with everything the branches wrote visible to the caller. A worker that takes a job
     from any queue, while idle or while waiting at a join, runs that job exactly once and never drops it. In conservative mode a
     waiting caller runs nothing but its own right branch.""",
     ["schedules", "programs"], "every interleaving of owner and thieves, every pair of branch functions",
     "Tests see a few schedules; a lost or doubled branch needs a steal landing between two particular instructions.",
     ["scheduler.h", "parallel.h", "internal/work_stealing_job.h"],
     [("fork_join_scheduler::pardo", "scheduler.h"), ("WorkStealingJob done flag, release store / acquire load", "internal/work_stealing_job.h"),
      ("get_job/steal_job/do_work_until", "scheduler.h")])

prop("S02", "The work-stealing deque hands out every pushed job exactly once",
     """Under every interleaving of one owner pushing and popping at the bottom with any number of thieves popping at the top, each job
     pushed on a work-stealing deque is returned by at most one pop and stays obtainable until it is. A pop returns either nothing or
     a job that was pushed and fully published, including when the last element is contended, the indices are reset, and a stale
     thief resumes later. A push beyond capacity aborts without writing outside the deque.""",
     ["schedules"], "all interleavings and all C++ memory-model reorderings of push_bottom, pop_bottom and pop_top",
     "The races need a thief stalled between two loads and weak-memory reorderings that x86 test runs never show.",
     ["internal/work_stealing_deque.h"],
     [("seq_cst fence between bottom store and age load", "internal/work_stealing_deque.h"), ("tag bumped on reset", "internal/work_stealing_deque.h"),
      ("CAS on age decides the winner", "internal/work_stealing_deque.h")],
     [("age", "tag and top index, changed only by CAS or by the resetting owner", "internal/work_stealing_deque.h"),
      ("bot", "owner's index", "internal/work_stealing_deque.h")])

prop("S03", "Parallel loops run each index exactly once under every granularity",
     """parallel_for(start, end, f, granularity, conservative) with start <= end calls f exactly once for every index in [start, end)
     and for no other index, whatever the granularity, and its recursion terminates; this holds for Parlay's own scheduler and for the
     sequential, OpenMP, TBB and Cilk back ends. blocked_for and internal::sliced_for split their range into consecutive,
     non-empty, non-overlapping blocks that cover it exactly, each announced with its own block number.""",
     ["inputs", "schedules"], "every start <= end (no index overflow), every granularity and block size >= 1, every measured running time",
     "The auto-granularity path depends on wall-clock time, and off-by-one splits only show for particular sizes; other back ends are not tested here.",
     ["scheduler.h", "parallel.h", "internal/sequence_ops.h", "internal/scheduler_plugins/omp.h", "internal/scheduler_plugins/tbb.h", "internal/scheduler_plugins/opencilk.h",
      "internal/scheduler_plugins/cilkplus.h", "internal/scheduler_plugins/sequential.h"],
     [("fork_join_scheduler::parfor / parfor_ / get_granularity", "scheduler.h"), ("blocked_for", "parallel.h"), ("sliced_for", "internal/sequence_ops.h")])

prop("S04", "Scheduler start-up and shutdown: every worker runs, is woken, counted and joined",
     """Constructing a scheduler with n >= 1 workers makes the calling thread worker 0 and starts exactly one thread for every id in
     [1, n), each of which knows its id and its scheduler before it looks for work, and none of which starts before the state it
     reads is initialised. A worker stays counted as awake except while it sleeps, sleeps only until the wake-up counter changes
     from a value it read, leaves only after the scheduler was told to finish, and then counts itself finished exactly once. The
     destructor announces the end first, keeps waking sleepers until every other worker has counted itself finished, joins each
     thread exactly once and only then gives the creating thread its previous identity back.""",
     ["schedules", "histories"], "every n >= 1, every interleaving of shutdown with workers falling asleep, every nesting of schedulers",
     "The default scheduler lives until process exit; a missed wake-up or unjoined thread needs a worker caught just before it sleeps.",
     ["scheduler.h"],
     [("scheduler::scheduler / ~scheduler / shutdown", "scheduler.h"), ("worker / wait_for_work / wake_up_all_workers", "scheduler.h")],
     [("num_awake_workers", "workers not asleep", "scheduler.h"), ("num_finished_workers", "workers that left their loop", "scheduler.h"),
      ("worker_info", "thread-local identity", "scheduler.h")])

prop("S06", "ThreadSpecific: each thread's own element, built, traversed and destroyed once",
     """ThreadSpecific<T> holds one element per thread id. get, * and -> (also const) always reach the element whose place is the calling thread's id,
     never another thread's; the element was built exactly once, with that id, before any thread could see it. New chunks are added under one lock,
     after checking again under it, and published with release; a chunk once published is never replaced, and readers see its contents.
     begin() .. end() and for_each pass over the elements of ids 0 to num_thread_ids() - 1, each once and in order, creating missing elements on the way;
     iterator steps (++, --, prefix and postfix, +, -, +=, -=), differences and comparisons agree with positions across chunk borders, and every
     position of the range may be dereferenced. Destruction destroys every element of every chunk that exists and frees its memory, once.""",
     ["interleavings", "inputs"], "every number of threads and chunk size, every interleaving of threads that grow the list",
     "Chunks beyond the first exist only when thread ids exceed the chunk size (the hardware concurrency at first use), and races on growth need threads to start at once.",
     ["thread_specific.h"], [("ThreadSpecific", "thread_specific.h"), ("ThreadListChunkData", "thread_specific.h")])

prop("S07", "Blocking on an atomic returns only on a change and never sleeps through one",
     """atomic_wait(a, old) returns only after reading a value of *a different from old, with the memory ordering asked for. If another
     thread changes *a and then calls atomic_notify_one or atomic_notify_all (notify_all for all waiters), no waiter stays asleep for
     good on the old value: the waiter announces itself, fences and re-checks before it sleeps on the address the notifier wakes, the
     notifier changes the version and fences before it looks for waiters, and where an announcement may be consumed by a notifier
     for an unrelated address the sleep is bounded in time. Every address maps to an entry inside the contention table.""",
     ["schedules"], "all interleavings and weak-memory reorderings of waiters and notifiers, table collisions included",
     "A lost wake-up needs a notify between the waiter's last check and its futex call; tests only see the fast path.",
     ["internal/atomic_wait.h"],
     [("__cxx_atomic_wait / __cxx_atomic_try_wait_slow", "internal/atomic_wait.h"), ("__cxx_atomic_notify_all / _one", "internal/atomic_wait.h"), ("__contention table", "internal/atomic_wait.h")])

prop("S05", "Thread ids are unique among live threads, dense and recycled",
     """my_thread_id() returns the same id for the whole life of a thread, no two live threads share one, and every id is smaller than
     num_thread_ids(). An id is either drawn from a counter by one atomic increment or taken from the free list by one exchange whose
     head and successor were read in the same critical section, so concurrent taking and giving back can neither hand out one id
     twice nor lose one. A thread that ends gives its own id back exactly once, and its effects are visible to the next owner.""",
     ["schedules", "histories"], "all interleavings of threads starting, asking for ids and ending",
     "Two threads sharing an id needs a pop and push between another thread's two reads (ABA); tests hardly start and stop threads.",
     ["internal/thread_id_pool.h", "thread_specific.h"],
     [("ThreadIdPool::acquire / relinquish", "internal/thread_id_pool.h"), ("ThreadIdOwner thread-local", "internal/thread_id_pool.h")],
     [("available_ids", "lock-free list of ids whose thread has ended", "internal/thread_id_pool.h"), ("num_thread_ids", "counter ids are drawn from", "internal/thread_id_pool.h")])

prop("A01", "Allocators hand out each block once, large enough, and take it back whole",
     """Memory obtained from the block allocator, the pool allocator, parlay::allocator, type_allocator and p_malloc is handed to one user at a time
     until it is given back, is at least as large and aligned as asked, and is never lost. A thread's free list and the pool of whole lists always
     partition the blocks not in use: every list put into or taken from the pool has exactly list_length blocks, chained to a null end, and the local list
     never exceeds twice that. num_used_blocks() is the
     number allocated minus those free; clear() releases everything only if nothing is in use, exactly once and with the alignment it was obtained
     with. The pool allocator serves and takes back each size by the same bucket, the first one large enough, and its counts of
     bytes held and used change by what was really obtained, released and requested. Typed allocators ask for and give back the same number of bytes (n * sizeof(T)) and build and destroy objects exactly once.""",
     ["inputs", "interleavings"], "every sequence of allocations and releases, sizes, alignments and list lengths",
     "A wrong cut of a list or a wrong bucket shows only when the corrupted block is handed out again, often in another thread and much later.",
     ["internal/block_allocator.h", "internal/pool_allocator.h", "alloc.h"],
     [("block_allocator", "internal/block_allocator.h"), ("pool_allocator", "internal/pool_allocator.h"), ("allocator / type_allocator / p_malloc", "alloc.h")])

prop("A03", "The lock-free stack behind the allocators loses, doubles and frees nothing early",
     """hazptr_stack may be used by any number of threads at once: every element pushed is returned by exactly one pop (or freed with the
     stack), a pop reports empty only after seeing an empty head, and no node is read or written once it may have been freed. A thread
     only follows a pointer it announced and then re-read unchanged; a removed node is retired exactly once and destroyed exactly
     once, only after a fenced scan of every thread's announcement made since it was retired did not find it; nodes still announced
     stay queued, the queue's size stays exact, re-entry from a destructor is excluded, and destruction drains every queue.""",
     ["schedules"], "all interleavings and weak-memory reorderings of push, pop, size, retire and reclamation on any number of threads",
     "Use-after-free and ABA need a thread stalled between announcing and validating while another retires and scans; x86 hides the missing fences.",
     ["internal/concurrency/hazptr_stack.h", "internal/concurrency/acquire_retire.h"],
     [("acquire: announce, then validate", "internal/concurrency/acquire_retire.h"), ("work_toward_ejects / scan_slots / RetiredList::cleanup", "internal/concurrency/acquire_retire.h"),
      ("push / pop compare-exchange on head", "internal/concurrency/hazptr_stack.h")],
     [("announcement", "pointer a thread may be following", "internal/concurrency/acquire_retire.h"), ("retired", "removed nodes not yet destroyed", "internal/concurrency/acquire_retire.h")])

SEQ = "internal/sequence_ops.h"
prop("K01", "merge and stable_sort_inplace keep every element and give the stable order",
     """Merging two sorted ranges (sequentially, in parallel, by copying, moving or relocating) puts every element of both exactly once into the result, in the order
     of the comparison; equal elements keep their order, those of the first range before those of the second. Parallel merges cut both ranges where
     this remains true, for every comparison, and each part goes to its own place. The binary search returns the first position whose element is not less
     than the value. Insertion sort and merge sort (stable_sort_inplace) leave each range sorted and stable with the same elements, in
     the place asked for (the input, or the buffer, when the flag says so); elements moved on are destroyed once at their old place, and no access leaves the ranges.""",
     ["inputs", "interleavings"], "every length, value distribution, comparison (a strict weak order) and schedule",
     "Cuts at equal elements, at the ends and at odd lengths depend on data; tests compare a few random inputs, mostly without ties or with types whose ties cannot be told apart.",
     ["internal/merge.h", "internal/merge_sort.h", "internal/binary_search.h", "internal/quicksort.h"],
     [("seq_merge / merge_into", "internal/merge.h"), ("merge_sort_ / merge_sort_inplace", "internal/merge_sort.h"), ("binary_search / linear_search", "internal/binary_search.h"), ("insertion_sort", "internal/quicksort.h")])

prop("P01", "Reduce and scan combine all elements in input order, for every length",
     """For a range of any length and any monoid whose operation is associative (commutativity is not needed), reduce returns the
     combination of all elements in input order and the identity for an empty range. scan returns, at every position, the combination
     of exactly the elements before it in order, together with the combination of all elements; scan_inclusive includes the element
     itself. The in-place and output-range variants give the same results, and the result does not depend on the block structure or
     the schedule.""",
     ["inputs", "schedules"], "every input length, every associative operation with identity, every schedule",
     "Tests use a few lengths and mostly commutative operations; block-boundary mistakes show only for particular lengths above several blocks.",
     [SEQ, "primitives.h", "sequence.h"], [("reduce / reduce_serial", SEQ), ("scan_ / scan_serial", SEQ), ("sliced_for", SEQ)])

prop("P02", "Pack, filter, pack_index and count select exactly the right elements in order",
     """For inputs of any length and any flags or (pure) predicate, pack, pack_into_uninitialized, filter and
     filter_into_uninitialized produce exactly the selected elements, each once, in input order, and report or have exactly that many;
     pack_index produces exactly the selected indices in increasing order; count_if returns the number of selected elements. Nothing
     is written outside the positions of the result.""",
     ["inputs", "schedules"], "every input length, flag sequence or pure predicate, and schedule",
     "Block boundaries, empty and full blocks and the last partial block combine into more cases than sampled lengths cover.",
     [SEQ, "primitives.h"], [("pack / pack_out / pack_serial_at", SEQ), ("filter_map / filter_out", SEQ), ("pack_index", SEQ), ("count_if", "primitives.h")])

prop("P03", "Splitting by flag keeps every element once, class by class, in input order",
     """For inputs of any length, internal::split_two moves the elements with a false flag to the front and the others behind them,
     and internal::split_three orders the elements by class 0, 1, other; in both, every element appears exactly once, elements of the
     same class keep their input order, and the reported class sizes are the exact numbers of elements of the class.""",
     ["inputs", "schedules"], "every input length, every flag sequence, every schedule",
     "A wrong offset for one block is visible only for particular class distributions across several blocks.",
     [SEQ], [("split_two", SEQ), ("split_three", SEQ)])

prop("P04", "Element-wise operations produce exactly the specified element at every position",
     """For inputs of any length: tabulate gives f(i) at position i, map gives f(x) for each x in order, copy, to_sequence and append
     reproduce their input ranges in order, reverse and reverse_in_place mirror the positions, rotate(r, t) moves position t (at most
     the length) to the front cyclically, remove_if and unique keep exactly the elements they must keep in input order, for_each visits
     every element exactly once, and all_of, any_of and none_of return the conjunction or disjunction over all elements (with the
     usual answers for empty ranges). No element is read or written out of range.""",
     ["inputs", "schedules"], "every input length, every pure function or predicate, every schedule and granularity",
     "Off-by-one and block-boundary mistakes appear only for particular lengths or data.",
     ["primitives.h", "sequence.h", SEQ], [("tabulate / map / copy / reverse / rotate / append", "primitives.h"), ("remove_if / unique", "primitives.h"), ("all_of / any_of / none_of / for_each", "primitives.h"), ("sequence(_from_function_tag)", "sequence.h")])

prop("P05", "Searches return the first position, for every length and schedule, in range",
     """find_if and find_if_not return the first position whose element satisfies (does not satisfy) the predicate, mismatch the first
     position at which two ranges differ (limited by the shorter), adjacent_find the first position equal to its successor,
     is_sorted_until the first position smaller than its predecessor; each returns the end when there is none, also for empty
     and one-element ranges. equal returns true exactly when the lengths and all elements agree. search and find_end return the end or
     a position at which the whole pattern fits, also when the pattern is longer than the text. The answer does not
     depend on the schedule (concurrent iterations share their result only through atomic minimum updates), and no
     element outside the ranges is read.""",
     ["inputs", "schedules"], "every input length, every pure predicate, every schedule",
     "Doubling block schedules, early exit and empty ranges combine into boundary cases that sampled inputs miss; a lost minimum needs two matches in concurrent iterations.",
     ["primitives.h"], [("internal::find_if_index", "primitives.h"), ("find_if / mismatch / adjacent_find / is_sorted_until / equal / search / find_end", "primitives.h")])

DL = "internal/delayed/"
prop("D01", "Delayed maps, zips and scans give the same elements as their eager versions",
     """For inputs of any length, delayed tabulate, map, zip, zip_with, enumerate, scan and scan_inclusive, consumed by delayed to_sequence,
     reduce or for_each, yield exactly the elements of the eager operation, each once, at its own position (for_each: each once), in random-access and
     in block-iterable form and when composed (scan of a map, map of a scan, zip of a map): block boundaries lose or repeat nothing, zip
     has the length of the shortest range, delayed scan also reports the combination of all elements, reduce combines in order. No
     underlying element, block sum or sentinel outside the ranges is read.""",
     ["inputs", "schedules"], "every input length, every pure function, every associative operation, every schedule",
     "Blocks hold 2000 elements: the interesting lengths (0, 1, exact multiples, one more or less, single block) multiply with the compositions.",
     ["delayed.h", DL + "common.h", DL + "map.h", DL + "zip.h", DL + "scan.h", DL + "terminal.h", "delayed_sequence.h"],
     [("begin_block / end_block / num_blocks", DL + "common.h"), ("block_delayed_scan_t", DL + "scan.h"), ("block_delayed_zip_t / zip", DL + "zip.h"), ("to_sequence / reduce / for_each", DL + "terminal.h")])

prop("Q01", "Creating, copying, moving and clearing sequences keeps every element exactly",
     """For sequences whose element type is not stored inline, of any length: default, size, fill, range and from-function
     construction, to_sequence, copy and move construction, copy and move assignment (also to itself), assign, swap, clear, pop_tail and
     destruction leave each sequence involved with exactly the elements std::vector would hold (a moved-from sequence is empty).
     Every element is constructed once and destroyed once, never used after its destruction; every buffer is obtained once and
     given back once with the size it was obtained with, and nothing is read or written outside it. size, operator[], at, begin,
     end, data, front and back agree with those contents.""",
     ["inputs", "histories"], "every length and capacity, every element type (only its special members are called), every schedule",
     "A leak, double destruction or wrong deallocation size shows only for particular length/capacity relations and non-trivial types.",
     ["sequence.h", "internal/sequence_base.h", "relocation.h"],
     [("sequence special members, assign, pop_tail", "sequence.h"), ("storage_impl, capacitated_buffer", "internal/sequence_base.h"), ("uninitialized_relocate_n", "relocation.h")],
     [("capacity", "stored in the buffer header at allocation and used for deallocation", "internal/sequence_base.h"), ("size", "number of constructed elements from the start of the buffer", "internal/sequence_base.h")])

prop("Q02", "Growing and editing a sequence gives std::vector's result, with valid iterators",
     """For sequences whose element type is not stored inline, of any length and capacity: push_back, emplace_back, pop_back, append (count and
     value, range, copied sequence, moved sequence), insert and emplace (one value, count and value, range, copied or moved sequence), erase
     (one position, range), resize and reserve leave exactly the contents std::vector would have, whether or not the storage is
     reallocated, and the iterators they return point into the current storage at the specified position. The argument of
     push_back, emplace_back, insert, append(n, v) and resize(n, v) may refer to an element of the same sequence. Every element is constructed
     once and destroyed once (or relocated as bytes if its type is trivially relocatable), every buffer is given back once, with its
     size, and nothing outside a buffer, uninitialised or destroyed is read or written.""",
     ["inputs", "histories"], "every length, capacity, position and count, every element type (only its special members are called), every schedule",
     "Reallocation at exactly the full capacity, empty tails and aliasing arguments are relations between quantities that tests rarely hit.",
     ["sequence.h", "internal/sequence_base.h", "relocation.h"],
     [("emplace_back / append_n / insert_* / erase / resize / reserve", "sequence.h"), ("storage_impl::ensure_capacity", "internal/sequence_base.h"), ("uninitialized_relocate_n", "relocation.h")],
     [("capacity", "at least the size; growth relocates all elements", "internal/sequence_base.h")])

prop("T01", "Interfaces demand no more of element and callable types than they need",
     """Sequences of elements that cannot be copied, have no default value or cannot be assigned support every operation that does not inherently
     need those; sorting in place, integer sorting in place, reversing, flattening a temporary, tabulate, map and all searches and
     queries work for elements that can only be moved, and filter, pack, sort, merge, unique, append, reduce and scan for elements
     without a default value. Input ranges may be const, views, delayed or standard containers; comparators, predicates and
     monoids may be const, and loop bodies and branches need not be copyable. Element access is by reference, const ranges yield only
     const access, results have the documented types, sequences, slices and delayed sequences are random-access ranges. A delayed view
     owns a temporary it is made from, and refers to an lvalue without copying it. ThreadSpecific and the scheduler cannot be copied.""",
     ["programs"], "every element, range and callable type that meets the stated requirements",
     "Tests instantiate a few types; an accidental copy, default construction or dropped const compiles for those.",
     ["primitives.h", "sequence.h", "delayed.h", "parallel.h", "thread_specific.h", "internal/delayed/common.h"],
     [("constraints and forwarding of the public templates", "primitives.h"), ("view_storage_type", "internal/delayed/common.h"), ("deleted copy operations", "thread_specific.h")])

prop("U01", "Atomic write_min, write_max and write_add never lose an update",
     """write_min(a, b, less) replaces the shared value by b only in one atomic step from a value it has just found worse than b, returns
     true exactly when it did so, and gives up only after reading a value that is at least as good; write_max is the mirror image.
     write_add adds its argument exactly once, to whatever value is current at that moment. Hence concurrent calls leave the minimum,
     maximum or sum of all contributions, in every interleaving and with spurious failures.""",
     ["schedules", "inputs"], "every interleaving, every spurious compare-exchange failure, every strict weak order",
     "A lost update needs another thread between the read and the write, or a spurious failure that x86 hardware never produces.",
     ["utilities.h"], [("write_min / write_max / write_add", "utilities.h")])

prop("M01", "Built-in monoids are associative and their identity is neutral",
     """For all integer types, plus, multiplies, bit_and, bit_or, bit_xor, maximum and minimum, logical_and and logical_or on bool, and
     the deprecated addm, maxm, minm, xorm, minmaxm, pair_monoid, array_monoid and legacy_monoid_adapter apply an associative operation of
     their name to their two arguments and carry an identity that is neutral for it, for every value of the type. binary_op,
     make_monoid and monoids constructed with an explicit identity pass the user's operation and identity through unchanged.""",
     ["inputs"], "every value of every integer type",
     "An identity that is wrong only for extreme values (unsigned maximum, lowest versus min) survives tests on small numbers.",
     ["monoid.h"], [("plus / multiplies / bit_* / maximum / minimum", "monoid.h"), ("addm / maxm / minm / minmaxm / pair_monoid / array_monoid", "monoid.h")])

prop("R01", "Hash mixers and random streams are pure and collision-free functions",
     """hash64, hash64_2, hash32, hash32_3 and parlay::hash of integer types map distinct arguments to distinct values. random and random_generator are pure
     functions of their seed and index: for a fixed seed, distinct indices give distinct numbers (ith_rand, operator[]), distinct forks and distinct
     sub-generators give distinct first numbers, and distinct seeds give distinct numbers at a fixed index.
     Results therefore never depend on time, thread or address.""",
     ["inputs"], "every seed and every pair of 64-bit arguments",
     "A collision of a 64-bit mixing function cannot be found by sampling, and a hidden dependence on global state shows only under other schedules.",
     ["random.h", "utilities.h"], [("hash64 / hash64_2 / hash32 / hash32_3 / parlay::hash", "utilities.h"), ("random / random_generator", "random.h")])

prop("V01", "Iterators and views agree with positions in arithmetic, order, access and size",
     """For slices, delayed sequences, delayed views (tabulate, iota, map, zip, zip_with, enumerate, keys, values, elements) and the iterator over
     uninitialised storage: stepping an iterator by any amount, in any of the ways offered (++, --, prefix and postfix, +, -, +=, -=),
     moves it by exactly that many positions; differences and all six comparisons agree with positions, backwards too; dereferencing and
     subscripting at a position reach the same element, the one the view's definition assigns to it (a reference to the underlying
     element where there is one); size is the distance of the ends, and for zip the least size; cut(a, b) is the positions a to b, also when
     nested; front, back, at, empty, reverse iterators, copies, assignment and swap agree with that. The blocks a random-access
     range is split into follow each other without gap, are not empty and end at its end. A random generator indexed by i, or forked, leaves the generator
     unchanged and gives the same result every time.""",
     ["inputs"], "every length, position and offset; every element function; empty views included",
     "An off-by-one or truncation in one of some forty iterator operations shows only in the algorithm that happens to use it, or beyond 2^31.",
     ["slice.h", "delayed_sequence.h", "delayed.h", "internal/delayed/zip.h", "internal/delayed/common.h", "internal/uninitialized_iterator.h", "internal/sequence_ops.h", "random.h"],
     [("slice", "slice.h"), ("delayed_sequence::iterator", "delayed_sequence.h"), ("zip", "internal/delayed/zip.h"), ("num_blocks / begin_block / end_block", "internal/delayed/common.h"),
      ("uninitialized_iterator_adaptor", "internal/uninitialized_iterator.h"), ("delayed_tabulate / delayed_map", "internal/sequence_ops.h")])
