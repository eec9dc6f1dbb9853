"""Which analyses decide which property."""
import os
CHECKS = {}
NOT_APPLICABLE = {}


def ck(pid, technique, note, explain, parts, level="other"):
    CHECKS[pid] = {"technique": technique, "note": " ".join(note.split()), "explain": " ".join(explain.split()), "parts": parts, "level": level}


def ir(rule, driver, **kw):
    return dict({"type": "plint", "rule": rule, "driver": driver}, **kw)


def wit(file, **kw):
    return dict({"type": "witness", "file": file}, **kw)


ck("S02", "IR protocol rules (ordering, CAS guards, index forms) on the optimised deque code",
   """Complete set of obligations of the ABP proof, decided on every path of the compiled deque operations; the paper proof that these
   obligations imply the property is trusted.""",
   """push_bottom, pop_bottom and pop_top are compiled from the current headers, fully inlined and normalised; every atomic access is
   classified (bot / age / slot) and each obligation of the Arora-Blumofe-Plaxton argument (publication order, fence, tag bump, CAS
   guard, returned value, bounds check before the slot write) is decided on all paths.""",
   [ir("deque", "deque.cpp", min={"obligations": 40, "shared accesses": 12})])

ck("S01", "path-sensitive typestate over the inlined fork-join IR",
   """All paths of the compiled fork/join, worker and job code; relies on S02 (a pop that returns non-null hands out each job once)
   and on LIFO ownership of the bottom end.""",
   """Every entry point (par_do in both modes, parallel_do, par_do_if, par_do3, par_do3_if, execute_with_scheduler, the worker loop,
   job invocation) is compiled with opaque branch functions and fully inlined down to the deque operations; a path-sensitive
   typestate analysis counts branch calls, tracks pushed jobs until their completion flag was observed with acquire ordering, tracks
   every job taken from a deque until it is run, and checks release of the completion flag after the run.""",
   [ir("forkjoin", "sched.cpp", min={"pushes": 12, "takes": 20, "returns": 12})])

STUB = ["-I", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")]
ck("S03", "polyhedral coverage analysis: index space tiled by consecutive regions, loops cut by inductive invariants",
   """All paths of the compiled loop entry points; indices are mathematical integers (no 64-bit wrap-around). Forks are taken to run
   both thunks once (S01). OpenMP, TBB and Cilk are analysed as their serial elision against stub headers.""",
   """Each loop entry point is compiled with an opaque body, inlined, forks serialised; every path must emit body calls and recursive
   pieces that glue together to exactly [start,end). Loop counters are bounded by Houdini invariants, arithmetic entailment is
   decided by Fourier-Motzkin with axioms for min, max and division; recursion is verified inductively and must shrink.""",
   [ir("tiling", "tiling.cpp", flags=["-DPLINT_REAL"], tag="-real", min={"tiles": 8, "forks serialised": 1}),
    ir("tiling", "tiling.cpp", flags=["-DPARLAY_SEQUENTIAL"] + STUB, tag="-seq", min={"tiles": 4}),
    ir("tiling", "tiling.cpp", flags=["-DPARLAY_OPENMP"] + STUB, tag="-omp", min={"tiles": 4}),
    ir("tiling", "tiling.cpp", flags=["-DPARLAY_TBB"] + STUB, tag="-tbb", min={"tiles": 3}),
    ir("tiling", "tiling.cpp", flags=["-DPARLAY_OPENCILK"] + STUB, tag="-opencilk", min={"tiles": 4}),
    ir("tiling", "tiling.cpp", flags=["-DPARLAY_CILKPLUS"] + STUB, tag="-cilkplus", min={"tiles": 4})])

ck("S04", "typestate and field-effect analysis of constructor, thread body, worker loop and destructor; thread ids and joins by interval coverage",
   """All paths of the compiled functions for any n >= 1. That the atomic wait and notify calls themselves do not lose wake-ups is S07;
   that a join of a finished thread returns is trusted to std::thread.""",
   """The constructor, the spawned closure, worker() and the destructor are compiled and inlined; member accesses are resolved through
   debug info. Decided on every path: initialisation before the first thread, captured ids tile [1,n), identity set before work,
   awake/finished counters balanced, exit only when finished, finish announced before waiting, joins guarded by the finished count
   and tiling the spawned threads, wake-ups that change the counter on every round of the shutdown loop, identity restored.""",
   [ir("lifecycle", "sched.cpp", min={"sleeps": 1, "joins": 1, "constructor obligations": 12})])

ck("S06", "path-wise affine abstract interpretation with chunk-number case split and inductive loop summaries; lock/publication typestate",
   """All ids, positions and chunk numbers (0, 1 and k + 2 for any k), any initial chunk size; sizes below 2^40. One element type (opaque constructor, move and
   destructor, 64-byte cells). That thread ids are unique and small is S05; iterators are used by one thread at a time.""",
   """Element addresses, iterator coordinates and loop ranges are affine forms over the chunk size and powers of two of the chunk number. Every path of each entry
   point must yield the address, coordinates or event sequence the statement gives it; loops are summarised inductively.""",
   [ir("tspecific", "tspecific.cpp", min={"results": 60, "positions": 300, "publications": 50, "comparisons": 90, "chunks visited": 8, "chunks freed": 6})])

ck("A01", "path-wise shape and affine abstract interpretation: lists as runs of numbered blocks, sizes to buckets as functions, bytes asked for and given back",
   """Any list length, block size, size and local-list length satisfying the invariant; pool sizes are assumed increasing, as documented, and below 2^40. The shared stacks (A03), per-thread
   lists (S06) and operator new are trusted. pool_allocator::clear, printing, and the log of the size in p_malloc's header are not covered.""",
   """alloc and free of the block allocator are run on a local list of symbolic length whose middle obeys the invariant; afterwards the runs of blocks reachable from the thread's list, pushed and
   returned must partition those there were, with the recorded lengths, and the invariant must hold again. Pool and typed allocators: every path asks for and gives back blocks of the same bucket or size.""",
   [ir("ballock", "alloc_block.cpp", min={"paths": 5}), ir("ballock", "alloc_pool.cpp", min={"paths": 2}), ir("ballock", "alloc_types.cpp", min={"paths": 10})])

ck("K01", "path-wise abstract interpretation with ghost counters, inductive linear invariants at loops and contracts at recursive calls",
   """All lengths below 2^40 and all comparison results consistent with sorted inputs; an opaque element type. Parallel parts are checked in sequential order, which is enough because their
   outputs are disjoint (checked). sample_sort, quicksort and integer_sort are not covered.""",
   """Ghost counters follow how many elements of each range are placed; every placement, comparison, swap, recursive call and result is an obligation on every path: next free place, next
   element of its range, justified by the comparisons made, cuts at ranks found by a search, parts that tile the whole.""",
   [ir("merging", "merging.cpp", min={"paths": 5})])

ck("S07", "path-sensitive protocol typestate on the inlined futex wait / notify functions",
   """All paths of the Linux futex implementations (table-backed and direct, with and without the contention table); the kernel's futex
   contract is trusted. The condition-variable and Windows variants do not compile here and are not covered.""",
   """atomic_wait, atomic_wait_explicit, atomic_notify_one and atomic_notify_all are compiled for a table-backed and a directly waited
   type. Rules: return only after a differing read; announce, seq_cst fence, version read, value re-read before FUTEX_WAIT with that
   version (or the value itself) on an address a notifier wakes; bump, seq_cst fence, waiter test before deciding not to wake;
   wake counts; time bound where announcements can be consumed; table index in range.""",
   [ir("atomicwait", "atomicwait.cpp", min={"waits": 4, "notifies": 4, "sleeps": 2, "wakes": 2}),
    ir("atomicwait", "atomicwait.cpp", flags=["-D__NO_TABLE"], tag="-notable", min={"waits": 4, "notifies": 4, "sleeps": 1})])

ck("S05", "lock-region and compare-exchange typestate on the free list; ownership typestate of the thread-local owner",
   """All paths of acquire, relinquish, the owner's constructor and destructor and the accessors, on their compiled form. pthread mutexes
   and thread_local destruction at thread exit are trusted.""",
   """A held-mutex analysis decides that head read, successor read and exchange of a pop lie in one critical section of one shared mutex;
   the returned node is followed along every path (won by the exchange, or fresh with an id from one atomic increment); a push must
   link the head it expects and release; the thread-local owner takes and gives back exactly one node and is registered for thread exit.""",
   [ir("threadid", "threadid.cpp", min={"pops": 1, "pushes": 1, "fresh ids": 1, "id reads": 2})])

ck("A03", "shape analysis of the retired list; hazard-pointer protocol typestate on every path of acquire, retire, push, pop and size",
   """All paths of the compiled operations. std::unordered_set and the per-thread lookup (S06) are trusted as black boxes; distinct list
   positions are taken to be distinct nodes.""",
   """Shape domain (abstract nodes, head/next cells, per-node facts) decides cleanup, push and destruction: only nodes found unprotected
   are unlinked and destroyed, once, and never touched again. Typestate decides announce-then-validate in acquire, protected
   accesses, compare-exchange operands and orders in push/pop, retire-once, fence and complete scan before destruction, re-entry
   guard and draining destructors.""",
   [ir("hazptr", "hazptr.cpp", min={"acquires": 3, "exchanges": 2, "scan bodies": 1, "destroy sites": 2, "drain rounds": 1})])


def seq(names, flags=(), **mins):
    """One part per driver function of seqprim.cpp (they run in parallel)."""
    return [ir("seqprim", "seqprim.cpp", flags=["-DPARLAY_SEQUENTIAL"] + list(flags), tag="-" + nm, env={"ONLY": "drv_" + nm}, min=dict({"paths": 1}, **mins)) for nm in names]


SEQNOTE = """All paths and all input lengths of the compiled code, by inductive loop summaries over symbolic indices; 64-bit wrap-around of
sizes, allocation failure and element types with throwing operations are outside the model. A parallel_for is taken to run every index
once (S03) on iterations the analysis has shown to be independent."""
SEQHOW = """The functions are compiled with an opaque element operation, inlined, and interpreted over a symbolic domain: values are ordered
combinations of input intervals, counts are prefix counts of an uninterpreted predicate, arrays are described by the intervals written so
far; loops are summarised by inductive per-iteration descriptions, linear arithmetic is decided by Fourier-Motzkin with axioms for the
prefix counts. Every written cell must hold the specified value at the specified position, the written intervals must cover the result
exactly, and the returned value must be the specified one, on every path. """

ck("P01", "abstract interpretation over ordered interval combinations with inductive loop summaries", SEQNOTE, SEQHOW +
   "Parallel iterations write disjoint cells and read none written by another iteration.",
   seq(["reduce", "reduce_pub", "reduce_seq", "reduce_seqflag"], **{"returned values": 1, "combinations": 1, "reads": 1}) +
   seq(["scan", "scan_incl", "scan_uninit", "scan_incl_uninit", "scan_inplace", "scan_inplace_incl", "scan_pub", "scan_incl_pub", "scan_seqflag"],
       **{"writes": 1, "combinations": 1, "loops": 1}))

ck("P02", "abstract interpretation with prefix-count positions and inductive loop summaries", SEQNOTE, SEQHOW +
   "A selected element must be written at the position given by the number of selected elements before it.",
   seq(["pack", "pack_out", "pack_into", "pack_index", "filter", "filter_into"], **{"writes": 2, "loops": 5, "prefix sums": 1}) +
   seq(["count"], **{"returned values": 1, "loops": 1}))

ck("P03", "abstract interpretation with per-class prefix counts and inductive loop summaries", SEQNOTE, SEQHOW +
   "An element must be written at its class offset plus the number of earlier elements of its class.",
   seq(["split_two"], **{"writes": 2, "returned values": 1, "prefix sums": 1}) + seq(["split_three"], **{"writes": 3, "returned values": 1, "prefix sums": 2}))

ck("P04", "abstract interpretation with symbolic positions and inductive loop summaries", SEQNOTE, SEQHOW +
   "Each operation has its own position and value specification.",
   seq(["tabulate", "tabulate_gran", "map", "copy", "to_sequence", "reverse", "reverse_inplace", "rotate", "append"], loops=1) +
   seq(["remove_if", "unique"], **{"writes": 1, "loops": 3}) + seq(["all_of", "any_of", "none_of"], **{"returned values": 1}) + seq(["for_each"], loops=1))

ck("P05", "abstract interpretation with first-hit loop summaries over prefix counts", SEQNOTE + """ For search and find_end only the range and fit of
the answer are decided, not that the pattern occurs there.""", SEQHOW +
   "For early-exit loops the summary is a disjunction: nothing met so far, or met at a first position that later iterations keep.",
   seq(["find_if", "find_if_not", "mismatch", "adjacent_find", "is_sorted_until", "equal", "search", "find_end"], **{"returned values": 1, "first-hit loops": 1}))

ck("D01", "abstract interpretation of producer and consumer fused, with inductive block and element loop summaries", SEQNOTE + """ delayed filter and
flatten are not covered.""", SEQHOW + "Producer views and consumers are compiled together, so the block protocol between them is part of what is analysed.",
   seq(["dl_map", "dl_map_ra", "dl_tabulate", "dl_scan_incl", "dl_map_scan", "dl_scan", "dl_scan_map"], **{"writes": 1, "loops": 1}) +
   seq(["dl_foreach", "dl_foreach_ra", "dl_zip", "dl_zip_with", "dl_zip_ra", "dl_enumerate"], **{"writes": 1, "reads": 1}) +
   seq(["dl_reduce", "dl_reduce_ra", "dl_zip_size"], **{"returned values": 1}))

def obj(names, trivrel=(), **mins):
    """One part per container operation (they run in parallel); trivrel: also with elements relocated as bytes."""
    return [ir("seqobj", "seqobj.cpp", flags=["-DPARLAY_SEQUENTIAL"] + f, tag=t + "-" + nm, env={"ONLY": "drv_" + nm}, min=dict({"paths": 1}, **mins))
            for f, t, nms in (([], "", names), (["-DTRIVREL"], "-rel", trivrel)) for nm in nms]


OBJNOTE = """All paths, lengths, capacities and positions of the compiled code (lengths below 2^48, no exceptions, allocation succeeds), for an element type with
opaque special members; elements stored inline (small buffer) are outside. A parallel_for is taken to run every index once (S03) on
iterations shown independent."""
OBJHOW = """Each operation is compiled with an opaque non-trivial element type, inlined, and interpreted over a symbolic domain: a buffer is described by
intervals that are raw, hold given elements, or were moved from / destroyed; element constructors, assignments and destructors, allocation and
deallocation are obligations on those states; loops are summarised inductively. At every return the sequences involved must hold the specified
contents and every element and buffer must be accounted for. """
LIGHT = ["push_back", "push_back_move", "push_back_alias", "emplace_back", "emplace_back_v", "pop_back", "append_n", "append_n_alias", "append_range", "append_copy",
         "append_seq_move", "erase", "erase2", "resize_up", "resize_down", "resize_alias", "reserve"]
HEAVY = ["insert_seq_move", "insert_copy", "insert_n", "insert_range", "emplace", "insert", "insert_move", "insert_alias"]
LIFE = ["dtor", "ctor_empty", "ctor_n", "ctor_fill", "ctor_range", "from_function", "copy", "to_sequence", "move", "copy_assign", "move_assign", "self_assign",
        "self_move_assign", "assign_seq", "swap", "std_swap", "clear", "assign_n", "assign_range", "pop_tail", "pop_tail_len"]
ck("Q01", "abstract interpretation of container operations with element-lifetime states per buffer interval", OBJNOTE, OBJHOW + "Special members and whole-sequence operations.",
   obj(LIFE + ["index", "at", "begin", "end", "data", "front", "back", "size"], ["move_assign", "copy_assign", "swap", "std_swap", "pop_tail", "pop_tail_len", "assign_seq"]))

ck("Q02", "abstract interpretation of container operations with element-lifetime states per buffer interval", OBJNOTE, OBJHOW +
   "Operations that grow or edit a sequence; for trivially relocatable elements all but insert of ranges and sequences.",
   obj(HEAVY + LIGHT, ["insert", "insert_n", "insert_alias", "emplace"] + LIGHT))

ck("T01", "type-level witnesses: programs that must, or must not, compile against the current headers",
   """The listed witness programs (38); each stands for the class of types it uses (only the special members and operators it declares exist).""",
   """Every section of witness/types.cpp is type-checked against the current headers: programs that use only the operations a type provides must compile, with
   static assertions on result, reference and ownership types; programs that write through const access or copy what must not be copied must be rejected.""",
   [wit("types.cpp", min={})])

ck("U01", "path-sensitive typestate of the value last read around every compare-exchange",
   """All paths of the compiled loops; the comparison is an opaque function. Memory order is not constrained.""",
   """On every path the exchange must expect the value last read, install the argument (or its sum with that value) and, for min/max, only after the
   comparison of the argument with that value succeeded; returns must agree with what happened.""",
   [ir("casloop", "atomics.cpp", min={"updates": 4})])

ck("M01", "algebraic normal form of the optimised operation and constant identity",
   """All integer types of 8 to 64 bits and bool; floating-point monoids are outside (their minimum / maximum identity is not neutral for infinities).""",
   """Each monoid is compiled for each type; after optimisation its operation must be exactly one known associative operation on its two arguments, and its
   identity the constant that is neutral for it.""",
   [ir("monoid", "monoids.cpp", min={"monoids": 99})])

ck("R01", "bit-dependency (triangularity) analysis of the optimised functions, purity by absence of loads and calls",
   """All 64-bit (32-bit) arguments. Statistical quality is not decided.""",
   """A function is one-to-one if it is a chain of steps each of which is unit-triangular in its bits (addition, odd multiplication, xor with a shifted copy of the
   same value); the chain is found in the compiled code, and no memory or external function may be read.""",
   [ir("inject", "hashes.cpp", min={"functions": 17})])

ck("V01", "symbolic linear arithmetic over the optimised iterator code: stated equalities follow on every path",
   """All lengths and positions for which the operations are defined, sizes below 2^63 (no wrap-around of positions). Views over references (slices) and values
   (delayed sequences) stand for all underlying ranges.""",
   """Drivers state the laws as equalities between positions, addresses and results of opaque functions; after inlining, both sides are put into
   polynomial normal form (with min and division atoms) and must be equal under the branch facts of every path.""",
   [ir("laws", "laws.cpp", min={"laws": 180})])
