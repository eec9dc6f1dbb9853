# parlaylib: properties decided by static analysis

Everything here is static analysis. `check.py <id>` compiles small *drivers* (`/verif/drivers/*.cpp`: a few `extern "C"` functions
that instantiate templates of `/repo/include` with opaque element operations, i.e. functions that are declared and never defined)
to LLVM IR with clang 18, and `plint` (`/verif/tools/plint`, C++ on the LLVM 18 libraries, built by `setup_cmd`) brings that code to a
normal form - everything that is not an anchor inlined, SROA, GVN, CFG simplification - and decides the rule on *every path* of it.
No parlaylib code is executed, concretely or symbolically, and no solver enumerates paths: rules are dataflow / typestate fixpoints,
shape analysis, interval-style abstract interpretation and normal-form comparisons. Some properties have type-level witnesses
(`/verif/witness`, `-fsyntax-only`; sections that must compile and sections that must be rejected).

Working on normalised IR rather than on the syntax tree is the main design decision: a helper extracted, a loop rewritten, statements
reordered or a condition turned round vanish in the normal form, so the rules judge what the code does. `dev/m_*.py` hold the
regression corpus for this: for each property, textual bugs (`V`) that must be reported and behaviour-preserving rewrites (`Q`) that must
stay quiet; `dev/mut.py [prop] [name]` applies each to a scratch copy of the headers and runs the real check on it.

Exit codes of a check: 0 held; 1 with `VIOLATION property=<id> replay=<file>` (the replay file names rule, construct and source line);
2 when an anchor vanished or a minimum of analysed instances was not reached (never silently "0 obligations, ok").
Evidence (`/verif/evidence/<id>.json`) lists the functions analysed, the number of obligations, paths, loops and so on.

## Trusted base

clang's front end and the LLVM simplification passes used for normalisation; the rules of plint; for each property the paper argument
that its obligations imply the statement (named below). Indices are mathematical integers in the arithmetic domain (no 64-bit
wrap-around of sizes) unless said otherwise. Exceptions thrown by element operations are outside all models (drivers are compiled with
`-fno-exceptions`-equivalent edges ignored). Only the Linux code paths compile here.

## The domains

* **Flow** (`flow.h`): path-sensitive worklist analysis over (block, state, small environment of known conditions), used by the
  typestate rules (deque, forkjoin, atomicwait, threadid, hazptr, casloop, lifecycle).
* **Tiler** (`tile.cpp`): every path of a loop entry point yields a list of index regions (body calls, loop summaries, recursive calls,
  library loops); Fourier-Motzkin entailment (`poly.cpp`) with axioms for min, max, division and shifts decides that they glue
  together to exactly the specified range, or are pairwise disjoint and covering.
* **SeqInt** (`seqint.cpp`): abstract interpreter for the sequence algorithms. Values are positions in inputs, ordered combinations
  ("folds") of input intervals, prefix counts of an uninterpreted predicate, and constants; arrays are sets of described intervals.
  Loops and parallel loops are summarised inductively: run one generic iteration on a candidate description, check that it
  reproduces the description one step further, and (parallel) that different iterations touch disjoint cells. Out-of-range reads,
  reads of unwritten cells and double writes are obligations everywhere.
* **Shape** (`shape.h`): abstract list shapes for the retired list of A03.

## Per property

Cost: all checks together take about 3 minutes on 8 cores; the slowest single one under 60 s. quick and thorough run the same analysis
(it is a fixpoint, there is no depth to add) - thorough adds the second build configuration where there is one.

### S01 fork-join (rule `forkjoin`, driver sched.cpp) - claimed
Typestate on every path of par_do (both modes), parallel_do, par_do_if, par_do3(_if), execute_with_scheduler, the worker loop and
the job: each branch called exactly once on every path or handed to the deque as a job; every pushed job is, before the function
returns, either popped back and run or observed finished by an acquire load of its flag; every job taken from any deque is run exactly
once before the next take or return; completion is published with release after the run and nowhere else; in conservative mode no
foreign job is taken. Assumes S02. Tests sample schedules; the rule covers every path, i.e. every outcome of every pop and steal.

### S02 work-stealing deque (rule `deque`) - claimed
The obligations of the Arora-Blumofe-Plaxton proof decided on the compiled push/pop: order of slot write and `bot`, the fence between
`bot` and `age`, tag increment on every reset, CAS from the very pair that was read with acquire, the slot read between the read of age
and the CAS, bounds check before the slot write, what each path returns. The proof that the obligations suffice is the published one.

### S03 parallel loops (rule `tiling`, six back ends) - claimed
See *Tiler*. parallel_for, blocked_for, sliced_for, parallel_for_ through the real scheduler, and the Cilk, OpenCilk, OpenMP, TBB and
sequential back ends against stub headers (serial elision). Granularity estimation included. Recursion is checked inductively and must shrink.

### S04 scheduler life cycle (rule `lifecycle`) - claimed
Constructor, spawned closure, worker loop, shutdown: id intervals tile [1,n), counters balanced on all paths, shutdown order.

### S05 thread ids (rule `threadid`) - claimed
Lock-region analysis of the id free list (head read, successor read and exchange under one shared mutex; push by CAS from its own
successor with release), ownership typestate of the thread-local owner.

### S06 ThreadSpecific (rule `tspecific`) - claimed
Path-wise abstract interpretation with affine forms: chunk sizes are P, P, 2P, 4P.. with P unknown, so the chunk number is split into 0, 1 and
k + 2 and powers of two of it are atoms. Loops are summarised by their iteration number (linear and doubling variables); loops that walk
over chunks by relations inferred from a fixed list (position plus or minus start of the chunk, bounds). Checked: the address reached by every
access, the coordinates of every iterator after every operation, comparisons and differences, the exact set and order of elements built,
visited and destroyed, allocation sizes, and for growth: lock, second look under the same lock, build, release. It found that `--end()` could reach a
chunk nobody had created (fixed, see below).

### S07 atomic wait (rule `atomicwait`) - claimed
Protocol obligations (announce / seq_cst fence / version read / re-check / futex on the same word the notifier changes; notifier: bump,
fence, look). Table and no-table variants.

### A01 allocators (rule `ballock`) - claimed
Block allocator: the local list is a chain of blocks numbered from its end, of symbolic length s <= 2L; its middle is the block L + 1 from the end
once s >= L + T (T is 2 in the current code; 1 is tried as well, since both are valid designs). After alloc or free, on every path and for L = 1 and
L >= 2, the chains reachable from the local list (that of the thread the task then runs on), from what is pushed and from what is returned must partition the
blocks there were, with the recorded lengths, and the invariant must hold again. New buffers: size, alignment, one record, one count, chained to the
end by an inductive loop summary. num_used, clear, constructors as equalities. Pool: each path takes a bucket b with size(b) >= n and b the first, or
size(b - 1) < n, which makes the bucket a function of n (so allocation and release agree). Typed allocators: byte counts and owners agree.
It found that the pool's byte counts drift (fixed, see below). Not covered: pool_allocator::clear, the size field in p_malloc's header.

### A03 hazard-pointer stack (rule `hazptr`) - claimed
Shape analysis plus typestate: announce-validate, CAS operands, retire once, scan all announcements after a fence, destroy only what was not found.

### K01 merging and merge sort (rule `merging`) - claimed
Each function is compiled for opaque elements in sequential elision and run path-wise; loops are cut at linear invariants found by elimination of
candidates (differences between loop variables and ghost counters, bounds by lengths and ranks). Ghosts: elements of A and of B placed; moved elements
not yet destroyed; for insertion sort the sorted prefix, the position of the element on its way and whether it was just found smaller. A
comparison of B[y] with A[x] splits the path and bounds rank(x), the number of elements of B before A[x]. A placement is right if it goes to the next free
place and its rank allows it. Recursive calls are contracts: their parts must tile A, B and the result, the cut must be at a rank, and they must be smaller.

### P01-P05 sequence primitives, D01 delayed sequences (rule `seqprim`, SeqInt) - claimed
One driver function per public operation with opaque predicate/operation; specification per driver in `rule_seqprim.cpp` (what value
each output position, count or returned value must be). Sequential elision of parallel loops plus an independence obligation for
each parallel loop, so the verdict holds for every schedule (given S03). The results are for every length - no bound.

### Q01, Q02 sequence container (rule `seqobj`, SeqInt in raw mode) - claimed
One driver per container operation with an opaque, non-trivial element type (54 drivers; 32 of them also with a trivially relocatable one, i.e. the
memcpy branch). Buffers are described by intervals that are vacant, hold known elements, or were moved from; constructors, destructors,
assignments, allocations and deallocations are obligations on these states; at every return each sequence must hold the specified
contents, each live element must belong to a sequence and each buffer must be owned or given back with its allocation size. For every
length, capacity and position. Not decided: elements stored inline (small-buffer mode), exceptions, and, for trivially relocatable
elements, insert of a range / a sequence (the nested min/div reasoning of chunked copies exceeds the arithmetic core).

### V01 iterators and views agree with positions (rule `laws`) - claimed
37 drivers state 183 laws as equalities between positions, addresses and opaque function results (`plint_eq`), or as relations that must hold
on a path (`plint_ok`). The code is inlined and each law must follow by the arithmetic core (polynomials with min, max and floor division)
from the branch facts. Wrap-around of positions is outside. Truncation (`int` positions) shows as a sign-extension that is not the identity.

### T01 interface requirements (type-level witnesses, `witness/types.cpp`) - claimed
38 programs over element types that lack copying, default values or assignment, const and view ranges, const or unmovable callables; static
assertions on result, reference and ownership types (a view that owns its range is at least as large); programs that write through const access
or copy what must not be copied must be rejected. Each is type-checked against the current headers, nothing is run.

### U01 update loops (rule `casloop`), M01 monoids (rule `monoid`), R01 hashes and random (rule `inject`) - claimed
U01: typestate of the value last read around each compare-exchange. M01: normal form of the optimised operation for each of 99 monoid/type
pairs must be a known associative operation on both arguments with its neutral constant. R01: bit-triangularity (each step
invertible) and purity (no load, no call) of the compiled functions.

## Not applicable (see MANIFEST.json)

@@NA@@
## Defects found

Fixed in /repo (each with a `fix:` commit, listed in known_findings.jsonl; the checks report them when the commit is reverted):
* `adjacent_find` on an empty range scanned `size()-1` positions (P05).
* `find_end` with a pattern longer than the text read out of bounds (P05).
* `delayed::scan_inclusive` of a single block read its end sentinel past the block sums (D01).
* arguments that refer to an element of the sequence itself: push_back, emplace_back, insert, append(n, v), resize(n, v) used them after relocation (Q02).
* `insert(p, 0, v)` at the front with no spare capacity returned an iterator into the freed buffer (Q02).
* `ThreadSpecific` iterators dereferenced the position past the last chunk as a flat index: values of later threads were skipped or repeated (S06).
* `pool_allocator`: large blocks were counted with the request on allocation and the rounded class size on release; the statistics drifted (A01).
Observed by reading, not decided by a check, hence neither claimed nor repaired:
* `p_free` of a block beyond the largest pool passes a rounded size: `memory_usage()` drifts, nothing else does.
* `block_delayed_flatten_t::initialize_iterators` dereferences the outer end when the inner ranges are all empty (out-of-bounds read, reproduced with a small program).
* granularity / chunk size 0 for element types over 8 KiB in relocation and `compare_equal`; `compare_equal` writes one flag from several blocks.
* `file_map` of an empty file; `open`/`fstat`/`mmap` failures are only asserted. `scheduler(0)` underflows.
* `block_delayed_flatten_copy_t` keeps a reference_wrapper to a sibling member across default copy/move;
  `block_delayed_filter_t` / `block_delayed_flatten_t` keep iterators into a view that a defaulted move relocates.
* `group_by_small_int` / `collect_reduce_few` with n == 0; `uninitialized_sequence_impl::operator=(&&)` lacks a return.
* `kth_smallest_copy` uses `!=` besides the comparator; `stream_delayed::filter_map` assigns into raw storage.
* `parallel_for(SIZE_MAX, 0, f)` wraps in `start + 1 == end` (outside the integer model).
* minimum/maximum on floating point: identity (max()) not neutral for infinities. M01 therefore claims integers only.
* the table variant of atomic_wait may consume another address's announcement; the 2 s futex timeout bounds it (by design).

## Planted bugs (`/verif/seeded`) and what catches them

| seed | what it breaks | caught by |
|---|---|---|
@@SEEDS@@

Beyond these, the corpus `dev/m_*.py` holds about 290 textual bugs and 200 behaviour-preserving rewrites; all bugs listed there are reported
and all rewrites are quiet at the time of the last commit.
