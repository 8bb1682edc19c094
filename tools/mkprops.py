#!/usr/bin/env python3
"""Single source of properties.jsonl (keeps the JSON lines tidy)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

OPS = ["hwy/ops/x86_128-inl.h", "hwy/ops/x86_256-inl.h", "hwy/ops/x86_512-inl.h", "hwy/ops/x86_avx3-inl.h",
       "hwy/ops/generic_ops-inl.h", "hwy/ops/emu128-inl.h", "hwy/ops/scalar-inl.h", "hwy/ops/shared-inl.h"]

p("O01", "Vector loads and stores access only the memory they document",
  "Every vector load/store operation (whole-vector, partial-count, interleaved, duplicated-block, non-temporal, compress-store, mask-bit and gather/scatter forms) reads and writes only the bytes its contract names for that vector size, lane type and lane count. In particular the N-limited forms never touch element N or beyond (nothing at all for N=0), CompressStore writes at most one vector, and N-limited or masked gathers/scatters never access the location of a lane that is not selected.",
  ["inputs", "configurations"], "all memory contents, lane values and masks; every supported lane type, vector size (full and partial) and lane count; every x86 target plus the two portable ones",
  "Tests use buffers with slack and a few random values; targets above AVX3 and the EMU128 target are not run at all, and an overread inside the allocation is invisible.",
  OPS, [("LoadN/StoreN/LoadNOr and partial Load/Store overloads", "hwy/ops/x86_128-inl.h"), ("masked and compress stores", "hwy/ops/x86_256-inl.h, x86_512-inl.h"), ("interleaved and generic fallbacks", "hwy/ops/generic_ops-inl.h")])
p("O02", "Vector memory operations transfer exactly the named lanes, bit for bit",
  "Loads place memory element i in lane i (zero or the caller's fallback value in lanes that are not loaded); stores write lane i to element i and leave every unselected element unchanged; interleaved, duplicated, blended and partial-count forms follow their documented element order. No bit of a transferred lane is changed.",
  ["inputs", "configurations"], "all memory contents, lane values, masks and supported counts on each analysed target, lane type and vector size",
  "Tests sample values and masks; targets above AVX3 and EMU128 never run in the suite.",
  OPS, [("Load/Store/LoadN/StoreN/MaskedLoad/BlendedStore", "hwy/ops/x86_*-inl.h"), ("LoadInterleaved/StoreInterleaved", "hwy/ops/generic_ops-inl.h")])
p("O03", "Swizzle operations move exactly the documented lanes on every target",
  "Each data-movement operation (combine/concat/halves, interleave, zip, odd/even, dup, reverse, shuffle, slide, shift-bytes/lanes, broadcast, block and lane insert/extract, table lookup with given indices) produces in every output lane a bit-exact copy of the one documented input lane, or zero where documented. This holds for every lane type, vector size and immediate, identically on all targets.",
  ["inputs", "configurations"], "all lane values; every supported lane type, vector size and immediate argument; every analysed target",
  "Tests compare sampled vectors (often iota) per target that the test CPU and compiler support; AVX3_DL/ZEN4/SPR and EMU128 implementations are never executed by this suite.",
  OPS, [("per-target shuffles", "hwy/ops/x86_128-inl.h, x86_256-inl.h, x86_512-inl.h"), ("portable versions", "hwy/ops/emu128-inl.h, generic_ops-inl.h")])
p("O04", "Lanes beyond a partial vector's size never influence a result",
  "For a vector tag whose size is below the hardware register (or mask) width, no observable result - valid output lanes, mask bits reported, counts, reductions, comparisons such as AllTrue/FindFirstTrue, or bytes stored - depends on the unspecified register or mask-register contents above the last valid lane.",
  ["inputs", "configurations"], "all contents of the unspecified upper lanes/mask bits, all valid-lane values, all partial vector sizes",
  "Whether the upper part holds garbage depends on preceding instructions and compiler; tests mostly see zeros there.",
  OPS, [("masking of upper mask bits in mask reductions", "hwy/ops/x86_128-inl.h"), ("partial-vector reductions and compress", "hwy/ops/x86_128-inl.h, generic_ops-inl.h")])
p("O05", "Element-wise operations keep lanes independent",
  "For every operation documented per lane (arithmetic, saturating, shifts, rounding, comparisons, bit counts, select, masked and converting operations), lane i of the result depends only on lane i of the inputs (for odd/even pairing operations only on the documented pair). No value leaks between lanes, including in emulations that use wider or narrower hardware lanes.",
  ["inputs", "configurations"], "all values of all other lanes; all lane types and vector sizes; every analysed target",
  "Cross-lane carries or shifts only show for specific neighbour values that sampled tests rarely contain.",
  OPS, [("emulated 8/64-bit ops via wider lanes", "hwy/ops/x86_128-inl.h, generic_ops-inl.h")])
p("O06", "Integer, logical and select operations compute the documented lane function",
  "Integer add/subtract/multiply, min/max, saturating and averaging arithmetic, shifts and rotates by a constant, bitwise logic, absolute value, comparisons, conditional selects and integer widening/narrowing compute on every target the single per-lane function their documentation gives, with the documented signedness and operand order.",
  ["inputs", "configurations"], "all lane values and masks; all supported lane types; every analysed target",
  "Tests sample edge values only on the executed targets; a wrong-signedness or swapped-operand variant on another target or type is unseen.",
  OPS, [("native and emulated integer ops", "hwy/ops/x86_128-inl.h, x86_256-inl.h, x86_512-inl.h, generic_ops-inl.h")])
p("O07", "Mask operations agree with the per-lane boolean they stand for",
  "Mask creation (FirstN, comparisons with zero, from bits, from vectors), logic, slides, halves/combination, rebinding and conversion to bits or vectors map lane i's boolean to exactly the documented lanes, on targets with vector masks and with mask registers alike.",
  ["inputs", "configurations"], "all mask patterns, supported lane types and vector sizes on each analysed target",
  "There are up to 2^64 mask patterns and two mask representations; tests sample patterns on executed targets only.",
  OPS, [("mask ops", "hwy/ops/x86_128-inl.h, x86_256-inl.h, x86_512-inl.h, x86_avx3-inl.h, emu128-inl.h")])
p("O08", "Integer conversions and bit casts preserve lane order and bits",
  "Integer promotions (whole, lower, upper, even, odd halves) sign- or zero-extend, truncations keep the low bits, bit casts and resizing casts keep all bits, and ordered two-vector truncations/demotions keep source order: each output lane is derived only from the documented source lane with exactly these bits.",
  ["inputs", "configurations"], "all lane values, all supported (source, destination) type pairs and sizes, each analysed target",
  "The cross product of type pairs, sizes and targets is sampled with few values, and several targets are not executed.",
  OPS, [("PromoteTo/TruncateTo/OrderedTruncate2To/BitCast/ResizeBitCast", "hwy/ops/x86_*-inl.h, generic_ops-inl.h, emu128-inl.h")])
p("O09", "Every documented operation is available for its types on every target",
  "A program that uses an operation with a lane type and vector size for which it is documented compiles for every target that the compiler supports, with the documented result type. The set of (operation, lane type, vector size) combinations does not differ between targets beyond the documented exceptions.",
  ["programs", "configurations"], "all programs using documented (operation, lane type, vector size) combinations; every target the installed compilers can generate",
  "Tests instantiate the combinations they need for the targets the compiler enables; missing overloads on other targets surface as users' compile errors.",
  OPS, [("overload sets and constraints", "hwy/ops/*-inl.h")])
p("O10", "Vector tags obey the documented size algebra",
  "Half and Twice, Rebind and Repartition, BlockDFromD, CappedTag, FixedTag and ScalableTag relate lane counts, lane types and powers of two exactly as documented; Lanes(d) never exceeds MaxLanes(d), a capped tag never exceeds its cap or the full vector, and the lane type and tag of a vector can be recovered from it.",
  ["programs", "configurations"], "all tags a program can name (lane type x count x power), each target",
  "Tests instantiate a handful of tags; the relations are compile-time facts over all of them.",
  ["hwy/ops/shared-inl.h", "hwy/base.h", "hwy/ops/inside-inl.h"], [("Simd<>, CappedTag, Half/Twice/Rebind/Repartition", "hwy/ops/shared-inl.h")])
p("C01", "Array algorithms stay within [p, p+count) for every count",
  "Fill, Copy, CopyIf, Find, FindIf, Generate, Foreach, Transform*, Replace* and the random-number bulk generators never read an input element or write an output element outside the caller's count, for every count including 0, counts below one vector and non-multiples of it, and for every vector length.",
  ["inputs", "configurations"], "all counts (0..SIZE_MAX), all vector lengths",
  "Tests use a fixed list of counts and buffers with slack or padding.",
  ["hwy/contrib/algo/copy-inl.h", "hwy/contrib/algo/find-inl.h", "hwy/contrib/algo/transform-inl.h", "hwy/contrib/random/random-inl.h"],
  [("main loop bound and remainder handling", "hwy/contrib/algo/*-inl.h"), ("bulk generation loop", "hwy/contrib/random/random-inl.h")])
p("C02", "Array algorithms process every element exactly once",
  "Fill, Copy, Generate, Transform*, Replace*, Foreach and Find* consider each element of [0, count) exactly once and in the documented place: the vector main loop and the remainder together cover the whole range without gap or overlap for every count.",
  ["inputs", "configurations"], "all counts, all vector lengths",
  "Only listed counts are tested.",
  ["hwy/contrib/algo/copy-inl.h", "hwy/contrib/algo/find-inl.h", "hwy/contrib/algo/transform-inl.h"],
  [("main loop + remainder split", "hwy/contrib/algo/*-inl.h")])
p("C03", "Dot product, matrix-vector and unroller loops stay within their arrays",
  "Dot products (under each declared assumption), matrix-vector products and the loop unroller access only elements inside the arrays and element counts they were given, for every element count and vector length.",
  ["inputs", "configurations"], "all element counts allowed by the declared assumptions; all vector lengths",
  "Tests run a fixed list of sizes with padded buffers.",
  ["hwy/contrib/dot/dot-inl.h", "hwy/contrib/matvec/matvec-inl.h", "hwy/contrib/unroller/unroller-inl.h"],
  [("unrolled main loops and remainder", "hwy/contrib/dot/dot-inl.h, matvec-inl.h, unroller-inl.h")])
p("C04", "Bit packing is lossless for every bit width",
  "For every supported bit width, unpacking what was packed reproduces every input value whose bits fit the width, in the original order; packing writes exactly the documented number of vectors and unpacking reads exactly those.",
  ["inputs", "configurations"], "all input values below 2^bits, all widths 1..8 / 1..16, each analysed target",
  "Tests pack random data; each output bit's source is a structural fact that sampling only suggests.",
  ["hwy/contrib/bit_pack/bit_pack-inl.h"], [("Pack8/Pack16 specialisations", "hwy/contrib/bit_pack/bit_pack-inl.h")])
p("C05", "The generator's state transition is the documented xoshiro recurrence",
  "The scalar generator's state update and the vector generator's per-lane state update are the same GF(2)-linear xoshiro256 map for every state, lanes never mix, the jump polynomials are applied bit by bit to that map, and the vector output for lane i equals the scalar output function of lane i's state.",
  ["inputs", "histories"], "all 256-bit states; every analysed target",
  "Tests follow one seed's sequence for some steps.",
  ["hwy/contrib/random/random-inl.h"], [("Xoshiro::Next/Jump, VectorXoshiro::Update", "hwy/contrib/random/random-inl.h")])
p("C06", "The small-array sorting networks sort every input",
  "The comparator sequence applied for every supported base-case shape (2, 4, 8 and 16 rows, each column count) is a sorting network: it orders every possible input, never loses or duplicates a key, and treats positions as documented for ascending and descending order.",
  ["inputs"], "all permutations and multisets of keys of each network size",
  "2^n or n! inputs per network; tests sample.",
  ["hwy/contrib/sort/sorting_networks-inl.h"], [("Sort2/4/8/16 and Merge networks", "hwy/contrib/sort/sorting_networks-inl.h")])
p("C07", "Quicksort recursion always makes progress and is depth-bounded",
  "Vectorised sort, select and partial sort never recurse without consuming a bounded level budget, and when the budget is exhausted they fall back to heap sort without recursing; no other recursion cycle exists, so stack use and worst-case time stay bounded for every input, including adversarial ones.",
  ["inputs"], "all inputs, sizes, key types and orders",
  "The fallback needs an adversarial input against randomised pivots; tests never reach it.",
  ["hwy/contrib/sort/vqsort-inl.h"], [("remaining_levels budget and HeapSort fallback", "hwy/contrib/sort/vqsort-inl.h: Recurse")])
p("C08", "Public sort entry points dispatch to the right key type and order",
  "Each public sort, select and partial-sort entry point - for every key type and for ascending and descending order, through the runtime-dispatch table of every target - reaches exactly the implementation instantiated for that key type, that order and that kind of operation.",
  ["programs", "configurations"], "all entry points (key type x order x operation) and all dispatch targets",
  "A table slot for a target the test CPU does not select is never called.",
  ["hwy/contrib/sort/vqsort.h", "hwy/contrib/sort/vqsort.cc", "hwy/contrib/sort/vqsort_u64a.cc"], [("per-type dispatch files", "hwy/contrib/sort/vqsort_*.cc")])
p("C09", "Image rows are in-bounds, aligned and padded as promised",
  "For every image size and component size, the allocation covers ysize rows of the computed row stride, every row pointer is inside the allocation and vector-aligned, the stride covers the row plus the promised padding for loading a whole vector at the last pixel, and no size computation wraps.",
  ["inputs", "configurations"], "all xsize, ysize representable by the type; all component sizes and vector sizes",
  "Tests use small images.",
  ["hwy/contrib/image/image.cc", "hwy/contrib/image/image.h"], [("BytesPerRow, constructor, VoidRow", "hwy/contrib/image/image.cc, image.h")])
p("D01", "A target is reported only if CPU and OS support everything it may execute",
  "Run-time detection reports a SIMD target as supported only when every instruction-set feature the compiler is allowed to use for that target's code is reported by the CPU and, for wider registers, the operating system has enabled saving all of the register state involved. Detection never reports a target based on fewer checks than its code needs.",
  ["configurations"], "all combinations of CPU feature bits and OS state-enable bits",
  "Tests see one CPU; feature combinations of other CPUs, hypervisors and OSes cannot be produced.",
  ["hwy/targets.cc", "hwy/ops/set_macros-inl.h", "hwy/x86_cpuid.h"], [("x86::DetectTargets feature groups and XCR0 masks", "hwy/targets.cc"), ("HWY_TARGET_STR", "hwy/ops/set_macros-inl.h")])
p("D02", "Dynamic dispatch always calls the best supported, compiled implementation",
  "For every set of detected, disabled and compiled targets, dynamic dispatch selects the implementation of the best target in the intersection, falls back to the statically compiled baseline when the intersection is empty, and never indexes an entry of a different target or a null entry; the table position of each target is the same in the table builder and in the selector.",
  ["configurations"], "all detected/disabled/compiled target sets on each architecture",
  "Tests run with one CPU's detected set.",
  ["hwy/highway.h", "hwy/targets.h", "hwy/targets.cc", "hwy/detect_targets.h"], [("HWY_CHOOSE_* tables, ChosenTarget::GetIndex, HWY_HIGHEST_TARGET_BIT_*", "hwy/highway.h, hwy/targets.h")])
p("D03", "Target-specific code is never shared across targets or with baseline code",
  "Code generated with instruction-set extensions beyond the build's baseline is only ever reachable under names unique to that target: no function or inline entity that another target or baseline translation unit could link to is emitted with target-specific instructions.",
  ["programs", "configurations"], "all functions emitted by library headers in every multi-target translation unit",
  "The linker's choice among duplicate definitions varies; the tests' CPU supports the instructions anyway.",
  ["hwy/highway.h", "hwy/ops/set_macros-inl.h", "hwy/foreach_target.h", "hwy/base.h"], [("HWY_BEFORE_NAMESPACE/HWY_NAMESPACE", "hwy/ops/set_macros-inl.h, hwy/highway.h")])
p("D04", "The supported-target mask is never empty and honours disabling",
  "The set of targets reported as supported always contains a usable baseline target and never contains a target that was disabled at run time (unless that would leave none) or masked for tests; enabling test overrides and then clearing them restores detection.",
  ["histories", "configurations"], "all sequences of disable/override/query calls and all detected sets",
  "Tests exercise a few call sequences on one CPU.",
  ["hwy/targets.cc", "hwy/targets.h"], [("SupportedTargets/DisableTargets/SetSupportedTargetsForTest", "hwy/targets.cc")])
p("T01", "Hand-offs between pool threads are ordered by release/acquire",
  "Everything the caller wrote before starting a parallel run is visible to the workers' task invocations, and everything the tasks wrote is visible to the caller when the run returns: every cross-thread signal in the pool, its wait primitives and its barriers is published with at least release and observed with at least acquire ordering.",
  ["schedules"], "all interleavings and all memory-model-permitted reorderings, each wait and barrier strategy",
  "On x86 most ordering mistakes are invisible at run time; strategies are chosen by CPU type, so some never run.",
  ["hwy/contrib/thread_pool/thread_pool.h", "hwy/contrib/thread_pool/spin.h", "hwy/contrib/thread_pool/futex.h"],
  [("epoch and barrier atomics", "hwy/contrib/thread_pool/thread_pool.h"), ("UntilDifferent/UntilEqual", "hwy/contrib/thread_pool/spin.h, futex.h")])
p("T02", "Waiting returns only after the awaited value was observed",
  "Every blocking or spinning wait in the pool returns only after a load of the waited-on variable observed the awaited condition; spurious wake-ups re-check, and a value that changed between arming a hardware monitor or futex and sleeping is not missed.",
  ["schedules"], "all interleavings of waiter and signaller, spurious wake-ups, all wait strategies",
  "Lost wake-ups need a store in a window of a few instructions; some strategies need specific CPUs.",
  ["hwy/contrib/thread_pool/spin.h", "hwy/contrib/thread_pool/futex.h"], [("UntilDifferent/UntilEqual loops, BlockUntilDifferent", "hwy/contrib/thread_pool/spin.h, futex.h")])
p("T03", "Every thread-pool configuration has a consistent wait, wake and barrier",
  "For every selectable configuration (spin method, wait kind, barrier kind) the workers' wait, the caller's wake-up and both sides of the barrier resolve to the same strategy, and no configuration falls through without waiting, waking or synchronising.",
  ["configurations"], "all configurations the auto-tuner or caller may select, including exit and re-tune",
  "The auto-tuner samples configurations by timing; rarely chosen ones are hardly run.",
  ["hwy/contrib/thread_pool/thread_pool.h"], [("CallWithConfig and Wait/Barrier types", "hwy/contrib/thread_pool/thread_pool.h")])
p("T04", "The library has no unsynchronised mutable global state",
  "Mutable objects with static storage duration in the library are atomic, thread-local, initialised once by the language's guarded initialisation, or documented as set up before threads start; no function callable concurrently writes an unsynchronised global.",
  ["schedules"], "all interleavings of concurrent calls to public functions",
  "Races on globals need precise timing and a race detector; the suite is not run under one.",
  ["hwy/targets.cc", "hwy/abort.cc", "hwy/timer.cc", "hwy/perf_counters.cc", "hwy/contrib/sort/vqsort.cc", "hwy/contrib/thread_pool/topology.cc"],
  [("function-local statics, atomics, thread_local", "hwy/*.cc, hwy/contrib/**/*.cc")])
p("A01", "Aligned allocation never returns less memory than requested",
  "Allocating n items of a type yields null or a pointer that is aligned as promised to at least n*sizeof(type) usable bytes; no request size, however large, wraps in the size computation and yields a smaller block, and the block's bookkeeping never overlaps the caller's bytes.",
  ["inputs"], "all sizes 0..SIZE_MAX, item sizes, custom allocator results",
  "Wrap-around needs sizes tests cannot allocate, and over-allocation slack hides small errors.",
  ["hwy/aligned_allocator.cc", "hwy/aligned_allocator.h"], [("AllocateAlignedBytes, AllocateAlignedItems, AlignedNDArray sizes", "hwy/aligned_allocator.*")])
p("A02", "Aligned memory is released exactly once by the matching deallocator",
  "Memory obtained from an aligned allocation is released through the deallocator (and opaque argument) that matches its allocator, using the address originally obtained, exactly when its owner is destroyed; objects constructed in it are each destroyed once; ownership cannot be duplicated.",
  ["histories", "programs"], "all allocation/release histories and custom allocators",
  "Mismatches need custom allocators plus particular call paths.",
  ["hwy/aligned_allocator.cc", "hwy/aligned_allocator.h"], [("AllocationHeader, FreeAlignedBytes, AlignedDeleter/AlignedFreer", "hwy/aligned_allocator.*")])
p("R01", "Assertions are always enforced and never return",
  "A failed assertion or explicit abort terminates the process after running the user's handler, in every build mode; it never returns to the caller, formats into a bounded buffer, and the always-on assertion macros are not disabled by optimisation or NDEBUG.",
  ["programs", "configurations"], "all build configurations and handlers",
  "Tests cover the handler in one build mode.",
  ["hwy/abort.cc", "hwy/base.h"], [("Abort, Warn, HWY_ASSERT", "hwy/abort.cc, hwy/base.h")])
p("R02", "File descriptors opened by the library are closed on every path",
  "Every file or event descriptor the library opens is either closed on all paths or kept in an owning object, valid descriptors (including 0) are treated as success, and no descriptor is used after closing.",
  ["fault_sequences"], "all results of open/read/close including errors and low descriptors",
  "Needs failing system calls or unusual descriptor numbers.",
  ["hwy/contrib/thread_pool/topology.cc", "hwy/perf_counters.cc"], [("File class, PMU", "hwy/contrib/thread_pool/topology.cc, hwy/perf_counters.cc")])
p("R03", "Fixed-size buffers are never overrun",
  "Writes into fixed-size local, member or static buffers (path and sysfs text, abort/warn messages, CPU brand string, perf-counter and profiler storage) stay inside the buffer for every input the operating system or user supplies.",
  ["inputs", "fault_sequences"], "all sysfs contents, CPU identification results, message lengths, zone counts",
  "Needs machine configurations (many NUMA nodes, long strings) that tests do not have.",
  ["hwy/contrib/thread_pool/topology.cc", "hwy/abort.cc", "hwy/timer.cc", "hwy/perf_counters.cc", "hwy/nanobenchmark.cc"],
  [("bounded reads and formatted writes", "hwy/contrib/thread_pool/topology.cc, hwy/abort.cc, hwy/timer.cc")])
p("R04", "Bit sets keep summary and contents consistent",
  "After any sequence of Set, SetNonzeroBitsFrom64 and Clear on the large bit set, the summary used by Any, First, Foreach and Count marks exactly the non-empty words, and each operation reads or changes only the addressed bit.",
  ["histories"], "all operation sequences and all indices below the capacity",
  "Tests use random sequences of limited length.",
  ["hwy/bit_set.h"], [("BitSet64, BitSet4096", "hwy/bit_set.h")])
p("R05", "Base bit-manipulation helpers match their definition for every input",
  "The scalar helpers in the base header (half- and bfloat16 conversions, bit counts and logarithms, shifts, rounding to multiples, wraparound and 128-bit arithmetic, sign and NaN tests, masks, limits, byte copies and bit casts) compute their documented function with the documented operand widths, without undefined shifts, for every input in their documented domain.",
  ["inputs"], "all 32/64-bit inputs",
  "64-bit domains cannot be enumerated.",
  ["hwy/base.h"], [("scalar helpers", "hwy/base.h")])

# Not decided by static analysis here (listed under not_applicable in MANIFEST.json).
p("N01", "Vector math functions meet their stated error bounds",
  "Each vector math function's result differs from the exact result by at most the documented number of ULP over its documented domain.",
  ["inputs"], "all float/double inputs", "2^32 / 2^64 inputs per function; tests sample.",
  ["hwy/contrib/math/math-inl.h"], [("polynomial approximations", "hwy/contrib/math/math-inl.h")])
p("N02", "Sorting large arrays yields an ordered permutation of the input",
  "Sort leaves the keys ordered and a permutation of the input; select and partial sort place the documented keys.",
  ["inputs"], "all arrays", "Infinite input space.",
  ["hwy/contrib/sort/vqsort-inl.h"], [("Partition, pivot selection", "hwy/contrib/sort/vqsort-inl.h")])
p("N03", "Floating-point conversions and rounding give the documented value",
  "Float/half/bfloat16/integer conversions, rounding and float arithmetic give the documented IEEE result on every target, including NaN, infinity and out-of-range inputs.",
  ["inputs", "configurations"], "all float bit patterns", "Values, not structure; tests sample.",
  ["hwy/base.h", "hwy/ops/x86_128-inl.h"], [("conversion ops", "hwy/ops/*-inl.h")])
p("N04", "The thread pool runs each task exactly once and never deadlocks",
  "A parallel run invokes the function exactly once for each task in the range and returns after all have finished, under every schedule.",
  ["schedules"], "all interleavings", "Schedules.",
  ["hwy/contrib/thread_pool/thread_pool.h"], [("work stealing Tasks", "hwy/contrib/thread_pool/thread_pool.h")])
p("N05", "Precomputed-divisor division is exact",
  "Division and remainder through a precomputed divisor equal the exact integer quotient and remainder for every dividend and every non-zero divisor.",
  ["inputs"], "all (dividend, divisor) pairs", "2^64 pairs.",
  ["hwy/base.h"], [("Divisor/Divisor64", "hwy/base.h")])
p("N06", "The auto-tuner converges to a near-best configuration",
  "Given cost measurements the auto-tuner eventually fixes one configuration whose cost is close to the best.",
  ["histories"], "all cost sequences", "Statistical.",
  ["hwy/auto_tune.h"], [("AutoTune, CostDistribution", "hwy/auto_tune.h")])
p("N07", "Timers and benchmark helpers report accurate durations",
  "Reported ticks, durations and robust statistics are accurate within the stated variability.",
  ["configurations"], "all machines", "Physical time.",
  ["hwy/timer.cc", "hwy/nanobenchmark.cc", "hwy/robust_statistics.h"], [("timer, nanobenchmark", "hwy/timer.cc, hwy/nanobenchmark.cc")])
p("N08", "Cross-lane arithmetic (sums, products, reductions) gives the exact value",
  "Widening multiplies, pairwise sums, dot-product accumulation and full reductions give the exact documented integer value for every input.",
  ["inputs"], "all lane values", "Values.",
  ["hwy/ops/generic_ops-inl.h"], [("reductions, WidenMul*", "hwy/ops/*-inl.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
