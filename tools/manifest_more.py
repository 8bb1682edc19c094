c('C06','checks/networks.py',BF+': 0-1 principle, every output of the compiled BaseCase is the canonical threshold function of its inputs','All key types incl. 128-bit and float; key counts up to the base-case bound, large ones on three input families (DESIGN.md).')
c('C01','checks/algo.py C01',BF+': byte footprint of Fill/Copy/CopyIf/Transform*/Generate/Replace*/Find*/Dot/MatVec/Unroller loops for every element count','Element counts are symbolic up to 2N+1..4N+3 (several whole vectors plus every remainder); contents arbitrary.')
c('C02','checks/algo.py C02',BF+' against the sequential definition, loops iterated to their exact symbolic trip count','Same counts and contents; integer and float element types; numeric predicates only where bit-exact.')
c('C03','checks/algo.py C03',BF+': which input elements reach each result, each exactly once','Dot product, matrix-vector product and unroller; floating-point sums are opaque, so the term set and not the rounding is decided.')
c('R04','checks/bitset.py',BF+': every operation equals the set operation and re-establishes the summary invariant (induction step)','Single operations for every content and index; whole-set loops for every subset of representative members; sizes 64..4096.')
c('R05','checks/basehelpers.py',BF+' against independent definitions; constants and type maps as compile-time witnesses (static_assert)','Half/bfloat conversions per exponent value with arbitrary mantissa; MSVC-only branches are not compiled.')
c('D01','checks/detect.py',BF+': "target reported and a required CPUID/XCR0 bit clear" is the constant false, for each feature the compilers may use in that target\'s code','Detection is evaluated as an exact Boolean function of the CPUID/XCR0 (hwcap elsewhere) bits; required features come from the compilers\' own per-target feature sets.')
c('D02','checks/dispatch.py D02',BF+': the function reached through the real HWY_EXPORT tables is, for every detection result and argument, the best supported and compiled one','All histories of up to 2 (thorough 3) configuration calls; x86, AArch64, PPC and S390X tables; several static/disabled/attainable configurations.')
c('D04','checks/dispatch.py D04',BF+': SupportedTargets() equals the documented set expression after every short history','All histories of up to 2 (thorough 3) configuration calls with arbitrary masks (bits 0..62) and arbitrary detection results.')
c('A01','checks/alloc.py A01',BF+': for every item count, misalignment and failure of the underlying allocator the result is null or an aligned range inside the block, with no wrap','Every allocation interface of aligned_allocator.*; 64-bit counts fully free, N-d shapes with one free dimension or two of the form (1..4)<<k.')
c('A02','checks/alloc.py A02',BF+': the log of calls to the deallocator after each ownership history equals the log of allocations; destructor counts; compile-time witnesses that owners are not copyable','Ownership histories of unique pointers, vectors, N-d arrays and images over free misalignment, opaque value, item count 0..7 and allocation failure.')
c('C09','checks/image.py C09',BF+': stride, requested bytes and row addresses as exact functions of free 64-bit sizes','Vector sizes 1..128 bytes (256 on AArch64), component sizes 1..8; products of two free sizes as (1..4)<<k pairs and fixed widths times every height.')
c('C08','checks/sortdispatch.py C08',BF+': which static entry point, with which pointer and counts, each public entry point reaches through the dispatch tables','Linked IR of all vqsort*.cc; free n, k and target set; static entry points additionally on type-distinguishing key pairs.')
c('T01','checks/waits.py T01','dataflow over LLVM IR (memory-order rule on every atomic access of the protocol steps, all spin/wait/barrier combinations, x86 and aarch64, every futex variant)','Only pool protocol steps and wait primitives; program order around them is T03.')
c('T02','checks/waits.py T02','path-sensitive dataflow over LLVM IR (every return of every wait primitive dominated by a satisfied atomic load; arm / re-check / sleep typestate; wake-up covers all sleepers)','Linux, Apple, Windows, Wasm and sleep-based futex variants with stub headers; asm and intrinsic monitors.')
c('T03','checks/pool.py T03',BF+': the real ThreadPool (constructor, Run, reconfiguration, destructor) evaluated against reference workers and the real ThreadFunc against a reference main thread, over all configuration pairs, with one thread always latest; plus enumerator-to-policy dispatch','one finding recorded (32-bit epoch wrap-around)')
c('T04','checks/globals.py','interprocedural pointer-flow analysis over the linked LLVM IR (writes to mutable static objects: atomic, thread-local, one guarded initialisation, start-up or documented set-up), objects enumerated from the syntax tree','Linux build; pointers reloaded from memory are not followed.')
c('C07','checks/recursion.py','call-graph cycles with a ranking parameter (SCCs of the un-inlined LLVM IR; def-use tracing of the budget argument, must-dataflow for the non-zero test, all-paths rule for the exhausted budget)','Static targets SSE4/AVX2/AVX3, nine key types, all three algorithms; correctness of the fallback itself is not decided.')
c('D03','checks/linkage.py D03','attribute and linkage analysis of un-optimised LLVM IR (features vs. mangled target namespace, cross-namespace call edges) plus syntax-tree comparison of target attributes across target configurations','Clang x86 (8 target configurations) and AArch64 (2); all library headers and sources.')
c('R02','checks/resources.py R02','path-sensitive typestate analysis over LLVM IR (descriptor opened / valid / closed / owned, followed through phis, calls and local storage; branches may not separate 0 from positive descriptors)','Linux, POSIX opening calls, release and debug configurations.')
c('R01','checks/aborts.py R01','path-sensitive walk over LLVM IR of assertion probes in 19 build modes and three architectures, and of Abort / Warn / handler registration (no return, terminating call, handler-before-termination, bounded format)','Clang IR; GCC and MSVC macros share the same definitions.')
c('O10','checks/tags.py','type-level witnesses (static_assert over every tag of every lane type, scale, cap and fixed size, type-checked per target by the compiler front end) and compile-fail witnesses for invalid tags','20 targets including SVE/SVE2, RVV, PPC8-10, Z14/Z15 and NEON; run-time Lanes() of scalable vectors is not decided.')
c('O09','checks/avail.py','compile-time probes: one generated function per (operation, lane type, lane count, immediate, target) with its documented argument and result types must type-check and generate code (nothing is run)','x86, EMU128, SCALAR, NEON (3 variants), PPC8-10, Z14/Z15 with clang 18; RVV and SVE probes need sizeless types and are not generated.')
