#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S = "src/scalar/"
ALL = [S+f for f in ("butterflies.rs","dht_naive.rs","mixed_radix.rs","radix2.rs","radix3.rs","radix4.rs","radix5.rs","radix6.rs","raders_algorithm.rs","split_radix.rs")]
COMP = [S+f for f in ("mixed_radix.rs","radix2.rs","radix3.rs","radix4.rs","radix5.rs","radix6.rs","raders_algorithm.rs","split_radix.rs")]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n,m,w in state],
        "mechanism": [dict(name=n, where=w) for n,w in mech],
        "observe_at": observe, "hook_needed": None}})

API = ["Dht::process", "Dht::process_with_scratch", "Dht::process_outofplace_with_scratch"]

prop("C01", "Every transform computes the discrete Hartley transform",
 "For every transform a user can construct (each fixed-size kernel, the direct O(n^2) transform, and every legal nesting of the composite algorithms) and every finite real input x of its length N, every entry point produces X[k] = sum over n of x[n]*(cos(2*pi*n*k/N) + sin(2*pi*n*k/N)), unnormalised, in natural index order, up to floating-point rounding error. This holds for every length, nesting and sign or shape of input, not only small positive signals.",
 ["inputs","configurations"], "all constructible transform trees, all lengths, all finite inputs, f32 and f64, all three entry points",
 "The suite tries each algorithm over a direct inner transform, a few lengths (composites up to 64, prime-length only 3/5/7, power-of-two only 4..64 so the multi-level code never runs), one fixed positive signal, and accepts a mean absolute error of 0.1.",
 ALL+["src/twiddles.rs","src/math_utils.rs","src/array_utils.rs","src/macros.rs","src/lib.rs"],
 [("butterfly kernels",S+"butterflies.rs"),("six-step mixed radix",S+"mixed_radix.rs"),("fixed-radix decompositions",S+"radix2..6.rs"),("prime lengths",S+"raders_algorithm.rs + src/math_utils.rs primitive_root"),("power of two",S+"radix4.rs, "+S+"split_radix.rs"),("twiddle factors","src/twiddles.rs")],
 API, [("twiddles","precomputed rotation factors","each algorithm struct")])

prop("C02", "Results are accurate to the element type's own precision at every length",
 "For a transform of length N the relative (root-mean-square) error of the result with respect to the exact transform is a small multiple of the element type's machine epsilon that grows at most logarithmically with N for fast transforms: double-precision data gets double-precision results and single-precision data single-precision results. This holds for short and very long transforms (millions of points) and for every nesting.",
 ["inputs","configurations"], "all fast transform trees, lengths from 2 to millions, f32 and f64, random and structured signals",
 "Existing tests compare against another library transform with an absolute tolerance of 0.1 on values of size 10, almost only in f32 and at lengths below 120; a loss of 8 digits in f64, or drift that grows with length, is invisible to them.",
 ["src/twiddles.rs"]+ALL,
 [("twiddles evaluated in f64 then rounded","src/twiddles.rs"),("sqrt(1/2) constant folded into twiddles",S+"mixed_radix.rs, radix3.rs, radix5.rs, radix6.rs"),("kernel of prime-length convolution",S+"raders_algorithm.rs")], API)

prop("C03", "The three entry points are interchangeable",
 "For the same transform and the same input, the convenience in-place call, the in-place call with caller-provided scratch, and the out-of-place call deliver the same result up to rounding error, always in the documented destination (the input slice for the in-place calls, the output slice for the out-of-place call).",
 ["inputs","configurations"], "all constructible transform trees, all inputs, all element types",
 "In-place and out-of-place code paths are written separately for every composite algorithm, and inner transforms are reached through different entry points on each path; the tests exercise this only over direct inner transforms at tiny lengths and with one block.",
 ["src/macros.rs","src/lib.rs"]+ALL,
 [("separate in-place/out-of-place bodies",S+"*.rs perform_dht_inplace / perform_dht_out_of_place"),("boilerplate dispatch","src/macros.rs")], API)

prop("C04", "A batch is transformed block by block, each block independently",
 "When a buffer (or input/output pair) holds k*N elements, each of the k consecutive length-N blocks is replaced by (or written to the same position of the output as) its own transform, exactly as if it had been transformed alone, for every k >= 1. No block is skipped, moved or processed twice, and nothing in one block, including NaN, infinities or huge values, can influence the result of another.",
 ["inputs","configurations"], "all transforms, all batch sizes, all block contents including non-finite neighbours, in-place and out-of-place",
 "Only the direct transform is tested with more than one block (n is fixed to 1 elsewhere); composites always feed several blocks to inner transforms, but only with well-behaved finite data.",
 ["src/array_utils.rs","src/macros.rs",S+"butterflies.rs"]+COMP,
 [("chunk iteration","src/array_utils.rs iter_chunks, iter_chunks_zipped"),("per-chunk closures","src/macros.rs, "+S+"butterflies.rs")], API)

prop("C05", "Results never depend on what scratch or output memory held before",
 "The result of a call depends only on the input elements: whatever the scratch slice (and, for the out-of-place call, the output slice) contained beforehand, including NaN and infinities, and however much larger than required the scratch slice is, the result is bit-for-bit the same.",
 ["inputs","configurations"], "all transforms, all scratch/output contents and scratch sizes at or above the reported requirement",
 "The dirty-scratch tests fill scratch with the value 100 at exactly the required length and tolerate errors of 0.1; the output buffer is pre-filled with the expected answer, which hides elements that are never written; oversized scratch is never tried.",
 ["src/macros.rs"]+COMP,
 [("scratch truncated to the required length","src/macros.rs"),("every scratch element written before read",S+"*.rs")], API[1:])

prop("C06", "Composites respect any inner transform's scratch and garbage contract",
 "A composite transform built over any conforming inner transforms, including user-written ones that request arbitrary in-place and out-of-place scratch and that overwrite everything they are allowed to overwrite, works with exactly the scratch length it reports and gives the right result. It never hands an inner transform less scratch than requested, a buffer that is not a positive multiple of its length, or mismatched input/output lengths, and never relies on the contents of memory the inner transform may have trashed.",
 ["configurations","inputs"], "all composite algorithms, all inner scratch demands (zero to many times the length), nested to any depth",
 "Only the general mixed-radix algorithm is tested with scratch-hungry inner transforms (three lengths, no result check); the six other composites are tested only over inner transforms that need at most their own length.",
 COMP+["src/macros.rs"],
 [("scratch length computation in constructors",S+"mixed_radix.rs, radix2..6.rs, raders_algorithm.rs, split_radix.rs new()"),("scratch hand-off to inner transforms","perform_dht_inplace / perform_dht_out_of_place")],
 ["user-implemented Dht passed as inner transform","Dht::get_inplace_scratch_len","Dht::get_outofplace_scratch_len"],
 [("inplace_scratch_len/outofplace_scratch_len","scratch requirement reported to callers","each composite struct")])

prop("C07", "Wrongly sized buffers always panic and well-sized calls never do",
 "Each call on a transform of length N >= 1 panics (an ordinary unwinding panic) whenever the buffer is shorter than N or not a multiple of N, the input and output lengths differ, or the scratch is shorter than the reported requirement; it never returns silently in those cases. With sizes that satisfy the documented requirements no call panics, and calls on zero-length transforms with empty buffers return without effect.",
 ["inputs","configurations"], "all transforms, all combinations of buffer, output and scratch lengths",
 "No test passes an invalid length to anything; the only degenerate case tried is the zero-length direct transform.",
 ["src/lib.rs","src/macros.rs","src/array_utils.rs",S+"butterflies.rs"],
 [("size assertions","src/lib.rs dht_error_inplace/dht_error_outofplace"),("length guards","src/macros.rs, "+S+"butterflies.rs"),("remainder detection","src/array_utils.rs")], API)

prop("C08", "Constructors accept exactly the valid sizes and report the documented length",
 "The power-of-two transform can be constructed exactly for powers of two, the prime-length transform exactly when inner length + 1 is prime, and the split-radix transform exactly when the half-size inner transform is twice as long as the quarter-size one; invalid parameters panic at construction. Every constructed transform reports the documented length (the requested length, the kernel size, radix times inner length, product of the two inner lengths, four times the quarter length, or inner length + 1).",
 ["configurations"], "all constructor arguments",
 "Constructors are only called with valid sizes (prime lengths 3, 5, 7; powers of two 4..64); no test expects a rejection, and neither pseudoprimes, 2, 1, 0 nor large lengths are ever tried.",
 [S+"radix4.rs",S+"raders_algorithm.rs",S+"split_radix.rs",S+"mixed_radix.rs",S+"butterflies.rs","src/math_utils.rs"],
 [("power-of-two assertion",S+"radix4.rs"),("primality test and primitive root",S+"raders_algorithm.rs, src/math_utils.rs"),("half/quarter assertion",S+"split_radix.rs")],
 ["constructors","Length::len"])

prop("C09", "Calls touch only the slices they were given; no undefined behaviour",
 "No safe use of the public API, with valid or invalid sizes and any contents, reads or writes memory outside the caller's slices and the transform's own tables, reads uninitialised memory, or otherwise executes undefined behaviour (as judged by guard pages, AddressSanitizer, MemorySanitizer, the language's own unsafe-precondition checks and an undefined-behaviour interpreter under the Tree Borrows aliasing model).",
 ["inputs","configurations"], "all transforms, entry points, lengths valid and invalid",
 "Kernels use raw pointers and unchecked indexing throughout; a stray unchecked read or write normally does not change the result of a unit test, and the tests run without any memory checker.",
 ["src/array_utils.rs",S+"butterflies.rs",S+"radix4.rs",S+"split_radix.rs","src/macros.rs"],
 [("raw slices","src/array_utils.rs RawSlice/RawSliceMut"),("unchecked transposition","src/array_utils.rs transpose_half_rev_out"),("unchecked reordering",S+"radix4.rs prepare_radix4*, "+S+"split_radix.rs"),("length guards in front of unsafe code","src/macros.rs")], API)

prop("C10", "One transform instance may be used by many threads at once",
 "Any number of threads may call any entry points of the same transform instance (or of instances sharing inner transforms) at the same time with their own buffers, starting with the very first call; every call returns bit-for-bit what it would have returned alone, without data races, deadlocks or panics.",
 ["schedules","inputs","configurations"], "all interleavings of concurrent calls on shared instances",
 "There is no multi-threaded test at all; shareability is only asserted by trait bounds.",
 ["src/lib.rs"]+COMP,
 [("Dht: Sync + Send with &self methods","src/lib.rs"),("immutable tables, caller-provided scratch",S+"*.rs")], API)

prop("C11", "Results do not depend on call history, other instances or earlier panics",
 "Calling a transform is repeatable: for the same instance configuration, entry point and input the result is bit-for-bit the same no matter how many calls, on this or other instances of any type or length, came before, and no matter whether earlier calls panicked (bad sizes, or a panic inside user-supplied inner transforms or arithmetic).",
 ["histories","fault_sequences"], "all sequences of constructions, calls, drops and injected panics",
 "Every test builds a fresh instance, makes at most five calls and never provokes a panic.",
 ["src/lib.rs"]+ALL,
 [("no interior mutability","all algorithm structs"),("pure table construction in new()","src/twiddles.rs, "+S+"*.rs")], API)

prop("C12", "The transform is linear, energy preserving and its own inverse",
 "For every transform of length N: applying it twice gives the input multiplied by N, the sum of squares of the output is N times that of the input, and T(a*x + b*y) = a*T(x) + b*T(y), all up to rounding error. Scaling the input by a power of two (without overflow or underflow) scales the output bit-exactly, negating the input negates the output, and an all-zero input gives an all-zero output, so behaviour never depends on the magnitude or sign of the data.",
 ["inputs","configurations"], "all transforms, all inputs and scales within floating-point range",
 "Tests use one positive signal of magnitude about 10; nothing is ever transformed back, scaled, negated or combined.",
 ALL, [("linear straight-line kernels",S+"*.rs")], API)

prop("C13", "Calls with caller-provided scratch do not allocate",
 "The in-place and out-of-place calls that take a scratch slice perform no heap allocation, reallocation or deallocation, at any length, nesting or batch size; only construction and the convenience in-place call allocate.",
 ["inputs","configurations"], "all transforms, entry points with scratch, batch sizes",
 "No test observes the allocator.",
 ["src/lib.rs","src/macros.rs"]+COMP,
 [("caller-provided scratch threaded through inner calls","src/macros.rs, "+S+"*.rs")], API[1:])

prop("C14", "Fast transforms stay fast: linearithmic arithmetic cost",
 "The number of arithmetic operations a fast transform performs is bounded by a small constant times N*log2(N) for power-of-two and small-prime-factor lengths, and a composite costs no more than the blocks of inner transforms its decomposition needs (each inner block computed once; twice for prime lengths) plus work linear in its length, for each block of a batch and each entry point alike.",
 ["configurations","inputs"], "all fast transform trees, lengths and batch sizes",
 "Tests check values only; the benchmarks are not compiled by the test command and assert nothing.",
 COMP, [("decomposition into inner blocks",S+"*.rs"),("base-kernel choice",S+"radix4.rs")], API)

prop("C15", "Transforms work for any user-defined numeric element type",
 "A transform instantiated with a user-defined numeric type that behaves like f64 gives the same result as the f64 instantiation up to rounding, using only the operations the numeric traits provide; nothing depends on the size, alignment or bit layout of the element type.",
 ["inputs","programs"], "all transforms, element types of different size, alignment and semantics",
 "The suite only instantiates f32, and f64 for the fixed-size kernels.",
 ["src/lib.rs","src/array_utils.rs","src/twiddles.rs"]+ALL,
 [("generic code over the numeric trait","all algorithm structs"),("constants built from f64/f32","src/twiddles.rs")], API)

prop("C16", "Memory use is linear in the length and everything is given back",
 "Constructing a transform, calling it through any entry point and dropping it leaves no heap memory behind and no reference to the inner transforms it was given, also when construction or a call panics (rejected parameters, wrongly sized buffers, a panic inside user-supplied arithmetic or inner transforms). An instance keeps, and reports as required scratch, at most a small constant times its length on top of what its inner transforms keep and require, and the convenience call uses no more heap than the scratch it reports.",
 ["configurations","histories","fault_sequences"], "all transforms, lifecycles and panic points",
 "No test observes the allocator, drops under panic, or looks at the size of tables and scratch.",
 ["src/lib.rs","src/macros.rs","src/twiddles.rs"]+ALL,
 [("tables owned by Box/Vec, inner transforms by Arc","all algorithm structs"),("scratch vector of the convenience call","src/lib.rs"),("scratch formulas",S+"*.rs")], API)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), "properties")
