#!/usr/bin/env python3
import json
T = {
"C01": ("differential runtime monitor: independent reference transform judges every execution", "Every output of every entry point compared with an independently coded reference (compensated direct sum / FFT / Bluestein, self-tested at start) over complete impulse bases, 29 signal shapes, a systematic catalogue of algorithms and inner lengths, random trees and long transforms. Trusts the reference and the per-tree rounding allowance (measured errors stay below about 1/6 of it)."),
"C02": ("accuracy monitor against a double-double reference with a per-tree error model", "rms and worst-output error of f64 results against a 106-bit reference, f32 against an f64 one, in units of epsilon, up to millions of points. Trusts the error model (measured errors stay below about half of the allowance)."),
"C03": ("differential runtime monitor across entry points", "The three entry points run on the same inputs, outputs compared; slices misaligned, adjacent and pre-filled with hostile contents."),
"C04": ("metamorphic runtime monitor: batch versus solo, hostile neighbours", "Each block of a batch compared bit for bit with the same call on that block alone; neighbours hold NaN, infinities and extreme magnitudes; batches up to 65537 blocks."),
"C05": ("metamorphic runtime monitor with poisoned scratch/output memory", "Calls repeated with different prior scratch and output contents and surplus scratch; results compared bit for bit."),
"C06": ("online contract monitor inside user-written inner transforms", "Probes and user-written inner transforms check each inner call's sizes, really use and then trash everything they may, and demand chosen amounts of scratch; the outer result is judged by the reference."),
"C07": ("outcome monitor over a grid of buffer sizes (release and debug-assertion builds)", "Every call's outcome (returned or unwound) compared with the documented size rule, exhaustively for short transforms and at boundary sizes for long ones."),
"C08": ("outcome monitor over constructor parameters (release and debug-assertion builds)", "Acceptance, rejection and reported length compared with the documented rule for whole ranges of parameters plus pseudoprimes, prime squares and boundary values."),
"C09": ("guard pages, heap red zones, AddressSanitizer, MemorySanitizer, debug assertions and Miri (Tree Borrows)", "Valid and invalid calls, including misbehaving inner transforms, run with slices abutting inaccessible pages and under four sanitizing builds. Red-zone tools miss far out-of-bounds accesses; Miri covers short transforms only."),
"C10": ("concurrent stress with injected yields, ThreadSanitizer and Miri race detection", "Up to 130 threads released together on fresh instances (and instances sharing inner transforms), every result compared bit for bit with the sequential one; rendezvous and yields injected inside inner transforms and arithmetic; ThreadSanitizer and Miri watch for races. Only the schedules that occurred are decided."),
"C11": ("history monitor with fault injection", "Random histories of constructions, calls, drops, misuse, failed constructions and injected panics; every (configuration, entry, input) must keep giving the same bits."),
"C12": ("metamorphic runtime monitor of algebraic laws", "Energy, involution, linearity within rounding; power-of-two scaling, negation and zero exactly."),
"C13": ("allocator event monitor", "A counting global allocator brackets each call with caller scratch; any allocation, reallocation or deallocation is a violation. Memory obtained other than through the Rust allocator is not seen."),
"C14": ("operation-count monitor via instrumented arithmetic and inner transforms", "Arithmetic operations counted by an instrumented number type, inner blocks by instrumented inner transforms, compared with bounds derived from the decomposition (about 1.5-2.5 times what the current code needs). Logical counts, no wall-clock verdicts."),
"C15": ("differential monitor across user-defined element types", "Some thirty number types of different size, alignment and layout, with integrity shadows, compared with the f64 instantiation."),
"C16": ("heap balance monitor (counting allocator) over whole lifecycles with injected panics", "Live and peak heap bytes bracketed around every construction, call, panic and drop; balance must be exact, tables and scratch within a constant times the length; reference counts of inner transforms checked."),
}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed at the public API with instrumented element types, inner transforms, allocator and memory layouts. Runtime monitoring: every verdict is about the executions produced."}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": f"VERIF_TIER=quick python3 check.py {k}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {k}",
        "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
