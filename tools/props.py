"""What each check runs, and what its result means."""
TWO_TECH = ("symbolic execution of the compiled LLVM IR of the real crate, branches and assertions decided by z3 "
            "(bit-vectors), and bounded model checking of its MIR (Kani/CBMC)")
TWO_ASSUME = [
    "a harness counts as decided when one of two engines decided it: the executor of the LLVM IR (its semantics "
    "checked on sampled paths of every run by running the same inputs natively) or Kani 0.68/CBMC 6.11; with both "
    "within their time both must agree",
    "allocation does not fail",
    "64-bit usize; little-endian x86-64; debug assertions and overflow checks on (a counterexample counts if it fails "
    "natively in a build with or without them)",
]


def words(prop, explanation, bounds):
    p = prop.lower()
    return {"level": "model_checking", "parts": [("kani", [p + "_", p + "x_"])], "explanation": explanation,
            "bounds": bounds, "technique": TWO_TECH, "assumptions": TWO_ASSUME}


PROPS = {
    "C01": words("C01", "For each storable type one harness: an arbitrary value written at an arbitrary in-range "
                "index of a slab with arbitrary contents and read back; equality (floats by bits) is decided for all of them at once.",
                "one harness per listed instantiation (59 types with both engines, 35 larger and nested ones, up to 32 words and arrays of 17 items, with symexec alone); "
                "slab length between SLAB_SIZE and SLAB_SIZE+2..4 words; all values/contents/indices"),
    "C02": words("C02", "For each type: an arbitrary word outside the written window keeps its value and the returned index "
                "is index+SLAB_SIZE; two slabs that agree on the window give the same value.",
                "as C01"),
    "C03": words("C03", "contains/read/read_into_if_some over every id in u32 and every slab length in the bound; decoding of arbitrary words.",
                "slab length 0..=SLAB_SIZE+3 (for some 20 words); every id; arbitrary words; types as C01"),
    "C05": words("C05", "write_array/write_indexed_slice/read_vec/append_array over [u32], Vec<u32> and CpuSlab with an arbitrary handle, "
                "data length and contents, compared word by word with the specification.",
                "both engines: slabs of 0..3 and 12 words, up to 3 elements of data; symexec alone: slab of 33 words, up to 10 elements "
                "(5 for types with cases); element types of 0..5 words; every start and len in the bound"),
    "C06": words("C06", "SLAB_SIZE, OFFSET_OF_* and discriminants of a family of derived types compared with the words that "
                "a write of an arbitrary value produces and with field reads/writes through id + offset.",
                "the listed derived types (structs, tuple structs, generics, nesting, enums with explicit discriminants and odd payloads); "
                "arbitrary values, contents and base ids within a slab of SIZE+3 words"),
    "C07": words("C07", "Id, Array, ArrayIter and Offset operations over all u32 starts/lengths/indices with non-overflowing extent.",
                "element sizes 1,2,3,5 words; iterators up to 4 elements; otherwise all of u32"),
}
SYM_TECH = "symbolic execution of the compiled LLVM IR of the real crates, branches and assertions decided by z3 (bit-vectors)"
SYM_ASSUME = [
    "rustc lowers the crates to LLVM IR faithfully, and the executor's semantics of that IR are right (checked on "
    "sampled paths of every run by running the same inputs natively and comparing what they observe)",
    "z3 is right (every model it returns is re-evaluated); branches over a domain of at most 2^10 values are decided "
    "by evaluating the condition for all of them; a branch or assertion that rewrites to a constant under the path "
    "condition needs no query",
    "allocation does not fail; 64-bit little-endian x86-64; debug assertions and overflow checks on (a counterexample "
    "counts if it fails natively in a build with or without them)",
]


def sym(explanation, bounds, opts=None, extra=(), also=()):
    return {"level": "model_checking", "parts": list(also) + [("sym", opts or {})], "explanation": explanation,
            "bounds": bounds, "technique": SYM_TECH + (" and bounded model checking of the MIR (Kani/CBMC)" if also else ""),
            "assumptions": SYM_ASSUME + (TWO_ASSUME[:1] if also else []) + list(extra)}


HIST = ("Histories of one slab allocator over the CPU runtime are executed symbolically (every choice of operation is "
        "forked, all stored contents and a probed word index are symbolic) next to a model that knows which words are "
        "live, written, released and free. ")
HB = ("values of 1, 2, 3 words and arrays of 0..3 (sizes harness: up to 17) items of 0..3 words; at most 124 words; one thread; "
      "values arbitrary in their type; quick depth as in the harness names (free_5: 5 operations after the first "
      "creation and a closing commit; phases: create/drop any subset/commit/create again/commit), thorough one deeper")

PROPS.update({
    "A01": sym(HIST + "Every new allocation must not overlap a live one; after each commit every live allocation must lie "
               "inside the returned buffer; at the end an arbitrary word has at most one live owner.",
               "operations create, drop, clone, commit, defrag; " + HB),
    "A02": sym(HIST + "After each commit the buffer must decode to the latest contents of everything alive, whichever way "
               "(set, modify, lock guard, clone, GPU-only handle, upgraded weak handle, array items and symbolic item "
               "indices) it was written.",
               "up to 4 queued writes between two commits; " + HB),
    "A03": sym(HIST + "Between commits the buffer must be unchanged; a commit changes no word outside of what was written or "
               "handed out; growth keeps the old words; replaced buffers keep their contents.", HB),
    "A04": sym(HIST + "A new allocation must not touch words that were in use or released since the last commit; if a "
               "released run is long enough the allocation must not grow the slab; bounded workloads must not grow it.",
               "neighbours: 4 things of 1..3 words released in 3 orders with commits anywhere; " + HB),
    "A05": sym(HIST + "All handles ever returned are held: is_invalid/is_valid/is_new_this_commit/update_if_invalid must "
               "say exactly whether the buffer they point at was replaced, and buffers must be recreated exactly on "
               "the first commit or when allocations outgrew the old one.", HB),
    "A06": sym(HIST + "After every operation each handle's get/get_vec/lock/item reads, ref counts, ids and weak "
               "upgrades are compared with the model; item indices are symbolic over usize where noted.", HB),
    "A07": sym("The range manager next to a set of words: any history of adds of disjoint ranges, removes of any count and "
               "re-adding (defragmentation), ranges with symbolic bounds; a symbolic word stands for every word. The "
               "Range predicates are compared with their set meaning over all u32 bounds.",
               "4 operations (thorough 5) on a window of 8..16 words placed at 0, 2^31 and the end of u32; predicates: all of u32"),
    "A08": sym("A sequence of updates with symbolic positions, lengths and contents is collected by the real manager and "
               "applied by the real runtime; each word must be what applying the updates one after another leaves.",
               "3 and 4 updates of 1..4 words in a window of 8..16 words"),
    "A09": sym(HIST + "The menu consists of empty arrays, zero-sized values, arrays of zero-sized items and accesses outside "
               "arrays with ordinary things next to them; any panic or overflow is a violation, as is any damage to the "
               "ordinary things. Item accesses at an arbitrary usize index.", "4 operations (thorough 5); " + HB),
    "A10": sym("The real WgpuRuntime runs against a model of a conforming device (usages, bounds, alignment validated, "
               "queue order kept) next to the reference runtime: every operation and twin histories must leave the same "
               "words; read and read_array must return exactly the requested words/items.",
               "operations: buffers up to 8 words, any index/contents; twins: 4 operations on both allocators with equal symbolic "
               "contents; reads: every range form, start and end symbolic within 6..8 words",
               extra=["the device model stubs/wgpu stands for every conforming device (asynchronous mapping completes on poll)",
                      "allocator reads happen when nothing was allocated since the last commit (the API reads up to the allocated length)"]),
    "A12": sym(HIST + "A set of the ids touched since the last commit is kept: has_queued_updates must equal its "
               "non-emptiness after every operation and get_updated_source_ids must be exactly that set, asking must "
               "change nothing.", "operations create, write, drop, clone, GPU-only, weak, upgrade, ask, commit; " + HB),
    "A13": sym("Reads of every range form with symbolic bounds from a committed buffer with symbolic words, through the CPU "
               "runtime, the allocator and the device model: the result must be exactly those words, the buffer unchanged.",
               "buffers up to 6 words, every range inside",
               extra=["the device model stubs/wgpu stands for every conforming device"]),
    "C04": sym("Histories of growable slabs (Vec<u32>, CpuSlab) next to the words handed out and written so far, all contents "
               "symbolic (symexec); single operations on slabs with arbitrary contents (both engines).",
               "3 operations (thorough 4) from 9 kinds on slabs that start with 0..2 words and any small capacity",
               also=[("kani", ["c04_"])]),
    "C08": sym("For each storable type, written at any usize index at which it does not fit into slabs of 0, size-1, size, "
               "size+1, size+3 words: after the write stopped (panicked or returned), an arbitrary word outside of the "
               "target must be unchanged; the same for two-item slices and arrays.",
               "25 types (all primitive families, arrays, tuples, Option, Id, Array, glam, derived struct, generic, enum); "
               "arbitrary contents; every index in usize (arrays: every u32 start)"),
})
PROPS["A11"] = sym(
    "Two threads run small programs on clones of one allocator; the executor forks at every atomic operation and futex "
    "call into every other runnable thread, within a bound on preemptions (switches away from a thread that blocks, "
    "yields or ends are free). No thread may panic, deadlock or touch freed memory; after one further commit everything "
    "alive is disjoint, inside the buffer and holds the last value written (by one of the writers), nothing is left "
    "queued, followed buffers are current, and every word that is not alive can be allocated again without growing. "
    "A schedule that preempts a thread before an operation on a place that nobody touches until it goes on is cut: it "
    "equals the one that preempts after it. Counterexamples are replayed natively, on real threads, in exactly their "
    "schedule.",
    "two threads; programs of 1+1 (all pairs of 17 operations), 2+1 (8 operations) and 2+2 (4) operations and 3+1 next to "
    "update_if_invalid; three starting states (nothing committed; committed with a free word and three words of room; a "
    "growth pending); at most 2 preemptions (2+2: 1; thorough: 3, 2+2: 2, and 3+2 programs); sequentially "
    "consistent interleavings of atomic operations (no weak-memory reorderings); std's futex locks and async-channel as "
    "compiled; a spinning thread yields",
    {"scheduled": True, "*": ["--preempt", 2], "a11_two_two": ["--preempt", 1], "a11t_pairs_3": ["--preempt", 3],
     "a11t_two_one_3": ["--preempt", 3]},
    extra=["the code between two atomic operations is free of data races (safe Rust; the unsafe parts of std and the channel are trusted)"])
NOT_APPLICABLE = {}
