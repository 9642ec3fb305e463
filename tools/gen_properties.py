#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay reviewable)."""
import json, os
P = []
S = "crates/crabslab/src/"
A = "crates/craballoc/src/"

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- crabslab
prop("C01", "Every storable value reads back bit-for-bit from where it was written",
     "Writing any value of any storable type (all integer widths, f32/f64, bool, fixed arrays, tuples, Option, PhantomData, Id, Array, every supported glam type, and derived structs, tuple structs, generic types and enums, nested in any way) at any index where it fits, and reading the same type at that index, yields exactly the value written (floats bit-for-bit), whatever the slab held before.",
     ["inputs"], "every value of each type, every previous slab content, every in-range index and slab length",
     "The tests write a handful of literals (e.g. -5, 5, 1.0) at one index into zeroed slabs; sign extension, word order, high bits, NaN payloads, variant/payload combinations and dirty slabs are not reached.",
     [S+"impl_slab_item/primitives.rs", S+"impl_slab_item/mod.rs", S+"impl_slab_item/glam.rs", S+"impl_slab_item/tuples.rs", S+"id.rs", S+"array.rs", "crates/crabslab-derive/src/lib.rs"],
     [("SlabItem::write_slab / read_slab per type", S+"impl_slab_item"), ("derive(SlabItem)", "crates/crabslab-derive/src/lib.rs")],
     observe=["Slab::write", "Slab::read", "SlabItem::write_slab", "SlabItem::read_slab"])
prop("C02", "A write touches only its own words and a read looks only at its own words",
     "Writing a value of type T at an index where it fits changes no word outside [index, index + T::SLAB_SIZE) and returns index + T::SLAB_SIZE; reading T at an index is a function of the words in that window only.",
     ["inputs"], "every value of each type, every slab content and length, every in-range index",
     "The tests never compare the words around a written value, and use slabs just large enough for the data.",
     [S+"impl_slab_item/primitives.rs", S+"impl_slab_item/mod.rs", S+"impl_slab_item/glam.rs", S+"slab.rs", "crates/crabslab-derive/src/lib.rs"],
     [("index threading through write_slab/read_slab", S+"impl_slab_item"), ("SLAB_SIZE constants", S+"impl_slab_item"), ("derived index increments", "crates/crabslab-derive/src/lib.rs")],
     observe=["Slab::write_indexed", "SlabItem::write_slab return value"])
prop("C03", "Checked reads are total: out of range gives the default, garbage never panics",
     "`contains(id)` is true exactly when all SLAB_SIZE words of the value lie inside the slab, for every id and length; `read(id)` returns the type's default exactly when it does not. Reading any type from arbitrary words inside the slab never panics, and decodes an unknown enum discriminant to the type's default, a bool to `word == 1`, and an Option to None unless its tag is 1.",
     ["inputs"], "every id in 0..=u32::MAX including NONE, every slab length up to the bound, every word content",
     "contains_sanity samples 7 ids on one 3-word slab; no test reads arbitrary words or out-of-range ids of composite types.",
     [S+"slab.rs", S+"impl_slab_item/mod.rs", S+"impl_slab_item/primitives.rs", "crates/crabslab-derive/src/lib.rs"],
     [("Slab::contains / Slab::read", S+"slab.rs"), ("derived enum read with default arm", "crates/crabslab-derive/src/lib.rs")],
     observe=["Slab::contains", "Slab::read", "Slab::read_into_if_some"])
prop("C04", "Growing a slab hands out fresh words and preserves everything already stored",
     "Every allocate/append (single or array) on a growable slab returns a place that starts at the previous length, spans exactly the item's words, lies inside the slab afterwards and overlaps nothing returned before; every word stored earlier keeps its value; appended values read back. Reserving capacity C makes the slab's capacity at least C without changing length or contents, and allocating an empty array returns the null array and changes nothing.",
     ["histories", "inputs"], "all sequences of up to the bounded number of allocations/appends of mixed sizes with arbitrary values, starting from any slab length/content within the bound, any reserve request within the bound",
     "cpuslab_sanity and tuples_and_all_primitives each run one fixed sequence from an empty slab and never reserve capacity.",
     [S+"slab.rs"],
     [("GrowableSlab::allocate/allocate_array/append/append_array/maybe_expand_to_fit", S+"slab.rs"), ("impl GrowableSlab for Vec<u32>", S+"slab.rs"), ("CpuSlab forwarding", S+"slab.rs")],
     state=[("slab length", "number of words handed out", S+"slab.rs")],
     observe=["GrowableSlab::append", "GrowableSlab::append_array", "GrowableSlab::reserve_capacity", "Slab::read"])
prop("C05", "Array reads and writes address exactly the array's elements",
     "`write_array`/`write_indexed_slice` put element i at start + i*SLAB_SIZE and touch no word outside the array's extent (resp. the slice's extent), `write_array` with too little data changes nothing, and `read_vec` returns exactly len elements, the i-th being what a read at that position yields. `write_indexed_slice` returns the index after the last element.",
     ["inputs"], "every array handle (start, len), data length, data values and slab content within the bounds",
     "slab_array_readwrite uses exact-length data on fixed positions; mismatched data lengths and neighbouring words are never examined.",
     [S+"slab.rs", S+"array.rs"],
     [("Slab::write_array, write_indexed_slice, read_vec", S+"slab.rs"), ("Array::at", S+"array.rs")],
     observe=["Slab::write_array", "Slab::write_indexed_slice", "Slab::read_vec", "GrowableSlab::append_array"])
prop("C06", "Derived layout: fields in declaration order, offsets and sizes agree with it",
     "A derived struct or tuple occupies the sum of its fields' sizes with field k starting right after fields 0..k; each generated field offset added to the value's id addresses exactly that field, so reading or writing through it is the same as reading or writing the field of the whole value and leaves the other fields alone. A derived enum occupies one discriminant word (the variant's declaration position) plus the largest variant's payload, with payload fields following the discriminant in order.",
     ["inputs", "programs"], "every value of a family of derived types (named, tuple, generic, nested, enums with unit/tuple/named variants of different sizes), every slab content and base id within bounds",
     "derive tests check two struct shapes with literal values; offsets are only tested on two single-word fields, nested offsets and multi-word fields not at all.",
     ["crates/crabslab-derive/src/lib.rs", S+"offset.rs"],
     [("derive_from_slab_struct / derive_from_slab_enum", "crates/crabslab-derive/src/lib.rs"), ("impl_slabitem_tuples!", "crates/crabslab-derive/src/lib.rs"), ("Offset + Id", S+"offset.rs")],
     observe=["OFFSET_OF_* constants", "SLAB_SIZE", "raw slab words"])
prop("C07", "Handle algebra: ids, arrays and their word views address consistently",
     "For every array handle whose extent fits in u32: at(i) is start + i*SLAB_SIZE for i < len and NONE otherwise, iteration yields exactly at(0..len) in order, the u32 view covers exactly the words of the elements, sub_slab returns exactly those words, and the union of two word ranges is the smallest range containing both. Id/Array equality, ordering, hashing, conversion and arithmetic all agree with the raw u32 they carry, and NONE is the only id (and the null array the only start) reported as none/null.",
     ["inputs"], "every start/len/index in u32 whose word extent does not overflow, every pair of handles",
     "Tests evaluate at() for two indices and never exercise union, sub_slab, ordering or hashing with other than literal values.",
     [S+"array.rs", S+"id.rs", S+"offset.rs"],
     [("Array::at/iter/into_u32_array/sub_slab/union/contains_index", S+"array.rs"), ("Id operators and conversions", S+"id.rs")],
     observe=["public methods of Id, Array, ArrayIter, Offset"])
prop("C08", "An out-of-range write never corrupts words outside its target range",
     "If a value does not fit at an index, writing it there never alters any word outside [index, index + SLAB_SIZE): the write stops (panics, or for types that check the length returns the same index) with every other word of the slab untouched, for single values and for slices.",
     ["inputs"], "every index (in range, straddling the end, far outside), slab length within the bound, value and content",
     "No test performs an out-of-range write.",
     [S+"slab.rs", S+"lib.rs", S+"impl_slab_item/primitives.rs", S+"impl_slab_item/glam.rs"],
     [("checked slice_index_mut", S+"lib.rs"), ("Vec2 length guard", S+"impl_slab_item/glam.rs")],
     observe=["slab words after a caught panic or a returned index"])

# ---------------------------------------------------------------- craballoc
prop("A01", "Live allocations never overlap and always lie inside the committed buffer",
     "At every moment the word ranges of all live values and arrays of a slab allocator are pairwise disjoint, exactly as large as their contents, and after each commit they lie inside the buffer that commit returned, whatever mix of creation, cloning, dropping, defragmentation and recycling happened before.",
     ["histories", "inputs"], "all bounded histories of create/clone/drop/write/commit/defrag over values and arrays of different sizes with arbitrary contents",
     "slab_manager_sanity runs one fixed history of equally sized u32 values; recycling with mixed sizes, splits, exact fits, merges and array allocations are not reached.",
     [A+"slab.rs", A+"range.rs", A+"value.rs"],
     [("SlabAllocator::allocate/allocate_array/maybe_expand_to_fit", A+"slab.rs"), ("RangeManager<Range>::remove", A+"range.rs"), ("drain_updated_sources recycling", A+"slab.rs")],
     state=[("recycled ranges", "free words available for reuse", A+"slab.rs"), ("len/capacity", "words handed out / words in the buffer", A+"slab.rs")],
     observe=["Hybrid::id", "HybridArray::array", "commit() buffer length"])
prop("A02", "After a commit the buffer holds the latest value of everything alive",
     "When a commit returns, for every live value and array the buffer words at its id decode to its current contents: the last value set before that commit, whether set, modified, edited through a lock guard, set on a clone, on an upgraded weak handle or on the GPU-only handle, and however many updates were queued in between.",
     ["histories", "inputs"], "all bounded histories of writes through every kind of handle interleaved with commits, with arbitrary values",
     "hybrid_write_guard checks one value with one write; multiple writes between commits, several live values, array items and alternative handles are not compared with the buffer.",
     [A+"slab.rs", A+"value.rs", A+"runtime.rs", A+"range.rs"],
     [("Gpu::set / GpuArray::set_item queue updates", A+"value.rs"), ("drain_updated_sources + buffer_write", A+"slab.rs"), ("SlabUpdate merging", A+"range.rs")],
     state=[("update queue", "writes waiting for the next commit", A+"value.rs")],
     observe=["commit() buffer contents", "Hybrid::get", "HybridArray::get_vec"])
prop("A03", "Commits change only what was written, and growth preserves the old contents",
     "Buffer contents change only during a commit; a commit alters no word outside the ranges of values written, created or reused since the previous one; and when the buffer is recreated larger, every word of the old buffer that no update touches appears unchanged at the same index in the new one. Buffers already handed out are never modified by later values once they were replaced.",
     ["histories", "inputs"], "all bounded histories with arbitrary values, including histories that grow the buffer one or more times between commits",
     "No test grows the buffer while holding contents and compares the words afterwards; GPU-only data that is not resent would expose a missing copy only there.",
     [A+"slab.rs", A+"runtime.rs"],
     [("recreate_buffer copies the old buffer", A+"slab.rs"), ("IsRuntime::buffer_copy for CpuRuntime", A+"runtime.rs")],
     observe=["buffer contents before and after commit"])
prop("A04", "Space is reused only after the last handle is gone, then by the next commit",
     "The words of a value or array are handed out again only if every strong handle to it (clones, GPU-only handles, upgraded weak handles) was dropped and a commit happened afterwards; conversely, once those conditions hold the words are available again, so a workload whose live data is bounded does not grow the buffer without bound, and released neighbouring ranges can serve a request for their combined size after defragmentation.",
     ["histories"], "all bounded histories of create/clone/convert/drop/commit/defrag in every order of release",
     "slab_manager_sanity checks range counts for one order of drops of equal-sized values; clones, GPU-only handles, arrays and drop orders other than two are not covered.",
     [A+"slab.rs", A+"value.rs", A+"range.rs"],
     [("Drop for Gpu/GpuArray notifies", A+"value.rs"), ("strong_count()==0 check in drain_updated_sources", A+"slab.rs"), ("RangeManager::add_range/defrag", A+"range.rs")],
     state=[("recycles", "ranges free for reuse", A+"slab.rs")],
     observe=["ids handed out", "buffer length after commit"])
prop("A05", "Buffer validity tracking tells holders exactly when their buffer was replaced",
     "The buffer exists from the first commit on; a buffer obtained earlier reports invalid exactly when a later commit has recreated the buffer, `is_new_this_commit` is true exactly on handles to the buffer created by the most recent commit, and `update_if_invalid` returns true exactly when the handle was invalid and leaves it pointing at the allocator's current, valid buffer. A commit recreates the buffer only when it is the first one or allocations outgrew the capacity since the previous one.",
     ["histories"], "all bounded histories of allocations, commits, and held/cloned/updated buffer handles",
     "Tests check one invalidation and one still-new case; handles held across several growths, clones and update_if_invalid are not covered.",
     [A+"slab.rs"],
     [("SlabBuffer::is_invalid/is_new_this_commit/update_if_invalid", A+"slab.rs"), ("commit's needs_expansion/invalidation counters", A+"slab.rs")],
     state=[("invocation/invalidation counters", "which commit last replaced the buffer", A+"slab.rs")],
     observe=["SlabBuffer methods", "get_buffer"])
prop("A06", "Handles behave like shared values: reads see the last write, weak handles expire",
     "All clones of a value or array share one content: get/get_vec/lock return the last value set through any of them, modify and lock guards return and see the current content, an out-of-range array item access returns None and changes nothing, set_item returns the previous item. ref_count equals the number of live strong handles, a weak handle upgrades exactly while a strong one exists, and converting to GPU-only keeps the id and the allocation.",
     ["histories", "inputs"], "all bounded histories of handle operations with arbitrary values and indices",
     "Only ref_count()==1 right after creation and a single guard edit are tested; weak handles, clones, arrays' get/modify/set_item and into_gpu_only have no tests.",
     [A+"value.rs"],
     [("Hybrid, Gpu, HybridArray, GpuArray, WeakHybrid, WeakGpu", A+"value.rs")],
     observe=["Hybrid::get/modify/lock/ref_count", "HybridArray::get/get_vec/modify/set_item", "WeakHybrid::upgrade/strong_count"])
prop("A07", "The free-range manager is an exact set of words",
     "Adding disjoint ranges to the range manager and removing counts from it keeps it an exact set: the stored ranges stay pairwise disjoint, their union is precisely what was added minus what was removed, a removed range has exactly the requested length and lies inside what was stored, and removal fails only if no stored range is long enough. Re-adding the ranges (defragmentation) preserves the set and touching ranges become usable as one after it.",
     ["inputs", "histories"], "every bounded sequence of disjoint additions and removals with arbitrary u32 bounds and counts",
     "range_sanity evaluates one intersects() pair and the allocator test only single-word ranges; splitting, exact fits, touching-from-both-sides and extreme indices are not tested.",
     [A+"range.rs"],
     [("RangeManager::add_range / remove", A+"range.rs"), ("Range::should_merge_with/union/len/intersects", A+"range.rs")],
     state=[("ranges", "the stored disjoint ranges", A+"range.rs")],
     observe=["RangeManager::ranges, remove, len", "Range::len/intersects"])
prop("A08", "Queued writes merge like writing them one after another",
     "Collecting a sequence of word-range updates (identical, disjoint, touching, nested or partially overlapping) and applying the collected result to a buffer leaves the same contents as applying the updates one after another in order: later writes win on every overlapping word and no word outside the updates changes.",
     ["inputs", "histories"], "every bounded sequence of updates with arbitrary starts, lengths and contents",
     "No test merges two updates; the allocator's tests only queue identical or disjoint single-word writes.",
     [A+"range.rs", A+"runtime.rs"],
     [("SlabUpdate::intersects and union", A+"range.rs"), ("RangeManager::add_range", A+"range.rs"), ("Array<u32>::union", S+"array.rs")],
     observe=["RangeManager<SlabUpdate> applied through buffer_write"])
prop("A09", "Empty, zero-sized and out-of-range uses never break a commit",
     "Creating, cloning, writing and dropping empty arrays and zero-sized values, and addressing array items outside the array, never panics or corrupts other data in these calls or in any later commit, allocation or defragmentation.",
     ["histories", "inputs"], "all bounded histories mixing empty arrays, zero-sized items and arbitrary item indices with ordinary values",
     "No test creates an empty array, a zero-sized value or uses an item index outside the array.",
     [A+"value.rs", A+"slab.rs", A+"range.rs", A+"runtime.rs"],
     [("allocate_array(0) returns the null array", A+"slab.rs"), ("null/empty checks before recycling", A+"slab.rs"), ("GpuArray::new / set_item", A+"value.rs")],
     observe=["absence of panics", "buffer contents of other values"])
prop("A10", "The wgpu runtime performs the same word operations as the reference runtime",
     "Driving the allocator with the wgpu runtime against any conforming device leaves the GPU buffer with the same words as the CPU reference runtime after the same history: writes land at four times the word index, growth copies the whole old buffer to the start of the new one, and buffers are created with the full capacity and storage/copy usages. Reading a range or a typed array returns exactly those words/elements of the current buffer.",
     ["histories", "inputs"], "all bounded histories and read ranges with arbitrary values, against a model of the wgpu API",
     "No test in the suite runs the wgpu runtime (it needs a GPU).",
     [A+"runtime.rs", A+"slab/wgpu_slab.rs"],
     [("impl IsRuntime for WgpuRuntime", A+"runtime.rs"), ("SlabAllocator<WgpuRuntime>::read / read_array", A+"slab/wgpu_slab.rs")],
     observe=["wgpu API calls and the modelled buffer contents"])
prop("A11", "Concurrent use keeps allocations disjoint and loses no write",
     "When threads create, write, drop and commit concurrently on clones of one allocator, no call panics or deadlocks, all live allocations stay disjoint, and once the threads are done one further commit leaves the buffer holding the latest value of everything alive, with the space of everything dropped reusable.",
     ["schedules", "histories"], "all bounded interleavings of small programs on two threads",
     "The test suite is single-threaded.",
     [A+"slab.rs", A+"value.rs"],
     [("atomic len/capacity", A+"slab.rs"), ("notifier channel, update_queue, update_sources", A+"slab.rs"), ("commit", A+"slab.rs")],
     state=[("update_queue/update_sources", "pending updates", A+"slab.rs")],
     observe=["ids", "buffer contents after the final commit", "panics"])
prop("A12", "Pending-work reporting is exact and has no side effects on commits",
     "`has_queued_updates` is true whenever a created, written or dropped handle has not yet been handled by a commit and false right after a commit with nothing queued since; `get_updated_source_ids` contains the ids of exactly those handles, and calling either any number of times changes neither later answers nor what the next commit writes or recycles.",
     ["histories"], "all bounded histories of handle operations, queries and commits",
     "mngr_updates_count_sanity asks has_queued_updates twice; get_updated_source_ids is never called outside commit.",
     [A+"slab.rs", A+"value.rs"],
     [("has_queued_updates / get_updated_source_ids", A+"slab.rs"), ("notifier channel", A+"value.rs")],
     state=[("update_queue", "ids already drained from the notifier", A+"slab.rs")],
     observe=["has_queued_updates", "get_updated_source_ids", "notifier_index of handles", "commit buffer"])
prop("A13", "Range reads return exactly the requested words",
     "Reading any inclusive, exclusive, half-open or full range of a committed buffer through a runtime returns exactly those words in order, for every range inside the buffer, and never changes the buffer.",
     ["inputs"], "every range bounds combination inside the buffer and arbitrary buffer contents within the bounds",
     "buffer_read has no test.",
     [A+"runtime.rs"],
     [("range_to_indices_and_len", A+"runtime.rs"), ("CpuRuntime::buffer_read", A+"runtime.rs")],
     observe=["IsRuntime::buffer_read"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
