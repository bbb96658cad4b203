#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Reachable objects survive every collection intact",
  "Whatever sequence of allocations, pointer stores, root changes and collections of any kind a program performs, every object reachable from its roots keeps its contents, and every reference held in a root or in a reachable object keeps denoting the same logical object. This holds for every collector, object size class and object kind, including null and immediate references, which are never altered.",
  ["histories", "configurations"],
  "all operation sequences up to a bounded length over small/medium/large objects, tagged and pointerless kinds, root and field stores, and collections of every requestable kind, on every collector variant",
  "The benchmarks run four fixed workloads whose collection kinds are chosen by heuristics; they never request a particular sequence of collection kinds, and check graph contents only in one benchmark.",
  ["src/pcc.c", "src/semi.c", "src/mmc.c", "src/copy-space.h", "src/nofl-space.h", "src/large-object-space.h"],
  [("tracing from roots", "src/pcc.c:collect, src/mmc.c:collect, src/semi.c:collect"), ("evacuation", "src/copy-space.h:copy_space_forward, src/nofl-space.h:nofl_space_evacuate")],
  ["object contents and references read through the public API after each operation", "event listener"])
prop("C02", "Fresh storage is aligned, zeroed, and disjoint from all live objects",
  "Every successful allocation returns storage that is suitably aligned, reads as all zeroes for its whole requested size, and overlaps no other live object, whatever size and kind is requested and whatever was allocated, freed or reused before.",
  ["inputs", "histories", "configurations"],
  "every allocation size from one byte through past the large-object threshold, and every bounded history of allocations, drops and collections preceding it",
  "Benchmarks allocate a handful of fixed sizes and initialise every field, so stale bytes or a size-class boundary error never show.",
  ["api/gc-api.h", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h", "src/semi.c"],
  [("bump allocation and hole clearing", "src/nofl-space.h:nofl_allocator_next_hole, src/copy-space.h:copy_space_allocator_acquire_empty_block"), ("large object reuse", "src/large-object-space.h:large_object_space_alloc")],
  ["address and bytes returned by gc_allocate"])
prop("C03", "Unreachable memory is reclaimed",
  "Storage of objects that are no longer reachable becomes available for new allocations: a program whose reachable data stays well below a fixed heap size can keep allocating objects of any size (or, in collectors that never move objects, of any size up to the large-object threshold) forever. After a full collection the collector's reported live data does not count unreachable objects.",
  ["histories", "configurations"],
  "every bounded allocate/drop/collect pattern, repeated until many times the heap size has been allocated, on every collector variant with a fixed-size heap",
  "Benchmarks use a heap a fixed multiple of one steady-state workload; leaks tied to a particular size mix, generation or collection sequence are invisible there.",
  ["src/mmc.c", "src/pcc.c", "src/semi.c", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h"],
  [("sweeping", "src/nofl-space.h:nofl_space_finish_gc"), ("page accounting", "src/large-object-space.h:large_object_space_finish_gc, src/mmc.c:heap_reset_large_object_pages")],
  ["allocation succeeding", "live_data_size event", "ephemerons as liveness probes"])
prop("C04", "Allocation returns usable storage or kills the program",
  "An allocation never returns null, never returns storage outside the memory the heap owns, and never spins forever: when the reachable data plus the request cannot fit and the heap may not grow, the program is terminated. With a fixed heap size the program can never hold more live data than that size.",
  ["histories", "inputs", "configurations"],
  "every bounded fill pattern of live objects of mixed sizes taken past the capacity of small fixed heaps",
  "No test exhausts the heap; every benchmark is sized to fit.",
  ["src/mmc.c", "src/pcc.c", "src/semi.c"],
  [("out-of-memory detection", "src/mmc.c:detect_out_of_memory, src/pcc.c:gc_allocate_slow, src/semi.c:collect_for_alloc")],
  ["process outcome (returned storage, abort, or hang) of gc_allocate"])
prop("C05", "Minor collections keep young objects referenced from old ones",
  "In a generational collector, a minor collection keeps alive every young object reachable from a root or from an older object whose store was announced with the write barrier, leaves every reference to it correct, and never reclaims an object of the old generation. An object is reported as old only after it has survived a collection.",
  ["histories", "configurations"],
  "all bounded sequences of allocation, barrier-announced stores between objects of different ages and sizes, and minor and major collections, on every generational collector variant",
  "Benchmarks rarely store young pointers into old objects, and never control which collections are minor.",
  ["src/mmc.c", "src/pcc.c", "src/field-set.h", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h", "api/gc-api.h"],
  [("write barrier", "api/gc-api.h:gc_write_barrier"), ("remembered set", "src/field-set.h"), ("promotion and survivor edges", "src/pcc.c:trace_one")],
  ["object graph after minor collections", "gc_object_is_old_generation"])
prop("C06", "Pinned objects never move",
  "In collectors that can pin, an object that has been pinned keeps its address and its contents through every later collection of any kind for as long as it is reachable, and the objects it refers to stay reachable and correct. Pinning affects no other object's contents.",
  ["histories", "configurations"],
  "all bounded sequences mixing allocation, pinning, dropping, and collections including compacting ones, on every collector that offers pinning",
  "No test or benchmark ever pins an object.",
  ["src/mmc.c", "src/nofl-space.h", "api/mmc-attrs.h"],
  [("pin bit", "src/nofl-space.h:nofl_space_pin_object"), ("evacuation refusal", "src/nofl-space.h:nofl_space_evacuate_or_mark_object")],
  ["address of the pinned object", "object contents"])
prop("C07", "Conservatively found objects stay alive and in place",
  "In collectors that scan stacks, registers and global data conservatively, an object referred to only by such a word, even by an address into its middle, stays alive, unmoved and intact through every collection, and the scanned words themselves are never modified. Arbitrary non-pointer words never crash the collector or corrupt the heap.",
  ["inputs", "histories", "configurations"],
  "all words at and around every object boundary, block boundary and space boundary as root values, crossed with collections of every kind, on every conservative variant",
  "Benchmarks only ever keep exact pointers to object starts on the stack and never check addresses.",
  ["src/mmc.c", "src/nofl-space.h", "src/large-object-space.h", "src/gc-stack.c", "src/gc-platform-gnu-linux.c", "src/gc-trace.h"],
  [("conservative resolution", "src/nofl-space.h:nofl_space_mark_conservative_ref, src/large-object-space.h:large_object_space_mark_conservative_ref"), ("stack capture", "src/gc-stack.c")],
  ["object address and contents when only a stack, register or global word refers to it"])
prop("C08", "Ephemerons keep their value exactly while ephemeron and key live",
  "As long as an ephemeron and its key are both reachable, looking up the ephemeron yields that key and its value, and the value and everything it reaches stay alive even if only the ephemeron refers to them. Once a collection finds the key unreachable other than through its own value, the ephemeron yields nothing and leaves the chains it was on, and neither key nor value is kept alive by it.",
  ["histories", "configurations"],
  "all bounded object graphs with up to a few ephemerons, including chains of ephemerons whose keys depend on each other's values, all collection kinds and all collector variants",
  "The ephemeron benchmark uses one shape (a list of independent ephemerons) and counts survivors only approximately.",
  ["src/gc-ephemeron.c", "src/pcc.c", "src/mmc.c", "src/semi.c"],
  [("pending table and resolution", "src/gc-ephemeron.c:gc_trace_ephemeron, gc_resolve_pending_ephemerons, gc_scan_pending_ephemerons"), ("sweeping", "src/gc-ephemeron.c:gc_sweep_pending_ephemerons")],
  ["gc_ephemeron_key, gc_ephemeron_value, chain traversal"])
prop("C09", "Ephemeron chains are linearizable under concurrent use",
  "Any number of threads may push distinct ephemerons onto a chain, traverse it and mark members dead at the same time: no pushed live ephemeron is ever lost or duplicated, a traversal sees every ephemeron that was on the chain and alive throughout, and never returns to the caller one that was dead before the traversal began.",
  ["schedules"],
  "all interleavings of a few threads each doing a few chain operations on a shared chain",
  "The benchmark builds chains from one thread per chain; concurrent operations on one chain are never exercised.",
  ["src/gc-ephemeron.c", "api/gc-ephemeron.h"],
  [("lock-free list", "src/gc-ephemeron.c:ephemeron_list_push, ephemeron_list_follow")],
  ["gc_ephemeron_chain_push, gc_ephemeron_chain_head, gc_ephemeron_chain_next, gc_ephemeron_mark_dead"])
prop("C10", "Finalizers fire exactly once, in priority order, with a live object",
  "A finalizer attached to an object is delivered exactly once, after a collection finds the object unreachable and never before, and with the object, its closure and everything they reach intact. While an object has an undelivered finalizer of a more urgent priority, no finalizer of a less urgent priority fires for it, and the registered callback is told how many finalizers became ready.",
  ["histories", "configurations"],
  "all bounded sequences of attaching, dropping, resurrecting, collecting (minor and major) and popping with several objects, priorities and finalizers per object, on every collector variant",
  "The finalizer benchmark attaches one finalizer per object at one priority, and compares only totals.",
  ["src/gc-finalizer.c", "api/gc-finalizer.h", "src/pcc.c", "src/mmc.c", "src/semi.c"],
  [("finalizer tables", "src/gc-finalizer.c:gc_resolve_finalizers, gc_visit_finalizer_roots"), ("notification", "src/gc-finalizer.c:gc_notify_finalizers")],
  ["gc_pop_finalizable, gc_finalizer_object, gc_finalizer_closure, finalizer callback"])
prop("C11", "Finalizers can be attached and popped concurrently",
  "When several threads attach finalizers and pop finalizable objects at the same time, every attached finalizer is registered and every ready one is handed to exactly one thread; none is lost, duplicated or handed out twice.",
  ["schedules"],
  "all interleavings of a few threads attaching and popping, combined with collections",
  "Benchmark threads mostly run disjoint phases; the windows of a few instructions in the lock-free lists are not scheduled deliberately.",
  ["src/gc-finalizer.c"],
  [("lock-free lists", "src/gc-finalizer.c:finalizer_list_push, finalizer_list_pop, add_finalizer_to_table")],
  ["gc_finalizer_attach, gc_pop_finalizable"])
prop("C12", "Collections run only while every mutator is stopped",
  "From the moment a collection announces that mutators are stopped until it announces that they restart, no mutator thread executes program code that touches the heap: each one is waiting inside the collector, or is outside collector-managed execution and cannot come back before the restart. At most one collection runs at a time.",
  ["schedules", "configurations"],
  "all interleavings up to a preemption bound of several mutators allocating, polling safepoints, requesting collections, leaving and joining",
  "Stress tests sample a few schedules on one machine; the stop handshake has windows of a few instructions.",
  ["src/mmc.c", "src/pcc.c"],
  [("stop handshake", "src/mmc.c:request_mutators_to_stop, wait_for_mutators_to_stop, pause_mutator_for_collection; src/pcc.c same"), ("membership", "add_mutator, remove_mutator, deactivate_mutator, reactivate_mutator")],
  ["mutator progress between mutators_stopped and restarting_mutators events", "object contents"])
prop("C13", "Threads never deadlock and collections always finish",
  "In every schedule, a thread that requests a collection, allocates, polls a safepoint, joins, leaves or steps outside the collector eventually continues: no wake-up is lost, no lock cycle blocks, and every collection that starts also finishes and restarts all mutators. A collection requested of a given kind is not skipped unless one at least that thorough ran after the request.",
  ["schedules", "configurations"],
  "all interleavings up to a preemption bound of mutators, tracing workers and the background thread over every blocking operation",
  "A missed wake-up needs a particular interleaving; timeouts in the tests would only show a hang that happens to occur.",
  ["src/mmc.c", "src/pcc.c", "src/parallel-tracer.h", "src/background-thread.h", "src/large-object-space.h", "src/copy-space.h", "src/nofl-space.h"],
  [("condition variables", "src/mmc.c:heap_lock users; src/pcc.c"), ("worker parking", "src/parallel-tracer.h:trace_worker_thread, trace_worker_should_continue")],
  ["termination of every thread"])
prop("C14", "Threads may join, leave and step outside the collector at any time",
  "A mutator may be added, removed, or run code outside the collector's control at any time relative to collections started by other threads: collections do not wait for it, everything its roots refer to stays alive and is correctly updated while it is away, and what it left behind on leaving (unfinished allocation areas, logged stores) stays valid.",
  ["schedules", "histories", "configurations"],
  "all interleavings of a few mutators that join, leave and go outside, with allocations and collections by the others",
  "Benchmarks start all threads first and join them last; no test calls out of the collector while another thread collects.",
  ["src/mmc.c", "src/pcc.c"],
  [("membership", "gc_init_for_thread, gc_finish_for_thread"), ("outside calls", "gc_call_without_gc, deactivate_mutator, reactivate_mutator")],
  ["object graph reachable from the absent mutator's roots", "event listener mutator events"])
prop("C15", "Parallel tracing visits and moves each live object exactly once",
  "With any number of tracing workers and in every schedule of them, the collection retains exactly the objects reachable from the roots, each is copied or marked once, all references to one object agree on its new location afterwards, and tracing finishes only when no work is left anywhere.",
  ["schedules", "configurations"],
  "all interleavings up to a preemption bound of two or more tracing workers over small shared object graphs, roots, and remembered edges, on every parallel variant",
  "Races between workers on the same object need interleavings of single instructions; stress runs cover an unknown few.",
  ["src/parallel-tracer.h", "src/shared-worklist.h", "src/root-worklist.h", "src/local-worklist.h", "src/copy-space.h", "src/nofl-space.h", "src/pcc.c", "src/mmc.c"],
  [("forwarding claim", "api/gc-forwarding.h users: copy_space_forward, nofl_space_evacuate"), ("termination", "src/parallel-tracer.h:trace_worker_should_continue")],
  ["object graph and addresses after a collection", "number of times each object is traced"])
prop("C16", "Tracing work queues lose and duplicate nothing",
  "Every item put on a tracing work queue by its owner is taken exactly once, by the owner or by exactly one thief, through any interleaving of pushes, batch pushes, pops, steals and growth, and a queue that reports itself empty when no one else is running is empty.",
  ["schedules", "inputs"],
  "all interleavings, including delayed visibility of stores as on x86, of an owner and thieves around the empty, one-element and growth boundaries; all push/pop sequences of the single-threaded queues around wrap-around",
  "The work-stealing deque's critical races occur on its last element and during growth, which stress tests hit rarely and cannot recognise.",
  ["src/shared-worklist.h", "src/local-worklist.h", "src/simple-worklist.h", "src/root-worklist.h"],
  [("Chase-Lev deque", "src/shared-worklist.h"), ("rings", "src/local-worklist.h, src/simple-worklist.h"), ("root list", "src/root-worklist.h")],
  ["multiset of items taken versus items pushed"])
prop("C17", "Concurrent write barriers lose no remembered store",
  "When several mutators announce stores into old objects concurrently, including into the same object or adjacent fields, every field so announced is treated as a root of the next minor collection no matter how the announcements interleave, how many there are, or whether the announcing thread has since paused or left.",
  ["schedules", "histories"],
  "all interleavings up to a preemption bound of several mutators storing young references into shared old objects, followed by a minor collection; store counts around the capacity of the log buffers",
  "Neighbouring fields share log bytes and buffers are handed between threads; only specific interleavings expose a lost update.",
  ["src/field-set.h", "src/mmc.c", "src/pcc.c", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h"],
  [("field log bits", "src/nofl-space.h:nofl_space_remember_edge, src/copy-space.h:copy_space_remember_edge"), ("log buffers", "src/field-set.h")],
  ["survival of the stored young objects"])
prop("C18", "Concurrent allocation hands out disjoint storage",
  "Mutators that allocate concurrently, with objects of any mix of sizes and across collections, never receive overlapping storage, never receive storage still in use, and together never lose or leak the blocks they take from the shared heap.",
  ["schedules", "configurations"],
  "all interleavings up to a preemption bound of two or more mutators allocating small, medium and large objects with and without a collection in between",
  "Two threads taking the same block requires a precise interleaving on lock-free lists.",
  ["src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h", "src/mmc.c", "src/pcc.c"],
  [("block lists", "src/nofl-space.h:nofl_block_list_push/pop, src/copy-space.h:copy_space_block_list_push/pop"), ("large object lock", "src/large-object-space.h:large_object_space_alloc")],
  ["address ranges and contents of all live objects"])
prop("C19", "Event listeners see one well-formed story per collection",
  "Listeners are told of initialisation once, and of each collection as one complete sequence (stop requested, waiting, stopped, kind, roots, heap, ephemerons and finalizers traced, restart) in that order and never interleaved with another collection's, with the live size reported once between the kind and the restart and one mutator reported as the cause; each mutator is reported added and removed once and its stop and restart notices are paired. Chaining two listeners delivers every notice, with its arguments, to each of them once and in order.",
  ["histories", "schedules", "configurations"],
  "all bounded operation sequences and all bounded interleavings of mutators causing collections, observed through a listener and through a chain of listeners",
  "No test looks at event order, and the chaining listener is not even compiled by any test.",
  ["api/gc-event-listener.h", "api/gc-event-listener-chain.h", "src/mmc.c", "src/pcc.c", "src/semi.c", "doc/manual.md"],
  [("notifications", "HEAP_EVENT and MUTATOR_EVENT call sites"), ("chaining", "api/gc-event-listener-chain.h")],
  ["the sequence of listener callbacks and their arguments"])
prop("C20", "Reported statistics describe what happened",
  "The bundled statistics listener counts each collection once as major or minor according to its kind, tracks current and maximum heap and live sizes, and its pause histogram records every pause in the bucket whose range contains it, so that the reported minimum, maximum, count and percentiles bracket the recorded values.",
  ["inputs", "histories"],
  "every 64-bit magnitude and bucket boundary for the histogram arithmetic over all supported precisions, and all bounded event sequences for the statistics",
  "The statistics are only printed; nothing compares them with what happened.",
  ["api/gc-basic-stats.h", "api/gc-histogram.h"],
  [("bucketing", "api/gc-histogram.h:gc_histogram_bucket, gc_histogram_bucket_min_val"), ("counters", "api/gc-basic-stats.h")],
  ["statistics fields after a known event sequence"])
prop("C21", "The heap size follows the chosen policy",
  "With the fixed policy the heap size never changes; with the growable policy it never shrinks and after each collection is at least the live data times the configured multiplier; with the adaptive policy it stays between the policy's minimum and maximum for the live data. Whatever the policy, resizing never disturbs live objects and each change is reported once with the new size.",
  ["histories", "inputs", "configurations"],
  "all bounded sequences of growing and shrinking live data, collections and elapsed time under each policy and several parameters, on every collector variant",
  "Tests run one workload per policy and check nothing about the resulting size; the adaptive policy crashes several collectors in the baseline.",
  ["src/heap-sizer.h", "src/growable-heap-sizer.h", "src/adaptive-heap-sizer.h", "src/mmc.c", "src/pcc.c", "src/semi.c", "src/nofl-space.h", "src/copy-space.h"],
  [("sizers", "src/growable-heap-sizer.h, src/adaptive-heap-sizer.h"), ("resizing", "resize_heap in each collector; nofl_space_expand/shrink, copy_space_expand/contract")],
  ["heap_resized and live_data_size events", "object contents", "how much can be kept live"])
prop("C22", "Large objects live and die individually and never alias",
  "Objects above the large-object threshold are retained exactly while reachable, never move, keep all their bytes across page boundaries, and their freed memory, including when cached, split, merged, aged and returned to the system, is reused only for new objects and handed out zeroed.",
  ["histories", "configurations"],
  "all bounded sequences of large allocations of several page counts, drops, collections and elapsed housekeeping time, on every collector variant",
  "The benchmarks keep at most one large object, and never reuse cached large-object memory of a different size.",
  ["src/large-object-space.h", "src/splay-tree.h", "src/freelist.h"],
  [("free tree and freelists", "src/large-object-space.h:large_object_space_alloc, large_object_space_reclaim_one"), ("quarantine", "src/large-object-space.h:large_object_space_process_quarantine")],
  ["addresses and bytes of large objects", "total memory obtained from the system"])
prop("C23", "Options are parsed and set exactly as documented",
  "A textual option list is accepted exactly when every item names a known option and gives a well-formed value in that option's range, accepted values are stored exactly (sizes with their unit suffix, without wrap-around or truncation), and a rejected value leaves that option unchanged. Setting an option through a setter of another type is rejected.",
  ["inputs"],
  "all option strings up to a bounded length over a small alphabet of tokens, numbers at every range and overflow boundary, suffixes and separators; all option and setter combinations",
  "Tests pass a handful of valid strings and nothing checks what was stored.",
  ["src/gc-options.c", "src/gc-options-internal.h", "api/gc-options.h"],
  [("parsers and range checks", "src/gc-options.c:parse_size, parse_int, parse_double, gc_options_parse_and_set_many")],
  ["return value of the option functions and the effect of the stored value"])
prop("C24", "Address maps, sets and splay trees behave as maps and sets",
  "After any sequence of insertions, updates, removals, clears, unions and lookups, the address map and address set hold exactly the keys (and latest values) they should, iterate over each exactly once, and the splay tree of address spans answers every lookup, including addresses inside, at the ends of, and between spans, as an ordered map would.",
  ["histories", "inputs"],
  "all operation sequences up to a bounded length over small key sets, including sets of keys whose hashes collide and wrap around the table end, and tables at their growth and shrink thresholds",
  "The unit tests insert and remove one long run of consecutive keys in one order; collisions, wrap-around and mixed orders are accidental.",
  ["src/address-map.h", "src/address-set.h", "src/address-hash.h", "src/splay-tree.h"],
  [("robin-hood hashing", "src/address-map.h, src/address-set.h"), ("splaying", "src/splay-tree.h")],
  ["lookup, containment and iteration results versus a reference map"])
prop("C25", "Side-table scans and size classes are exact at every boundary",
  "Scanning side metadata for the next marked, ended or tagged byte returns the first match at or after the start for every alignment and length, size-class arithmetic maps every size to a class that can hold it and back, address-extent lookup answers exactly for every registered range, and hashing addresses is invertible.",
  ["inputs"],
  "all byte patterns up to symmetry over two machine words for every start alignment and limit; all sizes up to several size-class ranges and all power-of-two boundaries; all sequences of a few adjoining or separate extents",
  "Boundary cases of the word-at-a-time scans depend on alignment and neighbouring bytes that benchmarks hit without checking.",
  ["src/swar.h", "src/freelist.h", "api/gc-histogram.h", "src/extents.h", "src/address-hash.h"],
  [("word-parallel scans", "src/swar.h"), ("size classes", "src/freelist.h, api/gc-histogram.h"), ("extents", "src/extents.h")],
  ["function results versus byte-at-a-time references"])
prop("C26", "The allocation counter counts allocated bytes",
  "The allocation counter never decreases, and over any interval between two collections it grows by at least the bytes of the objects allocated in it that the collector has accounted for and by no more than those bytes plus bounded rounding per object and per allocation area.",
  ["histories", "configurations"],
  "all bounded sequences of small, medium and large allocations and collections of every kind, reading the counter after each step, on every collector variant",
  "Nothing in the tests reads the counter; only the adaptive policy consumes it.",
  ["src/mmc.c", "src/pcc.c", "src/semi.c", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h"],
  [("counters", "allocation_counter in each collector; *_add_to_allocation_counter")],
  ["gc_allocation_counter"])
prop("C27", "Background housekeeping is invisible to the program",
  "Periodic housekeeping (returning unused memory to the system, ageing cached memory, re-estimating the heap size) may run at any moment relative to allocation and collection without changing any live object, blocking the program forever, or losing memory; each registered task runs once per period in priority order and never after it is removed.",
  ["schedules", "histories"],
  "all interleavings up to a preemption bound of housekeeping ticks with allocating and collecting mutators, and all bounded sequences of registering, removing and ticking tasks",
  "Housekeeping runs once per second, so short tests see it a few times at arbitrary points.",
  ["src/background-thread.h", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h", "src/adaptive-heap-sizer.h"],
  [("task loop", "src/background-thread.h"), ("page-out", "nofl_space_page_out_blocks, copy_space_page_out_blocks, large_object_space_process_quarantine")],
  ["object contents", "task invocation order", "further allocations succeeding"])
prop("C28", "External objects take part in collection",
  "References to objects outside the heap's own memory are passed to the embedder's external space once per reference visited in a collection, never treated as heap memory; external objects the embedder reports as newly visited have their references traced, so heap objects reachable only through them survive and their references are updated. The embedder is told of the start and finish of each collection with the right kind.",
  ["histories", "configurations"],
  "all bounded graphs mixing heap, large and external objects, with all collection kinds, on every collector variant",
  "Every benchmark's embedder aborts on external objects, so this code never runs in any test.",
  ["src/mmc.c", "src/pcc.c", "src/semi.c", "api/gc-embedder-api.h"],
  [("external dispatch", "trace_edge and visit_external_object in each collector")],
  ["external-space callbacks", "object graph"])
prop("C29", "Inlined fast paths agree with the collector",
  "Code that allocates, checks generations, logs stores or polls safepoints inline by following only the published per-collector attributes has the same effect as calling the out-of-line entry points: the same storage becomes usable, the same objects are reported old, and the same stores are remembered.",
  ["histories", "configurations", "inputs"],
  "all bounded operation sequences with inline and out-of-line variants chosen independently at each step, for every object size and kind, on every collector variant",
  "Benchmarks always take the fast path first and the slow path only on its failure, so a disagreement between them is never compared.",
  ["api/gc-api.h", "api/gc-attrs.h", "api/mmc-attrs.h", "api/pcc-attrs.h", "api/semi-attrs.h", "src/mmc.c", "src/pcc.c", "src/semi.c"],
  [("published attributes", "api/*-attrs.h"), ("inline code", "api/gc-api.h:gc_allocate_fast, gc_object_is_old_generation, gc_write_barrier_fast, gc_safepoint")],
  ["allocation side effects, generation checks, survival of logged stores"])
prop("C30", "Refusals by the operating system never corrupt the heap",
  "If the operating system refuses a request for memory or a thread at any point, start-up fails or the program is terminated, or the collector carries on without what was refused; it never returns storage that is not backed by memory, never loses live objects, and never hangs.",
  ["fault_sequences", "configurations"],
  "every single refusal and every pair of refusals of a memory or thread request within a bounded history, on every collector variant",
  "Memory requests never fail in the tests.",
  ["src/gc-platform-gnu-linux.c", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h", "src/parallel-tracer.h", "src/semi.c"],
  [("error returns", "gc_platform_acquire_memory users")],
  ["process outcome and object contents after the refusal"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
