#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One place to edit the property texts."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})
S = "src/umpire/strategy/"; U = "src/umpire/util/"; R = "src/umpire/resource/"; T = "src/umpire/"

prop("P01", "Live allocations are non-null, disjoint, fully usable and keep their contents",
 "Every successful allocation from any allocator (resource, pool, wrapper or any composition of them) returns a non-null block whose requested bytes are all writable and which shares no byte with any other live allocation. "
 "The bytes a user wrote to a live allocation stay unchanged by every later allocate, deallocate, release or coalesce on any allocator until that allocation is freed. "
 "No allocator writes outside the memory it obtained from the allocator below it.",
 ["histories", "configurations", "inputs"], "all sequences of allocate/deallocate/release/coalesce with all sizes, over all allocator compositions and all ways the parent places its blocks",
 "The integration tests run a few fixed sequences per strategy and cannot cover the histories in which blocks are split, merged and re-carved; the 33 stable tests do not even build the strategies.",
 [S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"FixedPool.cpp", S+"MixedPool.cpp", S+"SlotPool.cpp", S+"MonotonicAllocationStrategy.cpp", S+"AlignedAllocator.cpp", T+"Allocator.inl"],
 [("chunk split / merge", S+"QuickPool.cpp allocate/deallocate"), ("free list split / merge", S+"DynamicSizePool.hpp splitBlock/releaseBlock"), ("bitmap of free objects", S+"FixedPool.cpp allocInPool")],
 ["pointers returned by Allocator::allocate", "contents of the returned memory", "bytes of the parent's memory outside handed-out blocks"])

prop("P02", "Pool and aligned allocators honour the promised alignment",
 "Every non-empty allocation from a pool created with alignment A, or from an aligned allocator with alignment A, starts at a multiple of A whatever the address the parent returned, and the whole requested size fits inside the parent's block. "
 "An aligned allocator can only be created with a power of two of at least 16.",
 ["histories", "configurations", "inputs"], "all alignments, request sizes, parent placements (including parents that return minimally aligned addresses) and histories",
 "Tests only use malloc-backed parents, which already return 16-byte aligned addresses, so a missing alignment step is invisible to them.",
 [S+"mixins/AlignedAllocation.inl", S+"AlignedAllocator.cpp", S+"QuickPool.cpp", S+"DynamicSizePool.hpp"],
 [("round up and mask", S+"mixins/AlignedAllocation.inl"), ("header word and mask", S+"AlignedAllocator.cpp")],
 ["pointers returned by Allocator::allocate"])

prop("P03", "Pointer introspection always agrees with the set of live tracked allocations",
 "For every address, asking whether it belongs to an allocator, which allocator, and what its allocation record and size are gives exactly the live tracked allocation that contains it (base, interior or last byte), and reports unknown for addresses before it, one past its end, already freed, or from an untracked allocator. "
 "Listing the records of an allocator yields each of its live tracked allocations exactly once, with the right size and name, and nothing else.",
 ["histories", "inputs", "configurations"], "all histories of tracked and untracked allocate/deallocate over several allocators and all probe addresses",
 "Tests query a handful of pointers after one or two allocations; they do not query every boundary address after every history.",
 [T+"ResourceManager.cpp", T+"Umpire.cpp", U+"AllocationMap.cpp", S+"mixins/Inspector.cpp", T+"Allocator.inl"],
 [("allocation map lookup of containing block", U+"AllocationMap.cpp doFindRecord"), ("register/deregister", S+"mixins/Inspector.cpp")],
 ["ResourceManager::hasAllocator/getAllocator/getSize/findAllocationRecord", "umpire::get_allocator_records"])

prop("P04", "Allocator statistics equal the history of allocations",
 "At every point, a tracked allocator's current size is the sum of the sizes of its live allocations, its allocation count is their number, and its high watermark is the largest current size seen so far, including for the parents underneath pools and wrappers, which account exactly for the memory requested from them. "
 "Statistics return to zero when everything has been freed. (A monotonic allocator instead reports the bytes handed out so far and its capacity; a fixed pool counts whole objects.)",
 ["histories", "configurations"], "all histories of allocate/deallocate/reallocate/move, including failed ones, over all allocator compositions",
 "Tests compare the counters after one or two operations on one allocator at a time.",
 [S+"AllocationStrategy.cpp", S+"mixins/Inspector.cpp", S+"NamingShim.cpp", S+"AlignedAllocator.cpp", S+"SizeLimiter.cpp", S+"FixedPool.cpp", "src/umpire/op/HostReallocateOperation.cpp"],
 [("internal allocate/deallocate accounting", S+"AllocationStrategy.cpp"), ("tracked accounting", S+"mixins/Inspector.cpp")],
 ["getCurrentSize, getHighWatermark, getAllocationCount of every allocator in the composition"])

prop("P05", "A refused allocation has no lasting effect and can be retried",
 "When the memory source underneath refuses a request at any point, the allocation call reports an error (an out-of-memory error naming the allocator and requested size when that is what the source reported) and leaves every live allocation, statistic, record and remaining capacity as if the call had not been made, except that pools may first give their unused blocks back. "
 "A later request that the source can satisfy succeeds, and a quick or list pool whose request is refused retries after giving back its unused blocks. "
 "Freeing memory never fails or terminates the program because the source refuses.",
 ["fault_sequences", "histories", "configurations"], "every subset of parent calls refused (bounded number), at every point of every history, for every allocator composition",
 "No existing test makes a parent refuse at a chosen call, let alone at every call.",
 [S+"AllocationStrategy.cpp", S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"SizeLimiter.cpp", S+"SlotPool.cpp", S+"FixedPool.cpp", T+"Allocator.inl"],
 [("retry after release", S+"QuickPool.cpp allocate"), ("retry after release", S+"DynamicSizePool.hpp allocateBlock"), ("out-of-memory annotation", T+"Allocator.inl do_allocate")],
 ["exceptions", "statistics and introspection after the failure", "behaviour of subsequent operations"])

prop("P06", "Memory taken from a parent is given back exactly once and in full",
 "Every block an allocator obtains from its parent is returned to that parent at most once, with the address and (for pools and for wrappers that track their allocations) the size it was obtained with, and never while part of it is handed out to a user. "
 "Releasing a quick, list or fixed pool returns every block that holds no live allocation and keeps all others; destroying an allocator with no live allocations returns everything.",
 ["histories", "configurations"], "all histories of allocate/deallocate/release/coalesce/destroy over all allocator compositions",
 "Tests check one release on one pool and look only at the actual-size counter, not at what the parent really received.",
 [S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"FixedPool.cpp", S+"SlotPool.cpp", S+"MonotonicAllocationStrategy.cpp", S+"AlignedAllocator.cpp", S+"mixins/AlignedAllocation.inl"],
 [("release of whole free chunks", S+"QuickPool.cpp release"), ("freeReleasedBlocks", S+"DynamicSizePool.hpp"), ("base pointer map", S+"mixins/AlignedAllocation.inl")],
 ["calls received by an instrumented parent allocator"])

prop("P07", "Pools reuse freed memory before asking the parent, and coalesce as configured",
 "A quick, list, fixed or mixed pool serves a request without calling its parent whenever some contiguous free space it already holds is large enough, and adjacent free pieces of one parent block count as contiguous. "
 "When the configured heuristic (percentage or number of releasable blocks, with or without high-watermark tuning) asks for it on a deallocate or an explicit coalesce, all releasable blocks are given back and at most one new block is taken, large enough to restore the former actual size (or the high watermark) unless the free space that remains covers it; otherwise freeing neither takes nor gives back blocks. "
 "A newly requested block is never smaller than the configured first or next minimum size.",
 ["histories", "configurations", "inputs"], "all histories of allocate/deallocate/release/coalesce, for every heuristic and pool configuration",
 "Tests exercise each heuristic with one scripted sequence; fragmentation states reached by other histories are not covered.",
 [S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"DynamicPoolList.cpp", S+"MixedPool.cpp", S+"SlotPool.cpp", S+"FixedPool.cpp"],
 [("best fit search", S+"QuickPool.cpp / "+S+"DynamicSizePool.hpp"), ("coalesce heuristics", S+"QuickPool.cpp / "+S+"DynamicPoolList.cpp")],
 ["calls received by an instrumented parent allocator", "pool size queries"])

prop("P08", "Pool size queries describe the memory the pool really holds",
 "At every point a pool's reported actual size, number of blocks, releasable size and blocks, largest available block, aligned size and their high watermarks equal the values computed from the blocks it holds from its parent and the allocations living in them. "
 "In particular they return to their initial values once everything is freed and released.",
 ["histories", "configurations"], "all histories of allocate/deallocate/release/coalesce over all pool kinds and configurations",
 "Tests assert these numbers in a few scripted states only.",
 [S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"DynamicPoolList.cpp", S+"FixedPool.cpp", S+"MixedPool.cpp"],
 [("incremental counters", S+"QuickPool.cpp"), ("incremental counters and list walks", S+"DynamicSizePool.hpp"), ("actual bytes", S+"FixedPool.cpp")],
 ["getActualSize, getReleasableSize, getReleasableBlocks, getTotalBlocks, getBlocksInPool, getLargestAvailableBlock, getAlignedSize, high watermarks"])

prop("P09", "Capacity-limited allocators never exceed their limit nor lose capacity",
 "A size limiter never lets the live bytes taken through it exceed its limit, a monotonic allocator never hands out more than its capacity, and a slot allocator never holds more parent blocks than its slots; a request that does not fit raises an error and changes nothing. "
 "Every request that does fit is granted, and freeing restores the limiter's capacity in full and makes the slot serve the next request of its size.",
 ["histories", "inputs", "fault_sequences"], "all histories of allocate/deallocate with all sizes up to the largest representable one, with and without parent failures",
 "Tests check one over-limit request each; wrap-around sizes and repeated failures are not covered.",
 [S+"SizeLimiter.cpp", S+"MonotonicAllocationStrategy.cpp", S+"SlotPool.cpp", S+"FixedPool.cpp"],
 [("running total against limit", S+"SizeLimiter.cpp"), ("bump offset against capacity", S+"MonotonicAllocationStrategy.cpp"), ("slot table", S+"SlotPool.cpp")],
 ["exceptions", "bytes outstanding at an instrumented parent"])

prop("P10", "Invalid frees are rejected and change nothing",
 "Deallocating through a tracked allocator a pointer that is not the start of one of its own live allocations (freed already, interior, one past the end, never allocated, or owned by another allocator) raises an error and leaves all allocations, records, names and statistics unchanged; deallocating null through an allocator does nothing. "
 "The real owner can still free the allocation afterwards, either directly or through the resource manager.",
 ["histories", "inputs", "configurations"], "all histories over several allocators with an invalid free of every kind inserted at every point",
 "Tests try one foreign and one double free on fresh allocators and do not check that nothing else changed.",
 [T+"Allocator.inl", S+"mixins/Inspector.cpp", U+"AllocationMap.cpp", T+"ResourceManager.cpp"],
 [("deregister, compare owner, re-register", S+"mixins/Inspector.cpp"), ("exact-key removal", U+"AllocationMap.cpp remove")],
 ["exceptions", "introspection and statistics before and after"])

prop("P11", "Copy and memset touch exactly the requested bytes and never leave an allocation",
 "Copying or setting memory through the resource manager affects exactly the requested bytes starting at the given (possibly interior, not overlapping) addresses, where length zero means up to the end of the source or target allocation, and changes no other byte. "
 "A request that would read past the end of the source allocation, write past the end of the destination allocation, or uses an unknown pointer raises an error before any byte is changed; the asynchronous forms behave identically.",
 ["inputs", "configurations", "histories"], "all source/destination offsets and lengths, over all pairs of host allocators, synchronous and asynchronous",
 "Tests use a few offsets and one too-large case; they do not enumerate offset and length combinations around both ends.",
 [T+"ResourceManager.cpp", "src/umpire/op/HostCopyOperation.cpp", "src/umpire/op/HostMemsetOperation.cpp", "src/umpire/op/MemoryOperation.cpp"],
 [("size checks against records", T+"ResourceManager.cpp copy/memset")],
 ["contents of both allocations and surrounding memory", "exceptions"])

prop("P12", "Reallocate and move preserve data, ownership and accounting",
 "Reallocating a live allocation yields one live allocation of the new size in the same allocator that keeps the first min(old,new) bytes, replaces the old record by an unnamed one, and leaves current size and allocation count as if the old block had been freed and the new one allocated (the high watermark may count both); null reallocates as a fresh allocation from the default or given allocator, size zero yields an empty allocation, and interior or unknown pointers or a different allocator are rejected with nothing changed. "
 "Moving to another tracked allocator yields the same contents and size owned by the target with the source freed, and moving to the same allocator returns the pointer unchanged. "
 "If the new memory cannot be obtained or the data cannot be copied to it, an error is raised, the old allocation stays valid and tracked, and no other block is left behind.",
 ["histories", "inputs", "fault_sequences", "configurations"], "all histories mixing allocate, reallocate, move and deallocate over allocator pairs, sizes including zero, and refusals",
 "Tests reallocate and move each allocator a fixed number of times and never with a refusing source; they do not compare statistics.",
 [T+"ResourceManager.cpp", "src/umpire/op/HostReallocateOperation.cpp", "src/umpire/op/GenericReallocateOperation.cpp"],
 [("realloc and re-register", "src/umpire/op/HostReallocateOperation.cpp"), ("allocate, copy, free", "src/umpire/op/GenericReallocateOperation.cpp"), ("move", T+"ResourceManager.cpp move")],
 ["returned pointer, contents, introspection, statistics"])

prop("P13", "Zero-byte allocations behave like ordinary, distinct, empty allocations",
 "Allocating zero bytes from any allocator returns a non-null pointer distinct from every other live allocation, tracked with size zero under that allocator, consuming no memory from it, and it can be freed exactly once through its allocator or the resource manager. "
 "Zero-byte allocations never disturb other allocations or statistics other than the allocation count.",
 ["histories", "configurations"], "all histories mixing zero-byte and ordinary allocations over several allocators, including enough zero-byte allocations to grow the internal pool",
 "Tests allocate a handful of zero-byte blocks from one allocator.",
 [S+"mixins/AllocateNull.cpp", S+"FixedPool.cpp", T+"Allocator.inl", R+"NullMemoryResource.cpp"],
 [("shared zero-byte pool", S+"mixins/AllocateNull.cpp"), ("reserved address space", R+"NullMemoryResource.cpp")],
 ["returned pointers", "introspection and statistics", "parent calls"])

prop("P14", "Allocator names, ids, aliases and the default allocator stay consistent",
 "Every allocator ever created is found under its name, its id and its aliases, ids are never reused, and looking any of them up yields that same allocator; creating an allocator under a name already in use (or one whose construction fails) raises an error and leaves the registry unchanged. "
 "Aliases can be added only under unused names and removed only by naming their owner, never removing real names; unknown names and ids are reported as unknown; the default allocator is the one last set, or the host resource.",
 ["histories", "inputs"], "all sequences of create, look up, alias, un-alias, set default and failed creations over a small set of names",
 "Tests check each registry call once on a fresh registry.",
 [T+"ResourceManager.cpp", T+"ResourceManager.inl", R+"MemoryResourceRegistry.cpp"],
 [("name and id maps", T+"ResourceManager.cpp"), ("duplicate check", T+"ResourceManager.inl makeAllocator")],
 ["getAllocator(name|id|type), isAllocator, getAllocatorNames, getAllocatorIds, getDefaultAllocator"])

prop("P15", "The pointer-keyed ordered map equals a reference ordered map",
 "For every sequence of insertions, removals, lookups, clears and iterations over arbitrary non-null addresses, the ordered pointer map behaves like a standard ordered map: exact lookup finds exactly the present keys, predecessor lookup finds the greatest key not above the argument, iteration visits all keys once in increasing order from any starting point, inserting a present key keeps the old value, and the reported size is the number of keys. "
 "Values stay at a stable location and unchanged until their key is removed.",
 ["histories", "inputs"], "all operation sequences over key sets that share every length of address prefix and reach every internal node size",
 "Unit tests insert a few keys; the trie's node splitting, growth and shrinking depends on the set and order of keys, which has astronomically many cases.",
 [U+"MemoryMap.hpp", U+"MemoryMap.inl", "src/tpl/umpire/judy/judy.c", U+"FixedMallocPool.cpp"],
 [("Judy trie", "src/tpl/umpire/judy/judy.c"), ("iterator re-seek", U+"MemoryMap.inl operator++")],
 ["MemoryMap public interface", "judy_* functions"])

prop("P16", "The allocation record map finds the record containing an address, newest first",
 "Inserting, finding, removing and clearing allocation records behaves like a reference multimap: a lookup returns the most recently inserted record of the nearest start address not above the argument if that record contains the address (a start address always matches itself), removal takes the most recent record of exactly that start address, and unknown addresses are reported without changing anything. "
 "The size, iteration and printed listing always contain every inserted and not yet removed record exactly once, newest first per address and in address order.",
 ["histories", "inputs"], "all operation sequences over addresses with equal, adjacent and nested ranges",
 "Unit tests cover a few scripted insertions; interplay of repeated addresses, nested ranges and removal order is unbounded.",
 [U+"AllocationMap.cpp", U+"AllocationMap.hpp", U+"MemoryMap.inl"],
 [("record lists per address", U+"AllocationMap.cpp RecordList"), ("containing-record lookup", U+"AllocationMap.cpp doFindRecord")],
 ["AllocationMap public interface"])

prop("P17", "Internal object pools hand out distinct slots and recycle them",
 "The internal fixed-size object pools hand out slots that never overlap while live, whose contents are untouched by other allocations and frees, and that lie in memory owned by the pool; freed slots are reused before new memory is obtained. "
 "Freeing an address that is not from the pool is reported and changes nothing, and the lowest-set-bit search they use is exact for every word.",
 ["histories", "inputs"], "all allocate/free sequences over pools of all small capacities and object sizes, across several growths",
 "No stable test exercises these pools across growth; the free-list encoding inside freed slots depends on order.",
 [U+"FixedMallocPool.cpp", U+"find_first_set.hpp", S+"FixedSizePool.hpp", S+"FixedPool.cpp"],
 [("in-slot free list", U+"FixedMallocPool.cpp"), ("bitmap search", U+"find_first_set.hpp")],
 ["returned slot addresses and contents", "number of underlying pools"])

prop("P18", "Threads using different allocators never disturb each other's allocations",
 "When several threads allocate, query, and free concurrently through allocators that they do not share, every interleaving gives each thread the results it would get alone, leaves exactly the live allocations tracked, has no data race, and never deadlocks. "
 "This includes zero-byte allocations and creating allocators concurrently under different names.",
 ["schedules", "histories"], "all interleavings (bounded number of preemptions) of small per-thread operation sequences",
 "Tests with real threads sample a few of the possible interleavings and cannot force the bad ones.",
 [U+"AllocationMap.cpp", T+"ResourceManager.cpp", T+"ResourceManager.inl", S+"mixins/AllocateNull.cpp"],
 [("lock around the allocation map", U+"AllocationMap.cpp"), ("lock around allocator creation", T+"ResourceManager.inl")],
 ["per-thread results", "final introspection", "happens-before of all memory accesses"])

prop("P19", "A thread-safe allocator is linearizable and race free",
 "Any number of threads may allocate (named or not, including zero bytes) and free through the same thread-safe allocator, over any pool, in any interleaving: live allocations never overlap, each is owned by exactly one thread, the outcome equals some sequential order, there is no data race and no deadlock, including when the underlying allocator refuses. "
 "Frees through the resource manager count as frees through the thread-safe allocator.",
 ["schedules", "histories", "fault_sequences"], "all interleavings (bounded number of preemptions) of small per-thread operation sequences, over several underlying pools, with and without refusals",
 "Tests run OpenMP loops that sample schedules; they pass with rare races present.",
 [S+"ThreadSafeAllocator.cpp", T+"Allocator.cpp", T+"Allocator.inl", U+"AllocationMap.cpp"],
 [("allocator-wide mutex held for the whole call", T+"Allocator.inl thread_safe_*")],
 ["per-thread results", "statistics and introspection at quiescence", "happens-before of all memory accesses"])

prop("P20", "File-backed memory creates, maps and removes its files cleanly",
 "Every allocation from the file resource is backed by its own new file in the configured directory, at least as large as requested, zero filled and private to that allocation, and freeing it unmaps it and removes its file so that no file, mapping or descriptor remains. "
 "If any step of obtaining the file or mapping fails, the call raises an error and leaves no file, mapping, descriptor or record behind.",
 ["histories", "fault_sequences", "inputs"], "all allocate/free sequences with every system call failing at every point, and all sizes around page boundaries",
 "Tests allocate and free one file at a time and never fail a system call.",
 [R+"FileMemoryResource.cpp", R+"FileMemoryResource.hpp"],
 [("open, unlink-on-free, ftruncate, mmap", R+"FileMemoryResource.cpp")],
 ["directory listing", "system calls made", "memory contents", "open descriptors"])

prop("P21", "Named shared memory is one object per name, counted, disjoint and recycled",
 "Allocations of the same name in one shared segment refer to the same bytes and are freed for good only when every holder has freed them; different names never overlap each other or the segment's bookkeeping, and every byte requested is usable. "
 "Looking up a name finds the live allocation or nothing (and raises an error for an allocator that is not shared memory), freed space is merged and usable again, the reported used size returns to its initial value when everything is freed, and a request that does not fit raises an out-of-memory error and changes nothing.",
 ["histories", "inputs", "configurations"], "all sequences of named allocate, free and lookup through one or more attachments of a segment, over names and sizes that exactly, nearly and do not fit",
 "Tests allocate one or two names in a large segment and never fill, fragment or merge it.",
 [R+"HostSharedMemoryResourceImpl.hpp", R+"HostSharedMemoryResource.cpp"],
 [("offset-linked free/used lists", R+"HostSharedMemoryResourceImpl.hpp"), ("reference count per name", R+"HostSharedMemoryResourceImpl.hpp allocate_named/deallocate")],
 ["returned pointers and contents across attachments", "getActualSize", "find_pointer_from_name"])

prop("P22", "Processes can attach to and use a shared segment in any interleaving",
 "Whatever the interleaving of processes creating or opening the same segment for the first time, exactly one initialises it, no process touches it before it is fully initialised, all end up with the same segment, and nobody waits forever. "
 "Concurrent named allocations, lookups and frees by attached processes behave as if executed one at a time, and two processes that attach and detach again and again always have a segment that works and leave none behind.",
 ["schedules", "fault_sequences"], "all interleavings (bounded number of preemptions) of two or three attaching processes and their operations, at the granularity of system calls, lock operations and flag accesses",
 "Tests need MPI and sample whatever start-up order happens; the window between creation and initialisation is a few microseconds.",
 [R+"HostSharedMemoryResourceImpl.hpp"],
 [("exclusive create then initialise flag", R+"HostSharedMemoryResourceImpl.hpp constructor"), ("process-shared mutex", R+"HostSharedMemoryResourceImpl.hpp")],
 ["results in every process", "final segment contents", "accesses to the segment before initialisation"])

prop("P23", "The event log records every operation faithfully and stays parseable",
 "With event recording enabled, every allocator creation, allocation, named allocation, free, copy, memset, reallocate, move, and coalesce that succeeds appears in the log exactly once (a reallocate as its request and its result), in order, with the right allocator, pointer, size and name, and every log line is valid JSON for any name. "
 "With recording disabled nothing is written and results are the same.",
 ["histories", "inputs", "configurations"], "all short histories of public operations and all names including characters special to JSON",
 "Tests compare one recorded program with a stored log; they do not vary the history or the names.",
 ["src/umpire/event/event.hpp", "src/umpire/event/json_file_store.cpp", "src/umpire/event/event_json.hpp", "src/umpire/event/recorder_factory.cpp", T+"Allocator.inl", T+"ResourceManager.cpp"],
 [("record calls", T+"Allocator.inl, "+T+"ResourceManager.cpp"), ("line writer", "src/umpire/event/json_file_store.cpp")],
 ["contents of the event file"])

prop("P24", "Log and error output is complete, ordered, filtered and never overwrites a log",
 "Every character written to the library's output streams reaches each configured sink exactly once and in order, an absent sink is skipped, failure of a sink is reported, and flushing flushes every sink. "
 "Messages are emitted exactly when their level is enabled by the (case-insensitive) configured level, with the documented prefix, and the default level is informational. "
 "A new log file gets the lowest-numbered file name of its series that does not exist yet, so no existing file is reused.",
 ["inputs", "configurations", "histories"], "all sink combinations, sink changes, characters (including byte 255), write sizes, levels, level spellings, and sets of existing files",
 "The one stable test writes one string to two good sinks.",
 [U+"OutputBuffer.cpp", U+"Logger.cpp", U+"Logger.hpp", U+"io.cpp", U+"Macros.hpp"],
 [("per-character tee", U+"OutputBuffer.cpp overflow"), ("level table", U+"Logger.cpp"), ("unique name search", U+"io.cpp")],
 ["contents of the sinks", "stream state", "file names"])

prop("P25", "The C interface gives the same results as the C++ interface",
 "Each C function that creates, looks up, queries, allocates, frees, copies, sets, reallocates or moves has the same effect and result as the corresponding C++ call with the same arguments, and handles returned by it refer to the same allocators. "
 "Strings are passed through unchanged and deleting a handle never affects the allocator or its allocations.",
 ["histories", "inputs"], "all short histories of C calls mirrored by C++ calls",
 "The C tests check that calls succeed, not that argument order, defaults and units match the C++ interface.",
 ["src/umpire/interface/c_fortran/wrapAllocator.cpp", "src/umpire/interface/c_fortran/wrapResourceManager.cpp", "src/umpire/interface/c_fortran/wrapUmpire.cpp"],
 [("thin wrappers", "src/umpire/interface/c_fortran")],
 ["results and statistics of both interfaces"])

prop("P26", "Overlap, containment and fragmentation queries are exact",
 "For every pair of tracked ranges, left overlaps right exactly when right starts inside left and ends beyond its end, and left contains right exactly when right starts inside left and ends no later; an address inside a range stands for that range, and an unknown pointer raises an error. "
 "The fragmentation measure of any ordered list of records terminates and, if there is a gap, equals one minus the largest gap divided by the total of the gaps; otherwise it lies between zero and one.",
 ["inputs"], "all pairs of ranges over a small address line and all lists of up to four records",
 "There is no stable test; the existing tests check two overlapping and two disjoint pairs.",
 [T+"Umpire.cpp", U+"allocation_statistics.cpp"],
 [("range comparison", T+"Umpire.cpp pointer_overlaps/pointer_contains"), ("gap scan", U+"allocation_statistics.cpp")],
 ["return values", "termination"])

prop("P27", "Unsatisfiable sizes are refused by every allocator",
 "A request so large that size plus the allocator's own overhead or rounding (or element count times element size) cannot be represented or obtained raises an error from every allocator and leaves it unchanged, apart from pools giving unused blocks back; it never returns a block smaller than requested, and pools whose own sizes, given when they are made, cannot be satisfied are refused when made or used. "
 "The typed allocator obtains exactly the element count times the element size from its allocator and frees it exactly.",
 ["inputs", "configurations", "histories"], "all sizes within a window below the largest representable size and around powers of two, for every allocator kind and composition, after every short history",
 "Tests use moderate sizes and at most one huge request on the host resource.",
 [S+"mixins/AlignedAllocation.inl", S+"AlignedAllocator.cpp", S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"MonotonicAllocationStrategy.cpp", S+"SizeLimiter.cpp", T+"TypedAllocator.inl", R+"FileMemoryResource.cpp", R+"HostSharedMemoryResourceImpl.hpp"],
 [("round up", S+"mixins/AlignedAllocation.inl"), ("element size multiplication", T+"TypedAllocator.inl")],
 ["exceptions", "block obtained from an instrumented parent"])

prop("P28", "An allocator describes itself and the stack it stands on truthfully",
 "For every stack of allocators, each one reports the name, unique id, kind and tracking it was created with, the allocator it was created on as its parent, and the platform, traits and accessibility of the resource at the bottom of its stack; a new allocator is empty and appears exactly once in the lists of names and ids. "
 "It can be unwrapped as exactly the kind it is, coalescing works exactly on quick and list pools and is reported as an error elsewhere, and using the stack changes none of these answers.",
 ["configurations", "histories"], "all stacks of up to four strategies on every host resource, tracked or not, before, during and after use",
 "Tests ask single-layer allocators; answers forwarded through two or more layers are not asked.",
 [T+"Allocator.cpp", T+"Umpire.cpp", S+"AllocationStrategy.cpp", U+"wrap_allocator.hpp", S+"QuickPool.cpp", S+"MixedPool.cpp", R+"MemoryResourceRegistry.cpp"],
 [("forwarding getters", S+"*.cpp getPlatform/getTraits"), ("root walk", T+"Umpire.cpp is_accessible"), ("registration", T+"ResourceManager.inl makeAllocator")],
 ["answers of the queries"])

prop("P29", "A program can end at any point and its leaks are reported exactly",
 "Whatever was allocated, freed or released before, a program that ends normally ends without a crash: every allocator is destroyed before the allocator it stands on and uses it no more afterwards, gives back what it obtained at most once and with its right size, gives back everything if nothing obtained from it is live (a quick or list pool: every block that holds no live allocation), and no backing file remains. "
 "The log then names each tracked allocator that still has bytes allocated, once, with their number and exactly its live allocation records, and no other.",
 ["histories", "configurations"], "all programs of up to four allocations and frees at every level of one- and two-layer stacks on host and file memory, then the end of the program",
 "Tests end with everything freed, and look neither at what happens after main nor at the leak report.",
 [T+"ResourceManager.cpp", S+"QuickPool.cpp", S+"DynamicSizePool.hpp", S+"FixedPool.cpp", S+"SlotPool.cpp", S+"MonotonicAllocationStrategy.cpp", R+"FileMemoryResource.cpp", U+"io.cpp"],
 [("destruction in reverse order of creation and leak report", T+"ResourceManager.cpp destructor"), ("strategy destructors", S+"*.cpp")],
 ["exit status", "calls to instrumented parents", "log file", "files left"])

prop("P30", "Replaying a recorded session repeats it",
 "For every program that ends normally with recording on, that uses the host resource and the strategies the replay tool knows (quick, list, fixed, mixed and slot pools with any number of constructor arguments and the default heuristic, monotonic, size-limiting, thread-safe and named allocators, tracked or not, stacked) and none of whose reallocations failed, the replay tool run on its log succeeds, leaves the log as it was, and repeats the session: it makes the same allocators with the same names, types, arguments and parents, and performs the same allocations, frees, reallocations, releases, coalescings and changes of the default allocator in the same order, with the same sizes, on the same allocators and blocks, so that every allocator ends with the same current size, count, high watermark, actual size and blocks as in the program. "
 "A second replay from the compiled file does the same; replacing the kind of pool changes only that, asking for another heuristic only the pools' own blocks, and the statistics options change nothing. replaydiff calls a session and its replay equal and tells apart sessions that differ in one operation, size, allocator or argument, or of which one is the beginning of the other.",
 ["histories", "configurations"], "all programs of up to three operations on eleven setups of allocators; each strategy with each number of arguments, three parents and nine ways to call the tool; pairs of awkward names; pairs of differing sessions",
 "The tool has one recorded session as its test, with one order of operations, and is not built in the stable configuration.",
 ["tools/replay/ReplayInterpreter.cpp", "tools/replay/ReplayOperationManager.cpp", "tools/replay/ReplayFile.cpp", "tools/replay/replay.cpp", "tools/replay/replaydiff.cpp", T+"event/json_file_store.cpp"],
 [("compilation of a log", "tools/replay/ReplayInterpreter.cpp"), ("execution", "tools/replay/ReplayOperationManager.cpp")],
 ["exit status of the tool", "statistics of the allocators at the end", "the log recorded while replaying"])

prop("P31", "Under the address sanitizer exactly the live bytes of pools are accessible",
 "In a build with UMPIRE_ENABLE_ASAN and -fsanitize=address, after every step of every history every byte of every live allocation, from whatever allocator, is accessible, and every other byte that a quick or list pool holds (the rest of a block, what was freed, what lies between the requested and the rounded size) is not, so that a use after free or beyond the end is reported. Memory that a pool gives back to its parent is accessible again, and releasing, coalescing, reallocating, destroying a pool or a parent that refuses memory changes none of this, nor does the library itself touch memory that is not accessible.",
 ["histories", "configurations"], "all histories of up to six operations on quick and list pools with each heuristic, alone, behind every wrapper, on other pools and on the real host resource, with refusals",
 "The sanitizer tests show one read and one write after free per pool, in a build that the stable tests do not make.",
 [T+"util/memory_sanitizers.hpp", T+"strategy/mixins/AlignedAllocation.inl", T+"strategy/QuickPool.cpp", T+"strategy/DynamicSizePool.hpp"],
 [("poisoning", T+"util/memory_sanitizers.hpp"), ("blocks of the parent", T+"strategy/mixins/AlignedAllocation.inl")],
 ["the sanitizer's view of every byte (__asan_address_is_poisoned)"])

prop("P32", "What is put into an event store comes out of it",
 "Every sequence of events recorded in a JSON file or an SQLite data base (allocations, named allocations, deallocations, and events built with any category, names, text, numeric and pointer arguments, tags and time) is read back by another store object on the same file as the same events, in order, with the same name, category, arguments, tags and time. This holds for texts of any length and with any characters (text that is not UTF-8 may be altered, but never disturbs the other events), for every size and number up to the largest, and for every pointer; recording never raises an error or ends the program because of what is recorded. A JSON file that ends within a line is reported as an error that names the line, one that ends between lines is read up to there, and a file that cannot be opened is an error.",
 ["histories", "inputs", "crash_points"], "all sequences of up to three or four of eleven events; all texts of up to two or three of fourteen characters in each place; 42 lengths; all powers of two and neighbours; all pairs of argument types; every point at which a file can end",
 "Tests put a few fixed events into the stores, with harmless names, in a build that the stable tests do not make.",
 [T+"event/event.hpp", T+"event/event_json.hpp", T+"event/json_file_store.cpp", T+"event/sqlite_database.cpp", T+"event/event_store_recorder.cpp"],
 [("text of an event", T+"event/event_json.hpp"), ("SQL text", T+"event/sqlite_database.cpp")],
 ["get_events of a second store object"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
