def A(files, mech, observe, state=None):
    d = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        d["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d


def P(id, title, statement, over, text, why, anchors, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors, note=note)


S = "src/umpire/strategy/"
U = "src/umpire/util/"
NA = {
    "P23": "termination is not expressible in the partial-correctness contracts used here; the bounded runs report a hang, nothing more",
    "P24": "the CUDA, HIP, SYCL, OpenMP-target and MPI code does not compile in this sandbox (no toolkits), so there is no code to generate obligations from; the POSIX shared-memory resource is a protocol between processes whose shared segment changes between any two steps, which sequential contracts cannot express",
    "P25": "a property of formatted text and of a second process replaying it; formatting (fmt, JSON, SQLite) is outside the verifier's reach and would have to be assumed, which would assume the property",
}
TABLE = [
    P("P01", "QuickPool hands out aligned, in-bounds, never overlapping memory",
      "For every history of allocate, deallocate, release and coalesce calls on a QuickPool, with the upstream allocator failing at any point, every pointer returned "
      "is aligned, lies with its whole requested size inside a block the pool currently holds from its upstream allocator, and overlaps no other live allocation. "
      "A live allocation keeps its place, extent and backing block until it is deallocated, and a block goes back upstream at most once and only when nothing in it is live.",
      ["inputs", "histories", "fault_sequences"], "all request sizes, all sequences of operations, upstream allocation failing at any call, any coalesce heuristic",
      "Splitting and merging depends on the history of neighbouring chunks; tests sample a few sizes and orders, an overlap appears only for particular sequences.",
      A([S + "QuickPool.cpp", S + "QuickPool.hpp", S + "mixins/AlignedAllocation.inl"],
        [("chunk split on allocation", S + "QuickPool.cpp QuickPool::allocate"), ("merge with neighbours on deallocation", S + "QuickPool.cpp QuickPool::deallocate"),
         ("return of wholly free blocks", S + "QuickPool.cpp QuickPool::release, do_coalesce")],
        ["umpire::Allocator::allocate / deallocate / release on a QuickPool"],
        [("chunk list", "chunks partition each block held from upstream", S + "QuickPool.hpp struct Chunk")]),
      "Proved for all histories by a representation invariant preserved by every operation (contracts on allocate, deallocate, release, do_coalesce). Assumes the upstream interface contract, the C++ library, and an alignment that is a power of two; termination is not proved."),
    P("P02", "QuickPool size accounting and block return are exact",
      "After every operation on a QuickPool, including operations that fail because upstream fails, the reported actual size, total blocks, releasable size and blocks and aligned size "
      "equal what the blocks held from upstream and the live allocations imply, and the high watermarks are never below the sizes they track. "
      "release() returns exactly the wholly free blocks upstream.",
      ["inputs", "histories", "fault_sequences"], "all request sizes, all sequences of operations, upstream allocation failing at any call, any coalesce heuristic",
      "Counters drift only after particular combinations of failure, merge and release; tests check a few fixed sequences.",
      A([S + "QuickPool.cpp", S + "QuickPool.hpp"],
        [("counters kept beside the chunk list", S + "QuickPool.cpp QuickPool::allocate, deallocate, release")],
        ["QuickPool::getActualSize, getReleasableSize, getTotalBlocks, getReleasableBlocks, getAlignedSize and the high watermarks"]),
      "Proved: counters equal ghost sums over chunks and blocks after every operation. Same assumptions as P01."),
    P("P03", "DynamicPoolList memory never overlaps and its accounting is exact",
      "For every history of allocate, deallocate, release and coalesce calls on a DynamicPoolList, with upstream allocation failing at any point, each result is aligned, lies with its whole size inside a block held from upstream and overlaps no other live allocation, and live allocations keep their place and extent. "
      "A block goes back upstream at most once and only when nothing in it is live, release returns every wholly free block, a deallocation never throws, and actual size, aligned size, block and releasable counts and watermarks match the blocks and live allocations after every operation.",
      ["inputs", "histories", "fault_sequences"], "all request sizes, all sequences of operations, upstream allocation failing at any call, any coalesce heuristic",
      "Merging depends on which neighbours are free and where a block begins; the error appears for particular orders of release only.",
      A([S + "DynamicSizePool.hpp", S + "DynamicPoolList.cpp"],
        [("best-fit search and split", S + "DynamicSizePool.hpp findUsableBlock, splitBlock"), ("address-ordered free list with merge", S + "DynamicSizePool.hpp releaseBlock"),
         ("return of wholly free blocks", S + "DynamicSizePool.hpp freeReleasedBlocks")],
        ["umpire::Allocator::allocate / deallocate / release on a DynamicPoolList, getActualSize, getAlignedSize, getTotalBlocks, getReleasableBlocks"],
        [("free and live lists", "pieces tile each block held from upstream", S + "DynamicSizePool.hpp struct Block")]),
      "Proved by a representation invariant over the two lists, for unbounded lists. Assumes the upstream interface contract and the contract of FixedSizePool (block records); termination is not proved."),
    P("P04", "FixedPool hands out distinct whole objects and returns only free blocks",
      "For every history of allocate, deallocate and release calls on a FixedPool, with upstream allocation failing at any point, each result is a whole object at a multiple of the object size inside a block held from upstream, and no two live results share memory. "
      "A deallocated object can be handed out again, a pointer that belongs to none of the blocks is rejected with an exception and changes nothing, release returns exactly the blocks in which nothing is live, once and with the size they were obtained with, and "
      "the current size, high watermark, actual size and number of pools match the live objects and the blocks held after every operation.",
      ["inputs", "histories", "fault_sequences"], "all object sizes, all numbers of objects per block, all sequences of operations, upstream failing at any call",
      "A wrong bit or counter shows only for particular positions in the bitmap and after blocks were emptied and released in a particular order.",
      A([S + "FixedPool.cpp", S + "FixedPool.hpp", U + "find_first_set.hpp"],
        [("bitmap of free objects", S + "FixedPool.cpp FixedPool::allocInPool, deallocate"), ("growth by blocks", S + "FixedPool.cpp FixedPool::newPool"), ("return of wholly free blocks", S + "FixedPool.cpp FixedPool::release")],
        ["umpire::Allocator::allocate / deallocate / release on a FixedPool, getCurrentSize, getHighWatermark, getActualSize, numPools, pointerIsFromPool"],
        [("bitmap and counters", "an object's bit is set exactly when it is free; the counter is the number of bits set", S + "FixedPool.hpp struct Pool")]),
      "Proved by a representation invariant over the bitmaps, for any number of blocks and objects. Assumes the upstream interface contract, malloc succeeding for the bitmaps, ffs, std::remove_if, and that a pointer inside a block handed to deallocate is a live object. The destructor is covered by the bounded run only; termination is not proved."),
    P("P05", "FixedMallocPool hands out distinct whole objects and loses none",
      "For every history of allocate and deallocate calls on a FixedMallocPool, each result is a whole object at a multiple of the object size inside a block the pool holds from malloc, and no two live results share memory. "
      "The pool never writes into an object that is handed out, a deallocated object can be handed out again and only once until it is deallocated again, a pointer that belongs to none of the blocks is rejected with an exception and changes nothing, "
      "and every block is freed exactly once, when the pool is destroyed.",
      ["inputs", "histories"], "all object sizes of at least four bytes, all numbers of objects per block, all sequences of operations",
      "The free list is threaded through the objects by index and blocks are initialised lazily; a wrong link shows only after a particular interleaving of first uses and reuses across blocks.",
      A([U + "FixedMallocPool.cpp", U + "FixedMallocPool.hpp"],
        [("lazily initialised free chain", U + "FixedMallocPool.cpp FixedMallocPool::allocInPool"), ("block search and growth", U + "FixedMallocPool.cpp FixedMallocPool::allocate_impl, newPool"),
         ("return to the chain", U + "FixedMallocPool.cpp FixedMallocPool::deallocate")],
        ["umpire::util::FixedMallocPool::allocate, deallocate, numPools; every record of an allocation lives in such a pool"],
        [("blocks and free chains", "every object is handed out or at exactly one place of its block's chain", U + "FixedMallocPool.hpp struct Pool")]),
      "Proved by a representation invariant over the chain inside each block, for any number of blocks and objects. Assumes malloc succeeds and returns memory not in use, that the total size of a block fits in 63 bits, and that a pointer inside a block handed to deallocate is a live object; termination is not proved."),
    P("P06", "A mixed pool serves every request from a large enough pool and returns it there",
      "For every request size and every configuration of fixed pools, a mixed pool answers with memory of at least the requested size that overlaps no live allocation, and a deallocated block goes back exactly once to the very sub-pool it came from, also when an address is reused by another sub-pool later. "
      "A failed request changes nothing, and the reported actual size is the sum over all sub-pools.",
      ["inputs", "histories", "fault_sequences"], "all request sizes, all smallest and largest sizes and multipliers, all sequences, a sub-pool failing at any call",
      "Which sub-pool serves a request depends on size boundaries, and stale entries of the table matter only when an address is reused across sub-pools.",
      A([S + "MixedPool.cpp", S + "MixedPool.hpp"], [("choice by object size", S + "MixedPool.cpp MixedPool::allocate"), ("table from pointer to sub-pool", S + "MixedPool.cpp MixedPool::deallocate"), ("series of fixed pools", S + "MixedPool.cpp MixedPool::MixedPool")],
        ["umpire::Allocator::allocate / deallocate on a MixedPool, getActualSize"]),
      "Proved for the constructor, allocate, deallocate, release and getActualSize over the contracts of the sub-pools (P01, P04), for any number of fixed pools. Assumes a smallest size above zero, a multiplier of at least two, and that largest size times multiplier fits in 64 bits."),
    P("P07", "A monotonic allocator hands out disjoint memory inside its fixed buffer",
      "For every sequence of requests, a monotonic allocator returns memory that lies inside its one buffer, is new, and overlaps nothing it handed out before; a request that does not fit is refused with an exception and changes nothing. "
      "Its reported current size is the memory handed out so far and its high watermark the buffer's size, and the buffer goes back upstream once, when the allocator is destroyed.",
      ["inputs", "histories", "fault_sequences"], "all capacities, all request sizes including ones that wrap around when added, all sequences",
      "The overflow and the exact-fit boundary appear for particular sums of sizes only.",
      A([S + "MonotonicAllocationStrategy.cpp"], [("bump pointer with capacity test", S + "MonotonicAllocationStrategy.cpp MonotonicAllocationStrategy::allocate")],
        ["umpire::Allocator::allocate on a MonotonicAllocationStrategy, getCurrentSize, getHighWatermark"]),
      "Proved for the constructor, allocate, deallocate, the destructor and the size queries. Assumes the upstream interface contract."),
    P("P08", "A slot pool never hands out one slot twice and returns every slot",
      "For every sequence of requests and releases, a slot pool gives a request an upstream block at least as large as asked for that no other live request holds, and a released block can be given out again. "
      "It holds at most its fixed number of blocks from upstream, and its destruction gives each of them back exactly once, with the size it was obtained with.",
      ["inputs", "histories", "fault_sequences"], "all slot counts, all request sizes, all sequences of requests and releases, upstream failing at any call",
      "Whether a slot is reused or replaced depends on the sizes and order of earlier requests.",
      A([S + "SlotPool.cpp"], [("sign bit of the recorded size marks a free slot", S + "SlotPool.cpp SlotPool::allocate, deallocate, ~SlotPool")],
        ["umpire::Allocator::allocate / deallocate on a SlotPool, destruction of the pool"]),
      "Proved by loop invariants over the slot table for any number of slots. A full table answers null (the design), which the contract permits."),
    P("P09", "A size limiter never lets the outstanding total exceed its limit",
      "For every history of requests and releases through a size limiter, the sum of the sizes outstanding is at most the limit, a request that would exceed it is refused with an exception and reaches no upstream allocator, and every other request is passed on. "
      "A failed upstream request uses up nothing of the limit, and a release returns exactly its size.",
      ["inputs", "histories", "fault_sequences"], "all limits, all request sizes including ones that wrap around when added, upstream failing at any call",
      "The budget leaks only after an upstream failure and wraps only for extreme sizes.",
      A([S + "SizeLimiter.cpp"], [("running total compared with the limit", S + "SizeLimiter.cpp SizeLimiter::allocate, deallocate")],
        ["umpire::Allocator::allocate / deallocate on a SizeLimiter"]),
      "Proved for the constructor, allocate and deallocate. Assumes the upstream interface contract."),
    P("P10", "Aligned allocation returns aligned, sufficient memory and restores the block",
      "For every size and every power-of-two alignment, aligned allocation (the aligned allocator and the alignment layer under the pools) returns a pointer that is a multiple of the alignment with at least the requested bytes inside one upstream block; a request too large to round up is refused. "
      "Deallocation gives exactly that upstream block back, with the size it was obtained with.",
      ["inputs", "histories", "fault_sequences"], "all sizes up to the largest integer, all power-of-two alignments, all upstream addresses, all sequences",
      "Rounding errors show only at particular remainders of address and size, and overflow only near the largest size.",
      A([S + "AlignedAllocator.cpp", S + "mixins/AlignedAllocation.inl"],
        [("round up by masking", S + "mixins/AlignedAllocation.inl aligned_round_up, align_create"), ("aligned address to base map", S + "mixins/AlignedAllocation.inl aligned_deallocate")],
        ["umpire::Allocator::allocate / deallocate on an AlignedAllocator, pools with an alignment"]),
      "Proved; the masking lemma behind rounding is itself discharged for each of the 64 powers of two. Assumes the upstream interface contract and the C++ library map."),
    P("P11", "Allocation statistics are exact at every layer",
      "At every layer of allocators, after every operation including ones that fail, the current size is the sum of the sizes of the live allocations made through that layer, the allocation count is their number, and the high watermark is the largest current size reached since creation. "
      "A failed allocation or a rejected deallocation changes none of them, and pass-through layers forward each request unchanged.",
      ["inputs", "histories", "fault_sequences"], "all sizes, all sequences, failure at any layer",
      "Tests check totals after plain sequences; drift needs a failure in the middle layer or a rejected deallocation.",
      A([S + "AllocationStrategy.cpp", S + "mixins/Inspector.cpp", S + "NamedAllocationStrategy.cpp", S + "NamingShim.cpp", S + "ThreadSafeAllocator.cpp"],
        [("statistics of inner layers", S + "AllocationStrategy.cpp allocate_internal, deallocate_internal"), ("statistics of the outer layer", S + "mixins/Inspector.cpp registerAllocation, deregisterAllocation")],
        ["umpire::Allocator::getCurrentSize, getHighWatermark, getAllocationCount"]),
      "Proved for the internal entry points, the tracking mixin, the getters and the pass-through strategies, including the throwing paths. Sums below 2^64 by the disjointness of blocks."),
    P("P12", "Allocation records: every registered range is found, and only those",
      "For every history of insertions, removals and lookups of the allocation record map, removing an address returns the most recently inserted record of that address and fails exactly when there is none, "
      "a lookup returns the newest record of the nearest registered address at or below the pointer exactly when the pointer lies in that record's range (or equals its start), and the size is the number of records. "
      "Records keep their address and contents until removed, and other addresses are unaffected.",
      ["inputs", "histories"], "all addresses, all record sizes, all sequences of insert, remove, find, contains and clear",
      "Lookups depend on the set of registered neighbours and on the order of nested registrations of the same address; tests use a handful of addresses.",
      A([U + "AllocationMap.cpp", U + "MemoryMap.inl"],
        [("stack of records per address", U + "AllocationMap.cpp RecordList::push_back, pop_back"), ("nearest key lookup", U + "MemoryMap.inl doFindOrBefore"),
         ("range test", U + "AllocationMap.cpp doFindRecord")],
        ["umpire::util::AllocationMap::insert, remove, find, findRecord, contains, size, clear"]),
      "Proved over the documented contract of the judy array (assumed, exercised by a bounded run) and of the fixed-size pools behind the records; each method's lock discipline is part of the contract."),
    P("P13", "Allocator names, aliases and ids are unique and resolve exactly",
      "For every history of making resources and allocators, adding and removing aliases and setting the default allocator, a name, alias or id resolves to exactly the allocator it was given to, two allocators never share a name or an id, and an unknown name or id is rejected with an exception. "
      "A rejected or failed creation, alias or removal changes no name, alias or id; an alias is removed without affecting the allocator or its other names, and an allocator's own name cannot be removed or taken.",
      ["inputs", "histories", "fault_sequences"], "all names, ids and pointers, all sequences of operations, construction failing at any point",
      "Whether a name is free, an alias or an own name depends on the history; half-done registrations show only after a failure.",
      A(["src/umpire/ResourceManager.cpp", "src/umpire/ResourceManager.inl", "src/umpire/resource/MemoryResourceRegistry.cpp", "src/umpire/resource/MemoryResourceTypes.hpp"],
        [("maps from name and id to strategy", "src/umpire/ResourceManager.inl makeAllocator; src/umpire/ResourceManager.cpp addAlias, removeAlias, getAllocationStrategy"),
         ("resources made on first use", "src/umpire/ResourceManager.cpp makeResource")],
        ["umpire::ResourceManager::makeAllocator, makeResource, getAllocator, isAllocator, addAlias, removeAlias, getDefaultAllocator, setDefaultAllocator"],
        [("name and id maps", "every entry leads to a live strategy; ids are below the next id", "src/umpire/ResourceManager.hpp m_allocators_by_name, m_allocators_by_id")]),
      "Proved over the maps of the resource manager with strings by abstract value. Assumes the C++ library, and that resource factories produce a resource of the asked name and id."),
    P("P14", "Copy, memset, reallocate and move stay inside allocations and keep the data",
      "For every pair of pointers and every size, copy, memset, reallocate and move read and write only inside the allocations the pointers belong to, and anything else is rejected with an exception before memory is touched. "
      "Reallocation keeps the first min(old, new) bytes, gives back the old allocation exactly once and leaves it untouched if it fails, uses the C library only for memory that came from it, and treats null and zero sizes as allocation and deallocation; each operation is the one registered for the platforms involved.",
      ["inputs", "histories", "fault_sequences"], "all pointers inside or outside allocations, all sizes and offsets, allocation failing at any point",
      "Range errors need particular offsets, and losses need an allocation failure half way through.",
      A(["src/umpire/ResourceManager.cpp", "src/umpire/op/HostReallocateOperation.cpp", "src/umpire/op/GenericReallocateOperation.cpp", "src/umpire/op/MemoryOperationRegistry.cpp", "src/umpire/op/HostCopyOperation.cpp", "src/umpire/op/HostMemsetOperation.cpp"],
        [("bounds tests before the operation", "src/umpire/ResourceManager.cpp copy, memset"), ("reallocation", "src/umpire/ResourceManager.cpp reallocate, reallocate_impl"),
         ("lookup of the operation", "src/umpire/op/MemoryOperationRegistry.cpp find")],
        ["umpire::ResourceManager::copy, memset, reallocate, move, deallocate, getSize"]),
      "Proved for the resource manager's operations and the host operations over the contracts of the record map (P12) and the allocators (P16). Device platforms are not built here and out of scope."),
    P("P15", "Thread-safe use is mutually exclusive and every lock is released",
      "An operation through a thread-safe allocator enters the strategy below only while it holds that strategy's own mutex, and the registry of allocations is read and written only under its lock. "
      "No operation locks a mutex it already holds, and each one releases every lock it took on every way out, including exceptions.",
      ["schedules", "inputs", "fault_sequences"], "all interleavings of threads, all operations, exceptions at any point",
      "A missing or wrong lock misbehaves only in rare interleavings, and a lock kept on an error path shows only at the next call.",
      A(["src/umpire/Allocator.inl", "src/umpire/Allocator.cpp", U + "AllocationMap.cpp"],
        [("lock taken by the allocator front end", "src/umpire/Allocator.inl thread_safe_allocate, thread_safe_deallocate"), ("lock of the record map", U + "AllocationMap.cpp insert, remove, find, findRecord")],
        ["umpire::Allocator over a ThreadSafeAllocator used from several threads"]),
      "Proved as ownership conditions: every access is made with the mutex held, so operations serialise and the sequential contracts apply. Assumes std::mutex. Data that is not behind these locks is out of scope."),
    P("P16", "Allocators give unique memory and reject pointers that are not theirs",
      "Every successful request through an allocator returns new memory of exactly the requested size from its strategy, a zero-byte request returns a unique non-null pointer and never reaches the strategy, and a tracked result is registered with its size. "
      "Deallocation of null does nothing, deallocation of a pointer that is not a live allocation of this allocator is rejected with an exception and changes nothing, and any other deallocation gives the memory back exactly once to where it came from.",
      ["inputs", "histories", "fault_sequences"], "all sizes, all pointers, all sequences, failing strategies",
      "Rejection and zero-byte handling depend on which records exist for an address.",
      A(["src/umpire/Allocator.inl", "src/umpire/Allocator.cpp", S + "mixins/Inspector.cpp", S + "mixins/AllocateNull.cpp"],
        [("dispatch on size and tracking", "src/umpire/Allocator.inl do_allocate, do_deallocate"), ("zero-byte pool", S + "mixins/AllocateNull.cpp")],
        ["umpire::Allocator::allocate, deallocate, release and the queries"]),
      "Proved for the front-end functions over the contracts of the record map (P12), the strategies and the zero-byte pool."),
    P("P17", "MemoryMap is an exact ordered map from addresses to values",
      "For every history of insertions, removals and clears, a MemoryMap holds exactly one value per key inserted and not removed: insertion of a new key stores the value and reports that it did, insertion of a present key leaves the stored value alone and reports that too, "
      "find and findOrBefore return exactly the entry with the key, or with the greatest key not above it, removal removes exactly that entry and gives its storage back once, and the size is the number of entries. "
      "Iteration visits every entry once in ascending key order, and an iterator continues from its own entry whatever other lookups and iterators did in between.",
      ["inputs", "histories"], "all keys, all sequences of operations, any number of entries, any number of iterators",
      "An error needs a particular set of keys, or a second iterator used in between; tests use a handful of adjacent keys.",
      A([U + "MemoryMap.hpp", U + "MemoryMap.inl"],
        [("insertion and lookup over the judy array", U + "MemoryMap.inl insert, find, findOrBefore"), ("removal", U + "MemoryMap.inl erase, clear"), ("iteration", U + "MemoryMap.inl Iterator_::operator++")],
        ["umpire::util::MemoryMap insert, find, findOrBefore, erase, clear, size, begin, end and iterators"]),
      "Proved for the real template instantiated with a value type of the check, over the contract of the judy array and of the pool of values (P05). The judy array itself is trusted by contract and sampled by a bounded run."),
    P("P18", "Questions about memory are answered from exactly the registered ranges",
      "For every pair of pointers, pointer_overlaps and pointer_contains compare exactly the registered ranges the pointers belong to: contains holds when the second range lies wholly in the first, overlaps when it starts in the first and ends beyond it, and a pointer outside every registered range is rejected with an exception. "
      "Registering an external allocation adds exactly that record and deregistering it removes and returns exactly that record; size, allocator and record lookups for a pointer answer from the record whose range holds it, and accessibility is the answer of the resource at the root of the allocator.",
      ["inputs", "histories"], "all pointers, all registered ranges, all sizes, all chains of allocators",
      "Off-by-one errors in range comparison need particular adjacent ranges.",
      A(["src/umpire/Umpire.cpp", "src/umpire/ResourceManager.cpp"],
        [("range comparison", "src/umpire/Umpire.cpp pointer_overlaps, pointer_contains"), ("external registration", "src/umpire/Umpire.cpp register_external_allocation, deregister_external_allocation"),
         ("lookups", "src/umpire/ResourceManager.cpp getSize, findAllocatorForPointer, findAllocationRecord, hasAllocator"), ("accessibility", "src/umpire/Umpire.cpp is_accessible")],
        ["umpire::pointer_overlaps, pointer_contains, register_external_allocation, deregister_external_allocation, is_accessible, ResourceManager::getSize, getAllocator(void*), hasAllocator"]),
      "Proved over the contract of the record map (P12). An overlap is asked of ranges with different starts; where a range encloses others the record map answers as in P12."),
    P("P19", "Memory resources return usable memory or throw, and leak nothing",
      "For every sequence of allocations and deallocations, with the operating system failing any call, the HOST, FILE, null and NO_OP resources return memory that overlaps no other live allocation and is at least as large as asked for, or throw; they never return a null or failed mapping. "
      "A FILE allocation is a writable mapping of a file of its own in the configured directory; a failed allocation leaves no file, descriptor or mapping behind, a deallocation unmaps the whole mapping, removes its file and forgets it, and destroying the resource removes whatever is left. "
      "Each resource reports itself accessible from exactly the platforms that can use its memory.",
      ["inputs", "histories", "fault_sequences"], "all sizes, all sequences of operations, open, ftruncate, mmap, remove and malloc failing at any call",
      "Failures of the operating system are not injected by tests, and leaks of files, descriptors and address space stay unnoticed.",
      A(["src/umpire/resource/FileMemoryResource.cpp", "src/umpire/resource/NullMemoryResource.cpp", "src/umpire/resource/NoOpMemoryResource.cpp", "src/umpire/resource/DefaultMemoryResource.inl", "src/umpire/alloc/MallocAllocator.hpp"],
        [("mapped files", "src/umpire/resource/FileMemoryResource.cpp allocate, deallocate, ~FileMemoryResource"), ("reserved address ranges", "src/umpire/resource/NullMemoryResource.cpp allocate, deallocate"),
         ("malloc and free", "src/umpire/alloc/MallocAllocator.hpp allocate, deallocate"), ("counter", "src/umpire/resource/NoOpMemoryResource.cpp allocate")],
        ["umpire::Allocator over HOST, FILE, NO_OP and the internal null resource; files in UMPIRE_MEMORY_FILE_DIR; the mappings and descriptors of the process"]),
      "Proved over assumed contracts of the operating system calls and the contract of MemoryMap (P17). Files are assumed not to be tampered with, except that removing one may fail in deallocate. Device resources and shared memory are not built here."),
    P("P20", "A pool coalesces exactly when its heuristic's condition holds",
      "For every state of a QuickPool or DynamicPoolList, blocks_releasable(n) suggests the actual size (the _hwm form: the aligned high watermark) exactly when at least n blocks are releasable; percent_releasable(p) suggests nothing for 0, suggests it for 100 exactly when everything is releasable, "
      "and otherwise when at least p percent of the actual size is releasable and not when less is; any other percentage is rejected with an exception. "
      "An explicit coalesce asks the pool's heuristic and coalesces to the size it suggests, or not at all when it suggests none; coalesce and try_coalesce act on the pool of the allocator they are given and refuse allocators that cannot coalesce.",
      ["inputs", "histories"], "all percentages, all block counts, all pool states, all allocators",
      "Tests try a few percentages on a few pool states; a boundary or a mixed-up statistic shows for particular states only.",
      A([S + "QuickPool.cpp", S + "DynamicPoolList.cpp", "src/umpire/Umpire.cpp"],
        [("heuristics as function objects", S + "QuickPool.cpp and DynamicPoolList.cpp percent_releasable, percent_releasable_hwm, blocks_releasable, blocks_releasable_hwm"),
         ("explicit request", S + "QuickPool.cpp QuickPool::coalesce, DynamicPoolList.cpp DynamicPoolList::coalesce, src/umpire/Umpire.cpp coalesce, try_coalesce")],
        ["the size a heuristic suggests for a pool; umpire::coalesce, umpire::try_coalesce, QuickPool::coalesce, DynamicPoolList::coalesce"]),
      "Proved for the real function objects, called through the std::function that holds them, over the contracts of the pool's getters (P02, P03). Floating point is treated as real arithmetic, with a tolerance of one byte at the boundary of a percentage."),
    P("P21", "A typed allocator provides whole arrays and compares by its allocator",
      "For every element type and every element count, TypedAllocator::allocate returns memory for count elements from its allocator, or throws; a count whose size in bytes cannot be represented is rejected with an exception and reaches no allocator. "
      "Deallocation gives the memory back to the same allocator exactly once. Typed allocators made or converted from one another use the same allocator and tracking, and two of them are equal exactly when they use the same allocator, whatever their element types.",
      ["inputs", "histories"], "all element counts including those whose byte size overflows, element sizes 1 and 24 as representatives, all allocators",
      "Containers use small counts; the overflow shows only for counts near 2^64 divided by the element size.",
      A(["src/umpire/TypedAllocator.hpp", "src/umpire/TypedAllocator.inl"],
        [("element count to bytes", "src/umpire/TypedAllocator.inl TypedAllocator::allocate, deallocate"), ("equality and conversion", "src/umpire/TypedAllocator.inl operator==, operator!=, converting constructor")],
        ["umpire::TypedAllocator used directly and by standard containers"]),
      "Proved over the contract of umpire::Allocator (P16) for the instantiations with element sizes 1 and 24; other instantiations are the same template text."),
    P("P22", "Log output reaches every attached stream; diagnostics compute what they say",
      "For every character and every combination of attached streams, the output buffer passes each character exactly once to each attached stream and synchronises each of them, reports a failure exactly when one of them failed, ignores end-of-file, and uses no stream before one is attached or after it is detached. "
      "Setting a log level enables exactly the levels up to it. The relative fragmentation of a list of records is one minus the largest gap over the sum of the gaps, and zero for no records.",
      ["inputs", "histories", "fault_sequences"], "all characters, all combinations of attached streams, a stream failing at any call, all levels, all lists of disjoint records in ascending order",
      "Tests attach good streams and write a few strings; a lost failure or a stale stream pointer shows only when a stream fails or is detached.",
      A([U + "OutputBuffer.cpp", U + "OutputBuffer.hpp", U + "Logger.cpp", U + "allocation_statistics.cpp"],
        [("forwarding to the streams", U + "OutputBuffer.cpp overflow, sync, setConsoleStream, setFileStream"), ("levels", U + "Logger.cpp setLoggingMsgLevel"), ("gaps", U + "allocation_statistics.cpp relative_fragmentation")],
        ["the attached std::ostream buffers; Logger::logLevelEnabled; the value of relative_fragmentation"]),
      "Proved over the contract of std::streambuf (sputc and pubsync deliver or report failure). Floating point is treated as real arithmetic; record sizes are below 2^63."),
    P("P23", "Every operation completes",
      "Every allocator, map and query operation returns or throws after finitely many steps, for every state and argument.",
      ["inputs", "histories"], "all states, all arguments", "A test that hangs shows it only for its own input.",
      A([S + "QuickPool.cpp", S + "DynamicSizePool.hpp", U + "MemoryMap.inl"], [("loops and recursion", S + "QuickPool.cpp do_coalesce")], ["any public operation"]), "not claimed"),
    P("P24", "Device and shared memory resources keep allocations apart and in sync",
      "Allocations of device, unified, pinned and inter-process shared memory resources and of DeviceAllocator never overlap, and shared allocations of one name are the same memory in every process.",
      ["inputs", "histories", "schedules"], "all sequences of operations on all processes and devices", "Needs devices and several processes.",
      A(["src/umpire/resource/HostSharedMemoryResourceImpl.hpp", "src/umpire/DeviceAllocator.cpp"], [("shared windows", "src/umpire/resource/HostSharedMemoryResourceImpl.hpp")], ["allocations of those resources"]), "not claimed"),
    P("P25", "Replaying a recorded event log reproduces the allocation history",
      "The event log of a program contains every allocation event in order, and replaying it performs the same allocations and deallocations on equivalent allocators.",
      ["inputs", "histories"], "all programs", "Tests replay a few logs.",
      A(["src/umpire/event/event.hpp", "src/umpire/event/json_file_store.cpp"], [("event builder and stores", "src/umpire/event")], ["the log file and the replay tool"]), "not claimed"),
]
