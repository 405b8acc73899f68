#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the property
# texts are easy to review and edit).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

prop('P01', 'Size arithmetic helpers are exact on their whole domain',
 'Rounding a size up or down to a power-of-two alignment returns the nearest multiple on that side, rounding up to a power of two returns the least power of two not below the argument, and the binary logarithm returns the position of the highest set bit. This holds for every argument in the documented domain, including 0, 1, exact multiples and powers of two, and the largest legal sizes.',
 ['inputs'], 'all 64-bit sizes and all power-of-two alignments for which the helper is documented to work',
 'The unit test samples a few thousand small sizes; off-by-one at exact powers, at word-size boundaries or for 32-bit truncation only shows at particular values of a 2^64 domain.',
 ['include/small/util.h', 'small/util.c'],
 [('small_align / small_align_down / small_round / small_lb', 'include/small/util.h')])

prop('P02', 'The memory quota is never exceeded and its accounting is exact',
 'A successful use adds, and a release subtracts, exactly the requested size rounded up to whole quota units, and returns that rounded amount; a use that would take usage above the limit, and a request to lower the limit below the usage, is refused and changes nothing. Usage therefore never exceeds the limit, limit and usage never disturb one another, and both stay exact when any number of threads use, release and resize concurrently.',
 ['inputs', 'schedules', 'histories'], 'every limit and usage up to the maximum quota, every size, and every interleaving of atomic steps of any number of threads (including spurious compare-and-swap failures)',
 'The stress test runs a few threads with small sizes and random timing; it cannot reach all interleavings between the read and the compare-and-swap, nor sums near the 32-bit unit limit.',
 ['include/small/quota.h'],
 [('CAS loops of quota_use / quota_release / quota_set', 'include/small/quota.h'), ('unit packing of limit and usage in one 64-bit word', 'include/small/quota.h')],
 [('quota.value', 'limit (high half) and usage (low half) in units', 'include/small/quota.h')])

prop('P03', 'A quota lessor never leases more than it took, and gives it all back',
 'A lessor leases exactly the requested number of bytes or reports failure and changes nothing; the bytes leased never exceed what it has charged to the underlying quota, and the charge is always a whole number of units equal to what the quota was told. Ending leases returns surplus to the quota while never releasing bytes that are still leased, and destroying the lessor returns the whole remaining charge.',
 ['inputs', 'histories'], 'every sequence of leases and lease ends of any sizes over any quota limit and any usage by other users of that quota',
 'The unit test walks one hand-written sequence; the retry loop that halves the request and the release threshold depend on exact relations of three 64-bit values.',
 ['include/small/quota_lessor.h', 'include/small/quota.h'],
 [('quota_lease halving loop', 'include/small/quota_lessor.h'), ('quota_end_lease release threshold', 'include/small/quota_lessor.h')])

prop('P04', 'The lock-free LIFO never loses, duplicates or reorders elements',
 'Pushing an element makes it the next one popped, popping returns the most recently pushed remaining element or NULL exactly when the stack is empty, and the emptiness test agrees with that at every moment of its life. Under any interleaving of concurrent pushes and pops every pushed element is popped at most once and a stale observation of the head is never accepted as current after intervening operations (within the 16-bit version counter).',
 ['schedules', 'inputs', 'histories'], 'every interleaving of pushes and pops by any number of threads on page-aligned elements, and every history length (version counter wrap included for sequential use)',
 'The unit test is sequential on ten elements; ABA needs a specific interleaving and the tag arithmetic matters only at wrap-around.',
 ['include/small/lf_lifo.h'],
 [('tagged head pointer with version in the low 16 bits', 'include/small/lf_lifo.h'), ('compare-and-swap loops', 'include/small/lf_lifo.h')])

prop('P05', 'The slab arena hands out aligned, disjoint slabs within quota',
 'Every slab mapped from an arena is a whole slab aligned to the slab size, lies in memory obtained by the arena, and overlaps no other slab currently handed out; a slab given back can be handed out again. The memory used by the arena is charged to its quota exactly once per slab, a slab is refused when the quota has no room, and a failed mapping leaves quota charge and arena usage as they were before the call.',
 ['inputs', 'fault_sequences', 'schedules', 'histories'], 'every slab size up to 2^31 and every preallocation size, every sequence of map and unmap calls, every pattern of system mapping failures, and every interleaving with other threads of the atomic steps',
 'Tests use a handful of sizes, never make the system refuse memory in the middle, and do not control interleavings around the shared usage counter.',
 ['small/slab_arena.c', 'include/small/slab_arena.h', 'include/small/lf_lifo.h', 'include/small/quota.h'],
 [('quota charge and rollback in slab_map', 'small/slab_arena.c'), ('aligned mapping by trimming', 'small/slab_arena.c'), ('preallocated range handed out by fetch-and-add', 'small/slab_arena.c')])

prop('P06', 'The slab cache hands out large enough, aligned, disjoint slabs',
 'A slab obtained for a size has at least that many usable bytes, an ordered slab is aligned to its own size so that any pointer into it maps back to it, and it is taken from the smallest sufficient order. Slabs in use at the same time never overlap, and splitting and merging neighbours never loses, duplicates or truncates memory: every byte of an arena slab is at any time in exactly one free or used slab.',
 ['inputs', 'histories', 'configurations'], 'every order-0 size and slab size configuration, every requested size, and every sequence of get and put calls',
 'Tests run random get/put sequences of a few sizes in one configuration; a wrong buddy address or a missed order check shows only for particular orders and neighbour states.',
 ['small/slab_cache.c', 'include/small/slab_cache.h', 'include/small/slab_list.h'],
 [('slab_order / slab_order_size', 'small/slab_cache.c'), ('slab_buddy, slab_split, slab_merge', 'small/slab_cache.c'), ('slab_from_data / slab_from_ptr masks', 'small/slab_cache.c')])

prop('P07', 'Slab cache accounting is exact and memory is returned to the arena',
 'The used and total figures of a slab cache always equal the sums over the slabs handed out and over the slabs held, and putting back the same slabs restores the figures. A whole free arena-size slab goes back to the arena except for one kept for reuse, large slabs give their quota charge back as soon as they are freed, a failed allocation changes no figure and no quota charge, and destroying the cache returns everything.',
 ['histories', 'fault_sequences', 'inputs'], 'every sequence of gets and puts, of any size including larger than the arena slab, and every pattern of allocation or quota failures',
 'Tests check totals at a few points of runs in which no allocation fails, and never compare the quota after each kind of failure.',
 ['small/slab_cache.c', 'include/small/slab_cache.h', 'include/small/slab_list.h'],
 [('slab_set_used / slab_set_free and stats updates', 'small/slab_cache.c'), ('slab_get_large / slab_put_large', 'small/slab_cache.c'), ('slab_put_with_order return to arena', 'small/slab_cache.c')])

prop('P08', 'A memory pool hands out distinct, in-bounds objects and reuses freed ones',
 'Every object handed out by a fixed-size pool lies entirely in the data area of one of its slabs, at a whole multiple of the object size from that area, and overlaps no other live object nor any bookkeeping; an object is never handed out again before it is freed. Freed objects are handed out again, and allocation fails only when no free object is left in the pool and no slab can be obtained.',
 ['histories', 'inputs', 'configurations'], 'every object size and slab order the pool accepts, and every interleaving of allocations and frees by one thread',
 'Random tests with one or a few object sizes see a tiny part of the histories of free lists, never-touched tails and slab transitions.',
 ['small/mempool.c', 'include/small/mempool.h'],
 [('mslab_alloc / mslab_free free list and free_offset', 'small/mempool.c'), ('slab_from_ptr mask', 'small/slab_cache.c'), ('hot_slabs tree and first_hot_slab', 'small/mempool.c')])

prop('P09', 'Memory pool accounting is exact and empty slabs are given back',
 'The object count, used size and total size a pool reports equal the number of live objects, that number times the object size, and the size of the slabs it holds; a failed allocation changes none of them. An emptied slab goes back to the slab cache except for at most one spare, a full slab is never allocated from and becomes available again when one of its objects is freed, and destroying the pool gives all its slabs back.',
 ['histories', 'fault_sequences'], 'every sequence of allocations, frees and slab-allocation failures',
 'Tests look at statistics at the end of runs, where errors that cancel or appear only between full, partial and empty slab states are not visible.',
 ['small/mempool.c', 'include/small/mempool.h', 'include/small/slab_list.h'],
 [('mslab_free transitions full -> hot -> spare -> returned', 'small/mempool.c'), ('mempool_alloc spare and new slab paths', 'small/mempool.c'), ('mempool_stats / mempool_used / mempool_total', 'include/small/mempool.h')])

prop('P10', 'Size classes partition the sizes, tightly and monotonically',
 'For every size the class found for it is the smallest class whose size is not below it, and the size of each class maps back to the same class, so the classes partition all sizes with no gap and no overlap. Class sizes strictly increase with the class number, begin at the minimal allocation size, and differ from it by multiples of the granularity; consecutive class sizes beyond the linear part grow by at most the promised power-of-two-root factor.',
 ['inputs', 'configurations'], 'every granularity, minimal size and number of effective bits that class creation can produce, and every size whose class fits in 32 bits',
 'The unit test compares with a naive list of classes for two dozen settings and sizes up to a small bound; the formulas have 2^32 inputs in each of hundreds of configurations.',
 ['include/small/small_class.h', 'small/small_class.c'],
 [('small_class_calc_offset_by_size / small_class_calc_size_by_offset', 'include/small/small_class.h'), ('small_class_create', 'small/small_class.c')])

prop('P11', 'The small allocator serves each size from a fitting pool and frees to the owner',
 'Each allocation returns memory of at least the requested size, aligned to the granularity, that overlaps no other live allocation, whatever pool the adaptive policy currently routes its size class to; sizes above the largest pool are served as large blocks. Freeing with the same size returns the object to the very pool that owns its slab even if routing has changed meanwhile, and the reported used memory equals the pooled object sizes plus large blocks still live.',
 ['histories', 'inputs', 'configurations', 'fault_sequences'], 'every allocation factor, granularity and minimal object size, every sequence of allocations and frees of any sizes, and every pattern of slab allocation failures',
 'Routing changes when waste thresholds are crossed, which a random test meets in few of the possible orders; freeing an object after its class was re-routed needs a specific history.',
 ['small/small.c', 'include/small/small.h', 'include/small/small_class.h', 'small/mempool.c'],
 [('small_mempool_search and used_pool routing', 'small/small.c'), ('waste accounting and pool activation', 'small/small.c'), ('small_alloc_create pool and group layout', 'small/small.c')])

prop('P12', 'Region allocations are disjoint, aligned and stable until truncated',
 'Every block allocated from a region has the requested size and alignment, overlaps no other live block of the region and stays at its address with its content untouched until the region is truncated below it or freed. The used size grows by exactly the block size plus alignment padding, the total is the size of the slabs held, a failed allocation changes neither, and a reservation promises the very bytes the following allocation of at most that size returns.',
 ['histories', 'inputs', 'fault_sequences'], 'every sequence of reserve, alloc, aligned alloc, truncate, join, reset and free with any sizes and alignments, over any slab cache state and failure',
 'The unit tests allocate a few sizes; padding, slab switch and accounting relations must hold for each combination of fill level, size and alignment.',
 ['small/region.c', 'include/small/region.h'],
 [('region_reserve / region_reserve_slow', 'include/small/region.h, small/region.c'), ('region_alloc / region_aligned_alloc accounting', 'include/small/region.h')])

prop('P13', 'Truncating a region to a savepoint keeps exactly the older allocations',
 'Truncating a region to a used size recorded earlier keeps every byte allocated before that moment, at its address and intact, discards every later one, makes the used size equal to the recorded one and gives every slab that holds nothing older back to the slab cache. Freeing the region gives back all slabs and leaves it empty and reusable, and the truncation and allocation callbacks are each called exactly once per event with the documented figures.',
 ['histories', 'inputs'], 'every allocation history spanning any number of slabs and every savepoint in it',
 'Tests truncate within one or two slabs; correctness depends on the exact split of the cut size over an unbounded list of slabs.',
 ['small/region.c', 'include/small/region.h'],
 [('region_truncate loop', 'small/region.c'), ('region_free', 'small/region.c')])

prop('P14', 'Joining a region yields the last bytes, in order, in one piece',
 'Joining the last N used bytes of a region returns a contiguous block with exactly these bytes in allocation order, for any N up to the used size. If they are already contiguous nothing is copied and nothing changes; otherwise one new block of N bytes is allocated, the original bytes stay in place, and on failure to allocate nothing changes.',
 ['histories', 'inputs', 'fault_sequences'], 'every distribution of used bytes over any number of slabs and every N from 1 to the used size',
 'The reverse copy loop must be exact for each split of N over the slabs; tests try few splits.',
 ['small/region.c'],
 [('region_join backwards copy', 'small/region.c')])

prop('P15', 'The log-structured region frees exactly the blocks old enough, and no others',
 'An allocation is disjoint from all live ones, has the requested alignment and size, and stays valid and unmodified until a collection with an id not below its own. Collection frees a slab only if all ids in it are at most the given one and no older slab remains, used and total figures are exact after every call, and destroying the region returns all memory and quota, large blocks included.',
 ['histories', 'inputs', 'fault_sequences'], 'every sequence of allocations with nondecreasing non-negative ids, any sizes and alignments, reservations and collections, with memory or quota failures anywhere',
 'Whether a slab may be freed, cached or reused depends on the history of ids and sizes over an unbounded list of slabs; tests use a few slabs.',
 ['small/lsregion.c', 'include/small/lsregion.h'],
 [('lsregion_gc', 'include/small/lsregion.h'), ('lsregion_aligned_reserve_slow', 'small/lsregion.c'), ('cached slab', 'include/small/lsregion.h')])

prop('P16', 'Flushing the log-structured region yields each allocated byte exactly once',
 'Repeatedly flushing a log-structured region through one savepoint yields every byte allocated and not collected before being flushed, exactly once and in allocation order, whatever the limit on vector elements per call, and whatever reservations, allocations and collections of already flushed data happen between the calls. The returned id is the greatest allocation id among the data flushed by the call, or the not-used id if there was none.',
 ['histories', 'inputs'], 'every history of allocations (of any size, including ones larger than a slab), reservations, collections and flushes, and every vector limit',
 'Missed or repeated data appears only for particular orders of slab reuse, oversized blocks and partial flushes; the tests flush simple sequences.',
 ['small/lsregion.c', 'include/small/lsregion.h'],
 [('slab ids and savepoint comparison in lsregion_to_iovec', 'small/lsregion.c'), ('assignment of slab ids', 'small/lsregion.c, include/small/lsregion.h')])

prop('P17', 'The input buffer keeps unread bytes intact and in order',
 'Reserving space in an input buffer makes at least the requested number of bytes writable at the write position and, whether the buffer compacts, grows or shrinks, the bytes between the read and write positions keep their values and order. The read, write and end positions stay ordered within one allocated block, capacity and used figures match them, and a failed reservation leaves the buffer unchanged.',
 ['histories', 'inputs', 'fault_sequences'], 'every state of read, write and end positions, every positive start capacity, requested size and allocation failure',
 'Tests exercise a few sizes; the compaction and doubling conditions must be right for each combination of used, unused and requested bytes.',
 ['small/ibuf.c', 'include/small/ibuf.h'],
 [('ibuf_reserve_slow', 'small/ibuf.c'), ('ibuf_shrink', 'small/ibuf.c'), ('position arithmetic', 'include/small/ibuf.h')])

prop('P18', 'The output buffer preserves the byte stream appended to it',
 'Bytes appended to an output buffer, by reservation and allocation or by copying of data of any size, form in their vector list exactly the appended stream, each byte once, in order and in memory that does not move; the size equals the number of bytes appended. A reservation promises contiguous space for the next allocation, a failed reservation or allocation adds nothing, and a copy that cannot be completed reports exactly how many bytes it appended.',
 ['histories', 'inputs', 'fault_sequences'], 'every sequence of reserve, alloc and dup of any sizes over any positive start capacity, with memory failures anywhere',
 'A split of copied data over vectors depends on remaining capacities and doubling of sizes; tests use a few sizes with one start capacity.',
 ['small/obuf.c', 'include/small/obuf.h'],
 [('obuf_dup / obuf_alloc_pos', 'small/obuf.c'), ('obuf_reserve / obuf_alloc', 'include/small/obuf.h, small/obuf.c')])

prop('P19', 'Rolling an output buffer back to a savepoint restores it exactly',
 'Rolling back to a savepoint makes the output buffer contain exactly the bytes it contained when the savepoint was taken, at the same addresses, with the size and the vector lengths of that moment, and later appends continue from there without loss of capacity already held. Resetting empties it and destroying it returns every block to the slab cache exactly once.',
 ['histories', 'inputs'], 'every history of appends and every earlier savepoint, including savepoints in empty buffers, at vector boundaries and after a reset',
 'Off-by-one errors at vector boundaries and with empty or full vectors need specific fill states.',
 ['small/obuf.c', 'include/small/obuf.h'],
 [('obuf_rollback_to_svp', 'small/obuf.c'), ('obuf_reset / obuf_destroy', 'small/obuf.c'), ('obuf_create_svp', 'include/small/obuf.h')])

prop('P20', 'Matras ids and addresses correspond one to one and stay fixed',
 'Every allocated id of a matras maps to its own block-aligned block of memory, different ids map to disjoint blocks, and an id maps to the same address until it is freed or, when read views exist, a block of the same extent is touched for the first time. Allocation returns consecutive ids, deallocation removes the last one, ranges are contiguous in memory and aligned in ids, the number of extents held is exactly what the ids and read views need, and creation works for every legal block and extent size.',
 ['histories', 'inputs', 'configurations', 'fault_sequences'], 'every block size and extent size (powers of two with extents that hold at least two blocks), every id up to the capacity, and every sequence of alloc and dealloc with extent allocation failures',
 'The three-level index arithmetic changes at extent boundaries; tests use one small geometry and cannot visit the boundaries of big ones.',
 ['small/matras.c', 'include/small/matras.h'],
 [('matras_get shifts and masks', 'include/small/matras.h'), ('matras_alloc / matras_dealloc boundary masks', 'small/matras.c'), ('matras_create', 'small/matras.c')])

prop('P21', 'Matras read views are frozen; writes go to private copies',
 'After a read view is created, every block that existed at that moment keeps through the view the content it had then, as long as writers touch blocks before writing them, whatever is allocated, touched, written or freed in the main version or through other views, and in whatever order views are created and destroyed. A touched block belongs to the main version alone and holds the same content, and destroying a view frees exactly the extents no remaining version uses.',
 ['histories', 'inputs', 'fault_sequences'], 'every interleaving of view creation and destruction with touches, writes, allocations and frees, over any number of views and extents, with extent allocation failures',
 'Sharing is decided by comparing extent pointers at three levels with neighbours in the list of views; a wrong comparison shows only for particular histories of views.',
 ['small/matras.c', 'include/small/matras.h'],
 [('matras_touch copy on write', 'small/matras.c'), ('matras_destroy_read_view', 'small/matras.c'), ('matras_create_read_view', 'small/matras.c')])

prop('P22', 'Matras survives allocation failure and honours reserved extents',
 'When an extent cannot be allocated the failing matras operation reports it, and afterwards ids, addresses, content and views are what they were before the call and every extent held is counted and in use, with nothing leaked (a failing touch may keep private copies of the upper levels it made). After a successful touch reservation the promised number of touches succeed without obtaining further memory, as long as no view is created or destroyed and nothing is allocated in between; extents are taken from the reserve while there is one.',
 ['fault_sequences', 'histories'], 'every position of an extent allocation failure in every operation and every history before it',
 'Tests inject failures in a few operations only and check mostly that nothing crashes.',
 ['small/matras.c', 'include/small/matras.h'],
 [('rollback in matras_alloc / matras_alloc_range', 'small/matras.c'), ('matras_touch_reserve', 'small/matras.c')])

prop('P23', 'Red-black tree updates keep order, content and balance',
 'Inserting or removing a node in a red-black tree changes the set of nodes by exactly that node, leaves the in-order sequence sorted by the comparator, and keeps the tree balanced: the root is black, no red node has a red child, and every path down from a node meets the same number of black nodes, so that the height stays within twice the binary logarithm of the size plus one. With augmentation enabled the user-computed aggregate of every node is correct after each update.',
 ['histories', 'inputs'], 'every tree reachable by inserts and removes, and every key order',
 'The rebalancing cases depend on shapes and colours along the path; random tests visit them unevenly and compare with a reference only for some sizes.',
 ['include/small/rb.h'],
 [('rb_insert / rb_remove fix-up loops', 'include/small/rb.h'), ('rotations', 'include/small/rb.h')])

prop('P24', 'Red-black tree lookups and iteration return exactly the right nodes',
 'Exact, at-least and at-most searches, first, last, next and previous return the node the sorted sequence of the tree dictates, or none exactly when there is none; a walk in either direction, by callbacks or by a resumable iterator started at either end or at a key, visits every node in range exactly once in order.',
 ['inputs', 'histories'], 'every binary search tree of any shape, every key present or absent, and every iterator position',
 'Each search outcome depends on the path taken through an arbitrary tree; tests query mostly present keys in moderately sized random trees.',
 ['include/small/rb.h'],
 [('rb_search / rb_nsearch / rb_psearch', 'include/small/rb.h'), ('rb_first / rb_last / rb_next / rb_prev', 'include/small/rb.h'), ('rb_iter / rb_reverse_iter / iterators', 'include/small/rb.h')])

prop('P25', 'Intrusive list operations perform exactly the documented list edit',
 'Each operation of the intrusive doubly linked list (add, delete, shift, pop, move, swap, cut, splice, at head, tail or a given position) changes the sequences of the lists involved exactly as documented, for lists of any length including empty ones and with the item first, last or alone. Forward and backward links stay consistent, the emptiness test is right, nothing else is modified, and iteration visits every element once in order.',
 ['inputs', 'histories'], 'every list of any length and every position of the element or of the cut',
 'Pointer surgery has corner cases when neighbours coincide; tests exercise one five-element list.',
 ['include/small/rlist.h'],
 [('rlist_add / rlist_del / rlist_move / rlist_swap / rlist_cut_before / rlist_splice', 'include/small/rlist.h')])

prop('P26', 'The static buffer never hands out memory outside itself',
 'A block taken from the per-thread static buffer lies entirely inside the buffer and has the requested alignment, consecutive blocks do not overlap until the buffer wraps around, and a request for more than the whole buffer always returns NULL and changes nothing. A reservation followed by an allocation of at most the reserved size returns the same block.',
 ['inputs', 'histories'], 'every 64-bit size, every power-of-two alignment up to the page size and every position reached by any history',
 'Tests try sizes near the buffer size only; overflow of the position sum needs sizes near the address space limit.',
 ['include/small/static.h', 'small/static.c'],
 [('static_reserve wrap test', 'include/small/static.h'), ('static_aligned_alloc position restore', 'include/small/static.h')])

prop('P27', 'The AddressSanitizer build keeps the layout and accounting promises',
 'In the AddressSanitizer build every allocator returns payloads of the requested size whose address is a multiple of the alignment but not of twice the alignment, from which the header is recovered exactly, with the memory around the payload protected or guarded by a checked pattern. Used figures, object counts, truncation to savepoints, joins, rollback and collection by id behave as in the regular build.',
 ['inputs', 'configurations', 'histories'], 'every payload size, power-of-two alignment and header size, every address the system allocator may return, and every history of operations',
 'The layout depends on residues of the underlying address, which a test run does not control, and each sanitizer allocator keeps its own object list instead of slabs.',
 ['small/util.c', 'include/small/util.h', 'small/region_asan.c', 'small/lsregion_asan.c', 'small/obuf_asan.c', 'small/mempool_asan.c', 'small/small_asan.c', 'small/slab_cache_asan.c'],
 [('small_asan_alloc / small_asan_free layout', 'small/util.c'), ('header recovery', 'include/small/util.h'), ('object lists', 'small/*_asan.c')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
