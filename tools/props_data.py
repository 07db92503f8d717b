H = ["histories", "fault_sequences"]
HI = ["histories", "inputs", "fault_sequences"]

prop("C01", "Dynamic array equals a plain vector, even when memory runs out",
     "For every sequence of push, pop, peek, resize, reserve, reset and release with any element size, a dynamic array "
     "holds exactly the elements a plain vector would, in order. A request that cannot be met (allocation failure, or a "
     "count whose byte size is unrepresentable) is reported and leaves contents and length as they were. Release returns "
     "every block, and the array is usable again as soon as memory is available.",
     HI, "all operation sequences, element sizes, counts up to the size limits, and allocation-failure positions",
     "The testsuite pushes and pops fixed counts with a working allocator; no test fails an allocation or asks for a huge count.",
     ["src/array.c", "include/bfdev/array.h"],
     [("capacity growth before length update", "src/array.c array_resize/bfdev_array_push")],
     [("index/capacity", "elements in use / room", "include/bfdev/array.h bfdev_array_t")],
     ["bfdev_array_push", "bfdev_array_pop", "bfdev_array_peek", "bfdev_array_resize", "bfdev_array_reserve"])
prop("C02", "Hash map finds exactly the stored items across growth, shrink and OOM",
     "After any sequence of add, set, update, append, delete and find with any hash function (including colliding ones), "
     "find returns an item if and only if one with that key is stored, and each operation follows its documented "
     "insert/replace/duplicate rule. Rehashing never loses, duplicates or misplaces an item, and an allocation failure "
     "while growing or shrinking is either absorbed or reported with the map unchanged. The table follows the number of "
     "stored items (or the caller's own tuning callbacks, which see the true fill) instead of growing without need, and "
     "release returns all memory.",
     H, "all histories, hash distributions and allocation-failure positions",
     "The tests insert random items into a map with a working allocator; they never fail a rehash nor force collisions.",
     ["src/hashmap.c", "include/bfdev/hashmap.h"],
     [("rehash into a new table before switching", "src/hashmap.c hashmap_extend/hashmap_shrink")],
     [("used/capacity/bits", "population and table size", "include/bfdev/hashmap.h")],
     ["bfdev_hashmap_add", "bfdev_hashmap_set", "bfdev_hashmap_update", "bfdev_hashmap_append", "bfdev_hashmap_del", "bfdev_hashmap_find"])
prop("C03", "B+tree equals a sorted map over any insert/remove history and OOM",
     "For any history of insert, update, remove and lookup with keys of any width and value, zero included, a B+tree answers "
     "exactly like an ordered map, including duplicate-key handling by the caller's clash callback and every form of ordered "
     "iteration in both directions, with removal of the current entry where the form allows it. "
     "An allocation failure or a callback that vetoes leaves every stored key reachable and the operation reported as "
     "failed; memory stays proportional to the entries, and removing everything, or releasing, returns every node.",
     H, "all insert/remove histories, key widths, key distributions, allocation-failure positions and callback refusals",
     "The test inserts and removes one random batch without failures, so splits/merges under failure and odd fan-outs never run.",
     ["src/btree.c", "src/btree-utils.c", "include/bfdev/btree.h"],
     [("split before insert, rebalance after remove", "src/btree.c insert_level/remove_level/rebalance")],
     [("root/height", "tree shape", "include/bfdev/btree.h bfdev_btree_root_t")],
     ["bfdev_btree_insert", "bfdev_btree_remove", "bfdev_btree_lookup", "bfdev_btree_update", "bfdev_btree_get_prev", "bfdev_btree_first", "bfdev_btree_next"])
prop("C04", "Radix array equals a sparse array and keeps no memory for empty parts",
     "For any history of allocating, freeing, finding and iterating over offsets anywhere in the index range and for any "
     "element size, a radix array behaves like a sparse array whose never-used cells read as zero and whose other cells keep "
     "address and content. Every form of iteration visits exactly the allocated cells in order, also while they are "
     "freed. Charging a range leaves none of its indices needing memory, an allocation failure is reported and changes "
     "nothing, and freed cells' memory is returned.",
     H, "all histories, element sizes, index magnitudes and allocation-failure positions",
     "The test walks one contiguous range with a working allocator; sparse removal, growth in depth and failures are untested.",
     ["src/radix.c", "include/bfdev/radix.h"],
     [("depth growth by new roots, node retirement on last free", "src/radix.c")],
     [("root level", "depth of the tree", "include/bfdev/radix.h")],
     ["bfdev_radix_root_alloc", "bfdev_radix_root_free", "bfdev_radix_root_find", "bfdev_radix_root_charge"])
prop("C05", "Skip list is a sorted multiset for every level lottery and OOM",
     "For every sequence of inserts, deletes and finds and every outcome of the random level choice, a skip list is "
     "ordered, finds a key exactly when stored, and removes exactly one entry per delete. A failed node allocation "
     "is reported and changes nothing. Reset and destroy hand each remaining entry to the release callback once and "
     "free every node.",
     H, "all histories, all level sequences, allocation-failure positions",
     "The tests use the process's rand() once with a working allocator; rare level sequences and failed inserts never occur.",
     ["src/skiplist.c", "include/bfdev/skiplist.h"],
     [("random level, per-level splice", "src/skiplist.c bfdev_skiplist_insert/delete")],
     [("levels/curr", "maximum and current height", "include/bfdev/skiplist.h")],
     ["bfdev_skiplist_insert", "bfdev_skiplist_delete", "bfdev_skiplist_find", "bfdev_skiplist_reset", "bfdev_skiplist_destroy"])
prop("C06", "Cache never recycles a held element and accounts for every reference",
     "Whatever the interleaving of clients that obtain, hold, commit, release, rename, delete and reset, a cached tag is "
     "always answered with the same element until it is evicted, no element with outstanding references or an "
     "uncommitted change is evicted, renamed or deleted, and the reference, pending and hit/miss counters equal the "
     "clients' own books. Refusals happen only when every element is held or the change limit is reached, and service "
     "resumes after a release. A failed creation leaks nothing.",
     H, "all client histories for both policies, cache sizes and pending limits; allocation failure during creation",
     "The tests run one fixed access pattern per policy by a single client, never hold all elements and never fail creation.",
     ["src/cache/cache.c", "src/cache/lru.c", "src/cache/lfu.c", "include/bfdev/cache.h"],
     [("state lists and starving flag", "src/cache/cache.c cache_obtain/bfdev_cache_put")],
     [("refcnt/status/tag", "per element books", "include/bfdev/cache.h bfdev_cache_node")],
     ["bfdev_cache_obtain", "bfdev_cache_put", "bfdev_cache_committed", "bfdev_cache_del", "bfdev_cache_set", "bfdev_cache_reset"])
prop("C07", "Cache evicts by its policy: least recent (lru), least used (lfu)",
     "When a cache without free elements must recycle one, an lru cache takes the idle element that became idle "
     "longest ago, and an lfu cache takes an idle element with the fewest uses, across any history of hits, releases, "
     "renames and resets. As long as an idle element exists and the change limit is not reached, the request is served.",
     ["histories"], "all access histories, cache sizes and holding patterns",
     "The tests print hit rates and check no eviction order.",
     ["src/cache/lru.c", "src/cache/lfu.c", "src/cache/cache.c"],
     [("lru list order", "src/cache/lru.c"), ("lfu heap by frequency", "src/cache/lfu.c")], [],
     ["bfdev_cache_obtain", "bfdev_cache_put"])
prop("C08", "Bloom filter has no false negatives until flushed",
     "In any history of push, peek and flush with any hash functions and capacity, every key pushed since the last flush "
     "or creation is reported present, push returns what peek would have said before it, and an empty or flushed filter reports "
     "nothing present. With well-spread hashes a mostly empty filter reports most absent keys absent, however many functions and bits it "
     "has. A capacity there is no room for is refused. A failed creation leaks nothing and can be retried.",
     H, "all histories, hash functions, capacities and allocation-failure positions of creation",
     "The test checks one fill without a flush and with one hash.",
     ["src/bloom.c", "include/bfdev/bloom.h"],
     [("bit per hash, modulo capacity", "src/bloom.c bloom_find")], [("bitmap", "the filter", "include/bfdev/bloom.h")],
     ["bfdev_bloom_push", "bfdev_bloom_peek", "bfdev_bloom_flush"])
prop("A01", "Arena allocator never overlaps blocks, loses memory or fails with room",
     "For any sequence of alloc, realloc and free in an arena of any size and each fit policy, live blocks are inside the "
     "arena, aligned, disjoint from each other and from the bookkeeping, and keep their content; realloc keeps the common "
     "prefix and a failed realloc keeps the block. A request that fits a hole is served, an impossible one "
     "is refused, and freeing everything makes the whole arena allocatable again.",
     HI, "all histories, sizes up to the size limit, arena sizes including nearly full ones, three policies",
     "The tests run a few hundred random operations in a large arena and never exhaust it or ask for extreme sizes.",
     ["src/memalloc.c", "include/bfdev/memalloc.h"],
     [("split/merge of neighbouring chunks", "src/memalloc.c")], [("usize/avail", "chunk size with used bit, free bytes", "include/bfdev/memalloc.h")],
     ["bfdev_memalloc_alloc", "bfdev_memalloc_free", "bfdev_memalloc_realloc"])
prop("A02", "Bump pool hands out aligned disjoint blocks and recycles only when empty",
     "For any sequence of allocations with any size and power-of-two alignment, frees and resets, a bump pool's blocks are "
     "inside the pool, aligned, disjoint and untouched while live. Room is reused only after the last live block was "
     "freed or on reset, a request that fits the rest is served, and one that does not is refused without effect.",
     HI, "all histories, sizes, alignments, pool sizes and base offsets",
     "There is no test that exhausts or recycles a pool or asks for sizes that wrap.",
     ["src/allocpool.c", "include/bfdev/allocpool.h"], [("aligned offset, live count", "src/allocpool.c")],
     [("last/count", "offset and live blocks", "include/bfdev/allocpool.h")],
     ["bfdev_allocpool_alloc", "bfdev_allocpool_free", "bfdev_allocpool_reset"])
prop("A03", "Allocation helpers are exact and leak nothing when any allocation fails",
     "Through a caller-supplied allocator, the allocation front end (malloc, zalloc, realloc, arrays) and the helpers "
     "built on it (string duplication, argument splitting, edit distance, bitmap allocation, scope guards) return exactly sized, "
     "correctly filled results or, at whichever request the allocator fails, the documented failure value. "
     "In either case every intermediate block is released and live blocks keep their content.",
     HI, "all argument values, histories of live blocks, and the index of the failing allocation",
     "Tests use the default allocator, which never fails under test.",
     ["src/allocator.c", "src/libc/strdup.c", "src/argv.c", "src/levenshtein.c", "include/bfdev/allocator.h", "include/bfdev/guards.h"],
     [("front end dispatch to allocator operations", "src/allocator.c")], [],
     ["bfdev_malloc", "bfdev_zalloc", "bfdev_realloc", "bfdev_strdup", "bfdev_strndup", "bfdev_argv_split", "bfdev_levenshtein"])
prop("H01", "Linked lists are exact sequences, and refuse recognisable client errors",
     "Doubly linked, hash and singly linked lists and the hash table built on them stay equal to plain sequences under "
     "any history of add, delete, move, splice, replace, swap and stable sort over several lists, in every form of "
     "iteration, from any starting node, with nodes removed while the safe forms run. With the debug checks on, "
     "deleting a node twice, adding it next to itself or inserting between strangers is reported and changes nothing.",
     H, "all operation histories over several lists, including wrong calls the debug build is meant to contain",
     "The tests run each primitive once or twice on fresh nodes; hash-list neighbour insertion, swap of neighbours and wrong calls are not run.",
     ["include/bfdev/list.h", "include/bfdev/hlist.h", "include/bfdev/slist.h", "include/bfdev/hashtbl.h", "src/list-sort.c",
      "src/list-debug.c", "src/hlist-debug.c", "src/slist-debug.c"],
     [("neighbour checks before linking, poison after unlinking", "include/bfdev/list.h bfdev_list_insert/bfdev_list_del"),
      ("bottom-up merge sort", "src/list-sort.c")], [],
     ["bfdev_list_add", "bfdev_list_del", "bfdev_list_swap", "bfdev_list_sort", "bfdev_hlist_next_add", "bfdev_slist_del", "bfdev_hashtbl_add"])
prop("H02", "Red-black tree is a balanced ordered set under any history",
     "For any history of insert, delete, replace, lookup and teardown, plain, cached and augmented red-black trees hold "
     "exactly the inserted nodes in key order, refuse a duplicate key, stay within twice the logarithm in height, and "
     "agree in every form of inorder, reverse, preorder and postorder iteration, with nodes going away in the safe forms. The cached leftmost node is the smallest and every "
     "augmented value equals the maximum of its subtree. A second delete of a node is reported and changes nothing.",
     H, "all insert/delete/replace histories and key patterns for plain, cached, augmented and duplicate-key trees",
     "The tests insert one random or sequential batch; deletions rarely reach every rebalancing case and augmented values are unchecked.",
     ["src/rbtree.c", "include/bfdev/rbtree.h", "src/rbtree-debug.c", "include/bfdev/titer.h"],
     [("rebalancing after insert and delete", "src/rbtree.c bfdev_rb_fixup_augmented/bfdev_rb_erase_augmented"),
      ("augment callbacks", "include/bfdev/rbtree.h BFDEV_RB_DECLARE_CALLBACKS_MAX")],
     [("color/leftmost", "balance bit, cached minimum", "include/bfdev/rbtree.h")],
     ["bfdev_rb_insert", "bfdev_rb_delete", "bfdev_rb_find", "bfdev_rb_cached_first", "bfdev_rb_next", "bfdev_rb_post_next"])
prop("H03", "Index list stays sorted and stable and ignores repeated adds and deletes",
     "For any history of adds and deletes with any distribution of equal keys, an index list iterates in key order, equal keys "
     "in the order they were added, in every form of iteration, and its index names exactly the first node of every run of equal "
     "keys. Adding a node that is already on the list, or deleting one that is not, changes nothing.",
     H, "all add/delete histories, key distributions and repeated calls",
     "The test adds and removes one random batch and checks no index.",
     ["src/ilist.c", "include/bfdev/ilist.h"], [("index handed to the next equal node on delete", "src/ilist.c bfdev_ilist_del")],
     [("index_list", "ring of first nodes per key", "include/bfdev/ilist.h")], ["bfdev_ilist_add", "bfdev_ilist_del"])
prop("H04", "Interval tree returns every overlapping interval exactly once",
     "After any history of inserts and deletes of intervals, including equal, nested and single-point ones anywhere in "
     "the value range, a query of any range returns exactly the stored intervals that overlap it, each once, in order of "
     "their start, for the library's own instance and for any instance made from its template.",
     HI, "all insert/delete histories and query ranges",
     "The tests query a tree built once by sequential insertion and do not delete.",
     ["include/bfdev/segtree.h", "src/segtree.c", "src/rbtree.c"],
     [("subtree end kept through rotations", "include/bfdev/segtree.h BFDEV_SEGTREE_DEFINE")],
     [("subtree", "largest end below a node", "include/bfdev/segtree.h")], ["bfdev_segtree_insert", "bfdev_segtree_delete", "bfdev_segtree_first", "bfdev_segtree_next"])
prop("H05", "Binary heap keeps the smallest on top and its shape under any history",
     "For any history of inserts, pops and deletes of arbitrary nodes, a heap contains exactly the inserted nodes, is a "
     "complete binary tree with every parent not greater than its children, finds the node at each position, counts its "
     "nodes, drains in sorted order and visits every node once in every form of level order and postorder. A second delete of a node "
     "is reported and changes nothing.",
     H, "all insert/delete histories and key distributions",
     "The tests insert and pop; they do not delete inner nodes, look positions up or repeat a delete.",
     ["src/heap.c", "include/bfdev/heap.h", "src/heap-debug.c"], [("last node takes the removed place, then sifts", "src/heap.c bfdev_heap_remove/bfdev_heap_erase")],
     [("count", "nodes, and the path to the last one", "include/bfdev/heap.h")], ["bfdev_heap_insert", "bfdev_heap_delete", "bfdev_heap_find", "bfdev_heap_first"])
prop("H06", "Double delete, double link and corrupted links are caught before they spread",
     "For any history of valid calls on lists, hash lists, single lists, indexed lists, trees, heaps, the arena allocator and "
     "reference counts, the built-in debug checks report nothing. When the caller deletes or frees an element twice, links one that "
     "is still linked, or when a link around the element has been redirected to a wrong element, the next call on it is "
     "reported and changes no byte of the structure (an indexed list ignores a repeated call instead). A reference count is "
     "reported exactly when it is taken from zero or below, dropped below zero or overflowed, whatever the compiler's optimisation.",
     ["histories", "fault_sequences"], "all histories before the misuse, all misuses and positions of a redirected link",
     "The tests build with the checks compiled in but only make correct calls; no check has ever been seen to fire.",
     ["src/list-debug.c", "src/hlist-debug.c", "src/slist-debug.c", "src/ilist.c", "src/rbtree-debug.c", "src/heap-debug.c", "src/memalloc.c", "include/bfdev/refcount.h"],
     [("check first, link afterwards", "include/bfdev/list.h, src/ilist.c, src/rbtree.c, src/heap.c"), ("saturation", "include/bfdev/refcount.h")],
     [("poisoned links", "marks of a deleted element", "include/bfdev/poison.h")],
     ["bfdev_list_add", "bfdev_list_del", "bfdev_hlist_del", "bfdev_slist_del", "bfdev_ilist_add", "bfdev_rb_delete", "bfdev_heap_delete", "bfdev_memalloc_free", "bfdev_refcnt_sub"])
prop("E01", "State machine steps are all-or-nothing even when a callback or memory fails",
     "For any table of states, transitions, guards and parents and any event history, an event takes the first matching "
     "transition of the current state or the nearest ancestor that has one, and runs exit, action and enter with the right "
     "data in this order. When a callback fails or no memory is left to save a state, the error is reported and current "
     "state and saved states are as before; reset restores the initial state and releases what was saved.",
     H, "all machine tables, event histories, failing callbacks and allocation-failure positions",
     "The test drives one fixed table; no callback or allocation ever fails.",
     ["src/fsm.c", "include/bfdev/fsm.h"], [("state change after the callbacks", "src/fsm.c bfdev_fsm_handle")],
     [("stack/count", "saved states", "include/bfdev/fsm.h")], ["bfdev_fsm_handle", "bfdev_fsm_reset", "bfdev_fsm_prev", "bfdev_fsm_finished"])
prop("E02", "Notifier calls each registered node at most once, in priority order",
     "For any history of registering, unregistering and notifying, a notification calls the registered nodes in ascending "
     "priority, each at most once, until the limit is reached or a node asks to stop, and returns the right count and "
     "result. Nodes that ask for removal are removed, and callbacks may register nodes and unregister any, themselves "
     "included, but the one called next, without breaking the chain or the running notification.",
     H, "all registration histories, priorities, limits, callback results and re-entrant calls",
     "The tests register a few static nodes and never change the chain from inside a callback.",
     ["src/notifier.c", "include/bfdev/notifier.h"], [("ordered list walked safely", "src/notifier.c notifier_core")], [],
     ["bfdev_notifier_register", "bfdev_notifier_unregister", "bfdev_notifier_call"])
prop("E03", "Resource pool releases each resource exactly once, youngest first",
     "For any history of inserting, finding, removing and releasing resources, find returns the youngest match, each "
     "release callback runs exactly once with its own resource, and releasing everything takes each resource that "
     "was there, from the youngest to the oldest, and leaves a reusable pool that holds at most what release callbacks inserted meanwhile.",
     H, "all histories, match functions and re-entrant callbacks",
     "The tests insert and release one batch and never call back into the pool.",
     ["src/respool.c", "include/bfdev/respool.h"], [("LIFO list", "src/respool.c")], [],
     ["bfdev_respool_insert", "bfdev_respool_remove", "bfdev_respool_release", "bfdev_respool_release_all", "bfdev_respool_find"])
prop("E04", "Log delivers each record once, filtered, prefixed and never garbled",
     "For any format, length, level prefix, flags and filter level, a record at or above the filter's importance reaches "
     "the sink exactly once, with its level name and colour when asked for, as NUL-terminated text of exactly the stated "
     "length, cut but not garbled when it exceeds the buffer; other records reach it never. The sink's result, failing "
     "ones included, is returned to the caller. The bounded formatting underneath stays inside the room it is given and "
     "reports exactly what it wrote, also of text that cannot be encoded.",
     HI, "all formats, lengths up to several times the buffer, levels, flags and sink failures",
     "The tests print short lines to the console and check nothing.",
     ["src/log/log.c", "include/bfdev/log.h", "src/scnprintf.c", "include/bfdev/level.h"],
     [("bounded formatting with prefix", "src/log/log.c bfdev_vlog_core")], [], ["bfdev_log_core", "bfdev_vlog_core", "bfdev_log_level"])
prop("E05", "One-shot blocks, warnings and stored actions act exactly as often as due",
     "In one thread, a do-once block runs at its first reach with a true condition and never again, also if it is reached from "
     "inside itself or left by a jump; each block counts for itself, its condition is evaluated once per reach and its arguments "
     "only when it runs. A warning reports exactly when its condition holds and hands the condition on; a bug check reports and stops the program exactly then. A stored action calls "
     "the function stored last with the datum stored last and gives its result, and reports that there is none when it has no function, also if the "
     "function clears, replaces, updates or calls actions meanwhile.",
     H, "all histories of conditions, blocks, actions and callbacks that re-enter or jump",
     "The examples reach each block in one loop and call one action.",
     ["include/bfdev/once.h", "include/bfdev/action.h", "include/bfdev/bug.h"],
     [("mark before the block runs", "include/bfdev/once.h BFDEV_DO_ONCE_DONE")], [], ["BFDEV_DO_ONCE_DONE", "BFDEV_DO_ONCE_ON", "bfdev_action_call", "BFDEV_WARN_ON"])
prop("T01", "Rate limiter grants at most its burst per window under any clock",
     "Under any clock, including one that starts at zero, is negative, jumps or steps backwards, a rate limiter "
     "grants exactly the first burst-many requests of each window and refuses the rest; a window begins with its "
     "first request and lasts for the interval inclusive. A zero interval limits nothing. The counters of granted and "
     "refused requests are exact.",
     ["histories", "schedules"], "all clock histories, intervals and bursts",
     "The test uses the real clock for a second or two.",
     ["src/ratelimit.c", "include/bfdev/ratelimit.h"], [("window start and burst counter", "src/ratelimit.c")],
     [("begin/allowed/rejected", "window start and counters", "include/bfdev/ratelimit.h")], ["bfdev_ratelimit"])
prop("T02", "Token bucket never overspends, under any clock and idle time",
     "Under any clock, including long idle periods, jumps and backward steps, a token bucket starts full, gains one token "
     "per elapsed interval up to its capacity and grants a request exactly when a token is left. A backward step neither "
     "mints tokens nor blocks the bucket. The counters of granted and refused requests are exact.",
     ["histories", "schedules"], "all clock histories, intervals and capacities",
     "The test uses the real clock for a second or two.",
     ["src/tokenbucket.c", "include/bfdev/tokenbucket.h"], [("refill by elapsed intervals", "src/tokenbucket.c")],
     [("current/last_fill", "tokens and their reference time", "include/bfdev/tokenbucket.h")], ["bfdev_tokenbucket"])

S = ["schedules", "fault_sequences"]
CONC_NOTE = ("Seeded schedules over every memory access of the compiled code, sequentially consistent memory; "
             "store-buffer reorderings of weaker processors are outside the simulated machine.")
prop("L01", "Lock-free list loses, repeats and reorders nothing under any interleaving",
     "However any number of threads adding single nodes or whole batches interleave with one thread taking nodes, or with "
     "any number of threads taking everything at once, the list behaves as one stack: every node comes out exactly once, "
     "a batch stays contiguous and in order, each adder learns correctly whether the list was empty, and a thread that is "
     "suspended or dies inside a call keeps nobody else from finishing.",
     S, "all interleavings of the memory accesses of adders and takers, suspensions and deaths at any access",
     "No test uses the list at all; its guarantee is about interleavings, which a test cannot choose.",
     ["src/llist.c", "include/bfdev/llist.h"], [("compare-and-exchange loops on the head", "src/llist.c bfdev_llist_split/bfdev_llist_del")],
     [("head", "newest node", "include/bfdev/slist.h")], ["bfdev_llist_add", "bfdev_llist_split", "bfdev_llist_del", "bfdev_llist_destroy"], note=CONC_NOTE)
prop("L02", "Atomic operations and exchanges are linearizable",
     "Reads, writes, arithmetic, logic and exchange operations on an atomic variable take effect at one instant each under "
     "any interleaving: the results of all threads are those of some sequential order that respects real time. A "
     "compare-and-exchange succeeds exactly when the value matched, and reports the value it found. A suspended or dead "
     "thread delays nobody.",
     S, "all interleavings of any mix of atomic operations by several threads",
     "No test runs two threads; a non-atomic read-modify-write gives the same single-threaded results.",
     ["include/bfdev/atomic.h", "include/bfdev/cmpxchg.h", "include/bfdev/asm-generic/atomic.h", "include/bfdev/asm-generic/cmpxchg.h"],
     [("atomic builtins and retry loops", "include/bfdev/asm-generic/cmpxchg.h bfdev_arch_xchg")], [], ["bfdev_atomic_fetch_add", "bfdev_xchg", "bfdev_cmpxchg", "bfdev_try_cmpxchg"], note=CONC_NOTE)
prop("L03", "Reference count: the last drop is seen once, and zero is never revived",
     "Under any interleaving of threads taking and dropping references, exactly the drop that brings the count to zero is "
     "told so; nobody else is, and no conditional take succeeds afterwards. A conditional take adds its references if and "
     "only if the count was not zero and says whether it was; every operation reports the value it found. The count "
     "always equals the references taken minus those dropped.",
     S, "all interleavings of takers and droppers, suspensions and deaths at any access",
     "No test uses reference counts; the conditional take only misbehaves when another thread interferes.",
     ["include/bfdev/refcount.h", "src/refcount.c"], [("conditional increment loop", "include/bfdev/refcount.h bfdev_refcnt_fetch_addnz_test")],
     [("count", "references held", "include/bfdev/refcount.h bfdev_refcnt_t")], ["bfdev_refcnt_dec_test", "bfdev_refcnt_incnz_test", "bfdev_refcnt_fetch_add", "bfdev_refcnt_sub_test"], note=CONC_NOTE)
prop("L04", "Atomic bit operations touch one bit at one instant and lose no update",
     "Under any interleaving of atomic set, clear, flip, change and test operations on bits of the same or different "
     "words, each takes effect at one instant on exactly its bit, test-and-modify reports that bit's previous value, and "
     "no concurrent update of a neighbouring bit is lost.",
     S, "all interleavings of atomic bit operations on shared words",
     "No test runs two threads; a plain read-modify-write passes every sequential test.",
     ["include/bfdev/bitops.h", "include/bfdev/asm-generic/bitops.h"], [("test before modify, atomic fetch", "include/bfdev/asm-generic/bitops.h bfdev_arch_bit_atomic_test_set")],
     [], ["bfdev_bit_atomic_set", "bfdev_bit_atomic_test_set", "bfdev_bit_atomic_test_clr", "bfdev_bit_atomic_test_change"], note=CONC_NOTE)
prop("Q01", "FIFO needs no lock between one producer and one consumer",
     "With one producer and one consumer running concurrently without a lock, for any size, element type, static or "
     "allocated buffer and index wrap-around, the consumer reads exactly the producer's stream: nothing lost, repeated, "
     "reordered, torn or read before it was written. A call moves as many elements as fit or exist, never overruns either "
     "buffer, and reported length, emptiness and fullness are true for the asking side. If either side is suspended or "
     "dies, the other goes on and finds a prefix-correct stream.",
     S + ["configurations"], "all interleavings of one producer with one consumer, sizes, element sizes, index positions, failed allocations",
     "The test fills and drains a queue from one thread; the lock-free claim in docs/components.md is never exercised.",
     ["src/fifo.c", "include/bfdev/fifo.h"], [("copy before publishing the index", "src/fifo.c bfdev_fifo_in_flat/bfdev_fifo_out_flat")],
     [("in/out", "write and read index", "include/bfdev/fifo.h bfdev_fifo_t")], ["bfdev_fifo_put", "bfdev_fifo_get", "bfdev_fifo_in", "bfdev_fifo_out", "bfdev_fifo_peek", "bfdev_fifo_out_peek"], note=CONC_NOTE)
prop("Q02", "Record FIFO keeps record boundaries between one producer and one consumer",
     "With one producer and one consumer running concurrently, a record FIFO delivers whole records in order with their "
     "exact lengths: a record is accepted entirely or refused, is refused only if it does not fit the free space or its "
     "length field, and a reader whose buffer is too small gets the front of the record and loses only the rest of that "
     "record.",
     S + ["configurations"], "all interleavings, record lengths, length-field sizes, element sizes, index positions",
     "No test queues two records.",
     ["src/fifo.c", "include/bfdev/fifo.h"], [("length field written ahead of the data", "src/fifo.c bfdev_fifo_in_record/fifo_record_poke")],
     [("in/out", "write and read index", "include/bfdev/fifo.h bfdev_fifo_t")], ["bfdev_fifo_in_record", "bfdev_fifo_out_record", "bfdev_fifo_peek_record"], note=CONC_NOTE)
prop("Q03", "Ring buffer keeps the newest data, drops only the oldest, in order",
     "However far a reader falls behind, a ring buffer accepts every write up to its capacity, gives up no more of the "
     "oldest elements (or whole records) than the new data needs, and returns what is left in order and unaltered, with "
     "exact record boundaries, lengths and fullness, for any size, element size and index wrap-around. A failed buffer "
     "allocation is reported and leaks nothing.",
     H + ["configurations"], "all write/read histories, record lengths, sizes, index positions, failed allocations",
     "No test uses ring buffers.",
     ["src/ringbuf.c", "include/bfdev/ringbuf.h"], [("oldest data dropped before the new is written", "src/ringbuf.c bfdev_ringbuf_in_flat/bfdev_ringbuf_in_record")],
     [("in/out", "write and read index", "include/bfdev/ringbuf.h bfdev_ringbuf_t")], ["bfdev_ringbuf_put", "bfdev_ringbuf_in", "bfdev_ringbuf_out", "bfdev_ringbuf_get"])
prop("Q04", "Circular buffer arithmetic is safe for one producer and one consumer",
     "For every power-of-two size and every head and tail, the circular buffer macros report exactly the elements held, "
     "the room left (one slot stays free) and how much of each is contiguous, so that a producer and a consumer that "
     "follow them without a lock never overwrite unread data, never read unwritten data and never stall while there is "
     "room or data.",
     S + ["configurations"], "all interleavings and all head/tail positions for sizes 2 to 64",
     "No test uses the macros.",
     ["include/bfdev/circle.h"], [("masked index arithmetic", "include/bfdev/circle.h BFDEV_CIRCLE_SPACE_END")],
     [("head/tail", "write and read position", "include/bfdev/circle.h bfdev_circle_t")], ["BFDEV_CIRCLE_CNT", "BFDEV_CIRCLE_SPACE", "BFDEV_CIRCLE_CNT_END", "BFDEV_CIRCLE_SPACE_END"], note=CONC_NOTE)
prop("S01", "Text search finds each occurrence in a stream delivered in any blocks",
     "Searching a stream that is delivered in blocks of any size, each gone when the next is asked for, finds the first "
     "occurrence and then each next one behind it, never a false, earlier or repeated one, and ends: kmp finds every "
     "occurrence, bm and sunday every one inside a single block (they compare backwards and keep no text). A search on a "
     "stream that stalled goes on when more arrives, and case is ignored on request, for every byte value. Searches that "
     "share a configuration, a failed create and the algorithm registry leave others untouched.",
     H + ["inputs", "fault_sequences"], "all block cuts, stalls, patterns, texts, interleaved searches, failed allocations",
     "The example searches one string once per algorithm; block cuts, repeated search and most patterns are never run.",
     ["src/textsearch/kmp.c", "src/textsearch/bm.c", "src/textsearch/sunday.c", "src/textsearch/textsearch.c", "src/textsearch/linear.c", "include/bfdev/textsearch.h"],
     [("match state carried over blocks", "src/textsearch/kmp.c kmp_find"), ("shift tables", "src/textsearch/bm.c bm_compute_prefix")],
     [("offset", "where the next search starts", "include/bfdev/textsearch.h bfdev_ts_state_t")], ["bfdev_textsearch_find", "bfdev_textsearch_next", "bfdev_textsearch_linear"])
prop("S02", "A digest depends on the bytes alone, not on how they are delivered",
     "md5, sha1, sha224 and sha256 of a stream equal the standard's value however the stream is cut into deliveries "
     "(empty, short, across block borders, misaligned), however streams interleave, whether the context is moved, or "
     "restored from a checkpoint after a crash and fed again, and for streams longer than 2^32 bits; finishing writes "
     "exactly the digest and the input is never changed or read beyond its end.",
     H + ["inputs", "crash_points"], "all chunkings, alignments, lengths, checkpoints, interleavings",
     "The example hashes a fixed string in one piece.",
     ["src/crypto/md5.c", "src/crypto/sha1.c", "src/crypto/sha2.c", "include/bfdev/crypto/md5-base.h", "include/bfdev/crypto/sha1-base.h", "include/bfdev/crypto/sha2-base.h"],
     [("partial block buffering", "include/bfdev/crypto/sha2-base.h bfdev_sha2_base_update"), ("padding", "include/bfdev/crypto/sha2-base.h bfdev_sha2_base_finalize")],
     [("count", "bytes taken so far", "include/bfdev/sha2.h bfdev_sha2_ctx_t")], ["bfdev_md5_finish", "bfdev_sha1_finish", "bfdev_sha224_finish", "bfdev_sha256_finish"])
prop("S03", "A CRC can be continued over any split and alignment of the data",
     "Every CRC (4, 7, 8, 16, ccitt, itu-t, t10dif, 32, 64, rocksoft) of a stream equals the bit-by-bit definition for any "
     "start value, whether computed at once or continued over deliveries of any size and alignment, interleaved with "
     "other streams, or resumed from a saved sum after a crash; input beyond the given length is never read.",
     H + ["inputs", "crash_points"], "all chunkings, alignments, start values, checkpoints",
     "The example only measures bandwidth and checks no value.",
     ["include/bfdev/crypto/crc-inline.h", "include/bfdev/crypto/crc4-inline.h", "src/crypto/crc32.c", "src/crypto/crc64.c", "scripts/gen-crc.c"],
     [("eight bytes folded at a time", "include/bfdev/crypto/crc-inline.h BFDEV_CRC_INLINE")], [], ["bfdev_crc32", "bfdev_crc64", "bfdev_crc_rocksoft", "bfdev_crc16", "bfdev_crc_t10dif"])
prop("S04", "The stream cipher is position exact over any chunking, and its own inverse",
     "An arc4 stream gives the standard's output byte for byte however it is cut into pieces (empty ones included), in "
     "place or not, interleaved with other streams, after the context moved or was restored from a checkpoint; "
     "processing the output with the same key gives back the input. An empty key or piece changes nothing.",
     H + ["inputs", "crash_points"], "all chunkings, keys of 1 to 256 bytes, checkpoints, interleavings",
     "The example runs one buffer through once.",
     ["src/crypto/arc4.c", "include/bfdev/arc4.h"], [("indices kept between calls", "src/crypto/arc4.c arc4_transform")],
     [("box, proa, prob", "cipher state", "include/bfdev/arc4.h bfdev_arc4_ctx_t")], ["bfdev_arc4_trans", "bfdev_arc4_setkey"])

prop("S05", "A seeded generator repeats its sequence whatever happens around it",
     "A pseudo-random generator gives the sequence its seed defines (the combined Tausworthe generator of four components), for "
     "every seed, value by value or two at a time, however its use is interleaved with other generators, after it was copied, moved or "
     "restored from a saved state; it never reaches a state one of its components cannot leave.",
     H + ["inputs", "crash_points"], "all seeds, interleavings, saved and restored states",
     "The example prints a few values of one generator.",
     ["src/prandom.c", "include/bfdev/prandom.h"], [("minimum of each component's seed", "src/prandom.c prandom_setup")],
     [("s1..s4", "generator components", "include/bfdev/prandom.h bfdev_prandom_t")], ["bfdev_prandom_seed", "bfdev_prandom_value", "bfdev_prandom_u64"])
prop("M01", "Big integers stay exact through any chain of operations, aliasing and OOM",
     "Any chain of big integer operations (add, subtract, multiply, divide, shifts, bit set, logic, compare, limb import "
     "and export, immediates) computes exactly what unbounded integers compute, for every sign, length and value, also "
     "when operands share variables with each other or the result; a shift by any amount is exact or refused. A division leaves value = quotient x divisor + remainder "
     "with a remainder smaller than the divisor and of the dividend's sign, and refuses a zero divisor. An operation that "
     "fails, for any failed allocation, changes no variable and leaks nothing. The double-word arithmetic underneath (add, "
     "subtract, multiply, divide by one word or two) is exact, quotient and remainder, whichever of them is asked for.",
     H + ["inputs"], "all operation chains, limb patterns, aliasings, failed allocations",
     "Tests run (a+b)-b, (a*b)/b and xor round trips on random and empty values; rare carries, aliasing and OOM are not run.",
     ["src/mpi.c", "include/bfdev/mpi.h", "src/dword.c", "include/bfdev/asm-generic/dword.h"],
     [("carry and borrow between limbs", "src/mpi.c mpa_addi/mpa_add/mpa_sub"), ("quotient digit estimate and correction", "src/mpi.c mpa_divrem")],
     [("value", "limbs, least first", "include/bfdev/mpi.h bfdev_mpi_t"), ("plus", "sign", "include/bfdev/mpi.h bfdev_mpi_t")],
     ["bfdev_mpi_add", "bfdev_mpi_sub", "bfdev_mpi_mul", "bfdev_mpi_div", "bfdev_mpi_cmp"])
prop("M02", "Matrix operations are exact or refused, and failure changes nothing",
     "Every chain of matrix operations (add, subtract, multiply, transpose, import, copy, element access) computes what the "
     "definition over 64-bit wrap-around integers gives, whatever the shapes and whatever the destination held before. "
     "Shapes that do not fit, coordinates outside, and results too large to count are refused. An operation that fails, "
     "for any failed allocation, leaves every matrix as it was, and nothing leaks.",
     H + ["inputs"], "all chains, shapes, reused destinations, failed allocations",
     "No test uses matrices; one example prints a few results of fixed ones.",
     ["src/matrix.c", "include/bfdev/matrix.h"],
     [("storage sized for the result before it is computed", "src/matrix.c bfdev_matrix_mul/bfdev_matrix_import")],
     [("row, col", "shape", "include/bfdev/matrix.h bfdev_matrix_t"), ("values", "elements, row major", "include/bfdev/matrix.h bfdev_matrix_t")],
     ["bfdev_matrix_add", "bfdev_matrix_mul", "bfdev_matrix_trans", "bfdev_matrix_data"])
prop("B01", "A bitmap is exactly the set of its bits under any history of operations",
     "Any history of bitmap operations (range set and clear, copy, logic, complement, shifts, compare, weight, find first, "
     "next, last, previous, zero, clear-or-set walks, little and big endian) acts on exactly the bits named: bits "
     "outside the range are not changed and bits past the length influence no result, for every length, offset and word border, "
     "when operands share storage, and whether the length is known to the compiler or not.",
     H + ["inputs", "configurations"], "all histories, lengths, offsets, stale tail bits, aliasings, constant and variable lengths",
     "Tests walk random bits of one length; ranges, shifts, logic, stale tails, aliasing and const lengths are not run.",
     ["src/bitmap.c", "src/bitwalk.c", "include/bfdev/bitmap.h", "include/bfdev/bitmap-comp.h", "include/bfdev/bitwalk.h", "include/bfdev/bitwalk-comp.h"],
     [("first and last word masks", "src/bitmap.c bfdev_bitmap_comp_set"), ("single word fast paths", "include/bfdev/bitmap.h")],
     [("bitmap words", "bit n in word n/bits, position n%bits", "include/bfdev/bitmap.h")],
     ["bfdev_bitmap_set", "bfdev_bitmap_equal", "bfdev_bitmap_shr", "bfdev_find_first_bit", "bfdev_find_next_zero"])

prop("R01", "Sort and binary search are right, and safe under a lying comparison",
     "Sorting leaves exactly the same elements, in the order of a consistent comparison, for every element size, count and "
     "input order, in O(n log n) comparisons. Binary search finds a matching element exactly if there is one, in about "
     "log2(n) probes. Callbacks see only elements of the array, with the caller's data, and even a comparison that "
     "contradicts itself loses or repeats no element, touches nothing outside and cannot keep either from ending.",
     HI, "all arrays, element sizes, orders, and comparison callbacks, honest or not",
     "One example sorts random integers; other element sizes, presorted input, search and bad callbacks are not run.",
     ["src/sort.c", "src/bsearch.c", "include/bfdev/bsearch.h"],
     [("heap over byte offsets", "src/sort.c parent"), ("halving", "include/bfdev/bsearch.h bfdev_bsearch_inline")], [],
     ["bfdev_sort", "bfdev_bsearch", "bfdev_bsearch_inline"])
prop("W01", "Text encodings survive the channel, and damage is refused or contained",
     "base64, base32 and ascii85 text of any message is what the encoding defines, fits the promised length and decodes to "
     "the message. Text damaged on its way (bits flipped, characters lost, doubled, swapped, appended, cut off) is refused "
     "if a character is outside the alphabet, and otherwise decodes to what it says. Neither direction ever "
     "reads behind its input, writes behind the promised length or changes its input.",
     HI, "all messages, lengths and channel damage",
     "The examples round-trip one large random block whose length fits the group size; short tails and damage are not run.",
     ["src/crypto/base64.c", "src/crypto/base32.c", "src/crypto/ascii85.c", "include/bfdev/base64.h", "include/bfdev/base32.h", "include/bfdev/ascii85.h"],
     [("bit position in the group", "src/crypto/base64.c base64_decode"), ("zero group", "src/crypto/ascii85.c ascii85_decode")], [],
     ["bfdev_base64_decode", "bfdev_base32_decode", "bfdev_ascii85_decode"])
PURE = ("Pure function of its arguments: no schedule, clock, I/O, memory, randomness or second party a simulator could control "
        "or a fault could reach, so seeded simulation would be input sampling only; ")
prop("X01", "Hash functions map equal keys to equal hashes",
     "The general-purpose hash functions return the same value for the same bytes (and start value), wherever the bytes are "
     "placed and whatever follows them.",
     ["inputs"], "all keys, lengths and alignments", "No test checks a value.",
     ["src/jhash.c", "src/stringhash.c", "include/bfdev/hash.h"], [("tail bytes", "src/jhash.c")], [], ["bfdev_jhash", "bfdev_hash_32"],
     na=PURE + "their use in hash map, hash table and bloom filter is exercised by C02, H01 and C08.")
prop("X02", "Bit, byte-order and word primitives equal their definitions",
     "Bit counts, first/last set bit, bit reversal, byte swapping, rotation, binary coded decimal, logarithms, division, "
     "alignment, overflow checks and unaligned access equal their mathematical definition for every argument.",
     ["inputs"], "all argument values", "Only log2 has a self test.",
     ["src/popcount.c", "src/bitrev.c", "src/bcd.c", "src/dword.c", "include/bfdev/bits.h", "include/bfdev/swab.h", "include/bfdev/log2.h", "include/bfdev/overflow.h", "include/bfdev/unaligned.h"],
     [("tables", "src/bitrev.c")], [], ["bfdev_popcount", "bfdev_bitrev32", "bfdev_ilog2"],
     na=PURE + "those that the claimed components rest on are exercised through them (M01, B01, C04, C06, A01, S02).")
prop("X03", "Character classes and error names equal their tables",
     "Character classes, case conversion and error names and texts equal their tables for every argument.",
     ["inputs"], "all arguments", "No test covers them.",
     ["src/errname.c", "src/libc/ctype.c", "include/bfdev/ctype.h"], [("tables", "src/errname.c")], [], ["bfdev_errname", "bfdev_isalpha"],
     na=PURE + "the bounded formatting next to them is claimed with E04.")
