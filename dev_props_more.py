KC = "include/KCAS/pmwcas.hpp"
prop("C10", "Multi-word compare-and-swap is atomic and lock-free",
  "A PMwCAS over up to K words, a CAS and a read of one word take effect atomically: a PMwCAS that returns true found every word at its old value and changed all of them at one instant, one that returns false changed none, and no read or CAS ever sees a part of it, a descriptor or a dirty bit. This holds with any number of threads that share words, help each other and reuse their descriptors; a stalled thread never prevents another from completing, and no descriptor is left behind.",
  ["schedules", "inputs"], "All preemption-bounded interleavings (bound 3, thorough 4) of all pairs of nine multi-word operations, with reads and compare-and-swaps, reused descriptors and words that change back; three threads at bound 2. Every state is also continued with each thread alone.",
  "The program in include/KCAS did not compile, no test uses it, and its checks only look for descriptors left in the array.", [KC, "include/persistence.hpp"],
  [("conditional installation of descriptors (RDCSS) in address order", KC + ": PMwCAS, InstallMwCASDescriptor, CompleteInstall"), ("status decided by one compare-and-swap, then final values", KC + ": PMwCAS"), ("descriptor reuse with sequence numbers", KC + ": createNew, CASField, readField")],
  [("descriptor references", "words under an undecided operation", KC + ": DescRef"), ("status and sequence number", "outcome of the operation", KC + ": KCASDescriptor::Mutable")], ["results of PMwCAS, CAS and PMwCASRead"])
prop("C11", "Multi-word compare-and-swap is crash-atomic",
  "After a crash at any point and recovery of the descriptors, the words hold every PMwCAS that had returned and all or nothing of each one in progress; what a read had returned stays true. Recovery removes every descriptor, can be interrupted and repeated, and leaves a manager that works. A new manager never applies descriptors of an older one.",
  ["crash_points", "schedules", "histories"], "Every crash point and combination of persisted cache-line prefixes of single operations (also during recovery) and of pairs of concurrent operations at bound 2 (thorough 3), with words on one and on several cache lines.",
  "No test recovers descriptors, let alone after a crash.", [KC, "include/persistence.hpp"],
  [("descriptors persisted before they become visible", KC + ": createNew"), ("recovery", KC + ": recover"), ("words persisted before the status, the status before the final values", KC + ": PMwCAS")],
  [("dirty bit", "value not yet known to be persistent", "include/marking.hpp")], ["words after recovery"])
CHM = "include/libpmemobj++/container/concurrent_hash_map.hpp"
prop("C13", "The libpmemobj++ concurrent hash map is linearizable",
  "Every insert, insert-or-assign, erase, lookup, and access through an accessor of the persistent concurrent_hash_map (and of the pm container built on it) takes effect atomically. Results of concurrent executions are those of an ordinary map, also while the table grows and buckets are moved lazily; an accessor excludes other writers, a const accessor keeps the element unchanged; size, emptiness and iteration agree with the contents when no operation is in progress.",
  ["schedules", "inputs", "histories"], "All preemption-bounded interleavings of pairs and triples of operations on the same, colliding and moving keys, across both kinds of growth; all operation sequences to a depth, with restarts.",
  WHY + "The tests insert unrelated keys, ignore results and hardly ever meet two threads in one bucket.", ["containers/pmemMap.hpp", CHM],
  [("bucket and element locks, try-acquire and restart", CHM + ": internal_find, internal_insert, internal_erase, try_acquire_item"), ("lazy rehashing of buckets, mask races", CHM + ": rehash_bucket, check_mask_race, check_rehashing_collision"), ("size counters per thread", CHM + ": thread_size_diff, tls_restore")],
  [("my_mask", "number of buckets - 1", CHM), ("node lists", "elements of a bucket", CHM)], ["results of the public operations, iteration, size"])
prop("C14", "The libpmemobj++ concurrent hash map is crash-atomic",
  "After a crash at any point of any operation, growth or rehash, and after reopening the pool and runtime initialisation, the persistent concurrent_hash_map holds the effect of every completed operation and of each interrupted operation completely or not at all; its size and iteration agree with its contents, it goes on working, and no persistent memory is leaked. Crashes during recovery do not change this. A pool whose creation was interrupted can be opened and used.",
  ["crash_points", "schedules", "histories"], "Every crash point and every combination of persisted cache-line prefixes of every operation from four starting tables, of pairs of concurrent operations, and of the recovery itself.",
  "No test crashes the program.", ["containers/pmemMap.hpp", CHM, "include/libpmemobj++/transaction.hpp"],
  [("operations inside transactions", CHM + ": internal_insert, internal_erase, clear"), ("sizes restored from per-thread differences", CHM + ": tls_restore, runtime_initialize"), ("rehash flags validated after restart", CHM + ": rehash_bucket, is_rehashed")], (), ["contents, size, iteration and allocated objects after recovery"])
prop("C27", "The persistent concurrent hash map is an atomic container",
  "Every constructor, assignment, swap, list and range form, overload of insert, insert_or_assign, find, count and erase (also with a key of another type), write through an accessor, rehash, defragment, clear, free_data and comparison of libpmemobj++'s concurrent_hash_map does to the map what it does to an ordinary map of unique keys, and hands out accessors to the element asked for, releasing what an accessor held before. Operations that must run outside a transaction refuse to run in one and change nothing; those allowed in one take part in it. If an element cannot be copied, memory runs out, the transaction aborts or the program crashes, each single operation has happened completely or not at all; size, iteration, lookups and a restart agree on it, each element is constructed and destroyed once, and no memory is leaked. Defragmentation and a user-supplied lock type keep concurrent operations atomic.",
  ["inputs", "histories", "crash_points", "schedules"], "Every operation in each overload and with boundary arguments from five pairs of maps, for three kinds of map: alone, in a committed and in an aborted transaction, with each allocation failing, with every crash point and persisted-prefix combination; all pairs of whole-map operations in one transaction; all sequences over a reduced alphabet; pairs of threads with defragmentation and with a custom lock.",
  WHY + "The tests only insert, erase and count through one overload each.", [CHM],
  [("insertion under a bucket lock", CHM + ": internal_insert, insert_or_assign"), ("copying and assignment", CHM + ": internal_copy, operator=, assign"), ("swap of all members", CHM + ": internal_swap"), ("destruction", CHM + ": free_data, clear, ~concurrent_hash_map"), ("defragmentation under range locks", CHM + ": defragment, lock_range")],
  [("my_mask, segments, tls_ptr", "table and size counters", CHM)], ["contents, results, exceptions, allocated objects"])
TXH = "include/libpmemobj++/transaction.hpp"
prop("C20", "Persistent transactions are atomic and isolated by their locks",
  "Everything a transaction (closure, basic or manual scope; nested or flat; with p<>, raw snapshots, make_persistent and delete_persistent) changes is either all kept or all undone: kept if it committed; undone if a step threw, it was aborted, an inner transaction failed, or the program crashed before the commit completed. The caller learns which: run() returns normally only after a commit, the exception that caused an abort reaches it (an abort nobody reported becomes a transaction error), and callbacks run once, in their stages. Locks given to a transaction are held until its effects are final, so that such transactions are serializable.",
  ["inputs", "crash_points", "schedules"], "All programs of up to a given number of transaction steps and nestings in every kind of scope, every allocation failure in them, every crash point and persisted-prefix combination of them, and every preemption-bounded interleaving of locked transactions.",
  "No test runs a transaction that fails, is nested or is interrupted.", [TXH, "include/libpmemobj++/make_persistent.hpp", "include/libpmemobj++/p.hpp"],
  [("scopes: start, commit, abort, errors of inner transactions", TXH + ": transaction_base::manual, basic, run, abort"), ("locks joined to a transaction", TXH + ": add_lock"), ("snapshots", TXH + ": snapshot; detail/common.hpp: conditional_add_to_tx"), ("callbacks", TXH + ": register_callback")],
  [("transaction stage", "none, work, onabort, oncommit, finally", TXH)], ["persistent variables and allocated objects afterwards, exceptions, callbacks"])
prop("C18", "Every container is the same atomic map behind the common interface",
  "Through the interface of containers/container.hpp, the stl, ucf and pm containers are one map from keys to values: insert makes the key present (value = key) and says whether it was absent; erase removes it and says whether it was present; contains, get and count report the contents; increment (stl, ucf) adds one, or starts at one. Every operation is atomic when threads share the container, and the stl container touches its map only under its lock. The persistent containers keep their contents across a clean restart; the stl container starts empty.",
  ["schedules", "inputs", "histories"], "All interleavings (preemption-bounded for ucf and pm) of all pairs and selected triples of operations from three starting contents, with race detection; all operation sequences to a depth, with restarts.",
  "The tests print counts and compare nothing.", ["containers/container.hpp", "containers/stlMap.hpp", "containers/ucfMap.hpp", "containers/pmemMap.hpp"],
  [("adapters", "containers/stlMap.hpp, containers/ucfMap.hpp, containers/pmemMap.hpp: container_type")], (), ["results of insert, erase, contains, get, count, increment"])
prop("C23", "The hash functions are the published functions of the bytes alone",
  "The value of every hash function in hashing/ depends only on the bytes, the seed and the secret. xxhash<32> and xxhash<64> are XXH32 and XXH64 for every length, and the map's hash of a key is the XXH64 of its bytes. xxhash3<64> and xxhash3<128> give the same value on every instruction set and keep their recorded values. Memory alignment and the kind of argument make no difference and nothing beyond the input is read. Hashing in pieces gives the value of the whole, whatever the pieces, and a state can be copied, assigned, reset and digested in between; canonical forms are big endian and convert back.",
  ["inputs", "histories"], "Every length up to 1300 (thorough 2500), every alignment, several seeds and secrets; every sequence of updates (16 piece sizes around the internal limits), copies, assignments and resets up to depth 4 (thorough 5) for every function and keying.",
  "The tests hash 8-byte keys only and would not notice a wrong value.", ["hashing/xxhash.hpp", "hashing/hash.hpp"],
  [("one-shot hashing by length class", "hashing/xxhash.hpp: endian_align, xxhash3_impl"), ("streaming states", "hashing/xxhash.hpp: hash_state_t, hash3_state_t"), ("functors of the map", "hashing/hash.hpp")], [("streaming buffer", "bytes not yet hashed", "hashing/xxhash.hpp: hash3_state_t")], ["hash values"])
CLH = "include/libpmemobj++/experimental/clevel_hash.hpp"
prop("C26", "The clevel hash table keeps every key while it grows",
  "A clevel_hash table (and the clevel container built on it) is a map: insert adds an absent key, with its value, and reports a present one; update replaces the value and erase removes the key of a present key only; search reports presence. This holds in every sequence of operations, while the table's own thread empties the lowest level, for clients that search and insert distinct keys at the same time, and after a clean restart. Whatever the timing, the table's thread finishes every growth, no client is blocked by another, no entry is freed twice or read after it was freed, and threads use no buffer of another. After a crash at any point the table holds every completed operation, each interrupted one completely or not at all, and goes on working.",
  ["schedules", "histories", "crash_points"], "All operation sequences to a depth around each fill level at which the table grows; every preemption-bounded interleaving of one and of two clients with the table's thread; every crash point and persisted-prefix combination of single operations and of a growth.",
  "The tests use a table that never grows and one buffer for all threads, and ignore results.", [CLH, "containers/levelMap.hpp"],
  [("search from the lowest level up", CLH + ": search, find"), ("insertion and context check", CLH + ": generic_insert"), ("erasure of duplicates", CLH + ": erase, del_dup"), ("adding a level and publishing it", CLH + ": expand"), ("moving the lowest level", CLH + ": resize"), ("buffers per thread", "containers/levelMap.hpp: insert, container_type")],
  [("level list", "last_level to first_level, all slots together are the contents", CLH + ": level_meta"), ("is_resizing", "a level is being emptied", CLH)], ["results of insert, update, erase and search, values found, level count"])
VEC, SEGV, STRH = ["include/libpmemobj++/container/" + x for x in ("vector.hpp", "segment_vector.hpp", "basic_string.hpp")]
prop("C21", "Persistent sequence containers are sequences, atomically",
  "vector, segment_vector (each storage policy), string and array of libpmemobj++ hold after every operation what the standard container of that kind would hold, return what it would return and throw for a bad index what it would throw, also where an operation takes an element of the container, or the string, itself. Reading by index, iterators in both directions, ranges, front, back and data() agree. Every modification is atomic and durable: when an element's constructor throws, memory runs out, the enclosing transaction aborts or the program crashes, the contents are exactly those before it (those after it once it has returned outside a transaction), no memory is leaked, and every element is constructed and destroyed once.",
  ["inputs", "histories", "crash_points"], "Every operation with boundary positions and sizes, from seven pairs of contents (empty, inside and beyond the short-string and segment limits, with and without spare capacity): alone, in a committed and in an aborted transaction with a second operation, with every crash point and persisted-prefix combination, with each allocation failing; all pairs and sequences over a reduced alphabet.",
  "No test uses these containers on their own.", [VEC, SEGV, STRH, "include/libpmemobj++/container/array.hpp", "include/libpmemobj++/container/detail/segment_vector_policies.hpp", "include/libpmemobj++/slice.hpp"],
  [("snapshots before elements change, also of unused capacity", VEC + ": add_data_to_tx, internal_insert, shrink, resize"), ("short and large strings", STRH + ": add_sso_to_tx, sso_to_large, large_to_sso, replace_content"), ("segments", SEGV + ": insert_gap, shrink, internal_reserve, snapshot_data")],
  [("_size, _capacity", "elements in use and allocated", VEC), ("sso flag", "where the characters are", STRH)], ["contents, results, exceptions, allocated objects"])
LK = ["include/libpmemobj++/" + x for x in ("mutex.hpp", "timed_mutex.hpp", "shared_mutex.hpp", "condition_variable.hpp", "experimental/v.hpp", "detail/volatile_state.hpp", "detail/enumerable_thread_specific.hpp")]
prop("C25", "Persistent locks, conditions and volatile members work like the standard ones",
  "A mutex, timed_mutex or shared_mutex of libpmemobj++ (and its scoped lock) is held by one owner, or by readers only; a lock is granted as soon as it is free, a try fails only when it is not, and a timed attempt gives up exactly at its time, whichever clock and unit name it. A condition_variable releases its mutex while waiting and holds it afterwards, loses no notification, returns a timeout as such and gives up at its time; with a predicate it returns the predicate's value, and only when that is true or time is over. A v<> member is constructed exactly once in each run of the program, with the arguments of the first access; volatile state is one object per persistent object and type, destroyed once, at the commit of the transaction that destroys it. Every thread has an element of its own in enumerable_thread_specific, which stays in place, keeps its value across a restart and survives a crash at any point.",
  ["schedules", "histories", "crash_points"], "All preemption-bounded interleavings of two and three lock attempts of every kind on each kind of lock, once and twice; of one and two waits of each of the sixteen kinds with notifications inside and outside the mutex; of first accesses to volatile members and thread-specific elements; all operation sequences on these to a depth, with restarts, transactions and crashes.",
  "No test waits on a condition, times out, or uses these classes on their own.", LK,
  [("conversion of any clock and unit to an absolute timespec", "include/libpmemobj++/detail/conversions.hpp; timed_mutex.hpp: timedlock_impl; condition_variable.hpp: wait_until_impl"), ("error codes to results and exceptions", LK[0] + ", " + LK[1] + ", " + LK[2]), ("one construction per run", LK[4] + ": get"), ("creation under a lock, destruction on commit", LK[5] + ": get, destroy"), ("growth under a lock, cached size", LK[6] + ": local, clear")],
  [("runid of a lock", "run of the program in which it was initialised", "libpmemobj"), ("_storage_size", "cached number of elements", LK[6])], ["lock results, time at which an attempt gives up, results of waits, values"])
PT = ["include/libpmemobj++/" + x for x in ("persistent_ptr.hpp", "persistent_ptr_base.hpp", "p.hpp", "make_persistent.hpp", "make_persistent_array.hpp", "make_persistent_atomic.hpp", "make_persistent_array_atomic.hpp", "allocator.hpp", "pool.hpp", "defrag.hpp", "detail/persistent_pool_ptr.hpp", "detail/compound_pool_ptr.hpp")]
prop("C28", "Persistent pointers, scalars, typed allocation and pools are sound",
  "A persistent_ptr, and a pointer within a pool, is assigned, moved along an array, subtracted, compared, swapped and converted (to void, const and base types) like the plain pointer; a p<> computes like its plain type; and an aborted transaction undoes all of that. make_persistent and delete_persistent (objects, arrays of run-time, fixed and two dimensions, the atomic variants, the allocator) construct every element once, in order, with the given arguments and destroy it once, in reverse; outside a transaction they refuse; when memory runs out or a constructor throws they throw what is documented; and then, as after an abort or a crash, pool, objects and pointers are as before: an object exists exactly when its pointer does. A pool is opened only under its own layout name, holds after a restart all that was persisted, and refuses use after closing. Defragmentation moves objects and updates the pointers to them without changing any content.",
  ["inputs", "histories", "crash_points"], "All sequences of operations to a depth over each kind of allocation (committed, aborted, nested, throwing, outside a transaction, with restarts), over 33 pointer operations and 32 expressions of p<>, directly and in committed and aborted transactions, over pool operations and over defragmentation; every allocation failing; every crash point and persisted-prefix combination of allocations and deletions.",
  "The tests never abort, run out of memory, crash, or compare pointers.", PT,
  [("offset of a base", PT[0] + ": calculate_offset"), ("changes recorded for undoing", "include/libpmemobj++/detail/common.hpp: conditional_add_to_tx; " + PT[2]), ("allocation and its failure", PT[3] + ", " + PT[4] + ", " + PT[7]), ("constructors in atomic allocation", "include/libpmemobj++/detail/make_atomic_impl.hpp"), ("element order", "include/libpmemobj++/detail/life.hpp"), ("pool life", PT[8]), ("pointers to be updated", PT[9] + ": add, run")],
  [("oid", "pool and offset of an object, or null", PT[1])], ["pointers, values, exceptions, constructed and destroyed elements, allocated objects"])
