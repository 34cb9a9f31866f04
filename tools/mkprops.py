#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public API of the containers, instrumented template arguments"],
                     hook_needed=hook)))

RB = ["immer/detail/rbts/rbtree.hpp", "immer/detail/rbts/operations.hpp", "immer/detail/rbts/position.hpp", "immer/detail/rbts/node.hpp"]
RRB = ["immer/detail/rbts/rrbtree.hpp"] + RB[1:]
HM = ["immer/detail/hamts/champ.hpp", "immer/detail/hamts/node.hpp", "immer/detail/hamts/bits.hpp"]
AR = ["immer/detail/arrays/no_capacity.hpp", "immer/detail/arrays/with_capacity.hpp", "immer/detail/arrays/node.hpp"]

prop("P01", "vector computes exactly what the mathematical sequence would",
 "For every history of vector operations (construction from a list, range or fill, push_back, set, update, take, copies and assignments), the resulting vector has exactly the elements, order and size that the same history produces on a plain mutable sequence. Indexing, at, front, back and size agree with that sequence, and at throws out_of_range for exactly the indices that are not smaller than the size.",
 ["inputs","histories","configurations"],
 "every finite history of operations over a pool of vectors, every index, every branching configuration (bits per inner node and per leaf) and element type",
 "the tests walk a few hundred sizes built one way with one value pattern; branch, depth and tail boundary combinations of the other configurations and mixed histories are not reached",
 ["immer/vector.hpp"]+RB,
 [("tail/root split and push_tail", "rbtree::push_back, push_tail_visitor"), ("slice_right", "rbtree::take, slice_right_visitor"), ("path-copying update", "rbtree::update, update_visitor")])
prop("P02", "flex_vector computes exactly what the mathematical sequence would",
 "For every history of flex_vector operations, including concatenation of arbitrary values, take, drop, insert, erase and push_front, conversion from vector, and any mixture of them, the result has exactly the elements, order and size that the history produces on a plain mutable sequence. Slicing beyond the end clamps to the available elements.",
 ["inputs","histories","configurations"],
 "every finite history over a pool of flex_vectors (any shape reachable through concatenations and slices), every index and every branching configuration",
 "relaxed trees have a huge shape space (node fill patterns, heights, tail sizes); the tests and the recorded fuzz inputs touch a few hundred shapes, mostly regular on one side",
 ["immer/flex_vector.hpp"]+RRB,
 [("concat rebalancing", "concat_trees, concat_merger, concat_rebalance_plan"), ("relaxed radix lookup", "relaxed_pos size tables"), ("slices", "slice_left_visitor, slice_right_visitor")])
prop("P03", "array computes exactly what the mathematical sequence would",
 "For every history of array operations (construction, push_back, set, update, take, copies) the resulting array holds, contiguously and in order, exactly the elements that the history produces on a plain mutable sequence. take(n) yields the first min(n, size) elements, and at throws out_of_range for exactly the indices not smaller than the size.",
 ["inputs","histories","configurations"],
 "every finite history over a pool of arrays, with and without reserved capacity, for trivial and non-trivial elements",
 "the tests use the generic vector cases with integers only; sharing of spare capacity between versions and non-trivial elements in it depend on the history",
 ["immer/array.hpp","immer/array_transient.hpp"]+AR,
 [("copy on write", "no_capacity::push_back, with_capacity::push_back"), ("geometric growth", "with_capacity::recommend_up")])
prop("P04", "set behaves as a mathematical set whatever the hash function does",
 "For every history of insert and erase on sets, membership, find, size and iteration agree with the mathematical set of elements modulo the given equality, each element being visited exactly once. This holds for every hash function consistent with the equality, including ones with partial or complete collisions.",
 ["inputs","histories","configurations"],
 "every finite history of inserts and erases over a pool of sets, every consistent hash function, every branching configuration",
 "the tests insert ranges of integers and one fixed family of colliding keys; deep prefix sharing, full collisions mixed with partial ones, and the collapse of nodes on erase depend on which hash bits coincide",
 ["immer/set.hpp","immer/set_transient.hpp"]+HM,
 [("add/sub descent", "champ::do_add, champ::do_sub"), ("collision buckets", "node::copy_collision_insert, copy_collision_remove"), ("bitmap indexing", "node::data_count, children_count")])
prop("P05", "map behaves as a mathematical finite map whatever the hash function does",
 "For every history of insert, set, update, update_if_exists and erase on maps, lookup by every means ([], at, find, count) and iteration agree with the mathematical finite map: the last value given for a key, each key visited exactly once, at throwing out_of_range and [] giving the default value for exactly the absent keys. This holds for every hash function consistent with the key equality, including fully colliding ones.",
 ["inputs","histories","configurations"],
 "every finite history over a pool of maps, every consistent hash function, every branching configuration",
 "as for sets; and update paths inside collision buckets, inlined entries and shared value blocks are reached by a handful of fixed key patterns only",
 ["immer/map.hpp"]+HM,
 [("update descent", "champ::do_update, do_update_if_exists"), ("add/sub descent", "champ::do_add, champ::do_sub"), ("lookup", "champ::get")])
prop("P06", "table behaves as a mathematical map keyed by its elements' own keys",
 "For every history of insert, update, update_if_exists and erase on tables, lookup by every means and iteration agree with the mathematical map from the key of an element to the last element given for it; an element written through update carries the key it was updated under. This holds for every hash function consistent with the key equality.",
 ["inputs","histories","configurations"],
 "every finite history over a pool of tables, every consistent hash function, every branching configuration and key extractor",
 "the tests repeat the map cases with one element type; the update path re-keys elements, which only histories that update absent and colliding keys distinguish",
 ["immer/table.hpp"]+HM,
 [("key extraction and re-keying", "table_key_fn, table::combine_value"), ("update descent", "champ::do_update")])
prop("P07", "A value once obtained never changes, whatever happens to other values",
 "Once a container value has been obtained, its elements, order, size and the addresses of and references to its elements stay the same for as long as that value is alive and not itself mutated. No operation on any other value (derived from it or not, persistent, moved-from or transient, including the destruction of those) changes what it contains.",
 ["histories","inputs","configurations"],
 "every history of operations over any number of live values sharing structure, for every container",
 "the tests check that the immediate source of an operation is unchanged; sharing between many generations, interleaved with in-place operations and releases, is not sampled",
 RRB+HM+AR+["immer/box.hpp"],
 [("path copying", "update_visitor, push_tail_visitor, copy_inner_* node operations"), ("reference counting decides in-place mutation", "node::can_mutate, refs().unique()")])
prop("P08", "Operations on moved values give the same results as on copies",
 "An operation applied to an expiring value produces exactly the value that the non-destructive operation would have produced, and leaves every other live value, even one sharing all of its structure, unchanged. The moved-from object can still be destroyed or assigned, and assigning a moved value to itself is harmless.",
 ["histories","inputs","configurations"],
 "every history mixing moving and copying operations over values that share any part of their structure, for every container and policy",
 "in-place paths depend on which parts of the structure are uniquely owned at that moment; the tests exercise the all-unique and the all-shared case",
 RRB+HM+AR+["immer/vector.hpp","immer/flex_vector.hpp","immer/map.hpp","immer/set.hpp","immer/table.hpp","immer/array.hpp"],
 [("in-place operations", "push_back_mut, update_mut, take_mut, drop_mut, concat_mut_*, champ::do_*_mut"), ("uniqueness check", "node::can_mutate")])
prop("P09", "Sequence transients act as mutable sequences isolated from persistent values",
 "A transient of a vector, flex_vector or array behaves under every history of its mutating operations (push_back, set, update, take, drop, append, prepend) exactly as a plain mutable sequence that starts as the value it was made from. Values extracted with persistent() and the values the transient was made from never change through later use of any transient, and the transient stays usable after persistent().",
 ["histories","inputs","configurations"],
 "every interleaving of operations on several transients and persistent values that share structure, including repeated extraction of persistent values in between",
 "the tests alternate one transient and one persistent value; several transients with shared relaxed structure, extracted repeatedly, are not reached",
 RRB+["immer/vector_transient.hpp","immer/flex_vector_transient.hpp","immer/array_transient.hpp"]+AR,
 [("ownership tokens", "transience policies: owner, ownee, edit"), ("in-place visitors", "push_tail_mut_visitor, slice_*_mut_visitor, concat_merger_mut")])
prop("P10", "Associative transients act as mutable sets and maps isolated from the rest",
 "A transient of a set, map or table behaves under every history of its mutating operations exactly as a plain mutable set or map that starts as the value it was made from. Values extracted with persistent() and the values the transient was made from never change through later use of any transient, for every hash function.",
 ["histories","inputs","configurations"],
 "every interleaving of operations on several transients and persistent values that share structure, every consistent hash function",
 "value blocks and nodes are shared independently of each other, so whether an in-place step is legal depends on the history of both; tests run one transient over one base",
 HM+["immer/set_transient.hpp","immer/map_transient.hpp","immer/table_transient.hpp"],
 [("in-place descent", "champ::do_add_mut, do_update_mut, do_sub_mut"), ("separately owned value blocks", "node::ensure_mutable_values, can_mutate_values")])
prop("P11", "Sequence equality depends on the elements only",
 "Two vectors, flex_vectors or arrays compare equal exactly when they have the same size and pairwise equal elements, whatever operations produced each of them and however much structure they share. Inequality is always the negation of equality.",
 ["histories","inputs","configurations"],
 "every pair of values reachable by any two histories, including pairs that differ in a single element at any position",
 "equality takes shortcuts through shared nodes and aligned subtrees of different heights and tails; tests compare values built the same way",
 RRB+RB[:1]+AR,
 [("structural comparison", "rrbtree::equals, rbtree::equals, equals_visitor")])
prop("P12", "Set, map and table equality depends on the contents only",
 "Two sets, maps or tables compare equal exactly when they have the same elements (for maps and tables, the same value under every key), whatever the order and kind of the inserts, updates and erases that produced each of them and whatever the hash function. Inequality is always the negation of equality.",
 ["histories","inputs","configurations"],
 "every pair of values reachable by any two histories, including erases back to a common subset and colliding keys in any order",
 "the comparison relies on the tree shape being a function of the contents, an invariant of all update and erase paths together; tests compare a few insertion orders",
 HM+["immer/set.hpp","immer/map.hpp","immer/table.hpp"],
 [("structural comparison", "champ::equals_tree, equals_collisions"), ("canonical collapse on erase", "champ::do_sub, do_sub_mut")])
prop("P13", "diff reports exactly the differences between two values",
 "diff(a, b) reports every element that is only in b as added, every element only in a as removed and every key with different values as changed with its old and new value, each exactly once and nothing else. Applying the reported changes to a therefore gives b, for maps, sets and tables with any hash function.",
 ["histories","inputs","configurations"],
 "every pair of values reachable by any histories, whether or not they share structure",
 "the traversal distinguishes all combinations of inlined entry, child node and collision bucket on both sides; tests reach the ones that ranges of integers produce",
 ["immer/algorithm.hpp"]+HM,
 [("paired traversal", "champ::diff, diff_data_node, diff_node_data, diff_collisions")])
prop("P14", "Iterators, ranges and chunk traversals all present the same sequence",
 "For every container value, forward and, where offered, backward and random access iteration, indexing and the chunk-based algorithms over the whole container or any sub-range present the same elements in the same order, each exactly once; iterator arithmetic and comparison agree with positions. Predicate-driven traversals stop at the first chunk for which the callback returns false and report it.",
 ["inputs","histories","configurations"],
 "every value reachable by any history, every pair of positions, every stopping point",
 "the cached leaf of an iterator and the sub-range entry points of chunk traversal depend on the shape and the two positions; tests use a few positions in regular trees",
 ["immer/algorithm.hpp","immer/detail/iterator_facade.hpp","immer/detail/rbts/rbtree_iterator.hpp","immer/detail/rbts/rrbtree_iterator.hpp","immer/detail/hamts/champ_iterator.hpp"]+RRB+RB[:1],
 [("cached region", "rbtree_iterator, rrbtree_iterator"), ("range traversal", "for_each_chunk_visitor and the _left/_right/_i variants"), ("tree walk", "champ_iterator::ensure_valid_")])
prop("P15", "No valid use causes undefined behaviour",
 "No sequence of calls within the documented preconditions, with any element type of fundamental alignment, makes the library read or write memory it does not own or has released, use uninitialised or misaligned storage, overflow, or otherwise execute undefined behaviour. Every object of the element type is used only between its construction and destruction and only at an address aligned for it.",
 ["histories","inputs","configurations"],
 "every history of calls on every container and transient, with element types of different size, alignment and triviality, under every memory policy",
 "the test programs run without sanitizers and mostly with unsigned elements; raw storage management is only visible to instrumentation",
 RRB+HM+AR+["immer/box.hpp","immer/heap/with_data.hpp","immer/detail/util.hpp"],
 [("manual storage layout", "node::sizeof_* and make_*"), ("uninitialized algorithms", "immer/detail/util.hpp")])
prop("P16", "Every element and every block of memory is released exactly once",
 "When the last value referring to an element or node goes away, that element is destroyed exactly once and its memory is returned exactly once to the heap it came from, with the size it was requested with. After all values are gone no element and no block remains; while values live, nothing they refer to is released.",
 ["histories","configurations","inputs"],
 "every history of creating, sharing, mutating in place, moving and destroying values of every container under every reference counted memory policy",
 "reference counts of nodes, size tables and value blocks are maintained by hand on every path; tests do not count elements or blocks",
 RRB+HM+AR+["immer/box.hpp","immer/refcount/refcount_policy.hpp","immer/refcount/unsafe_refcount_policy.hpp"],
 [("release traversals", "dec_traverse visitors, node::delete_deep"), ("reference counts", "node::inc/dec, refs().unique()")])
prop("P17", "A failing non-destructive operation changes nothing and leaks nothing",
 "If an allocation, an element copy, a hash or equality call or a user callback throws during an operation that is not applied to an expiring value, the exception reaches the caller, every existing value is unchanged, and no element or memory is leaked or released twice. The same operation succeeds when tried again without the fault.",
 ["fault_sequences","inputs","histories"],
 "every operation on every container in every reachable state, the fault placed at every point at which it can occur",
 "the tests throw at pseudo-random points and only look at the values; leaks and double destruction in the hand written cleanup code stay invisible",
 RRB+HM+AR+["immer/detail/util.hpp","immer/box.hpp"],
 [("cleanup code", "IMMER_TRY/IMMER_CATCH blocks in node and operations"), ("copy before commit", "path copying")])
prop("P18", "A failing in-place operation leaves valid values and leaks nothing",
 "If an allocation or a user supplied operation throws during an operation on an expiring value or a transient of a reference counted container, the object operated on remains valid (it can be read, mutated, assigned and destroyed), every other value is unchanged, and no element or memory is leaked or released twice. When neither the user's callback nor the moving of elements fails, the object keeps the contents it had before, unless the operation is an insert or erase inside an expiring flex_vector, which is made of several steps.",
 ["fault_sequences","inputs","histories"],
 "every in-place operation on every container and transient in every sharing state, the fault placed at every point at which it can occur",
 "in-place code moves elements and releases nodes before it is done; the tests sample few fault points, none for in-place erase or insertion in hashed containers",
 RRB+HM+AR,
 [("cleanup code of in-place operations", "ensure_mutable_*, move_inner_*, slice_*_mut_visitor, concat_mut_*")])
prop("P19", "Values shared between threads can be read and derived from without races",
 "With the thread safe policies, any number of threads may concurrently read, copy, compare, iterate, derive new values from and destroy their own copies of the same container values without data races, and each observes exactly the contents it would observe alone.",
 ["schedules","histories"],
 "every interleaving of non-mutating operations and of copies and destructions of thread-private handles over shared structure",
 "no test uses threads on containers; reference count and publication errors only show under specific interleavings",
 ["immer/refcount/refcount_policy.hpp","immer/heap/free_list_heap.hpp","immer/heap/thread_local_free_list_heap.hpp"]+RRB+HM,
 [("atomic reference counts", "refcount_policy::inc/dec"), ("thread-safe heaps", "free_list_heap, thread_local_free_list_heap")])
prop("P20", "In-place mutation never touches structure another thread can still see",
 "When threads each mutate their own value or transient in place while its structure is shared with values of other threads that are concurrently read, mutated or released, every thread observes exactly the contents its own operations produce, and nothing is freed while in use, released twice or leaked, whatever the interleaving.",
 ["schedules","histories"],
 "every interleaving of in-place operations by different threads on values that share nodes, including the release of the last other reference at any moment",
 "whether a node may be reused in place is decided from a count other threads are changing; the windows are a few instructions wide and no test has two threads",
 ["immer/refcount/refcount_policy.hpp"]+RRB+HM+AR,
 [("uniqueness check then mutate", "node::can_mutate, refcount_policy::unique"), ("copy then release", "ensure_mutable_*, do_sub_mut")])
prop("P21", "atom operations are linearizable",
 "Concurrent loads, stores, exchanges and updates on an atom behave as if each took effect at one instant between its call and its return: every load sees the latest value in that order, every exchange returns the value it replaced, and every update applies its function exactly once to the value it replaces, so that no update is lost. The values handed out stay valid after being replaced.",
 ["schedules","histories"],
 "every concurrent history of atom operations by any number of threads, for the reference counted and the garbage collected implementation",
 "the tests are single threaded apart from smoke checks; lost updates need a specific interleaving",
 ["immer/atom.hpp","immer/lock/spinlock_policy.hpp","immer/box.hpp"],
 [("spinlock protected box", "refcount_atom_impl"), ("compare and swap loop", "gc_atom_impl::update")])
prop("P22", "box is an immutable value with cheap, safe sharing",
 "A box always presents the value it was constructed with: copies share it without copying the content, update yields the function's result without affecting any other box, and an update of an expiring box gives the same value whether or not it happens in place. Comparisons agree with comparing the contents and the content is destroyed exactly once, when its last box goes away, also for recursive types and when construction fails.",
 ["histories","inputs","fault_sequences"],
 "every history of constructing, copying, moving, updating, comparing and destroying boxes, including boxes nested in containers",
 "the tests check single steps; in-place update under sharing and failure in the middle depend on the history",
 ["immer/box.hpp","immer/detail/util.hpp"],
 [("intrusive count", "box::holder"), ("in-place update when unique", "box::update &&")])
prop("P23", "Heaps hand out disjoint, aligned, large enough blocks and give memory back",
 "For every heap and combination of heap adaptors and every sequence of allocate and deallocate calls with matching sizes, a block is at least as large as requested, suitably aligned for any fundamental type, disjoint from all live blocks, and keeps its bytes until deallocated. Caching adaptors keep no more than their limit and forward everything else to their parent with the size that the parent allocated.",
 ["histories","configurations"],
 "every sequence of allocations and deallocations and every composition of the adaptors",
 "the tests allocate a few blocks and write to them; reuse order, limits, sizes at class boundaries and alignment are not checked",
 ["immer/heap/free_list_heap.hpp","immer/heap/unsafe_free_list_heap.hpp","immer/heap/thread_local_free_list_heap.hpp","immer/heap/with_data.hpp","immer/heap/split_heap.hpp","immer/heap/debug_size_heap.hpp","immer/heap/identity_heap.hpp","immer/heap/malloc_heap.hpp","immer/heap/cpp_heap.hpp","immer/heap/heap_policy.hpp"],
 [("free lists", "unsafe_free_list_heap_impl, free_list_heap"), ("headers", "with_data, debug_size_heap"), ("size classes", "split_heap")])
prop("P24", "Thread-safe heaps never hand one block to two owners",
 "When any number of threads concurrently allocate from and deallocate to the thread-safe heaps, including blocks allocated by other threads and threads that end, no block is owned twice at the same time, no block's contents change while it is owned, nothing is accessed after it went back to the parent heap, and what ended threads cached is not lost.",
 ["schedules","histories"],
 "every interleaving of allocations and deallocations by any number of starting and ending threads",
 "the heap tests are single threaded; free list corruption needs a preempted pop while the list head is recycled",
 ["immer/heap/free_list_heap.hpp","immer/heap/thread_local_free_list_heap.hpp","immer/heap/unsafe_free_list_heap.hpp"],
 [("lock-free stack", "free_list_heap::allocate/deallocate"), ("per-thread cache and its destruction", "thread_local_free_list_storage")])
prop("P25", "Without reference counts, transients still mutate only what they own",
 "With memory policies that do not count references (tracing or no garbage collection), transients and persistent values behave exactly as with counted ones: a transient changes in place only what was created by that same transient since its last persistent(), so no extracted, source or sibling value ever changes. Ownership is never confused between transients, however they are created, moved, copied, extracted from, appended to one another or destroyed.",
 ["histories","configurations"],
 "every interleaving of operations on several transients and persistent values under the uncounted policies",
 "a wrong or stale ownership token only matters when another value still sees the node; tests use one transient at a time",
 ["immer/transience/gc_transience_policy.hpp","immer/transience/no_transience_policy.hpp","immer/refcount/no_refcount_policy.hpp"]+RRB+HM+AR,
 [("ownership tokens", "gc_transience_policy owner/ownee/edit"), ("token transfer on append", "concat_merger_mut, append/prepend")])
prop("P26", "Operations share structure: their cost does not grow with the whole value",
 "Deriving a value by updating, inserting, erasing, appending one element or slicing allocates a number of nodes and copies a number of elements that is bounded by the tree depth times the branching factor, and concatenation likewise, independently of how much of the structure is shared; copying a value copies no elements. In-place operations on uniquely owned structure amortise to the cost of a mutable container (without reference counts, once a transient has made the structure its own), and comparing or diffing values that share structure visits a number of elements proportional to the changes.",
 ["inputs","histories","configurations"],
 "every operation on values of every size and shape",
 "the tests compare results only; an implementation that copied everything would pass them",
 RRB+HM+AR,
 [("path copying", "update_visitor, copy_inner_*"), ("sharing shortcuts", "equals_visitor, champ::diff, equals_tree")])
prop("P27", "Trees stay balanced and compact under any history",
 "After any number of concatenations, slices, inserts and erases, its lookup depth is bounded by a constant plus a multiple of the logarithm of the largest size in its history, and the memory held by a sequence or hashed container by a constant times its number of elements and its depth; emptying it, or slicing it down, releases the memory of what was removed once no other value refers to it. The shape of a hashed container depends on its contents only.",
 ["histories","configurations"],
 "every history of operations, in particular long ones that repeatedly cut and join or insert and erase",
 "degradation accumulates over thousands of operations; tests build a value once and look at its elements",
 RRB+HM,
 [("rebalancing on concat", "concat_rebalance_plan"), ("root collapse on slice", "slice_right_visitor, slice_left_visitor"), ("node collapse on erase", "champ::do_sub")])
prop("P28", "Equal identities mean equal values",
 "Whenever two live container values report the same identity they have the same contents, and the identity of a value does not change while it is alive; a copy has the identity of its source. An operation that changes the contents of a value never yields the identity of another live value with different contents.",
 ["histories","inputs"],
 "every pair of live values reachable by any history, including in-place operations and transients",
 "tests compare identities once after one copy; in-place mutation under sharing is what could break it",
 ["immer/vector.hpp","immer/flex_vector.hpp","immer/array.hpp","immer/set.hpp","immer/map.hpp"]+RRB+HM,
 [("root (and tail) pointer as identity", "identity() members")])
prop("P29", "Observable behaviour does not depend on policies or configuration",
 "The same history of operations yields the same observable results for every choice of heap, reference counting, lock and transience policy, of branching parameters, of element type with the same meaning, and of the library's configuration macros.",
 ["configurations","histories"],
 "all combinations of memory policy and branching parameters, compared on the same histories",
 "each test program fixes one of a dozen configurations, and no test compares two",
 ["immer/memory_policy.hpp","immer/config.hpp","immer/heap/heap_policy.hpp"]+RRB+HM+AR,
 [("policies as template parameters", "memory_policy"), ("layout depending on policy", "node::make_inner_*, combine_standard_layout")])
prop("P30", "User callbacks are called exactly as the interface promises",
 "update calls its function exactly once with the current value of the element (or the default value for an absent key) and stores its result; update_if_exists calls it once if the key is present and not at all otherwise, leaving the value unchanged. Lookups, including those by a compatible key type, change nothing and never create elements, and hash and equality are only ever given live keys.",
 ["histories","inputs"],
 "every update and lookup on every container value reachable by any history, for every hash function",
 "the tests use pure functions and look at the result; a second call, a stale argument or a call on a moved-from key is invisible to them",
 HM+RRB+AR+["immer/map.hpp","immer/table.hpp","immer/set.hpp"],
 [("callback forwarding", "champ::do_update*, update_visitor, update_mut_visitor"), ("heterogeneous lookup", "champ::get")])
prop("P31", "Sequences of billions of elements behave like small ones",
 "A sequence grown to a size far beyond 32 bits, by repeated concatenation or one element at a time, has at every position the element the sequence semantics gives, and taking, dropping, updating, inserting, appending, iterating from a position and traversing sub-ranges of it behave as they do for small ones, up to 2^35 elements and, depending on the branching factor, beyond 2^44.",
 ["inputs","histories","configurations"],
 "every value of any size up to 2^35 (branching of 8 and more), every position, every operation",
 "no test exceeds a few tens of thousands of elements; 32 bit intermediate results and deep trees show only beyond",
 RRB,
 [("index arithmetic", "position.hpp relaxed_pos/regular_pos, count_t and size_t"), ("depth limits", "visit_regular_descent, max_depth")])
prop("P32", "The experimental dvektor is a persistent sequence",
 "A dvektor has at every index the element that the history of push_back, assoc and update that made it puts there; its iterators present that sequence forwards, backwards and in jumps, up to both ends of empty, partial and full blocks, also after the vector is gone; versions it was derived from do not change; failing operations change and leak nothing, and every element is released once.",
 ["inputs","histories","configurations"],
 "all histories of positions and growth, in particular growth after the focus was moved elsewhere",
 "the tests append 666 elements, update 42 in order and iterate once; they never append after an update",
 ["immer/experimental/dvektor.hpp","immer/experimental/detail/dvektor_impl.hpp"],
 [("display of the path to the focus", "ref::goto_pos_writable_*, goto_fresh_pos_*, stabilize"), ("iteration", "iterator::increment, decrement, advance")])
prop("P33", "The Python binding's Vector is a safe persistent sequence of objects",
 "A Vector of the Python binding (immer-raw) holds exactly the objects appended and set, by identity, and gives back every reference it takes; deriving a vector leaves others unchanged; positions may be negative as in lists, others out of range raise IndexError and operations that are not implemented raise RuntimeError, without any other effect; weak references, deep nesting and the garbage collector do not endanger objects in use.",
 ["inputs","histories"],
 "all histories and positions, through every slot of the type the interpreter may call, with the collector running at any point",
 "the repository has no test of the binding at all, only a benchmark",
 ["extra/python/src/immer-raw.cpp"],
 [("slots of the type", "vector_append, vector_set, vector_subscript, vector_get_item, vector_hash"), ("references", "object_t, vector_dealloc, vector_traverse")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
