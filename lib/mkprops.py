#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording lives in one place)."""
import json, os
P = []
VEC = ["nestl/implementation/vector.hpp", "nestl/has_exceptions/vector.hpp"]
LST = ["nestl/implementation/list.hpp", "nestl/has_exceptions/list.hpp"]
SET = ["nestl/implementation/set.hpp", "nestl/implementation/detail/red_black_tree.hpp"]
SP = ["nestl/implementation/shared_ptr.hpp"]
CO = ["nestl/class_operations.hpp", "nestl/has_exceptions/detail/class_operations.hpp", "nestl/no_exceptions/detail/class_operations.hpp"]


def p(id, title, st, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None}})


p("C01", "vector behaves as a growable sequence",
  "After any history of successful calls a vector holds exactly the sequence the calls describe: append, insert at a position (value, moved value or range of any iterator category), resize, assign, clear, write, copy, move and swap each produce the documented sequence and returned position. Every observer (size, empty, indexing, front/back, forward, reverse and const iteration, equality) agrees with that sequence. Iterating never shows a moved-from, duplicated, lost or reordered element.",
  ["histories", "inputs", "configurations"], "every history of calls on one or two vectors, every element type (throwing, two-phase, non-movable, trivial), both library modes",
  "The tests run a few fixed short histories per method; several members (range insert, clear, move assignment) were never instantiated.",
  VEC + ["nestl/detail/uninitialised_copy.hpp"], [("insert_value / insert_range / do_resize / assign_iterator", "nestl/implementation/vector.hpp")],
  [("m_start..m_finish", "the sequence", "nestl/implementation/vector.hpp")], ["public observers after every call"])
p("C02", "vector operations report failure and keep their failure guarantee",
  "If an allocation or an element construction fails inside a vector operation, the caller's error object is set, and if none fails it stays clear and the operation takes full effect. A failed append, emplace, insert at the end, reserve or shrink leaves the sequence unchanged; a failed insert in the middle caused by allocation leaves it unchanged (a range insert keeps a prefix of the inserted range), and caused by an element leaves only a subsequence of the intended result; a failed resize keeps the old elements as a prefix, and a failed assign or copy leaves the old content or a proper prefix of the new one. The vector stays fully usable afterwards.",
  ["fault_sequences", "histories"], "every operation, from every state, with the failure at every allocation and every element construction in it, and sequences of such failures",
  "Tests inject a failure in a handful of calls (a zero-sized allocator, one throwing type) and never at each interior step.",
  VEC + CO + ["nestl/detail/destroy.hpp"], [("error checks after each construct/allocate, scoped guards", "nestl/implementation/vector.hpp")], [], ["error object and observers after a failed call"])
p("C03", "vector destroys each element once and returns all storage",
  "Every element a vector constructs is destroyed exactly once, none is used before construction or after destruction, and every storage block is returned to the allocator exactly once with the size it was requested with. This holds on success and on every failure path. Once all vectors are gone no element and no block remains.",
  ["histories", "fault_sequences"], "every history including failures injected at any point",
  "Leaks, double destruction and over-construction are invisible to the value comparisons the tests make.",
  VEC + ["nestl/detail/destroy.hpp", "nestl/detail/uninitialised_copy.hpp"], [("destruction_scoped_guard, deallocation_scoped_guard", "nestl/detail/destroy.hpp")])
p("C04", "vector capacity contract, amortised growth and impossible sizes",
  "Capacity is never below size; a successful reserve(n) yields capacity of at least n, growing operations that fit in the capacity do not reallocate or move the elements, clear and shrinking resize keep the capacity, a successful shrink_to_fit makes capacity equal size, swap and move exchange capacities, and a failed reserve or shrink changes nothing. Appending n elements one at a time reallocates O(log n) times. A size that cannot be allocated (including one whose byte count overflows) is reported as an error and the content survives (assign may leave it empty).",
  ["histories", "inputs"], "every history, every requested size in the size type",
  "Tests check a few small capacities; reallocation counts, element addresses and overflowing sizes are not observed.",
  VEC + ["nestl/allocator.hpp"], [("grow / reserve_nothrow / do_reserve", "nestl/implementation/vector.hpp"), ("allocate", "nestl/allocator.hpp")], [("m_end_of_storage", "capacity", "nestl/implementation/vector.hpp")])
p("C05", "vector accepts its own elements and itself as arguments",
  "Passing a reference to an element of the vector itself to append, emplace, insert, resize or assign uses the value that element had when the call was made, whether or not the call reallocates or shifts elements. Copying a vector from itself, swapping it with itself and comparing it with itself leave its content intact; self move leaves it intact or empty. A failure in such a call leaves the same guarantees as with a foreign argument.",
  ["inputs", "histories", "fault_sequences"], "every operation with a value argument, every position, every own element, with and without spare capacity",
  "No test passes an element of the container itself.",
  VEC, [("value copied before reallocation or shifting", "insert_value, resize_nothrow, assign_nothrow in nestl/implementation/vector.hpp")])
p("C06", "list behaves as a sequence with splicing",
  "After any history of successful calls a list holds exactly the sequence the calls describe, for push/emplace at both ends, insert and emplace anywhere (a value, possibly one of its own elements, a moved value, a count, a range in order), erase of one or a range, pop, clear, assign, copy, move, swap and splice of all, one or a range from another or the same list. Returned iterators designate the inserted element or the element after the erased ones. Size, emptiness, front/back, forward, reverse and const iteration and equality agree with the sequence.",
  ["histories", "inputs", "configurations"], "every history on two lists, every position and range, both library modes and all element kinds",
  "Tests use single short examples per method; range insert order, range erase, move assignment and splice corner cases were never executed.",
  LST, [("inject / transfer / remove on node links", "nestl/implementation/list.hpp")], [("node links", "circular doubly linked list", "nestl/implementation/list.hpp")])
p("C07", "list sort and merge: sorted, stable, a permutation, no element copied",
  "Sorting leaves the same nodes in non-decreasing order of the given (or default) ordering, with equivalent elements in their original order; merging two sorted lists leaves all nodes of both in the first, sorted, equivalent elements of the first list before those of the second, and the second list empty. Neither copies, moves, constructs or destroys an element nor allocates.",
  ["inputs"], "every sequence of every length, every strict weak ordering",
  "Tests sort a few fixed lists with distinct keys, so stability and merge-tree sizes (powers of two) are not reached.",
  LST, [("bottom-up merge sort by splicing", "sort / merge in nestl/implementation/list.hpp")])
p("C08", "list elements never move: references and iterators stay valid",
  "Insertion, erasure of other elements, sort, merge, splice, swap and move never change the address of an element that remains; references and iterators to it keep designating the same element, in the list that now owns it, and iterators can still be used to traverse and erase there. Splice, merge, swap, move and sort transfer nodes instead of copying them.",
  ["histories"], "every history with iterators held across any operation",
  "Tests compare values, not element identity, and hold no iterator across operations.",
  LST, [("node based storage, relinking", "nestl/implementation/list.hpp")])
p("C09", "list failures are reported, atomic, and nothing leaks",
  "If an allocation or element construction fails in a list operation the error object is set and if none fails it stays clear. A failed single-element insertion leaves the list unchanged with all iterators valid; a failed multi-element insertion keeps exactly a prefix of the new elements at the position; a failed assign or copy leaves the old content or a proper prefix of the new. Every element is destroyed once and every node is returned once to its allocator, on every path.",
  ["fault_sequences", "histories"], "every operation with the failure at every allocation and element construction, and sequences of failures",
  "Only a zero allocator and one throwing type are tried, on the first step of one call.",
  LST + CO, [("create_node with scoped guards", "nestl/implementation/list.hpp")])
p("C10", "set is an ordered collection of unique keys",
  "After any history of successful calls a set holds exactly the inserted and not erased keys, one per equivalence class of its comparator, in comparator order; inserting an equivalent key returns the existing element and false and keeps the stored key. Find, erase by key (returning how many) and erase by position (returning the successor) agree with that set, as do size, emptiness, forward/reverse iteration, copy, move and clear. Copies and moved-to sets keep ordering by the comparator of their source.",
  ["histories", "inputs", "configurations"], "every history of inserts, erases, copies and moves, every insertion order, every strict weak ordering including stateful ones",
  "Tests insert a few keys in fixed orders; rebalancing after erase, copies and stateful comparators are not covered.",
  SET, [("m_insert_unique / erase / find", "nestl/implementation/detail/red_black_tree.hpp")], [("root, leftmost, rightmost, node_count", "tree header", "nestl/implementation/detail/red_black_tree.hpp")])
p("C11", "set stays balanced: logarithmic lookups after any history",
  "After every history of insertions and erasures, a find or insert in a set of n keys compares against at most 2*log2(n+1) + O(1) distinct stored keys, and an erase by key (which looks up both ends of the equal range) at most 4*log2(n+1) + O(1). This holds for sorted, reversed, alternating and adversarial histories and for copies.",
  ["histories"], "every history of insertions and erasures",
  "Correct results do not reveal an unbalanced tree; tests use at most a few keys.",
  SET, [("red-black rebalancing on insert and erase", "nestl/implementation/detail/red_black_tree.hpp")])
p("C12", "set failures are reported, atomic, and nothing leaks",
  "If an allocation or element construction fails in a set operation the error object is set, and if none fails it stays clear. A failed insertion leaves the set unchanged with all iterators valid; a failed copy leaves the old content or a subset of the source, still ordered and usable. Every element is destroyed once and every node is returned once to its allocator, on every path.",
  ["fault_sequences", "histories"], "every operation with a failure at every allocation and element construction",
  "Only a failing first allocation is tried.",
  SET + CO, [("create_node / copy with error checks", "nestl/implementation/detail/red_black_tree.hpp")])
p("C13", "set elements never move: references and iterators stay valid",
  "Insertions, erasures of other keys, moves between sets and failed calls never change the address of a key that remains; iterators and references to it keep designating it and traverse the set in order in both directions. Moving a set transfers its nodes without copying keys.",
  ["histories"], "every history with iterators held across any operation",
  "Tests hold no iterator across a rebalancing erase.",
  SET, [("node relinking on erase of inner nodes", "nestl/implementation/detail/red_black_tree.hpp")])
p("C14", "shared_ptr: object lives exactly as long as it has an owner",
  "A managed object is alive exactly while at least one shared_ptr owns it and is destroyed exactly once, when the last owner is destroyed, reset or reassigned; use_count equals the number of owners, and unique, bool, get and dereference agree with it. This holds for every mix of copy, move, swap, reset, null, converting copies to a base type, self-assignment, self-move and assignment from a pointer stored inside the object being released. A moved-from pointer is empty.",
  ["histories"], "every history over any number of pointers and objects, including object graphs and re-entrant destruction",
  "Tests follow a few straight-line scenarios with one object.",
  SP, [("use count in the control block", "shared_count_base in nestl/implementation/shared_ptr.hpp")], [("m_use_count, m_weak_use_count", "owners and observers", "nestl/implementation/shared_ptr.hpp")])
p("C15", "weak_ptr: never keeps alive, never resurrects, frees its block once",
  "A weak_ptr never keeps the object alive; it is expired exactly when the object has no owner, and lock yields an owning pointer to the same object if it is alive and an empty pointer otherwise. The bookkeeping block is freed exactly once, when the last owner and the last weak_ptr are gone, including for weak pointers stored inside the object itself, copied, moved, self-assigned or reset. A moved-from weak_ptr is empty.",
  ["histories"], "every history mixing owners and observers, including observers inside the managed object",
  "Tests cover one weak_ptr and one lock.",
  SP, [("weak count in the control block", "nestl/implementation/shared_ptr.hpp")])
p("C16", "make_shared failure leaves nothing behind",
  "If allocation or construction of the value fails, make_shared (with or without an allocator) reports the error and returns an empty pointer, with no object alive, no value destroyed that was not constructed and no memory retained; otherwise it returns the sole owner of a value built from the arguments. The given allocator is used for the single allocation and gets it back when the last owner and observer are gone.",
  ["fault_sequences", "inputs"], "failure of the allocation or of each construction step, for throwing and two-phase values",
  "One failing type is tried; retained blocks and control-block state are not observed.",
  SP + CO, [("scoped guards in make_shared_a_nothrow", "nestl/implementation/shared_ptr.hpp")])
p("C17", "every block returns to the allocator instance that produced it",
  "With stateful allocators, every block a container or control block obtains is requested from the allocator the container holds, and is returned to an allocator equal to the one that produced it, through any mix of move construction, move assignment, copy, assign, swap, sort and destruction. Swap and move carry the allocator together with the storage, copying content keeps the target's own allocator, and get_allocator tells which one is held.",
  ["histories", "configurations"], "every history over containers with distinct allocator instances",
  "Tests use one allocator instance per container and almost never mix two.",
  VEC + LST + SET + SP + ["nestl/allocator_traits.hpp"], [("swap / move_assign / guards keep m_allocator with the storage", "all containers")])
p("C18", "error objects carry the failure that happened, once",
  "A failed allocation is reported as a bad_alloc error, an element's failure as exactly the error the element raised (the captured exception itself, or the code its two-phase init set), and an impossible length as a length or bad_alloc error, in every operation and for default and user-supplied error types. One failed operation reports exactly one failure, and operations that succeed leave the error object clear.",
  ["fault_sequences", "configurations"], "every operation, every failing step, default and user-defined error objects, both library modes",
  "Tests check only that an error is set.",
  CO + ["nestl/has_exceptions/exception_ptr_error.hpp", "nestl/no_exceptions/errc_based_error.hpp", "nestl/allocator.hpp"], [("from_exception_ptr / build_bad_alloc / build_length_error", "nestl/has_exceptions, nestl/no_exceptions")])
p("C19", "two-phase construction: default construct, then init, destroy on failure",
  "An object that can be built from the given arguments directly is constructed directly; otherwise it is default constructed and then initialised exactly once with the same arguments. If initialisation fails the object is destroyed exactly once and the failure is reported; nothing is initialised after a failed default construction. Containers of containers are copied deeply this way, and a failure at any depth is reported and leaks nothing.",
  ["inputs", "fault_sequences", "programs"], "every constructibility combination, argument kind and failing step, any nesting depth",
  "Tests cover one two-phase type at top level and no failing nested copy.",
  CO + ["nestl/type_traits.hpp"] + VEC + LST, [("construct overloads", "nestl/class_operations.hpp"), ("two_phase_initializator", "nestl/type_traits.hpp")])
p("C20", "algorithms: copy, copy_if, equal and lexicographical order",
  "copy and copy_if assign exactly the (selected) source elements in order to consecutive destination positions and return the position after the last one written; when an assignment fails they stop there, report it, return the failing position and leave everything behind it untouched. equal holds iff all paired elements match, and lexicographical_compare is the strict lexicographical order (a proper prefix is less, equal ranges are not), both with and without a predicate.",
  ["inputs", "fault_sequences"], "every pair of ranges, every predicate, failure at every position, every iterator category",
  "There is no test for the algorithms.",
  ["nestl/algorithm.hpp"] + CO, [("loops in nestl/algorithm.hpp", "nestl/algorithm.hpp")])
p("C21", "throwing wrappers throw exactly the failure and keep the strong guarantee",
  "With exceptions enabled, push_back, copy construction and copy assignment of vector and list throw exactly the exception their nothrow counterparts would report, and throw nothing otherwise. After a throwing push_back or copy assignment the target is unchanged, and after a throwing copy construction nothing remains. On success they have the same effect as the nothrow operations, also through conversion to and from the nothrow interface.",
  ["fault_sequences", "histories"], "every state and every failing step inside a wrapper call",
  "Tests call push_back a few times and do not make the wrappers fail mid-way.",
  ["nestl/has_exceptions/vector.hpp", "nestl/has_exceptions/list.hpp", "nestl/has_exceptions/exception_ptr_error.hpp"], [("copy and swap, throw_exception", "nestl/has_exceptions/vector.hpp, list.hpp")])
p("C22", "both library modes behave identically",
  "Compiled with or without exceptions, the same history of nothrow calls on vectors, lists, sets and shared pointers, with failures injected at the same points, produces the same contents, return values, failure outcomes and kinds of errors. The choice of error object type or of assertions being compiled in does not change behaviour either.",
  ["configurations", "histories", "fault_sequences"], "every history, in every build configuration",
  "Each test binary checks one mode against literals; no test compares the modes.",
  ["nestl/exception_support.hpp", "nestl/config.hpp"] + CO + VEC + LST, [("exception_support::dispatch", "nestl/exception_support.hpp")])
p("C23", "default allocator: sound blocks, refusals reported, nothing retained",
  "nestl::allocator gives n objects of a type storage that is aligned for the type, large enough, apart from every other outstanding block and unchanged until it is returned, whichever instance, allocator_traits, converted or rebound copy is asked. A request the heap refuses or that no address space could hold (also when the byte count would wrap around) reports bad_alloc and returns null, never a smaller block. Any instance may return a block, and each goes back to the heap exactly once. Containers, nested containers and shared pointers using it by default report a refusal at any point, can retry the failed step, and hold no memory after destruction.",
  ["fault_sequences", "histories", "inputs"], "every request size, every heap refusal point, every history of outstanding blocks and default-allocated owners",
  "Tests never make the heap refuse and never look at the blocks.",
  ["nestl/allocator.hpp", "nestl/allocator_traits.hpp", "nestl/detail/allocator_traits_helper.hpp"], [("allocate / deallocate, max_size, rebind", "nestl/allocator.hpp, nestl/allocator_traits.hpp")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
