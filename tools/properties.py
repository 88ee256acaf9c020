#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that wording stays reviewable)."""
import json, os
D = "include/fast_containers/"
DM = [D + "dense_map.hpp", D + "dense_map.ipp"]
SI = [D + "dense_map_simd.ipp"]
BT = [D + "btree.hpp", D + "btree.ipp"]
P = []
def p(id, title, st, over, q, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}), "mechanism": [dict(zip(("name", "where"), m)) for m in mech]}})

p("C01", "Fixed-capacity map behaves as a sorted map with a capacity limit",
  "Every operation of the fixed-capacity sorted map returns exactly what a mathematical sorted map with that content returns, and leaves exactly the content that map would have, whatever it held before. Inserting a new key into a full map is refused with an error and changes nothing. Iteration in either direction visits every element once, in key order.",
  ["inputs", "histories", "configurations"], "every fill level, every key/value content, every argument, both sort directions",
  "tests call each operation on a few hand-made contents; the shift loops misbehave only for particular (position, fill) pairs and key relations",
  DM, [("insertion core shared by the insert family", "dense_map.ipp: insert_impl"), ("erase shifts both arrays", "dense_map.ipp: erase"), ("operator[] own copy of the shift", "dense_map.ipp: operator[]"), ("iterators", "dense_map.hpp: dense_map_iterator")],
  [("keys_/values_/size_", "parallel arrays, first size_ entries active, keys strictly increasing", "dense_map.hpp")])
p("C02", "Every search mode and key type returns the exact position",
  "Searching the fixed-capacity map yields the same exact position (first element not less / greater / the element itself) in every search mode, for every supported primitive key type, in ascending and descending order, at every fill level. Vectorised and scalar searches are indistinguishable, including for extreme key values, signed/unsigned boundaries, negative zero and infinities.",
  ["inputs", "configurations"], "all key values of each primitive type (NaN excluded), all fills, three search modes, both directions, with and without AVX2",
  "tests probe a handful of keys per type; a wrong sign flip, lane mask or tail length shows only for particular key bit patterns at particular fills",
  DM + SI, [("vector compare + movemask + trailing ones", "dense_map_simd.ipp: simd_lower_bound_{1,2,4,8}byte"), ("mode dispatch", "dense_map.ipp: lower_bound_key")])
p("C03", "Splitting and transferring elements loses, duplicates or reorders nothing",
  "Splitting a map at a position, or transferring a prefix or suffix between two maps (also of different capacities), leaves in each map exactly the elements that belong there, in order, with their values. When the request does not fit or asks for too many elements it is refused with an error and both maps are unchanged.",
  ["inputs", "configurations"], "every pair of fills, every split point or count, every content",
  "tests use a few sizes; off-by-one shifts show only for particular combinations of fill, count and capacity",
  DM, [("element moves", "dense_map.ipp: split_at, transfer_prefix_from, transfer_suffix_from")])
p("C04", "Copies are equal and independent; moves transfer; arguments may alias",
  "Copying a fixed-capacity map yields an equal, independent map; moving transfers the content and leaves the source empty and usable; assignment replaces the whole previous content, self-assignment changes nothing. An insertion whose value argument refers to an element of the same map stores the value that element had at the time of the call.",
  ["inputs", "histories"], "every fill of source and target, every content, every aliased element and insertion position",
  "aliasing misbehaves only when the insertion position precedes the aliased element; tests never pass aliased arguments",
  DM, [("active-range copies", "dense_map.ipp: copy/move constructors and assignments"), ("new element built before the shift", "dense_map.ipp: insert_impl")])
p("C05", "Element resources are owned once, released on removal, safe on failure",
  "Whatever sequence of operations a fixed-capacity map has seen, each element owns its resources exactly once: nothing is leaked, released twice or used after release, and erasing or clearing gives the removed elements' resources up. If building or copying an inserted element fails, the map keeps exactly its previous content.",
  ["inputs", "histories", "fault_sequences"], "every fill, every pattern of vacated slots, every operation, every failing allocation",
  "a leak needs a particular history (vacated slot, then a constructing insertion) and does not change any result a test compares",
  DM, [("assignment into slots that always hold a live object", "dense_map.ipp: insert_impl, erase, clear, operator=")])

p("C06", "Tree lookups agree with the sorted map the tree represents",
  "For every tree content and shape and every probe key, membership, count, element access, exact search, lower bound, upper bound and equal range give exactly what a mathematical sorted map with that content gives. Access to a missing key is refused with an error, and no lookup changes the tree.",
  ["inputs", "histories"], "every valid tree shape up to the stated height, every content, every probe key",
  "the separator search, the step back from a separator and the hop to the next leaf interact only at node boundaries; tests hit a few of them with integer sequences",
  BT, [("descent by separators", "btree.ipp: find_leaf_for_key"), ("next-leaf hop", "btree.ipp: lower_bound, upper_bound"), ("bounds-checked access", "btree.ipp: at")],
  [("internal key = smallest key of the child", "routing invariant", "btree.ipp")])
p("C07", "Every tree insertion has sorted-map semantics",
  "Each insertion form adds the element exactly when the key is absent, reports whether it did, returns a position that designates the key, leaves an existing value alone (or assigns it, for assigning forms), and leaves every other element unchanged, also when the arguments refer to elements of the tree. The size always equals the number of elements.",
  ["inputs", "histories"], "every valid tree shape and fill up to the stated height, every key position including new minimum and maximum, every insertion form",
  "leaf and internal splits, root growth and separator updates combine in many ways; tests reach the common combinations with random integers and never enumerate them",
  BT, [("leaf insertion", "btree.ipp: insert_impl"), ("leaf split", "btree.ipp: split_leaf_and_insert"), ("separator insertion and internal split", "btree.ipp: insert_into_parent, split_internal"), ("new minimum", "btree.ipp: update_parent_key_recursive")])
p("C08", "Every tree erasure has sorted-map semantics",
  "Erasing by key, by position or by range removes exactly the designated elements, returns the right count or the position of the next element, and leaves every other element unchanged with its value. The size always equals the number of elements.",
  ["inputs", "histories"], "every valid tree shape and fill up to the stated height, every erased position, every range",
  "borrowing and merging chains depend on the fills of several neighbouring nodes at several levels; tests reach few of those combinations",
  BT, [("erase and returned position", "btree.ipp: erase"), ("underflow handling", "btree.ipp: handle_underflow, borrow_from_*_sibling, merge_with_*_sibling"), ("root collapse", "btree.ipp: handle_parent_after_merge")])
p("C09", "The tree stays a balanced, well-linked, correctly routed search tree",
  "After every operation all leaves are at the same depth, every node except the root keeps at least the minimum fill and at most its capacity, each separator equals the smallest key beneath it, parent, sibling and end links are mutually consistent, and an empty tree is a single empty leaf. Hence lookups and updates stay logarithmic for every history.",
  ["inputs", "histories"], "every valid tree shape up to the stated height, every operation, every argument; by induction every history of operations within that height",
  "an unbalanced or mis-linked tree still answers most queries correctly, and internals are invisible to the tests",
  BT, [("structural updates", "btree.ipp: split/merge/borrow helpers, update_parent_key_recursive, handle_parent_after_merge")],
  [("leaf_node::{next_leaf,prev_leaf,parent}, internal_node::{children_are_leaves,parent}", "links", "btree.hpp"), ("leftmost_leaf_/rightmost_leaf_", "cached ends", "btree.hpp")])
p("C10", "Iterators walk exactly the sorted sequence in both directions",
  "Iterating a tree forwards from begin to end, backwards from end to begin, or from any returned position visits every following (preceding) element exactly once in key order and stops at the end; dereferencing designates the live value, and writes through it change only that value.",
  ["inputs", "histories"], "every valid tree shape up to the stated height, every start position",
  "leaf hops and the end position are exercised by tests only at the boundaries their inputs happen to create",
  BT, [("leaf hop", "btree.hpp: btree_iterator::operator++/--"), ("end representation", "btree.hpp: begin/end/rbegin/rend")])
p("C11", "Copy, move, swap, clear and range construction preserve contents",
  "Copying a tree gives an equal, independent tree; moving or swapping exchanges contents without losing elements, leaves moved-from trees empty and usable, and keeps every tree paired with the allocator that owns its nodes; clearing empties; building from a list or range equals inserting its elements in order. Assignment replaces the whole old content and tolerates self-assignment.",
  ["inputs", "histories", "configurations"], "every pair of contents and shapes up to the stated height, allocators with every combination of propagation and equality",
  "allocator propagation traits change which branch runs; tests use one or two allocators and never mix unequal ones systematically",
  BT, [("copy/move/swap", "btree.ipp: constructors, operator=, swap, clear")])
p("C12", "Tree nodes are allocated and released exactly once, through the right allocator",
  "Every node a tree obtains is released exactly once, through an allocator equal to the one that provided it, no node is used after release, and a destroyed or cleared tree holds no nodes beyond what an empty tree needs. This also holds across copies, moves, swaps and merges.",
  ["inputs", "histories", "configurations"], "every valid tree shape up to the stated height, every mutating operation, stateful allocators",
  "a leaked or wrongly-returned node changes no result; tests only observe allocator totals in a few scenarios",
  BT, [("node allocation", "btree.ipp: allocate_*_node, deallocate_*_node, deallocate_tree, deallocate_internal_subtree")])
p("C13", "A failed insertion leaves the tree unchanged and leak-free",
  "If memory for a node cannot be obtained, or building the inserted value fails, the insertion reports the failure, the tree keeps exactly its previous elements and a valid structure, and nothing is leaked.",
  ["fault_sequences", "inputs"], "every valid tree shape up to the stated height, every insertion form, every failing allocation point",
  "no test injects allocation or copy failures",
  BT, [("ordering of allocation and modification", "btree.ipp: insert_impl, split_leaf_and_insert, insert_into_parent")])
p("C14", "Only the comparator decides which keys are the same",
  "Two keys are the same exactly when neither compares before the other under the container's comparator: lookups, insertions, erasures and ranges never consult any other notion of equality, so keys whose equality operator differs from the ordering behave as in a standard sorted map.",
  ["inputs", "configurations"], "every content, every probe, a comparator that ignores part of the key",
  "every test uses key types for which the comparator and == agree",
  DM + BT, [("equivalence tests after the search", "dense_map.ipp: find, upper_bound, insert_impl; btree.ipp: find_leaf_for_key, erase, update_parent_key_recursive")])
p("C15", "Default node sizes always give a valid tree configuration",
  "For every key and value size the default node capacities lie between the minimum and maximum the tree supports, are multiples of eight, and use the documented target footprint where the limits allow it.",
  ["configurations"], "every key and value size",
  "tests check a handful of types",
  BT, [("size heuristics", "btree.hpp: default_leaf_node_size, default_internal_node_size")])

HP = [D + "hugepage_pool.hpp", D + "hugepage_allocator.hpp"]
MS = [D + "multi_size_hugepage_pool.hpp", D + "multi_size_hugepage_allocator.hpp"]
PO = [D + "policy_based_hugepage_allocator.hpp"]
p("C16", "Blocks handed out by a pool are in bounds, aligned and disjoint",
  "Every block a memory pool hands out lies completely inside memory the pool obtained from the system, satisfies the requested alignment, is at least as large as requested and overlaps no other block currently in use, for every sequence of allocations and releases. A request that cannot be satisfied is refused with an error.",
  ["inputs", "histories", "configurations"], "every pool configuration, every reachable pool state, every request of at least pointer size and pointer alignment (the documented minimum of the pool)",
  "overlap needs particular sizes, region remainders or mixed requests; tests allocate one size from fresh pools",
  HP, [("bump allocation and growth", "hugepage_pool.hpp: allocate, grow"), ("free list", "hugepage_pool.hpp: deallocate")])
p("C17", "Released blocks are recycled and pool statistics stay exact",
  "A released block is reused for a request of the same size before new memory is taken, a block is never in use twice, and at every moment the reported numbers of allocations, releases, growths, bytes handed out, current use and peak use equal the true ones.",
  ["histories", "inputs"], "every reachable pool state, every operation",
  "tests compare a few totals after short fixed sequences",
  HP, [("intrusive free list and counters", "hugepage_pool.hpp")])
p("C18", "The multi-size pool serves each request from a class that fits it",
  "Every request size maps to a size class at least as large as the request, the mapping is monotone and idempotent, wastes no more than documented, and release routes to the same class as allocation, so blocks of different sizes never share storage.",
  ["inputs", "histories"], "every request size, every alignment the allocators use, every sequence of allocate and release",
  "tests check sample sizes; boundaries and overflow are not covered",
  MS, [("size classes", "multi_size_hugepage_pool.hpp: get_size_class, allocate, deallocate")])
p("C19", "Allocators obey the standard allocator contract",
  "Memory from an allocator can be released through any allocator that compares equal to it, copies and rebound or converted allocators that compare equal share the same storage, counts beyond what an allocator supports and size overflows are refused with an error rather than mis-served, and moved-from allocators remain usable.",
  ["inputs", "configurations"], "every element count, every allocator kind, copies, moves and rebinds",
  "tests construct allocators in a few ways and never check equality against shared storage or overflowing counts",
  HP + MS + PO, [("allocate/deallocate, equality, conversions", "hugepage_allocator.hpp, multi_size_hugepage_allocator.hpp, policy_based_hugepage_allocator.hpp")])
p("C20", "Policy-based allocation routes every object to its own pool, consistently",
  "A policy-based allocator takes leaf-like objects from the leaf pool and internal-like objects from the internal pool, always returns a block to the pool it came from, also after copying, converting, moving or swapping containers, and containers using it work as with the default allocator.",
  ["configurations", "histories"], "every node type, every operation of containers using the allocator",
  "a misrouted release merely recycles a block into the wrong pool, which no test observes",
  PO, [("TwoPoolPolicy routing", "policy_based_hugepage_allocator.hpp")])
p("C21", "System memory is obtained with fallback and returned exactly once",
  "Each region obtained from the system is returned exactly once with its full length when its pool dies, never earlier; if huge pages are unavailable regular pages are used instead, and if no memory is available the failure is reported without leaking or corrupting the pool.",
  ["fault_sequences", "histories", "configurations"], "every sequence of successful and failing system calls, every configuration",
  "tests cannot make the system calls fail",
  HP + MS, [("mmap/munmap handling", "hugepage_pool.hpp: allocate_region, grow, destructor")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
