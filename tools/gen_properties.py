#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
L = "src/lib.rs"; I = "src/iter.rs"; R = "src/rle.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
H = ["histories", "inputs", "configurations"]
ELEM = "every element type obeying the traits (unmergeable, mergeable by contiguity / equal value / size, absorbing inserts, zero-length but not removable), with difference-maintained and recomputed caches"

prop("C01", "Inserting one element splices exactly its content at the addressed position",
 "Inserting one element at any valid place - at a cursor, at the position a query finds, at the front or at the back - of a tree reached by any history completes without panicking and leaves the content (all elements read front to back) equal to the previous content with exactly the new element's content spliced in there, whether the element is absorbed, merged into a neighbour, or stored separately after splitting one. The cursor returned denotes the place where the inserted content begins. The tree stays fully usable: later operations behave as specified too.",
 H, "all histories of tree operations, all insertion places (start, end, inside of any element, front, back), " + ELEM,
 "The tests only insert at a few text positions in short ropes and 1000 random keys with one element type; merging, absorbing, splitting and node overflow at arbitrary places and depths are sampled by a handful of sequences.",
 [L], [("insert / insert_by_path / push / prepend", "src/lib.rs: BTree::insert, insert_by_path, push, prepend"), ("leaf and node splitting", "src/lib.rs: split_leaf_if_needed, split, split_node, inner_insert_node, split_root")],
 [dict(name="leaf order", meaning="content is the left-to-right concatenation of the leaves", where="src/lib.rs: Node.children")], ["BTree::iter", "returned Cursor"])

prop("C02", "Batch insertion equals splicing the whole batch in order at the cursor",
 "Inserting any batch of elements at any valid cursor, or into an empty tree, completes without panicking and leaves the content equal to the previous content with the concatenation of the batch, in order, spliced in at that cursor. Nothing is lost, duplicated, reordered or put beside a different element, whatever merging happens among the batch and with its neighbours. The tree stays fully usable: later operations behave as specified too.",
 H, "all histories, all cursors, all batches (empty, one, many; any pattern of mergeable and unmergeable neighbours), " + ELEM,
 "The batch path is reached only through rope insertion of long strings, where pieces never merge and the tree is never empty; arbitrary merge patterns, cursors inside elements, and the build-from-batch path are never run.",
 [L], [("insert_many_by_cursor", "src/lib.rs: BTree::insert_many_by_cursor"), ("pre-merging of the batch", "src/lib.rs: merge_adj"), ("subtree construction", "src/lib.rs: create_subtrees_from_elem")],
 None, ["BTree::iter"])

prop("C03", "Collecting elements into a tree keeps them all, in order, in a valid tree",
 "Collecting any finite sequence of elements into a tree yields a tree whose iteration gives exactly those elements in that order, whose caches and structure are valid, and which answers queries accordingly. Every later operation on it behaves as on a tree built by inserting the elements one at a time.",
 ["inputs", "histories", "configurations"], "all sequence lengths (0, around each multiple and power of the node capacity, thousands), " + ELEM + ", all histories afterwards",
 "One unit test collects one sequence of rope chunks; other sizes (level boundaries, empty, one) and operations after collecting are not covered.",
 [L], [("FromIterator", "src/lib.rs: impl FromIterator for BTree")], None, ["BTree::iter", "BTree::check", "BTree::query"])

prop("C04", "Draining a range yields exactly that range and removes exactly that range",
 "Draining between any two ordered positions yields, in order, exactly the content between them, and when the drain ends or is dropped - wherever the caller stopped consuming it, including before the first element - exactly that content is gone and everything outside the range is kept in order. This holds for empty ranges, ranges reaching the start or the end, the whole tree and the empty tree. The remaining tree is valid (caches, structure, no retained removed nodes) and fully usable.",
 H, "all histories, all ordered pairs of positions (inside, at the edges of, and across any number of elements and subtrees), every amount of consumption before dropping, " + ELEM,
 "Drain is exercised by a few ropes and one 100-element range map; multi-level cuts, partially consumed drains, empty ranges, empty trees and zero-length elements at the boundary are not.",
 [I, L], [("Drain", "src/iter.rs: Drain::new, next, drop"), ("rebalancing after a drain", "src/iter.rs: seal, handle_lack_on_path_to_leaf"), ("drain / drain_by_query", "src/lib.rs")], None, ["elements yielded", "BTree::iter after drop", "BTree::node_len"])

prop("C05", "A range update touches exactly the content of its range, each part once",
 "Updating in place the content between any two ordered cursors applies the caller's function to exactly the content of that range, front to back, each part exactly once and nothing outside, splitting the elements at the edges when the range starts or ends inside them. Elements the function makes removable disappear, all other content is unchanged and keeps its order, and every summary takes the change into account. The tree stays valid and fully usable.",
 H, "all histories, all ordered cursor pairs, all element functions (no change, change with a reported summary difference, removal of some or all elements), " + ELEM,
 "The code itself says 'TODO: need better test coverage'; tests only overwrite or add on a 100-element range map with unit steps and never remove elements.",
 [L], [("update", "src/lib.rs: BTree::update"), ("batched summary propagation", "src/lib.rs: update_dirty_cache_map"), ("removal", "src/lib.rs: remove_leaf, remove_internal_node, handle_lack_recursively")], None, ["BTree::iter", "root_cache"])

prop("C06", "Updating or removing one element replaces exactly that element's content",
 "Removing one element by its handle, or updating one element by handle or by search with any permitted outcome (unchanged, changed, emptied, or returning additional pieces), replaces exactly that element's content by the resulting content in place and leaves everything else unchanged. An element left removable disappears from the tree, the result says truthfully whether the handle is still valid (and hands back the removed element), an update by search addresses the very place, marked found or not, that a query by the same search gives, and removing an already removed element changes nothing and reports nothing. The tree stays valid and fully usable.",
 H, "all histories, all elements, all permitted function outcomes incl. removable pieces and pieces mergeable with the next element, " + ELEM,
 "Reached only via single rope edits with text chunks; returned pieces, removable pieces, merging with the next element, node overflow and underflow by this route are hardly sampled.",
 [L], [("remove_leaf", "src/lib.rs: BTree::remove_leaf"), ("update_leaf", "src/lib.rs: BTree::update_leaf"), ("update_leaf_by_search", "src/lib.rs: BTree::update_leaf_by_search")], None, ["BTree::iter", "returned flag / cursor / element"])

prop("C07", "A multi-range update applies each argument to exactly its own range",
 "Given any list of (element, sub-range, argument) entries, the multi-range update applies each argument exactly once to every unit of its own sub-range and to no other unit, also when sub-ranges of one element overlap, touch or coincide and when many elements are involved. Apart from what the caller's function changes, the content and its order are unchanged, and the tree stays valid and fully usable.",
 H, "all histories, all lists of non-empty sub-ranges (several per element, overlapping, adjacent, whole element) over any elements, " + ELEM,
 "No test in the repository calls this operation at all.",
 [L], [("update_leaves_with_arg_in_ranges", "src/lib.rs: BTree::update_leaves_with_arg_in_ranges"), ("batched summary propagation", "src/lib.rs: update_dirty_cache_map")], None, ["BTree::iter", "root_cache"])

prop("C08", "Every summary always equals the fold of the content below it",
 "After any history of operations that respect the documented contracts, the summary of the whole tree and the summary stored for every subtree and every element equal the combination, in order, of the summaries of the elements below. This holds for summaries maintained by differences and for summaries recomputed from children, including order-dependent ones, and for the empty tree.",
 H, "all histories over all mutating operations, " + ELEM + ", commutative and order-dependent summaries",
 "Tests check the text length and key bounds after a few sequences; other operations, other summary algebras and removal, rebalancing or splitting at depth are not observed.",
 [L, I], [("incremental and full summary propagation", "src/lib.rs: recursive_update_cache, recursive_update_cache_with_diff, update_dirty_cache_map"), ("summaries on split, merge and borrow", "src/lib.rs: split_node, split_root, handle_lack_single_layer"), ("summaries after drain", "src/iter.rs: Drain::drop")],
 [dict(name="cache", meaning="summary per child and for the root", where="src/lib.rs: Child.cache, BTree.root_cache")], ["BTree::root_cache", "child summaries shown to queries"])

prop("C09", "Every reachable tree is a valid, balanced, leak-free B-tree",
 "After any history the tree is a well-formed B-tree: all elements lie at the same depth, no inner node is empty or full beyond what the next insertion can handle, every element and node is linked to the parent that actually contains it, the built-in consistency check passes, and the reported number of nodes and depth are those of the nodes actually reachable. The depth stays logarithmic in the number of elements, in growing as well as in shrinking trees. No valid operation panics.",
 H, "all histories, in particular alternating growth and shrinkage that overflows, underflows, merges, borrows and removes levels at every depth, " + ELEM,
 "Balance is asserted nowhere (the assertions are commented out with a FIXME) and the consistency check runs only after a few rope and key-set sequences.",
 [L, I], [("splitting", "src/lib.rs: split_at, split_node, split_root"), ("underflow handling", "src/lib.rs: handle_lack_recursively, handle_lack_single_layer, pair_neighbor, try_reduce_levels"), ("releasing removed nodes", "src/lib.rs: purge, remove_internal_node")], None, ["BTree::check", "BTree::node_len", "BTree::depth", "nodes shown to queries"])

prop("C10", "A query finds exactly the element and offset that its target denotes",
 "For every tree and every target, a query by length position returns the element that contains that position and the offset inside it, marked found, for all positions inside the content; positions at or beyond the end are marked not found (the end itself denoting the end of the content) and an empty tree gives no result. Any user-defined search that directs the descent by child summaries reaches exactly the element a linear scan with the same criterion reaches, and range queries agree with querying both ends. The search state handed back (remaining offset, parent, slot) describes the place reached.",
 H, "all histories, all targets 0..=length+k, " + ELEM + ", several search criteria",
 "The tests query 100 ascending keys and the positions of small ropes; zero-length elements, deep trees, targets at subtree boundaries and other criteria are not covered.",
 [L, "src/generic_impl/len_finder.rs"], [("query descent", "src/lib.rs: query, query_with_finder_return, range"), ("length search", "src/generic_impl/len_finder.rs: LengthFinder")], None, ["QueryResult", "LengthFinder state"])

prop("C11", "Stepping and comparing cursors agrees with the order of the content",
 "Stepping to the next or previous element, to the first or last, to the start or end cursor, preferring the left or right of an element boundary, and shifting by one unit all move exactly as in the front-to-back order of the elements, crossing subtree boundaries and skipping zero-length elements where documented, and report the end of the content exactly at the end. Comparing two cursors orders them exactly by that order and, within one element, by offset.",
 H, "all histories, all cursors and pairs of cursors, " + ELEM,
 "One test compares positions of 100 keys; stepping and shifting at node and subtree boundaries, at the ends of elements and around zero-length elements is not tested.",
 [L], [("neighbour steps", "src/lib.rs: next_elem, prev_elem, next_same_level_in_node, prev_same_level_in_node"), ("shifting and preferences", "src/lib.rs: shift_path_by_one_offset, prefer_left, prefer_right"), ("comparison", "src/lib.rs: compare_pos")], None, ["returned cursors", "Ordering"])

prop("C12", "Visiting the summaries before a cursor covers exactly the prefix before it",
 "For every cursor, visiting the summaries before it reports, left to right, summaries of disjoint parts which together are exactly the content before the cursor's element, followed once by that element and the offset in it; so a position computed from them is the cursor's true position and inverts the position query. No more summaries are visited than the siblings to the left on the way down from the root.",
 H, "all histories, all cursors, " + ELEM + ", commutative and order-dependent summaries",
 "Used by a rope test helper on a few small ropes with a single additive summary only.",
 [L], [("visit_previous_caches", "src/lib.rs: BTree::visit_previous_caches")], None, ["visited summaries"])

prop("C13", "Iteration and range iteration yield exactly the content, in order",
 "Iterating yields every element exactly once, front to back, for every reachable tree including the empty one. Iterating over a cursor range yields exactly the elements the range overlaps in order, with the start offset marked exactly on the element containing the start, the end offset exactly on the element containing the end, and the cursor of each element; unbounded ends reach the ends of the content, and an unbounded range of an empty tree yields nothing. The printed (debug) listing of a tree names each of its elements once, in that order.",
 H, "all histories, all ordered cursor pairs and bound kinds, " + ELEM,
 "Whole iteration is compared for a few sequences; range iteration is never called by any test.",
 [L, I], [("iter", "src/lib.rs: BTree::iter"), ("iter_range", "src/lib.rs: iter_range, _iter_range; src/iter.rs: Iter")], None, ["yielded elements and slices"])

prop("C14", "Filtered traversals visit exactly the elements whose summaries all pass",
 "Filtered iteration yields, in order, exactly the elements all of whose enclosing summaries and own summary satisfy the filter, each together with the accumulated value of everything the filter saw before it at its level and at the levels above. A filtered update calls the element function exactly once on exactly the elements whose enclosing and own summaries the filter accepts, applies summary edits where they were made, and touches nothing else.",
 H, "all histories, all filters that are functions of the summary, " + ELEM,
 "Neither operation is called by any test.",
 [L], [("iter_with_filter", "src/lib.rs: BTree::iter_with_filter"), ("update_cache_and_elem_with_filter", "src/lib.rs: BTree::update_cache_and_elem_with_filter")], None, ["yielded pairs", "elements afterwards"])

prop("C15", "Element handles stay valid, never alias, and new ones are reported",
 "A handle obtained for an element keeps denoting that element through any history until the element is removed, and a removed handle never denotes anything again in that tree, even when its storage is reused (clearing starts a new tree, in which earlier handles have no meaning). Content moves to another element only by being split off, merged or removed by an operation addressed to it; and the insertions and updates that report new elements report the handle of every element they create, so that a map from content to handle maintained from those reports alone is always right.",
 H, "all histories, all handles ever given out, " + ELEM,
 "No test keeps handles across operations; correctness depends on every split, merge and rebalancing path preserving and reporting handles.",
 [L, I], [("reported splits", "src/lib.rs: SplittedLeaves, insert_by_path, update, update_leaf, update_leaf_by_search, update_leaves_with_arg_in_ranges"), ("generational storage", "src/lib.rs: leaf_nodes, get_elem, remove_leaf")], None, ["get_elem / get_elem_mut / get_leaf by handle", "returned handles"])

prop("C16", "Clones are independent snapshots and a cleared tree is a fresh tree",
 "A clone has the same content, summaries, structure and handles as the original, and from then on no operation on either one affects the other in any observable way. Clearing a tree in any state leaves an empty tree with default summary, in which no element is found by any handle, and which then behaves like a new one.",
 H, "all histories before cloning or clearing, all histories on both sides afterwards, " + ELEM,
 "Cloning a tree is never tested; clearing is tested once on a three-character rope.",
 [L], [("Clone", "src/lib.rs: impl Clone for BTree / Node / Child"), ("clear", "src/lib.rs: BTree::clear")], None, ["both trees' content, caches and handles"])

prop("C17", "The ordered map behaves exactly like a sorted map",
 "For every history of insertions and deletions, the ordered map holds exactly the last value inserted for each key not deleted since, iterates pairs and keys in ascending key order, and reports length and emptiness accordingly. Deleting returns and removes exactly the entry of the given key, and deleting a key that is not present returns nothing and changes nothing.",
 ["histories", "inputs"], "all histories over all key types with a total order, dense and sparse key sets, any size, ascending, descending, clustered and random access patterns",
 "Tests insert 1000 random keys and delete present keys only; overwriting, absent keys, interleavings that merge and borrow nodes, and custom orders are not compared with a model.",
 ["src/generic_impl/ord.rs", L], [("OrdTreeMap::insert / delete", "src/generic_impl/ord.rs"), ("key-bound search", "src/generic_impl/ord.rs: impl Query for OrdTrait")], None, ["iter", "iter_key", "len", "is_empty", "delete result"])

prop("C18", "The ordered set behaves exactly like a sorted set",
 "For every history of insertions and deletions, the ordered set contains exactly the keys inserted and not deleted since, once each, iterates them in ascending order, and reports length and emptiness accordingly. Deleting reports true exactly when the key was present, removes exactly that key, and otherwise changes nothing.",
 ["histories", "inputs"], "all histories over all totally ordered key types, any size and access pattern",
 "Tests cover 1000 random insertions and a single deletion; the fuzz target in the repository deletes only present keys and is not part of the tests.",
 ["src/generic_impl/ord.rs", L], [("OrdTreeSet", "src/generic_impl/ord.rs")], None, ["iter", "len", "is_empty", "delete result"])

prop("C19", "A rope under any edit history equals the string under the same edits",
 "For every history of insertions at byte positions on character boundaries, deletions of any kind of range (including empty, reversed and past-the-end ones, which are clamped) and clears, the rope's text, length and emptiness equal those of a plain string given the same edits. This holds for any piece length from empty to many times the internal chunk size, for any text, and for any locality of successive edits. Inserting beyond the end is rejected and changes nothing, and the rope's own consistency check always passes.",
 ["histories", "inputs"], "all edit histories (scattered, typing and backspacing at one place, bulk inserts and deletes), all texts incl. multi-byte characters",
 "Eight recorded regressions with numeric snippets and a chunk size of 12 that exists only under the unit-test build; the shipped chunk size of 128, long edits, edit locality after clear, range kinds and multi-byte text are not covered.",
 ["src/generic_impl/rope.rs", "src/generic_impl/gap_buffer.rs", L, I], [("Rope::insert / delete_range / clear", "src/generic_impl/rope.rs"), ("last-edit position reuse", "src/generic_impl/rope.rs: Cursor"), ("gap buffer", "src/generic_impl/gap_buffer.rs")], None, ["to_string", "len", "is_empty", "check"])

prop("C20", "Slicing and splitting run-length values loses and invents nothing",
 "For every run-length value and every position, splitting gives two parts whose concatenation is the original, slicing by any kind of range bounds gives exactly that part, and slicing in place agrees with slicing. Updating a sub-range with splitting applies the function exactly once to exactly that sub-range, leaves the value and the returned parts as the original with that sub-range updated, in order, and does nothing for an empty range.",
 ["inputs", "configurations"], "all values, positions, ranges and bound kinds, for types that implement only the required slicing method",
 "The generic slicing helpers have no tests; one test slices an eight-byte gap buffer.",
 [R], [("Sliceable provided methods", "src/rle.rs: slice, slice_, split, update_with_split")], None, ["returned parts"])

prop("C21", "Mergeable neighbours are stored merged where the operation adds them",
 "Adding an element at an edge of the addressed element that can merge with it there (appending, prepending, or inserting at that edge) does not create another element, so appending or prepending any sequence one by one stores exactly its maximal mergeable runs. Inserting a batch of two or more elements never leaves two neighbouring elements that both come from the batch and can merge.",
 ["histories", "inputs", "configurations"], "all sequences and histories, element types merging by equal value, by contiguity, or by bounded size",
 "No test counts elements; losing the merging keeps all content-based assertions true.",
 [L], [("merge on push / prepend / insert", "src/lib.rs: push, prepend, insert_by_path"), ("merge within a batch", "src/lib.rs: merge_adj, insert_many_by_cursor")], None, ["number and extent of stored elements"])

prop("C22", "Point operations do only logarithmically much work",
 "Querying, stepping, inserting one element, and updating or removing one element call the element and summary functions a number of times bounded by a small constant times the depth of the tree, which is itself logarithmic in the number of elements; the ordered map and set likewise use only logarithmically many key comparisons. In particular a difference-maintained summary is never recomputed from the whole tree for a single change.",
 ["histories", "inputs", "configurations"], "all histories and sizes up to tens of thousands of elements; work is counted in calls of user-supplied functions, not in time",
 "Tests never count work; a linear fallback keeps every test passing.",
 [L, "src/generic_impl/ord.rs"], [("path-local summary updates", "src/lib.rs: recursive_update_cache, recursive_update_cache_with_diff"), ("underflow handling keeps the depth low", "src/lib.rs: handle_lack_single_layer, try_reduce_levels")], None, ["calls of user-supplied functions", "key comparisons"])

prop("C23", "A range map built on the tree equals an array under the same range writes",
 "A run-length range map built only from the public operations (length query, range query, range update, drain, push) returns, for every history of assigning, adding to and draining ranges, the same value at every index, the same drained values and the same length as a plain array given the same operations. This holds for ranges of any size, including single units, the whole map, ranges past the current end, and very long runs.",
 ["histories", "inputs"], "all histories of range assign / add / drain / lookup, lengths from 1 to billions",
 "The integration tests run five fixed scripts of at most 100 unit ranges.",
 [L, I, "src/generic_impl/len_finder.rs"], [("range / update / drain by length", "src/lib.rs: range, update, drain_by_query; src/iter.rs: Drain")], None, ["per-index values", "root summary"])

prop("C24", "An index with a user-defined search stays sorted and complete",
 "A sorted index built from the public operations with a user-defined search over key-bound summaries (insert at the searched place, look up, replace, remove by search, drain a key range) contains, for every history, exactly the keys a sorted map would contain, in ascending order, and finds every present key and no absent key. Draining a key interval yields and removes exactly the keys in it.",
 ["histories", "inputs"], "all histories, dense and sparse keys, ascending, descending, clustered and random access",
 "No test uses the public insertion and drain operations with a custom search; the ordered map in the repository bypasses them.",
 [L, I], [("insert by search", "src/lib.rs: BTree::insert, query"), ("drain by search", "src/lib.rs: drain_by_query")], None, ["BTree::iter", "query results"])

prop("C25", "Elements are merged, absorbed and cut only as they permit",
 "Whatever the history, the tree combines two elements only when the left one says it can merge with the right one (or the element absorbs the other itself), slices and splits elements only inside their bounds, and leaves no removable element stored. So limits that an element type imposes through these functions (a largest size, equal values only, contiguity only) hold for every element ever stored. An operation cuts elements only at the positions it is addressed to: elements not addressed are never fragmented.",
 H, "all histories over all mutating operations, all positions, " + ELEM,
 "The tests' text chunks only rely on a size limit that no test asserts, and merging by value or contiguity, forbidden merges and needless cuts leave the text the tests compare unchanged.",
 [L, I, R], [("merging on insertion", "src/lib.rs: insert_by_path, push, prepend, merge_adj, insert_many_by_cursor"), ("merging on updates", "src/lib.rs: update_leaf, update_leaves_with_arg_in_ranges"), ("cutting at range ends", "src/lib.rs: update, split_leaf_if_needed; src/iter.rs: Drain")], None, ["arguments of Mergeable / Sliceable / TryInsert calls", "element boundaries"])

prop("C26", "Range operations do work proportional to the part they touch",
 "Draining a range, updating a range, updating several ranges at once and inserting a batch call the element and summary functions a number of times bounded by a small constant times (the number of elements in the addressed ranges or in the batch, plus one) times the depth of the tree, whatever the size of the rest of the tree; where several ranges of one element are updated at once, each range counts once for every piece they cut that element into. Building a tree from a sequence of elements calls them at most a small constant times per element.",
 ["histories", "inputs", "configurations"], "all histories, all ranges and batch lengths, trees up to thousands of elements; work is counted in calls of user-supplied functions, not in time",
 "Tests never count work; an operation that recomputes the summaries of the whole tree, or looks at a batch quadratically often, keeps every test passing.",
 [L, I], [("drain", "src/iter.rs: Drain::drop"), ("range update", "src/lib.rs: update, update_dirty_cache_map"), ("multi-range update", "src/lib.rs: update_leaves_with_arg_in_ranges"), ("batch insertion and building", "src/lib.rs: insert_many_by_cursor, merge_adj, create_subtrees_from_elem, from_iter")], None, ["calls of user-supplied functions"])

prop("C27", "The same history always gives the same tree",
 "What a tree is after a history depends on that history alone: running the same operations again, on another tree in the same process, gives the same content, the same element boundaries, the same node sizes, the same returned cursors and the same handles, operation by operation. Continuing on a clone of the tree at any point gives the same content, element boundaries, node sizes and returned positions as continuing on the original.",
 ["histories", "configurations"], "all histories over all mutating operations, " + ELEM,
 "Every test runs each history once and compares content only; dependence on hash seeds, addresses, process-wide counters or state that a clone loses is invisible to it.",
 [L, I], [("dirty maps and grouped ranges", "src/lib.rs: update_dirty_cache_map, update_leaves_with_arg_in_ranges"), ("cloning", "src/lib.rs: Clone for BTree, Node, Child")], None, ["element handles", "node sizes", "content", "returned cursors"])

prop("C28", "Trees, maps and ropes behave the same at every size",
 "Whatever the number of elements, from one to tens of millions (as many as memory holds), and whichever way they were added (at the end, at the front, at both, in the middle, in batches, by collecting), a tree, an ordered map or a rope behaves as a small one does: iteration yields all content in order, queries, stepping, comparing, prefix visits and range iteration find the right places, and every modification has exactly its specified effect. Nothing panics, is truncated or is lost because the tree is large or deep.",
 ["histories", "inputs"], "all sizes up to tens of millions of elements, all ways of building, histories of all operations on them",
 "The tests use at most a few thousand elements (five levels); ten levels are reached only from about twenty million elements on, where fixed-size paths, small counters and slot numbers meet their limits.",
 [L, I, "src/generic_impl"], [("paths from the root to an element", "src/lib.rs: NodePath, first_path, last_path, get_path, update_leaf_by_search"), ("slots and parents at every level", "src/lib.rs: split_node, split_root, inner_insert_node, create_subtrees_from_elem, from_iter")], None, ["BTree::iter, query, root_cache", "OrdTreeMap::iter, len", "Rope::len, to_string"])

prop("C29", "What is removed is released; memory stays bounded by the content",
 "Whatever history of insertions, batches, removals, drains, emptying updates, clears, clones and collects a tree, a rope or an ordered map goes through, and however long it is, the elements (values) in existence are at every moment exactly those that it and its clones hold: what was removed, drained, emptied, replaced or cleared is released by the end of the operation. The number of nodes and the heap held stay within a constant plus a constant times the greatest content held so far, however many operations there were. Dropping the structure releases everything.",
 ["histories", "inputs", "configurations"], "all histories of any length of all mutating operations, element types with and without merging and absorbing, both kinds of summaries",
 "Content, order and summaries are unaffected by nodes and elements that stay behind in the arenas; only a long history, or a removal of a whole deep subtree, makes them show, and no test looks at memory.",
 [L, I, "src/generic_impl"], [("release of drained and merged nodes", "src/lib.rs: purge, handle_lack_single_layer, try_reduce_levels, remove_internal_node; src/iter.rs: Drain::drop"), ("release of removed and emptied elements", "src/lib.rs: remove_leaf, update_leaf, update, filter_deleted_children"), ("replacement of the root", "src/lib.rs: insert_many_by_cursor, create_subtrees_from_elem, FromIterator, clear")], None, ["drops of elements", "heap held", "BTree::node_len"])

prop("C30", "Elements and positions of any length are handled exactly and at once",
 "An element may stand for any number of units, from one to far beyond the range of 32-bit numbers. With such elements every query, comparison, step, prefix visit, range iteration, insertion into an element, batch, drain, update and split at a position behaves exactly as with short ones: offsets and positions keep all their bits, ranges are cut at the exact unit, and summaries are exact. No operation takes time in proportion to the length of an element.",
 ["histories", "inputs", "configurations"], "all element lengths and positions up to 2^60, all histories of tree operations, elements that merge and that do not, both kinds of summaries",
 "The elements of the tests are at most a few hundred units long; a position, an offset or a length that loses its upper bits, or a loop over the units of an element, cannot show there.",
 [L, I, "src/generic_impl/len_finder.rs"], [("positions to cursors", "src/generic_impl/len_finder.rs: LengthFinder; src/lib.rs: query, shift_path_by_one_offset, compare_pos"), ("cutting of elements", "src/lib.rs: split_leaf_if_needed, update, update_leaves_with_arg_in_ranges; src/iter.rs: Drain, IterRange")], None, ["BTree::query, iter_range, compare_pos, root_cache, iter"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
