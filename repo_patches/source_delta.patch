From 4e0369efede230e11a2194c3bd3276d854caf790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 01/18] fix: dropping a Drain over an empty tree or from its
 very end panicked

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..4bbb677 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        // there is nothing to drain, e.g. the tree is empty or the range starts at its end
+        let Some(store) = self.store.take() else {
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From 8697fb4dbaea0e4d81a6a902a681357b75595699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 02/18] fix: OrdTreeMap::delete removed a neighbour when the
 key was absent

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..7d3f04e 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From 083e16d301431072ae36cf081941a72b652db545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 03/18] fix: prepending to an empty tree left the root cache
 stale

---
 src/lib.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..595e537 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2521,15 +2521,7 @@ impl<B: BTreeTrait> BTree<B> {
 
     pub fn prepend(&mut self, elem: B::Elem) -> Cursor {
         let Some(leaf_idx) = self.first_leaf() else {
-            let parent_idx = self.root;
-            let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
-            let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
-            let ans = data.arena;
-            parent.children.push(data).unwrap();
-            return Cursor {
-                leaf: ans.unwrap().into(),
-                offset: 0,
-            };
+            return self.push(elem);
         };
         let leaf = self.leaf_nodes.get_mut(leaf_idx.0).unwrap();
         let parent_idx = leaf.parent();
-- 
2.43.0


From 1889e84ac7aa0411fb293ccf0929d62775fafab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 04/18] fix: Rope::clear kept a cursor into the cleared tree

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..ccc91bd 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -241,6 +241,7 @@ impl Rope {
 
     pub fn clear(&mut self) {
         self.tree.clear();
+        self.cursor = None;
     }
 
     #[allow(unused)]
-- 
2.43.0


From d64787623b2e766b3b0fc27dc32d1f75ec6d6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 05/18] fix: shifting a cursor by one dropped the remaining
 offset at a node boundary

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 595e537..4f3df47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -836,7 +836,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From e5d4759293d516812df0bdd526a06b2ef83f8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 06/18] fix: iter_range over an unbounded range of an empty
 tree panicked

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4f3df47..547490c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1720,16 +1720,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        start
+            .zip(end)
+            .map(|(start, end)| self._iter_range(start, end, inclusive))
+            .into_iter()
+            .flatten()
     }
 
     fn _iter_range(
-- 
2.43.0


From 27e25796bf99cd4328ecc560263cbef4bda5e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 07/18] fix: merging the neighbours of an inserted batch
 reordered its elements

---
 src/lib.rs | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 547490c..7a0377e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2728,28 +2728,14 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    data.dedup_by(|next, prev| {
+        let mergeable = prev.can_merge(next);
+        if mergeable {
+            prev.merge_right(next);
         }
-        i += 1;
-    }
 
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+        mergeable
+    });
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From aa2476b5393e342f838357cb3c01a2aed470adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/18] fix: an inserted batch was merged into the element
 before the addressed one

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7a0377e..8b9bfd5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -728,6 +728,12 @@ impl<B: BTreeTrait> BTree<B> {
             ..
         } = self.split_leaf_if_needed(cursor);
         let mut inserted = 0;
+        let left_neighbour = if cursor.offset == 0 {
+            left_neighbour
+        } else {
+            // the batch goes right after (the left part of) the addressed leaf
+            Some(cursor.leaf)
+        };
         if let Some(left) = left_neighbour {
             let left_node = self.leaf_nodes.get_mut(left.0).unwrap();
             let mut i = 0;
-- 
2.43.0


From b377976f66ed606352a26e445e14e45a029f6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 09/18] fix: inserting a batch into an empty tree panicked

---
 src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b9bfd5..127e932 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -716,6 +716,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -759,8 +760,10 @@ impl<B: BTreeTrait> BTree<B> {
     /// Returns (newly created subtree's root, height)
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
-        let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        // nodes must not be full, so that there is room for the next insertion
+        let max_child_size = MAX_CHILDREN_NUM - 2;
+        let mut nodes = Vec::with_capacity(data.len() / max_child_size + 1);
+        for elem in data.into_iter().chunks(max_child_size).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -769,7 +772,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -786,13 +789,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
-            let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            let mut new_nodes = Vec::with_capacity(nodes.len() / max_child_size + 1);
+            for chunk in nodes.into_iter().chunks(max_child_size).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -806,10 +809,11 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
+                    let slot = Child {
                         arena: ArenaIndex::Internal(child_idx),
                         cache,
                     };
+                    parent.children.push(slot).unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From da27cdbab24fd783cd436b4cb85b8fbf10c84810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 10/18] fix: a drain ending at an empty element left stale
 caches

---
 src/iter.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 4bbb677..4b9b815 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,7 +1,4 @@
-use crate::{
-    delete_range, rle::HasLength, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath,
-    QueryResult,
-};
+use crate::{delete_range, ArenaIndex, BTree, BTreeTrait, Cursor, LeafNode, NodePath, QueryResult};
 
 /// iterate node (not element) from the start path to the **inclusive** end path
 pub(super) struct Iter<'a, B: BTreeTrait> {
@@ -57,19 +54,8 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
                 Some(node_idx)
             }
         };
-        let leaf_after_drain_range = {
-            let node_idx = end_path.last().unwrap().arena;
-            if let Some(end) = end_result {
-                let len = tree.leaf_nodes.get(end.leaf.0).unwrap().elem.rle_len();
-                if len == end.offset {
-                    tree.next_same_level_in_node(node_idx)
-                } else {
-                    Some(node_idx)
-                }
-            } else {
-                None
-            }
-        };
+        // the range ends at the start of the end leaf, so the leaf is kept even if it is empty
+        let leaf_after_drain_range = end_result.map(|_| end_path.last().unwrap().arena);
         Self {
             current_path: tree.get_path(start_result.leaf.into()),
             tree,
-- 
2.43.0


From 4551f83f450343480c1ea7b05c1cba1f242efd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 11/18] fix: an inserted batch was reordered when its head
 merged into the last leaf

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 127e932..302e049 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -747,7 +747,12 @@ impl<B: BTreeTrait> BTree<B> {
             inserted = i;
         }
 
-        let mut pos = new_pos.unwrap_or(cursor);
+        // without a leaf on the right the rest goes to the end of the addressed (last) leaf,
+        // which may have grown above
+        let mut pos = new_pos.unwrap_or_else(|| Cursor {
+            leaf: cursor.leaf,
+            offset: self.get_elem(cursor.leaf).unwrap().rle_len(),
+        });
         // TODO: PERF this can be optimized further
         for item in data.drain(inserted..).rev() {
             let (p, _) = self.insert_by_path(pos, item);
-- 
2.43.0


From 3ad33f85e0a4dbfee59647ff9b77a1b692f45e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 12/18] fix: depth of an empty tree panicked

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 302e049..559cab2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2722,7 +2722,11 @@ impl<B: BTreeTrait> BTree<B> {
         let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
         loop {
             depth += 1;
-            index = node.children.first().unwrap().arena;
+            let Some(child) = node.children.first() else {
+                // the root of an empty tree
+                return depth;
+            };
+            index = child.arena;
             match index {
                 ArenaIndex::Leaf(_) => return depth,
                 ArenaIndex::Internal(index) => {
-- 
2.43.0


From 2457607fc1249834f8eba49197571081be415186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 13/18] fix: an empty range of a multi-range update panicked or
 hit content outside it

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 559cab2..4ac3df6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1412,6 +1412,10 @@ impl<B: BTreeTrait> BTree<B> {
         mut args: Vec<(LeafIndex, Range<usize>, A)>,
         mut f: impl FnMut(&mut B::Elem, &A),
     ) -> Vec<LeafIndex> {
+        // an empty range contains nothing, unless the element itself is empty
+        args.retain(|(leaf, range, _)| {
+            !range.is_empty() || self.leaf_nodes.get(leaf.0).unwrap().elem().rle_len() == 0
+        });
         args.sort_by_key(|x| x.0);
         let mut new_leaves = Vec::new();
         let mut dirty_map: LeafDirtyMap<B::CacheDiff> = Default::default();
-- 
2.43.0


From d6ccfed3190f0dd01c3bef0d21a4bf3da441128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 14/18] fix: update_leaf_by_search kept a removable element
 when its cache was unchanged

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ac3df6..7275159 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1156,8 +1156,11 @@ impl<B: BTreeTrait> BTree<B> {
             },
             found,
         };
-        let Some((diff, new_insert_1, new_insert_2)) = f(&mut leaf.elem, ans) else {
-            return (Some(ans.cursor), splitted);
+        let (diff, new_insert_1, new_insert_2) = match f(&mut leaf.elem, ans) {
+            Some(x) => x,
+            // the cache is unchanged, but the leaf node still needs to be removed
+            None if leaf.elem.can_remove() => Default::default(),
+            None => return (Some(ans.cursor), splitted),
         };
 
         if new_insert_2.is_some() {
-- 
2.43.0


From db7b9ab5ba7815bfc307fae28d36dc4d571851a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 15/18] fix: draining a prefix left underfull nodes on the path
 to what remains

---
 src/iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 4b9b815..15b0406 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -237,6 +237,9 @@ impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
             seal(self.tree, before);
         } else {
             self.tree.update_root_cache();
+            if let Some(after) = leaf_after_drain_range {
+                handle_lack_on_path_to_leaf(self.tree, after);
+            }
             self.tree.try_reduce_levels();
         }
     }
-- 
2.43.0


From 5b774c459f0233f72dec8fdc74e71f16a2a27501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 16/18] fix: Rope::delete_range overflowed on a bound at
 usize::MAX instead of clamping it

---
 src/generic_impl/rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index ccc91bd..f3b4c2b 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -125,11 +125,11 @@ impl Rope {
 
         let start = match range.start_bound() {
             core::ops::Bound::Included(x) => *x,
-            core::ops::Bound::Excluded(x) => *x + 1,
+            core::ops::Bound::Excluded(x) => x.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&x) => x + 1,
+            core::ops::Bound::Included(&x) => x.saturating_add(1),
             core::ops::Bound::Excluded(&x) => x,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 8cf7aaa3a0c39853bbf5e0ac6e6f7c9dda6be2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 17/18] fix: update_leaf_by_search reported as found what its
 search had missed on the way down

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7275159..a0dcd98 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1135,6 +1135,7 @@ impl<B: BTreeTrait> BTree<B> {
         let mut path = NodePath::default();
         let mut node_idx = self.root;
         let mut child_arr_pos = 0;
+        let mut found = true;
         while let ArenaIndex::Internal(node_idx_inner) = node_idx {
             path.push(Idx {
                 arena: ArenaIndex::Internal(node_idx_inner),
@@ -1143,18 +1144,19 @@ impl<B: BTreeTrait> BTree<B> {
             .unwrap();
             let node = self.in_nodes.get(node_idx_inner).unwrap();
             let result = finder.find_node(q, &node.children);
+            found = found && result.found;
             child_arr_pos = result.index as u8;
             node_idx = node.children[result.index].arena;
         }
 
         let leaf = self.get_leaf_mut(node_idx);
-        let (offset, found) = finder.confirm_elem(q, &leaf.elem);
+        let (offset, leaf_found) = finder.confirm_elem(q, &leaf.elem);
         let ans = QueryResult {
             cursor: Cursor {
                 leaf: node_idx.unwrap_leaf().into(),
                 offset,
             },
-            found,
+            found: found && leaf_found,
         };
         let (diff, new_insert_1, new_insert_2) = match f(&mut leaf.elem, ans) {
             Some(x) => x,
-- 
2.43.0


From 81f8d4ca5b29123bd2d91c660ff3fac66bf467df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 18/18] fix: allow trees with ten and more levels

Paths from the root to an element were limited to ten entries, so every
operation that needs one panicked on trees of about twenty million
elements added one by one.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a0dcd98..c77d418 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -117,7 +117,9 @@ impl Idx {
     }
 }
 
-type NodePath = HeaplessVec<Idx, 10>;
+/// Nodes hold at least about [`MAX_CHILDREN_NUM`] / 2 children, so 15 levels of them are more than
+/// the arena can hold
+type NodePath = HeaplessVec<Idx, 16>;
 
 #[derive(Debug, Clone, PartialEq, Eq, Copy, Hash)]
 pub struct Cursor {
-- 
2.43.0

