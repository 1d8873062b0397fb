From 858d11781d338676318d18eaeaa8b6391ef4cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/72] fix: descending range with an exclusive end past the
 last key returned nothing

Seeking to an end that no stored key reaches leaves the iterator invalid and
prev() on it is a no-op, so Range, RangeTo and RangeAfterTo read right to left
came back empty when nothing was stored after the subtree.
---
 grovedb-query/src/query_item/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 6525f2a..f426864 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -676,6 +676,24 @@ impl QueryItem {
         }
     }
 
+    /// Positions a storage iterator on the last key strictly before `end`.
+    ///
+    /// When there is no key at or after `end` the first seek leaves the
+    /// iterator invalid, and `prev` on an invalid iterator does nothing, so
+    /// the last key has to be sought instead.
+    #[cfg(feature = "blockchain")]
+    fn seek_before<I: RawIterator>(iter: &mut I, end: &[u8]) -> CostContext<()> {
+        iter.seek(end).flat_map(|_| {
+            // The cost of this validity check is left out on purpose: costs must
+            // not depend on what is stored outside of the subtree.
+            if iter.valid().unwrap() {
+                iter.prev()
+            } else {
+                iter.seek_to_last()
+            }
+        })
+    }
+
     /// Positions a storage iterator to the start of this query item, seeking
     /// forward or backward based on `left_to_right`.
     #[cfg(feature = "blockchain")]
@@ -690,7 +708,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek(start)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeInclusive(range_inclusive) => {
@@ -718,7 +736,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek_to_first()
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeToInclusive(RangeToInclusive { end }) => {
@@ -755,7 +773,7 @@ impl QueryItem {
                     }
                     ().wrap_with_cost(cost)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeAfterToInclusive(range_inclusive) => {
-- 
2.43.0


From e0b8a082bdf70120d5f7814479c0354497aff291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 02/72] fix: a path builder that lost its last appended segment
 is the root path again

---
 path/src/subtree_path_builder.rs | 15 +++++++--------
 path/src/subtree_path_iter.rs    |  3 ++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..1f8a15c 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,12 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        match self {
+            SubtreePathRelative::Empty => true,
+            SubtreePathRelative::Single(_) => false,
+            // All segments could be popped, or there were none to begin with
+            SubtreePathRelative::Multi(bytes) => bytes.len() == 0,
+        }
     }
 }
 
@@ -332,13 +337,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.relative.is_empty() && self.base.is_root()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..bec756c 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,7 +77,8 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
+        self.next_subtree_path
+            .is_none_or(|next_subtree_path| next_subtree_path.is_empty())
             && match &self.current_iter {
                 CurrentSubtreePathIter::Single(_) => false,
                 CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-- 
2.43.0


From 51144ba77ed576b7f17fca384d8e32d38ed8ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 03/72] fix: a length prefix in a serialized element no longer
 asks for an allocation of any size

---
 grovedb-element/src/element/serialize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..86945e9 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -6,6 +6,11 @@ use grovedb_version::{check_grovedb_v0, version::GroveVersion};
 
 use crate::{element::Element, error::ElementError};
 
+/// The most memory the lengths found in a serialized element can claim. The
+/// bytes can come from an untrusted proof, so without a limit a length prefix
+/// of a few bytes asks for an allocation of any size.
+const MAX_ELEMENT_DECODING_SIZE: usize = 256 * 1024 * 1024;
+
 impl Element {
     /// Serializes self. Returns vector of u8s.
     pub fn serialize(&self, grove_version: &GroveVersion) -> Result<Vec<u8>, ElementError> {
@@ -34,7 +39,9 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
+        let config = config::standard()
+            .with_big_endian()
+            .with_limit::<MAX_ELEMENT_DECODING_SIZE>();
         Ok(bincode::decode_from_slice(bytes, config)
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
-- 
2.43.0


From 45c435479c0a2935313e5ddfe9786d8de8a3d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 04/72] fix: inverse of references that append nothing to the
 path they keep

---
 grovedb-element/src/reference_path/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/grovedb-element/src/reference_path/mod.rs b/grovedb-element/src/reference_path/mod.rs
index fab47eb..0d1ae86 100644
--- a/grovedb-element/src/reference_path/mod.rs
+++ b/grovedb-element/src/reference_path/mod.rs
@@ -69,14 +69,21 @@ impl ReferencePathType {
             }
             // Since both reference origin and path share N first segments, the backward reference
             // can do the same, key we shall persist for a qualified path as the output
-            ReferencePathType::UpstreamRootHeightReference(n, _) => {
+            ReferencePathType::UpstreamRootHeightReference(n, append_path) => {
+                // With nothing appended the last of the N segments is the key of the referenced
+                // element and not a part of its path
+                let n = if append_path.is_empty() {
+                    n.checked_sub(1)?
+                } else {
+                    *n
+                };
                 let relative_path: Vec<_> = path
                     .to_vec()
                     .into_iter()
-                    .skip(*n as usize)
+                    .skip(n as usize)
                     .chain(iter::once(key.to_vec()))
                     .collect();
-                ReferencePathType::UpstreamRootHeightReference(*n, relative_path)
+                ReferencePathType::UpstreamRootHeightReference(n, relative_path)
             }
             // Since it uses some parent information it gets complicated, so falling back to the
             // previous type of reference
@@ -95,9 +102,12 @@ impl ReferencePathType {
                 if append_path.len() > u8::MAX as usize {
                     return None;
                 }
+                // With nothing appended the last of the remaining segments is the key of the
+                // referenced element and not a part of its path
+                let discarded = *n as usize + usize::from(append_path.is_empty());
                 let mut relative_path: Vec<Vec<u8>> = path
                     .into_reverse_iter()
-                    .take(*n as usize)
+                    .take(discarded)
                     .map(|x| x.to_vec())
                     .collect();
                 relative_path.reverse();
-- 
2.43.0


From a2f4f4664b16d57b0c7713ae37cdf6c59dca8088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 05/72] fix: intersecting many query items counts each item of
 theirs once

---
 grovedb-query/src/query_item/intersect.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/grovedb-query/src/query_item/intersect.rs b/grovedb-query/src/query_item/intersect.rs
index 1153e3a..43a5747 100644
--- a/grovedb-query/src/query_item/intersect.rs
+++ b/grovedb-query/src/query_item/intersect.rs
@@ -670,7 +670,21 @@ impl QueryItem {
         theirs: Vec<Self>,
     ) -> QueryItemManyIntersectionResult {
         let mut result = QueryItemManyIntersectionResult::default();
+        // What none of our items has taken from their items so far
+        let mut remaining_theirs = theirs.clone();
         for our_item in ours.drain(..) {
+            remaining_theirs = remaining_theirs
+                .iter()
+                .flat_map(|their_item| {
+                    let QueryItemIntersectionResult {
+                        theirs_left,
+                        theirs_right,
+                        ..
+                    } = our_item.intersect(their_item);
+                    theirs_left.into_iter().chain(theirs_right)
+                })
+                .collect();
+
             // We create an intersection result for this one item
             let mut one_item_pair_intersections = QueryItemManyIntersectionResult::default();
             // We add our item
@@ -708,8 +722,14 @@ impl QueryItem {
                     one_item_pair_intersections.push_theirs(their_item)
                 }
             }
+            // A leftover of their items for this one item might intersect with the
+            // other ones
+            one_item_pair_intersections.theirs = None;
             result.merge_in(one_item_pair_intersections)
         }
+        if !remaining_theirs.is_empty() {
+            result.theirs = Some(remaining_theirs);
+        }
         result
     }
 }
-- 
2.43.0


From efa996a07d97dd26a6079e311ae97afbec47858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 06/72] fix: a query item serialized with serde can be read
 back

---
 grovedb-query/src/query_item/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index f426864..6a19e98 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -131,17 +131,28 @@ impl<'de> Deserialize<'de> for QueryItem {
         D: Deserializer<'de>,
     {
         #[derive(Deserialize)]
-        #[serde(field_identifier, rename_all = "snake_case")]
+        // The names are the ones written by `serialize`
+        #[serde(field_identifier)]
         enum Field {
+            #[serde(alias = "key")]
             Key,
+            #[serde(alias = "range")]
             Range,
+            #[serde(alias = "range_inclusive")]
             RangeInclusive,
+            #[serde(alias = "range_full")]
             RangeFull,
+            #[serde(alias = "range_from")]
             RangeFrom,
+            #[serde(alias = "range_to")]
             RangeTo,
+            #[serde(alias = "range_to_inclusive")]
             RangeToInclusive,
+            #[serde(alias = "range_after")]
             RangeAfter,
+            #[serde(alias = "range_after_to")]
             RangeAfterTo,
+            #[serde(alias = "range_after_to_inclusive")]
             RangeAfterToInclusive,
         }
 
-- 
2.43.0


From 32d63d4d89628406502484735032dde48dd21050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 07/72] fix: merged queries keep the default subquery of keys
 that both queries select

---
 grovedb-query/src/merge.rs | 175 +++++++++++++++++--------------------
 grovedb/src/query/mod.rs   |   7 +-
 2 files changed, 84 insertions(+), 98 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..3ab8898 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -1,7 +1,7 @@
 use indexmap::IndexMap;
 
 use crate::{
-    common_path::CommonPathResult, query_item::QueryItem, Query, QueryItemIntersectionResult,
+    common_path::CommonPathResult, query_item::QueryItem, Key, Query, QueryItemIntersectionResult,
     SubqueryBranch,
 };
 
@@ -118,11 +118,9 @@ impl SubqueryBranch {
                             Some(left_path_leftovers)
                         };
 
-                        merged_query.insert_key(first_key.clone());
                         // our subquery stays the same as we didn't change level
-                        // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(first_key),
+                        merged_query.merge_with_key(
+                            first_key,
                             SubqueryBranch {
                                 subquery_path: maybe_left_path_leftovers,
                                 subquery: self.subquery.clone(),
@@ -143,11 +141,9 @@ impl SubqueryBranch {
                         } else {
                             Some(right_path_leftovers)
                         };
-                        merged_query.insert_key(other_first.clone());
                         // our subquery stays the same as we didn't change level
-                        // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
-                            QueryItem::Key(other_first),
+                        merged_query.merge_with_key(
+                            other_first,
                             SubqueryBranch {
                                 subquery_path: maybe_right_path_leftovers,
                                 subquery: other.subquery.clone(),
@@ -175,18 +171,14 @@ impl SubqueryBranch {
 
                 let our_top_key = our_subquery_path.remove(0);
 
-                merged_subquery.insert_key(our_top_key.clone());
-
                 let maybe_our_subquery_path = if our_subquery_path.is_empty() {
                     None
                 } else {
                     Some(our_subquery_path)
                 };
                 // our subquery stays the same as we didn't change level
-                // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
-                    // there are no conditional subquery branches yes
-                    QueryItem::Key(our_top_key),
+                merged_subquery.merge_with_key(
+                    our_top_key,
                     SubqueryBranch {
                         subquery_path: maybe_our_subquery_path,
                         subquery: self.subquery.clone(),
@@ -211,18 +203,14 @@ impl SubqueryBranch {
 
                 let their_top_key = their_subquery_path.remove(0);
 
-                merged_subquery.insert_key(their_top_key.clone());
-
                 let maybe_their_subquery_path = if their_subquery_path.is_empty() {
                     None
                 } else {
                     Some(their_subquery_path)
                 };
                 // their subquery stays the same as we didn't change level
-                // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
-                    // there are no conditional subquery branches yes
-                    QueryItem::Key(their_top_key),
+                merged_subquery.merge_with_key(
+                    their_top_key,
                     SubqueryBranch {
                         subquery_path: maybe_their_subquery_path,
                         subquery: other.subquery.clone(),
@@ -443,65 +431,7 @@ impl Query {
         // ordering
         let mut merged_query = queries.swap_remove(0);
         for query in queries {
-            let Query {
-                mut items,
-                default_subquery_branch,
-                conditional_subquery_branches,
-                left_to_right: _,
-                add_parent_tree_on_subquery,
-            } = query;
-            // Preserve add_parent_tree_on_subquery if any query requests it
-            if add_parent_tree_on_subquery {
-                merged_query.add_parent_tree_on_subquery = true;
-            }
-            // the searched for items are the union of all items
-            merged_query.insert_items(items.clone());
-
-            // // We now need to deal with subqueries
-            // let QueryItemManyIntersectionResult{ in_both, ours, theirs } =
-            // QueryItem::intersect_many_ordered(&mut merged_query.items, items);
-            // // for the items that are in both we should set them to the merged subquery
-            // branch
-            //
-            // // for the items that are in ours and theirs we should add conditional
-            // subqueries if let Some(ours) = ours {
-            //     for our_item in ours {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(our_item,
-            // conditional_subquery_branch)     }
-            // }
-            //
-            // if let Some(theirs) = theirs {
-            //     for their_item in theirs {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(their_item,
-            // conditional_subquery_branch)     }
-            // }
-
-            if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-                // if there are conditional subqueries
-                // we need to remove from our items the conditional items
-
-                for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches
-                {
-                    merged_query.merge_conditional_boxed_subquery(
-                        conditional_item.clone(),
-                        conditional_subquery_branch,
-                    );
-                    if !items.is_empty() {
-                        let intersection_result =
-                            QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                        items = intersection_result.ours.unwrap_or_default();
-                    }
-                }
-            }
-            // if there are no conditional subquery items then things are easy
-            // we create a conditional subquery item for all our items and add it to the
-            // query
-            for item in items {
-                merged_query
-                    .merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
-            }
+            merged_query.merge_with(query);
         }
         merged_query
     }
@@ -520,32 +450,85 @@ impl Query {
         if add_parent_tree_on_subquery {
             self.add_parent_tree_on_subquery = true;
         }
+        let our_default_subquery_branch = self.default_subquery_branch.clone();
+        let we_have_default_subquery = our_default_subquery_branch.subquery.is_some()
+            || our_default_subquery_branch.subquery_path.is_some();
+        if we_have_default_subquery {
+            // Where both queries select a key our default subquery has to be merged with
+            // theirs, so there it becomes a conditional one.
+            for our_item in self.items.clone() {
+                for their_item in &items {
+                    if let Some(in_both) = our_item.intersect(their_item).in_both {
+                        self.set_subquery_branch_where_default(
+                            in_both,
+                            &our_default_subquery_branch,
+                        );
+                    }
+                }
+            }
+        }
+        // the searched for items are the union of all items
         self.insert_items(items.clone());
+        let all_their_items = items.clone();
 
-        // let intersection_result = QueryItem::intersect_many_ordered(&mut self.items,
-        // items); // merge query items as they point to the same context
-        // for item in items {
-        //     self.insert_item(item)
-        // }
-
-        // self.merge_default_subquery_branch(default_subquery_branch);
         if let Some(conditional_subquery_branches) = conditional_subquery_branches {
+            // if there are conditional subqueries
+            // we need to remove from our items the conditional items
             for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches {
-                self.merge_conditional_boxed_subquery(
-                    conditional_item.clone(),
-                    conditional_subquery_branch,
-                );
-
-                if !items.is_empty() {
-                    let intersection_result =
-                        QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                    items = intersection_result.ours.unwrap_or_default();
+                let intersection_result =
+                    QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
+                // the conditional subquery is only for what their query selects
+                for in_both in intersection_result.in_both.unwrap_or_default() {
+                    self.merge_conditional_boxed_subquery(
+                        in_both,
+                        conditional_subquery_branch.clone(),
+                    );
                 }
+                items = intersection_result.ours.unwrap_or_default();
             }
         }
         for item in items {
             self.merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
         }
+        if we_have_default_subquery {
+            // Our default subquery is not for what only they select
+            for their_item in all_their_items {
+                self.set_subquery_branch_where_default(their_item, &SubqueryBranch::default());
+            }
+        }
+    }
+
+    /// Merges a query for one key with the given subquery branch into this one.
+    fn merge_with_key(&mut self, key: Key, subquery_branch: SubqueryBranch) {
+        self.merge_with(Query {
+            items: vec![QueryItem::Key(key)],
+            default_subquery_branch: subquery_branch,
+            ..Query::default()
+        });
+    }
+
+    /// Adds the subquery branch as a conditional one for the part of the query
+    /// item that no conditional subquery branch is there for yet.
+    fn set_subquery_branch_where_default(
+        &mut self,
+        query_item: QueryItem,
+        subquery_branch: &SubqueryBranch,
+    ) {
+        let conditional_subquery_branches = self
+            .conditional_subquery_branches
+            .get_or_insert_with(IndexMap::new);
+        let mut parts = vec![query_item];
+        for conditional_item in conditional_subquery_branches.keys() {
+            parts = QueryItem::intersect_many_ordered(&mut parts, vec![conditional_item.clone()])
+                .ours
+                .unwrap_or_default();
+        }
+        for part in parts {
+            conditional_subquery_branches.insert(part, subquery_branch.clone());
+        }
+        if conditional_subquery_branches.is_empty() {
+            self.conditional_subquery_branches = None;
+        }
     }
 
     /// Adds a conditional subquery. A conditional subquery replaces the default
diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..71bf478 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -239,7 +239,6 @@ impl PathQuery {
             let mut subquery_path =
                 subquery_path.ok_or(Error::CorruptedCodeExecution("subquery path must exist"))?;
             let key = subquery_path.remove(0); // must exist
-            merged_query.insert_item(QueryItem::Key(key.clone()));
             let rest_of_path = if subquery_path.is_empty() {
                 None
             } else {
@@ -249,7 +248,11 @@ impl PathQuery {
                 subquery_path: rest_of_path,
                 subquery,
             };
-            merged_query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            merged_query.merge_with(Query {
+                items: vec![QueryItem::Key(key)],
+                default_subquery_branch: subquery_branch,
+                ..Query::default()
+            });
         }
 
         Ok(PathQuery::new_unsized(common_path, merged_query))
-- 
2.43.0


From a8c314de9d90632283a1597c5ab04e57bc040332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 08/72] fix: a parent path derived from owned segments is
 displayed from the root down

---
 path/src/subtree_path.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/path/src/subtree_path.rs b/path/src/subtree_path.rs
index 8a31d61..582cdc4 100644
--- a/path/src/subtree_path.rs
+++ b/path/src/subtree_path.rs
@@ -90,12 +90,10 @@ impl<B: AsRef<[u8]>> Display for SubtreePath<'_, B> {
                 write!(f, "{}", ascii_path)
             }
             SubtreePathInner::SubtreePathIter(iter) => {
-                let ascii_path = iter
-                    .clone()
-                    .map(bytes_to_hex_or_ascii)
-                    .collect::<Vec<_>>()
-                    .join("/");
-                write!(f, "{}", ascii_path)
+                // The iterator goes from the deepest segment up to the root
+                let mut segments = iter.clone().map(bytes_to_hex_or_ascii).collect::<Vec<_>>();
+                segments.reverse();
+                write!(f, "{}", segments.join("/"))
             }
         }
     }
-- 
2.43.0


From 58df5cc4f5b99ac983cf8d0c1767fe66bfd9170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 09/72] fix: the total of sectioned removed bytes saturates
 like the sums do

---
 costs/src/storage_cost/removal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..a81cdd3 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -232,8 +232,8 @@ impl StorageRemovedBytes {
             BasicStorageRemoval(r) => *r,
             SectionedStorageRemoval(m) => m
                 .values()
-                .map(|int_map| int_map.values().copied().sum::<u32>())
-                .sum(),
+                .flat_map(|int_map| int_map.values().copied())
+                .fold(0, u32::saturating_add),
         }
     }
 }
-- 
2.43.0


From 3bd84ce093e929abebf63cc9c8b18df9a430101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 10/72] fix: adding basic and sectioned removed bytes keeps the
 sections of the default identifier

---
 costs/src/storage_cost/removal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index a81cdd3..b13eb4f 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
@@ -152,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0


From e1d8c58ecddfb38cafc36dd4ecac2c9c007b191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 11/72] fix: the proof decoder reads every byte once, also
 after an op in a long form

---
 grovedb-query/src/proofs/encoding.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/proofs/encoding.rs b/grovedb-query/src/proofs/encoding.rs
index 8cfadb3..59b4627 100644
--- a/grovedb-query/src/proofs/encoding.rs
+++ b/grovedb-query/src/proofs/encoding.rs
@@ -1049,6 +1049,11 @@ impl Op {
 
     /// Decode an Op from bytes
     pub fn decode(bytes: &[u8]) -> Result<Self, Error> {
+        Self::decode_next(&mut &bytes[..])
+    }
+
+    /// Decode an Op from the start of `bytes`, leaving what follows it
+    fn decode_next(bytes: &mut &[u8]) -> Result<Self, Error> {
         Decode::decode(bytes).map_err(|e| match e {
             EdError::UnexpectedByte(byte) => Error::InvalidProofError(format!(
                 "failed to decode an proofs::Op structure (UnexpectedByte: {byte})"
@@ -1104,9 +1109,12 @@ impl Iterator for Decoder<'_> {
         }
 
         Some((|| {
-            let bytes = &self.bytes[self.offset..];
-            let op = Op::decode(bytes)?;
-            self.offset += op.encoding_length();
+            // Count what was read: an op can come in a form longer than the one
+            // it is encoded in (a short value with a 4-byte length, an
+            // overlong varint).
+            let mut rest = &self.bytes[self.offset..];
+            let op = Op::decode_next(&mut rest)?;
+            self.offset = self.bytes.len() - rest.len();
             Ok(op)
         })())
     }
-- 
2.43.0


From b7da558d4e6aae8c894b8e5a4fc0538a85b180cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 12/72] fix: an MMR proof accounts for every peak, so a leaf
 cannot be proved at another leaf's index

---
 grovedb-merkle-mountain-range/src/proof.rs | 39 +++++++++++++---------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..ac266d2 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -275,25 +275,28 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     leaves.dedup_by(|a, b| a.0 == b.0);
     let peaks = get_peaks(mmr_size);
 
-    let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    let has_leaves = !leaves.is_empty();
+    let mut missing_peak = false;
+    let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len());
     for peak_pos in peaks {
-        let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
-        let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
+        let mut peak_leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
+        if peak_leaves.len() == 1 && peak_leaves[0].0 == peak_pos {
             // leaf is the peak
-            leaves.remove(0).1
-        } else if leaves.is_empty() {
+            peaks_hashes.push(peak_leaves.remove(0).1);
+        } else if peak_leaves.is_empty() {
             // if empty, means the next proof is a peak root or rhs bagged root
-            if let Some(peak_root) = proof_iter.next() {
-                peak_root.clone()
-            } else {
-                // means that either all right peaks are bagged, or proof is corrupted
-                // so we break loop and check no items left
+            let Some(peak_root) = proof_iter.next() else {
+                missing_peak = true;
+                break;
+            };
+            peaks_hashes.push(peak_root.clone());
+            if has_leaves && leaves.is_empty() {
+                // no leaves to the right: the item bags all remaining peaks
                 break;
             }
         } else {
-            calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
-        };
-        peaks_hashes.push(peak_root.clone());
+            peaks_hashes.push(calculate_peak_root(peak_leaves, peak_pos, &mut proof_iter)?);
+        }
     }
 
     // ensure nothing left in leaves
@@ -301,10 +304,14 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
 
-    // check rhs peaks
-    if let Some(rhs_peaks_hashes) = proof_iter.next() {
-        peaks_hashes.push(rhs_peaks_hashes.clone());
+    // every peak must be accounted for: bagging fewer peaks would prove leaves
+    // at positions that they do not have
+    if missing_peak {
+        return Err(Error::InvalidProof(
+            "not enough proof items for the peaks".into(),
+        ));
     }
+
     // ensure nothing left in proof_iter
     if proof_iter.next().is_some() {
         return Err(Error::InvalidProof(
-- 
2.43.0


From 344c523845c3e9055e2f0762facb8966e9dbf4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 13/72] fix: the size of an MMR with 2^63 leaves does not
 overflow when a proof claims it

---
 grovedb-merkle-mountain-range/src/helper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/helper.rs b/grovedb-merkle-mountain-range/src/helper.rs
index 8d94885..48d70d4 100644
--- a/grovedb-merkle-mountain-range/src/helper.rs
+++ b/grovedb-merkle-mountain-range/src/helper.rs
@@ -2,7 +2,7 @@
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1`. Callers must validate indices
+/// Overflows when `index >= 2^63`. Callers must validate indices
 /// before calling (e.g. check `index < mmr_size_to_leaf_count(mmr_size)`).
 pub fn leaf_index_to_pos(index: u64) -> u64 {
     // mmr_size - H - 1, H is the height(intervals) of last peak
@@ -13,8 +13,7 @@ pub fn leaf_index_to_pos(index: u64) -> u64 {
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1` because `2 * leaves_count` exceeds
-/// `u64::MAX`. Callers must validate indices before calling.
+/// Overflows when `index >= 2^63` because the size exceeds `u64::MAX`. Callers must validate indices before calling.
 pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // leaf index start with 0
     let leaves_count = index + 1;
@@ -23,7 +22,8 @@ pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // representation
     let peak_count = leaves_count.count_ones() as u64;
 
-    2 * leaves_count - peak_count
+    // ordered so that a 2^63 leaf tree, whose size is u64::MAX, does not overflow
+    leaves_count - peak_count + leaves_count
 }
 
 /// Return the height of the subtree rooted at `pos` in the MMR.
-- 
2.43.0


From d9cebcc96ffa9581ff0b70e39cd9b3b4d43098f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 14/72] fix: a failed MMR commit keeps its nodes, so that it
 can be repeated

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..8e0f323 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -98,12 +98,18 @@ impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        // The buffer is kept until everything is written, so that a failed
+        // commit loses nothing and can be repeated.
+        for (pos, elems) in &self.memory_batch {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
                 return Err(e).wrap_with_cost(cost);
             }
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From 0491de984c9f231b94d164a08382c3d8f71f15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 15/72] fix: the proof that a dense tree has none of the
 queried positions verifies

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..2bed7ad 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -208,6 +208,13 @@ impl DenseTreeProof {
         let mut node_value_hashes: Vec<(u16, [u8; 32])> = Vec::new();
         let mut node_hashes: Vec<(u16, [u8; 32])> = Vec::new();
 
+        // Nothing to prove: the root hash alone lets the verifier check that
+        // this proof is about this tree.
+        if expanded.is_empty() && count > 0 {
+            let hash = cost_return_on_error!(cost, tree.hash_position(0));
+            node_hashes.push((0, hash));
+        }
+
         for &pos in &expanded {
             // Get the value for this position
             let opt = cost_return_on_error!(cost, tree.get_value(pos));
-- 
2.43.0


From c4d0a9b1fd2bbe81de9f51e53648417752de9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 16/72] fix: inclusive ranges select nothing from an empty
 dense tree

---
 .../src/proof/mod.rs                              | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index 2bed7ad..e313237 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -65,9 +65,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
-                let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                let end = bytes_to_position(r.end())?.saturating_add(1).min(count);
+                for p in start..end {
                     positions.insert(p);
                 }
             }
@@ -89,9 +88,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
                 }
             }
             QueryItem::RangeToInclusive(r) => {
-                let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                let end = bytes_to_position(&r.end)?.saturating_add(1).min(count);
+                for p in 0..end {
                     positions.insert(p);
                 }
             }
@@ -110,9 +108,8 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeAfterToInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
-                let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start.saturating_add(1)..=clamped_end {
+                let end = bytes_to_position(r.end())?.saturating_add(1).min(count);
+                for p in start.saturating_add(1)..end {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From 2d68431d90b7104d0815ae73fe9f512b3c4f880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 17/72] fix: a failed append to a bulk append tree changes
 nothing

---
 grovedb-bulk-append-tree/src/tree/append.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/grovedb-bulk-append-tree/src/tree/append.rs b/grovedb-bulk-append-tree/src/tree/append.rs
index 5b7e566..3c1cfd7 100644
--- a/grovedb-bulk-append-tree/src/tree/append.rs
+++ b/grovedb-bulk-append-tree/src/tree/append.rs
@@ -55,6 +55,14 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         let mut hash_count: u32 = 0;
         let global_position = self.total_count;
 
+        // Below capacity the chunk MMR stays as it is. Read its root first, so
+        // that a failure leaves the buffer and the total count in step.
+        let current_mmr_root = if self.dense_tree.count() < self.dense_tree.capacity() {
+            self.get_mmr_root()?
+        } else {
+            [0u8; 32]
+        };
+
         // 1. Try to insert into the dense tree buffer
         let try_result = self.dense_tree.try_insert(value).unwrap().map_err(|e| {
             BulkAppendError::StorageError(format!("dense tree insert failed: {}", e))
@@ -64,8 +72,7 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             Some((dense_root, _position)) => {
                 // Inserted successfully, no compaction needed
                 hash_count += self.dense_tree.count() as u32 * 2;
-                let root = self.get_mmr_root()?;
-                (false, root, dense_root)
+                (false, current_mmr_root, dense_root)
             }
             None => {
                 // Dense tree is full — compact existing entries + new value.
@@ -158,7 +165,9 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             let root = match root_result {
                 Ok(node) => node.hash(),
                 Err(e) => {
+                    // Restore the overlay without the nodes just pushed
                     self.mmr_overlay = mmr.batch.take_overlay();
+                    self.mmr_overlay.pop();
                     return Err(BulkAppendError::MmrError(format!(
                         "MMR get_root failed: {}",
                         e
-- 
2.43.0


From c4b2c9066afa65f815b400f4a23ab25d8112a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 18/72] fix: clearing a merk deletes the pointer to its root
 node as well

---
 merk/src/merk/clear.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merk/src/merk/clear.rs b/merk/src/merk/clear.rs
index 136fef8..5a9ca9c 100644
--- a/merk/src/merk/clear.rs
+++ b/merk/src/merk/clear.rs
@@ -1,7 +1,7 @@
 use grovedb_costs::{cost_return_on_error, CostResult, CostsExt, OperationCost};
 use grovedb_storage::{Batch, RawIterator, StorageContext};
 
-use crate::{Error, Error::StorageError, Merk};
+use crate::{merk::ROOT_KEY_KEY, Error, Error::StorageError, Merk};
 
 impl<'db, S> Merk<S>
 where
@@ -26,6 +26,10 @@ where
             }
             iter.next().unwrap_add_cost(&mut cost);
         }
+        if self.merk_type.requires_root_storage_update() {
+            // the pointer to the root node goes with the nodes
+            to_delete.delete_root(ROOT_KEY_KEY, None);
+        }
         cost_return_on_error!(
             &mut cost,
             self.storage.commit_batch(to_delete).map_err(StorageError)
-- 
2.43.0


From 1989818532831dafbcda298c3e1f147a0190c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 19/72] fix: deleting a non-empty tree updates the merk that
 holds it as what it is

---
 grovedb/src/operations/delete/mod.rs | 31 +++++-----------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7ea2184..404fa7a 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -32,8 +32,8 @@ use grovedb_costs::{
     CostResult, CostsExt, OperationCost,
 };
 use grovedb_merk::element::{
-    costs::ElementCostExtensions, decode::ElementDecodeExtensions,
-    delete::ElementDeleteFromStorageExtensions, tree_type::ElementTreeTypeExtensions,
+    decode::ElementDecodeExtensions, delete::ElementDeleteFromStorageExtensions,
+    tree_type::ElementTreeTypeExtensions,
 };
 #[cfg(feature = "minimal")]
 use grovedb_merk::{proofs::Query, KVIterator, MaybeTree};
@@ -747,7 +747,7 @@ impl GroveDb {
             )
         );
         let uses_sum_tree = subtree_to_delete_from.tree_type;
-        if let Some(tree_type) = element.tree_type() {
+        if element.tree_type().is_some() {
             let subtree_merk_path = path.derive_owned_with_child(key);
             let subtree_merk_path_ref = SubtreePath::from(&subtree_merk_path);
 
@@ -838,32 +838,11 @@ impl GroveDb {
                         );
                     }
                 }
-                // todo: verify why we need to open the same? merk again
-                let storage = self
-                    .db
-                    .get_transactional_storage_context(path.clone(), Some(batch), transaction)
-                    .unwrap_add_cost(&mut cost);
-
-                let mut merk_to_delete_tree_from = cost_return_on_error!(
-                    &mut cost,
-                    Merk::open_layered_with_root_key(
-                        storage,
-                        subtree_to_delete_from.root_key(),
-                        tree_type,
-                        Some(&Element::value_defined_cost_for_serialized_value),
-                        grove_version,
-                    )
-                    .map_err(|e| {
-                        Error::CorruptedData(format!(
-                            "cannot open a subtree with given root key: {e}"
-                        ))
-                    })
-                );
                 // We are deleting a tree, a tree uses 3 bytes
                 cost_return_on_error_into!(
                     &mut cost,
                     Element::delete_with_sectioned_removal_bytes(
-                        &mut merk_to_delete_tree_from,
+                        &mut subtree_to_delete_from,
                         key,
                         Some(options.as_merk_options()),
                         true,
@@ -876,7 +855,7 @@ impl GroveDb {
                     SubtreePath<B>,
                     Merk<PrefixedRocksDbTransactionContext>,
                 > = HashMap::default();
-                merk_cache.insert(path.clone(), merk_to_delete_tree_from);
+                merk_cache.insert(path.clone(), subtree_to_delete_from);
                 cost_return_on_error!(
                     &mut cost,
                     self.propagate_changes_with_batch_transaction(
-- 
2.43.0


From 83424f7142468c70557200308b0b8be88218e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 20/72] fix: clearing a data tree resets its element in the
 parent

---
 grovedb/src/operations/delete/mod.rs | 52 ++++++++++++++++++++++++++++
 grovedb/src/operations/insert/mod.rs |  2 +-
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 404fa7a..a0a9170 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -50,6 +50,7 @@ use crate::util::{compat, TxRef};
 #[cfg(feature = "minimal")]
 use crate::{
     batch::{GroveOp, QualifiedGroveDbOp, SubelementsDeletionBehavior},
+    operations::insert::InsertOptions,
     Element, ElementFlags, Error, GroveDb, Transaction, TransactionArg,
 };
 
@@ -261,6 +262,57 @@ impl GroveDb {
                 })
             );
 
+            // The element in the parent goes back to that of an empty tree
+            if let Some((parent_path, key)) = subtree_path.derive_parent() {
+                let mut element = cost_return_on_error!(
+                    &mut cost,
+                    self.get_raw(
+                        parent_path.clone(),
+                        key,
+                        Some(tx.as_ref()),
+                        grove_version
+                    )
+                );
+                match &mut element {
+                    Element::MmrTree(count, _)
+                    | Element::BulkAppendTree(count, ..)
+                    | Element::CommitmentTree(count, ..) => *count = 0,
+                    Element::DenseAppendOnlyFixedSizeTree(count, ..) => *count = 0,
+                    _ => {}
+                }
+                let parent_merk = cost_return_on_error!(
+                    &mut cost,
+                    self.add_element_on_transaction(
+                        parent_path.clone(),
+                        key,
+                        element,
+                        InsertOptions {
+                            validate_insertion_does_not_override: false,
+                            validate_insertion_does_not_override_tree: false,
+                            ..Default::default()
+                        },
+                        tx.as_ref(),
+                        &batch,
+                        grove_version,
+                    )
+                );
+                let mut merk_cache: HashMap<
+                    SubtreePath<B>,
+                    Merk<PrefixedRocksDbTransactionContext>,
+                > = HashMap::default();
+                merk_cache.insert(parent_path.clone(), parent_merk);
+                cost_return_on_error!(
+                    &mut cost,
+                    self.propagate_changes_with_transaction(
+                        merk_cache,
+                        parent_path,
+                        tx.as_ref(),
+                        &batch,
+                        grove_version,
+                    )
+                );
+            }
+
             cost_return_on_error!(
                 &mut cost,
                 self.db
diff --git a/grovedb/src/operations/insert/mod.rs b/grovedb/src/operations/insert/mod.rs
index 97bceb6..d1963d5 100644
--- a/grovedb/src/operations/insert/mod.rs
+++ b/grovedb/src/operations/insert/mod.rs
@@ -171,7 +171,7 @@ impl GroveDb {
     /// first make sure other merk exist
     /// if it exists, then create merk to be inserted, and get root hash
     /// we only care about root hash of merk to be inserted
-    fn add_element_on_transaction<'db, B: AsRef<[u8]>>(
+    pub(crate) fn add_element_on_transaction<'db, B: AsRef<[u8]>>(
         &'db self,
         path: SubtreePath<B>,
         key: &[u8],
-- 
2.43.0


From 8e8c2414b783d03a9082cacf071281216636aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 21/72] fix: a query with limit 0 returns nothing for keys
 either

---
 grovedb/src/element/query.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 1584abd..062b548 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -211,6 +211,9 @@ impl ElementQueryExtensions for Element {
 
         if sized_query.query.left_to_right {
             for item in sized_query.query.iter() {
+                if limit == Some(0) {
+                    break;
+                }
                 cost_return_on_error!(
                     &mut cost,
                     Self::query_item(
@@ -228,12 +231,12 @@ impl ElementQueryExtensions for Element {
                         grove_version,
                     )
                 );
-                if limit == Some(0) {
-                    break;
-                }
             }
         } else {
             for item in sized_query.query.rev_iter() {
+                if limit == Some(0) {
+                    break;
+                }
                 cost_return_on_error!(
                     &mut cost,
                     Self::query_item(
@@ -251,9 +254,6 @@ impl ElementQueryExtensions for Element {
                         grove_version,
                     )
                 );
-                if limit == Some(0) {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 859493625f3ce5f27dd39ea1f87dc3289d10e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 22/72] fix: a query's limit is not used up by sub elements
 that the offset skips

---
 grovedb/src/element/query.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 062b548..12314bb 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -396,8 +396,12 @@ impl ElementQueryExtensions for Element {
                 );
 
                 if let Some(limit) = limit {
-                    if sub_elements.is_empty() && decrease_limit_on_range_with_no_sub_elements {
-                        // we should decrease by 1 in this case
+                    if sub_elements.is_empty()
+                        && skipped == 0
+                        && decrease_limit_on_range_with_no_sub_elements
+                    {
+                        // we should decrease by 1 in this case, but not when there were
+                        // sub elements that the offset skipped
                         *limit = limit.saturating_sub(1);
                     } else {
                         *limit =
-- 
2.43.0


From 2f9a3e6fc911798c864181134ee10c68a3ba50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 23/72] fix: a proof that reached its limit need not prove the
 bounds of what comes after

---
 merk/src/proofs/query/verify.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..0242fb5 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -186,6 +186,12 @@ impl QueryProofVerify for Query {
                         break;
                     }
 
+                    // the results end where the limit is reached, so the bounds of
+                    // what comes after them don't have to be proven
+                    if current_limit == Some(0) && value.is_none() {
+                        break;
+                    }
+
                     if !in_range {
                         // this is the first data we have encountered for this query item
                         if left_to_right {
-- 
2.43.0


From e438b0a3d3279a3a9de607e30c34d8a719039bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 24/72] fix: an element that a proved query's path would go
 through is not a result

---
 grovedb/src/operations/proof/generate.rs | 34 +++++++++++++++---------
 grovedb/src/operations/proof/verify.rs   |  4 +--
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 2f3c8cc..00b9fb5 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -380,10 +380,12 @@ impl GroveDb {
                                         value_hash(value).unwrap_add_cost(&mut cost),
                                     )
                                 };
-                                if let Some(limit) = overall_limit.as_mut() {
-                                    *limit -= 1;
+                                if query.in_path.is_none() {
+                                    if let Some(limit) = overall_limit.as_mut() {
+                                        *limit -= 1;
+                                    }
+                                    has_a_result_at_level |= true;
                                 }
-                                has_a_result_at_level |= true;
                             }
                             Ok(Element::Item(..))
                             | Ok(Element::SumItem(..))
@@ -400,10 +402,13 @@ impl GroveDb {
                                 if !should_preserve_node_type {
                                     *node = Node::KV(key.to_owned(), value.to_owned());
                                 }
-                                if let Some(limit) = overall_limit.as_mut() {
-                                    *limit -= 1;
+                                // An item that the path goes through is not a result
+                                if query.in_path.is_none() {
+                                    if let Some(limit) = overall_limit.as_mut() {
+                                        *limit -= 1;
+                                    }
+                                    has_a_result_at_level |= true;
                                 }
-                                has_a_result_at_level |= true;
                             }
                             Ok(Element::Tree(Some(_), _))
                             | Ok(Element::SumTree(Some(_), ..))
@@ -1093,10 +1098,12 @@ impl GroveDb {
                                         value_hash(value).unwrap_add_cost(&mut cost),
                                     )
                                 };
-                                if let Some(limit) = overall_limit.as_mut() {
-                                    *limit -= 1;
+                                if query.in_path.is_none() {
+                                    if let Some(limit) = overall_limit.as_mut() {
+                                        *limit -= 1;
+                                    }
+                                    has_a_result_at_level |= true;
                                 }
-                                has_a_result_at_level |= true;
                             }
                             Ok(Element::Item(..))
                             | Ok(Element::SumItem(..))
@@ -1106,10 +1113,13 @@ impl GroveDb {
                                 if !should_preserve_node_type {
                                     *node = Node::KV(key.to_owned(), value.to_owned());
                                 }
-                                if let Some(limit) = overall_limit.as_mut() {
-                                    *limit -= 1;
+                                // An item that the path goes through is not a result
+                                if query.in_path.is_none() {
+                                    if let Some(limit) = overall_limit.as_mut() {
+                                        *limit -= 1;
+                                    }
+                                    has_a_result_at_level |= true;
                                 }
-                                has_a_result_at_level |= true;
                             }
 
                             // MmrTree with subquery → generate MMR proof
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..8dd4140 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -640,7 +640,7 @@ impl GroveDb {
                                 ));
                             }
                         }
-                    } else if element.is_any_item()
+                    } else if element.is_any_item() && internal_query.in_path.is_none()
                         || !internal_query.has_subquery_or_matching_in_path_on_key(key)
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
@@ -1599,7 +1599,7 @@ impl GroveDb {
                                 ));
                             }
                         }
-                    } else if element.is_any_item()
+                    } else if element.is_any_item() && internal_query.in_path.is_none()
                         || !internal_query.has_subquery_or_matching_in_path_on_key(key)
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
-- 
2.43.0


From 0e7e761dd281ae228ea6afa6aa60e05991b39e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 25/72] fix: a proved key counts for the limit even where
 another query item ends

---
 merk/src/proofs/query/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index 22352d5..af25523 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -257,7 +257,7 @@ where
                     left_proof_items = ProofItems::default();
                 }
                 found_item = false;
-            } else if found_item && !on_boundary_not_found {
+            } else if found_item {
                 // if limit is not zero, reserve a limit slot for the current node
                 // before generating proof for the right subtree
                 new_limit = Some(current_limit - 1);
-- 
2.43.0


From 9885c5851ddb111325bf2cb082b8119fd05d1bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 26/72] fix: a conditional branch without a subquery exempts
 its keys from the default subquery of a proof

---
 grovedb/src/query/mod.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 71bf478..1b2c607 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -597,6 +597,8 @@ pub enum HasSubquery<'a> {
     NoSubquery,
     Always,
     Conditionally(Cow<'a, IndexMap<QueryItem, SubqueryBranch>>),
+    /// On every key except those whose conditional branch has no subquery
+    AlwaysExcept(Cow<'a, IndexMap<QueryItem, SubqueryBranch>>),
 }
 
 impl fmt::Display for HasSubquery<'_> {
@@ -604,8 +606,11 @@ impl fmt::Display for HasSubquery<'_> {
         match self {
             HasSubquery::NoSubquery => write!(f, "NoSubquery"),
             HasSubquery::Always => write!(f, "Always"),
-            HasSubquery::Conditionally(map) => {
-                writeln!(f, "Conditionally {{")?;
+            HasSubquery::Conditionally(map) | HasSubquery::AlwaysExcept(map) => {
+                match self {
+                    HasSubquery::AlwaysExcept(_) => writeln!(f, "AlwaysExcept {{")?,
+                    _ => writeln!(f, "Conditionally {{")?,
+                }
                 for (query_item, subquery_branch) in map.iter() {
                     writeln!(f, "  {query_item}: {subquery_branch},")?;
                 }
@@ -616,13 +621,27 @@ impl fmt::Display for HasSubquery<'_> {
 }
 
 impl HasSubquery<'_> {
+    /// Does the conditional branch for a key, if there is one, lead further?
+    fn conditional_branch_has_subquery(
+        conditionally: &IndexMap<QueryItem, SubqueryBranch>,
+        key: &[u8],
+    ) -> Option<bool> {
+        conditionally
+            .iter()
+            .find(|(query_item, _)| query_item.contains(key))
+            .map(|(_, branch)| branch.subquery.is_some() || branch.subquery_path.is_some())
+    }
+
     /// Checks to see if we have a subquery on a specific key
     pub fn has_subquery_on_key(&self, key: &[u8]) -> bool {
         match self {
             HasSubquery::NoSubquery => false,
-            HasSubquery::Conditionally(conditionally) => conditionally
-                .keys()
-                .any(|query_item| query_item.contains(key)),
+            HasSubquery::Conditionally(conditionally) => {
+                Self::conditional_branch_has_subquery(conditionally, key).unwrap_or(false)
+            }
+            HasSubquery::AlwaysExcept(conditionally) => {
+                Self::conditional_branch_has_subquery(conditionally, key).unwrap_or(true)
+            }
             HasSubquery::Always => true,
         }
     }
@@ -702,7 +721,16 @@ impl<'a> SinglePathSubquery<'a> {
         let has_subquery = if query.default_subquery_branch.subquery.is_some()
             || query.default_subquery_branch.subquery_path.is_some()
         {
-            HasSubquery::Always
+            match query.conditional_subquery_branches.as_ref() {
+                Some(conditional)
+                    if conditional.values().any(|branch| {
+                        branch.subquery.is_none() && branch.subquery_path.is_none()
+                    }) =>
+                {
+                    HasSubquery::AlwaysExcept(Cow::Borrowed(conditional))
+                }
+                _ => HasSubquery::Always,
+            }
         } else if let Some(conditional) = query.conditional_subquery_branches.as_ref() {
             HasSubquery::Conditionally(Cow::Borrowed(conditional))
         } else {
-- 
2.43.0


From 9cff914ffcf4c642fe1904e0882d3ff47867265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 27/72] fix: the verifier counts for the limit what the prover
 counts

---
 grovedb/src/operations/proof/verify.rs | 66 ++++++++++++++++++++------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 8dd4140..ed489b1 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -469,14 +469,10 @@ impl GroveDb {
             })?;
 
         let mut verified_keys = BTreeSet::new();
+        // Mirrors the accounting of the prover
+        let mut has_a_result_at_level = false;
 
-        if merk_result.result_set.is_empty() {
-            if prove_options.decrease_limit_on_empty_sub_query_result {
-                limit_left
-                    .iter_mut()
-                    .for_each(|limit| *limit = limit.saturating_sub(1));
-            }
-        } else {
+        if !merk_result.result_set.is_empty() {
             for proved_key_value in merk_result.result_set {
                 let mut path = current_path.to_vec();
                 let key = &proved_key_value.key;
@@ -514,6 +510,7 @@ impl GroveDb {
                                         path_key_optional_value
                                             .try_into_versioned(grove_version)?,
                                     );
+                                    has_a_result_at_level = true;
                                     limit_left
                                         .iter_mut()
                                         .for_each(|limit| *limit = limit.saturating_sub(1));
@@ -540,6 +537,7 @@ impl GroveDb {
                                         );
                                     }
 
+                                    let previous_limit = *limit_left;
                                     // Dispatch based on lower layer proof type
                                     let lower_hash = match &lower_layer.merk_proof {
                                         ProofBytes::Merk(_) => {
@@ -601,6 +599,9 @@ impl GroveDb {
                                         }
                                     };
 
+                                    has_a_result_at_level |= previous_limit != *limit_left
+                                        || !matches!(lower_layer.merk_proof, ProofBytes::Merk(_));
+
                                     let combined_root_hash =
                                         combine_hash(value_hash(value_bytes).value(), &lower_hash)
                                             .value()
@@ -698,6 +699,7 @@ impl GroveDb {
                                 proved_key_value,
                             );
                         result.push(path_key_optional_value.try_into_versioned(grove_version)?);
+                        has_a_result_at_level = true;
                         limit_left
                             .iter_mut()
                             .for_each(|limit| *limit = limit.saturating_sub(1));
@@ -714,11 +716,29 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else if element.is_any_tree() {
+                        // An empty tree counts for the limit even if it is not shown
+                        has_a_result_at_level = true;
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
         }
 
+        if !has_a_result_at_level
+            && *limit_left != Some(0)
+            && prove_options.decrease_limit_on_empty_sub_query_result
+        {
+            limit_left
+                .iter_mut()
+                .for_each(|limit| *limit = limit.saturating_sub(1));
+        }
+
         // Succinctness check: reject proof if it contains lower layers
         // for keys that the query did not require
         if options.verify_proof_succinctness {
@@ -1433,14 +1453,10 @@ impl GroveDb {
         }
 
         let mut verified_keys = BTreeSet::new();
+        // Mirrors the accounting of the prover
+        let mut has_a_result_at_level = false;
 
-        if merk_result.result_set.is_empty() {
-            if prove_options.decrease_limit_on_empty_sub_query_result {
-                limit_left
-                    .iter_mut()
-                    .for_each(|limit| *limit = limit.saturating_sub(1));
-            }
-        } else {
+        if !merk_result.result_set.is_empty() {
             for proved_key_value in merk_result.result_set {
                 let mut path = current_path.to_vec();
                 let key = &proved_key_value.key;
@@ -1484,6 +1500,7 @@ impl GroveDb {
                                             .try_into_versioned(grove_version)?,
                                     );
 
+                                    has_a_result_at_level = true;
                                     limit_left
                                         .iter_mut()
                                         .for_each(|limit| *limit = limit.saturating_sub(1));
@@ -1510,6 +1527,7 @@ impl GroveDb {
                                                 .try_into_versioned(grove_version)?,
                                         );
                                     }
+                                    let previous_limit = *limit_left;
                                     let lower_hash = Self::verify_layer_proof(
                                         lower_layer,
                                         prove_options,
@@ -1522,6 +1540,7 @@ impl GroveDb {
                                         current_depth + 1,
                                         grove_version,
                                     )?;
+                                    has_a_result_at_level |= previous_limit != *limit_left;
 
                                     #[cfg(feature = "proof_debug")]
                                     {
@@ -1648,6 +1667,7 @@ impl GroveDb {
                         }
                         result.push(path_key_optional_value.try_into_versioned(grove_version)?);
 
+                        has_a_result_at_level = true;
                         limit_left
                             .iter_mut()
                             .for_each(|limit| *limit = limit.saturating_sub(1));
@@ -1664,11 +1684,29 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else if element.is_any_tree() {
+                        // An empty tree counts for the limit even if it is not shown
+                        has_a_result_at_level = true;
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
         }
 
+        if !has_a_result_at_level
+            && *limit_left != Some(0)
+            && prove_options.decrease_limit_on_empty_sub_query_result
+        {
+            limit_left
+                .iter_mut()
+                .for_each(|limit| *limit = limit.saturating_sub(1));
+        }
+
         // Succinctness check: reject proof if it contains lower layers
         // for keys that the query did not require
         if options.verify_proof_succinctness {
-- 
2.43.0


From bf333b2e229e8467eb7fcb8bd9133a37aa308316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 28/72] fix: references in a provable count sum tree can be
 proven

---
 grovedb/src/operations/proof/generate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 00b9fb5..7883bd7 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -319,7 +319,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
@@ -1038,7 +1039,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
-- 
2.43.0


From 6262beb2c81077c5f6c0fa73e701c74b27a49ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 29/72] fix: nothing that carries data can be attached to a
 hash in a proof

---
 merk/src/proofs/tree.rs | 85 ++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 48 deletions(-)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..411ec1b 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -517,6 +517,31 @@ where
             .ok_or_else(|| Error::InvalidProofError("Stack underflow".to_string()))
     }
 
+    /// Attaches a child to a parent. A hash node stands for a whole subtree and
+    /// its hash doesn't cover what is attached to it, so nothing that carries
+    /// data can be.
+    fn attach(
+        mut parent: Tree,
+        left: bool,
+        child: Tree,
+        collapse: bool,
+    ) -> CostResult<Tree, Error> {
+        let mut cost = OperationCost::default();
+        if matches!(parent.node, Node::Hash(_)) && !matches!(child.node, Node::Hash(_)) {
+            return Err(Error::InvalidProofError(
+                "Tried to attach a node to a hash".to_string(),
+            ))
+            .wrap_with_cost(cost);
+        }
+        let child = if collapse {
+            child.into_hash().unwrap_add_cost(&mut cost)
+        } else {
+            child
+        };
+        cost_return_on_error!(&mut cost, parent.attach(left, child));
+        Ok(parent).wrap_with_cost(cost)
+    }
+
     for op in ops {
         op_count += 1;
         if op_count > MAX_PROOF_OPS {
@@ -528,75 +553,39 @@ where
         }
         match cost_return_on_error_no_add!(cost, op) {
             Op::Parent => {
-                let (mut parent, child) = (
+                let (parent, child) = (
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
-                cost_return_on_error!(
-                    &mut cost,
-                    parent.attach(
-                        true,
-                        if collapse {
-                            child.into_hash().unwrap_add_cost(&mut cost)
-                        } else {
-                            child
-                        },
-                    )
-                );
+                let parent =
+                    cost_return_on_error!(&mut cost, attach(parent, true, child, collapse));
                 stack.push(parent);
             }
             Op::Child => {
-                let (child, mut parent) = (
+                let (child, parent) = (
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
-                cost_return_on_error!(
-                    &mut cost,
-                    parent.attach(
-                        false,
-                        if collapse {
-                            child.into_hash().unwrap_add_cost(&mut cost)
-                        } else {
-                            child
-                        }
-                    )
-                );
+                let parent =
+                    cost_return_on_error!(&mut cost, attach(parent, false, child, collapse));
                 stack.push(parent);
             }
             Op::ParentInverted => {
-                let (mut parent, child) = (
+                let (parent, child) = (
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
-                cost_return_on_error!(
-                    &mut cost,
-                    parent.attach(
-                        false,
-                        if collapse {
-                            child.into_hash().unwrap_add_cost(&mut cost)
-                        } else {
-                            child
-                        },
-                    )
-                );
+                let parent =
+                    cost_return_on_error!(&mut cost, attach(parent, false, child, collapse));
                 stack.push(parent);
             }
             Op::ChildInverted => {
-                let (child, mut parent) = (
+                let (child, parent) = (
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
-                cost_return_on_error!(
-                    &mut cost,
-                    parent.attach(
-                        true,
-                        if collapse {
-                            child.into_hash().unwrap_add_cost(&mut cost)
-                        } else {
-                            child
-                        },
-                    )
-                );
+                let parent =
+                    cost_return_on_error!(&mut cost, attach(parent, true, child, collapse));
                 stack.push(parent);
             }
             Op::Push(node) => {
-- 
2.43.0


From 26df8fe5f73ac96a274d8260f38042e8850a067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 30/72] fix: the nodes of a proof have to come in the direction
 of the query

---
 merk/src/proofs/query/verify.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 0242fb5..954a7ed 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -151,7 +151,23 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // The nodes have to come in the direction of the query, otherwise their
+        // order doesn't show what is next to each other in the tree.
+        let ops = decoder.by_ref().map(|op| match op? {
+            Op::Push(_) | Op::Parent | Op::Child if !left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Proof of a right to left query contains a left to right operation".to_string(),
+                ))
+            }
+            Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted if left_to_right => {
+                Err(Error::InvalidProofError(
+                    "Proof of a left to right query contains a right to left operation".to_string(),
+                ))
+            }
+            op => Ok(op),
+        });
+
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From f5e0de6d614eee516e430e21e3fb3a97d052cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 31/72] fix: an empty tree that is not a result is checked in a
 proof as well

---
 grovedb/src/operations/delete/mod.rs   |  7 +---
 grovedb/src/operations/proof/verify.rs | 45 +++++++++++---------------
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index a0a9170..b4d2a1e 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -266,12 +266,7 @@ impl GroveDb {
             if let Some((parent_path, key)) = subtree_path.derive_parent() {
                 let mut element = cost_return_on_error!(
                     &mut cost,
-                    self.get_raw(
-                        parent_path.clone(),
-                        key,
-                        Some(tx.as_ref()),
-                        grove_version
-                    )
+                    self.get_raw(parent_path.clone(), key, Some(tx.as_ref()), grove_version)
                 );
                 match &mut element {
                     Element::MmrTree(count, _)
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index ed489b1..6fb9fda 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -641,37 +641,30 @@ impl GroveDb {
                                 ));
                             }
                         }
+                    } else if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && hash != combine_hash(value_hash(value_bytes).value(), &NULL_HASH).value()
+                    {
+                        // Whether an empty tree is in the result set or not
+                        // (no lower layer proof), its value_hash has to match
+                        // combine_hash(H(value), NULL_HASH). Without this
+                        // check, an attacker could swap tree types (e.g.
+                        // SumTree→Tree) in KVValueHash nodes, or hide the
+                        // contents of a tree, without breaking the merk proof,
+                        // since the value bytes are not part of the
+                        // KVValueHash tree hash computation.
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 empty tree value hash mismatch at key {}",
+                                hex::encode(key),
+                            ),
+                        ));
                     } else if element.is_any_item() && internal_query.in_path.is_none()
                         || !internal_query.has_subquery_or_matching_in_path_on_key(key)
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // For non-empty Merk trees without a subquery (no
                         // lower layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
-- 
2.43.0


From 10a5abbaeac9f44801415396ecee8ad8926c529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 32/72] fix: a proof has no layer below a tree that the query
 does not enter

---
 grovedb/src/operations/proof/verify.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 6fb9fda..6a82c3a 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -500,23 +500,15 @@ impl GroveDb {
                                 path.push(key);
                                 *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
-                                    let path_key_optional_value =
-                                        ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
-                                            proved_key_value,
-                                        );
-                                    result.push(
-                                        path_key_optional_value
-                                            .try_into_versioned(grove_version)?,
-                                    );
-                                    has_a_result_at_level = true;
-                                    limit_left
-                                        .iter_mut()
-                                        .for_each(|limit| *limit = limit.saturating_sub(1));
-                                    if limit_left == &Some(0) {
-                                        break;
-                                    }
+                                    // Nothing would bind the value of the tree
+                                    return Err(Error::InvalidProof(
+                                        query.clone(),
+                                        format!(
+                                            "V1 proof has a lower layer for key {}, but the \
+                                             query does not go below it",
+                                            hex::encode(key),
+                                        ),
+                                    ));
                                 } else {
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
-- 
2.43.0


From 1e695d35c1dd88eb1bd15010fb2b83dedf72236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 33/72] fix: an unresolved reference in a proof is refused

---
 grovedb/src/operations/proof/verify.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 6a82c3a..b1cdb64 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -480,6 +480,19 @@ impl GroveDb {
                 if let Some(value_bytes) = &proved_key_value.value {
                     let element = Element::deserialize(value_bytes, grove_version)?;
 
+                    // References are proven by nodes that carry what they lead
+                    // to, and that bind it. Other nodes with a reference would
+                    // only claim that there is one.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 proof contains an unresolved reference at key {}",
+                                hex::encode(key),
+                            ),
+                        ));
+                    }
+
                     verified_keys.insert(key.clone());
 
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
-- 
2.43.0


From 3597b238b46c3217c3a85c238a86e2618da6b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 34/72] fix: a data tree's element in a proof is bound by the
 root of its data

---
 grovedb/src/operations/proof/generate.rs | 64 ++++++++++++------------
 grovedb/src/operations/proof/verify.rs   | 13 +++--
 2 files changed, 37 insertions(+), 40 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 7883bd7..a813491 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -11,7 +11,7 @@ use grovedb_costs::{
 use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
 use grovedb_merk::{
     proofs::{encode_into, query::QueryItem, Node, Op},
-    tree::{combine_hash, value_hash},
+    tree::{combine_hash, value_hash, NULL_HASH},
     Merk, ProofWithoutEncodingResult, TreeFeatureType,
 };
 use grovedb_merkle_mountain_range::MmrTreeProof;
@@ -1265,43 +1265,42 @@ impl GroveDb {
                                 lower_layers.insert(key.clone(), layer_proof);
                             }
 
-                            // MmrTree/BulkAppendTree without subquery (query targets the tree
-                            // itself)
-                            Ok(Element::MmrTree(..))
-                            | Ok(Element::BulkAppendTree(..))
-                            | Ok(Element::DenseAppendOnlyFixedSizeTree(..))
-                                if !done_with_results =>
-                            {
-                                if let Some(limit) = overall_limit.as_mut() {
-                                    *limit -= 1;
-                                }
-                                has_a_result_at_level |= true;
-                            }
-
-                            Ok(Element::Tree(Some(_), _))
-                            | Ok(Element::SumTree(Some(_), ..))
-                            | Ok(Element::BigSumTree(Some(_), ..))
-                            | Ok(Element::CountTree(Some(_), ..))
-                            | Ok(Element::ProvableCountTree(Some(_), ..))
-                            | Ok(Element::CountSumTree(Some(_), ..))
-                            | Ok(Element::ProvableCountSumTree(Some(_), ..))
-                                if !done_with_results =>
-                            {
+                            Ok(
+                                ref elem @ (Element::Tree(Some(_), _)
+                                | Element::SumTree(Some(_), ..)
+                                | Element::BigSumTree(Some(_), ..)
+                                | Element::CountTree(Some(_), ..)
+                                | Element::ProvableCountTree(Some(_), ..)
+                                | Element::CountSumTree(Some(_), ..)
+                                | Element::ProvableCountSumTree(Some(_), ..)
+                                | Element::CommitmentTree(..)
+                                | Element::MmrTree(..)
+                                | Element::BulkAppendTree(..)
+                                | Element::DenseAppendOnlyFixedSizeTree(..)),
+                            ) if !done_with_results => {
                                 // Non-empty tree without subquery: inject child
                                 // root hash for combine_hash verification
                                 let mut child_path = path.clone();
                                 child_path.push(key.as_slice());
-                                let child_merk = cost_return_on_error!(
-                                    &mut cost,
-                                    self.open_transactional_merk_at_path(
+                                let child_root_hash = if elem.uses_non_merk_data_storage() {
+                                    self.compute_non_merk_child_hash(
+                                        elem,
                                         child_path.as_slice().into(),
                                         &tx,
-                                        None,
-                                        grove_version
+                                        NULL_HASH,
                                     )
-                                );
-                                let child_root_hash =
-                                    child_merk.root_hash().unwrap_add_cost(&mut cost);
+                                } else {
+                                    let child_merk = cost_return_on_error!(
+                                        &mut cost,
+                                        self.open_transactional_merk_at_path(
+                                            child_path.as_slice().into(),
+                                            &tx,
+                                            None,
+                                            grove_version
+                                        )
+                                    );
+                                    child_merk.root_hash().unwrap_add_cost(&mut cost)
+                                };
 
                                 let key_owned = key.to_owned();
                                 let value_owned = value.to_owned();
@@ -1331,7 +1330,7 @@ impl GroveDb {
                                 }
                                 has_a_result_at_level |= true;
                             }
-                            // Empty trees and CommitmentTree without subquery
+                            // Empty trees without subquery
                             Ok(Element::Tree(None, _))
                             | Ok(Element::SumTree(None, ..))
                             | Ok(Element::BigSumTree(None, ..))
@@ -1339,7 +1338,6 @@ impl GroveDb {
                             | Ok(Element::ProvableCountTree(None, ..))
                             | Ok(Element::CountSumTree(None, ..))
                             | Ok(Element::ProvableCountSumTree(None, ..))
-                            | Ok(Element::CommitmentTree(..))
                                 if !done_with_results =>
                             {
                                 if let Some(limit) = overall_limit.as_mut() {
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index b1cdb64..c56dfbb 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -670,17 +670,16 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For non-empty Merk trees without a subquery (no
-                        // lower layer proof), the prover must use
+                        // For non-empty trees without a subquery (no lower
+                        // layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
                         // verifier can confirm combine_hash(H(value),
                         // child_hash) == value_hash. If child_hash_verified is
                         // false, an attacker may have downgraded the node type
-                        // to hide child hash verification.
-                        // Non-Merk trees (MmrTree, BulkAppendTree, etc.) are
-                        // excluded — they use different proof structures.
-                        if element.is_non_empty_merk_tree() && !proved_key_value.child_hash_verified
-                        {
+                        // to hide child hash verification. This includes
+                        // non-Merk trees (MmrTree, BulkAppendTree, etc.), whose
+                        // child hash is the root of their data.
+                        if element.is_non_empty_tree() && !proved_key_value.child_hash_verified {
                             return Err(Error::InvalidProof(
                                 query.clone(),
                                 format!(
-- 
2.43.0


From 67f9008d7db8200c752ab126dc20200ad4ee8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 35/72] fix: looking for subtrees does not read the entries of
 a data tree as elements

---
 grovedb/src/operations/auxiliary.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/auxiliary.rs b/grovedb/src/operations/auxiliary.rs
index 63512c5..f8dfcc7 100644
--- a/grovedb/src/operations/auxiliary.rs
+++ b/grovedb/src/operations/auxiliary.rs
@@ -186,7 +186,11 @@ impl GroveDb {
                 if value.is_any_tree() {
                     let mut sub_path = q.clone();
                     sub_path.push(key.to_vec());
-                    queue.push(sub_path.clone());
+                    // What is stored below a non-Merk data tree are its entries,
+                    // not elements: there are no subtrees to look for.
+                    if !value.uses_non_merk_data_storage() {
+                        queue.push(sub_path.clone());
+                    }
                     result.push(sub_path);
                 }
             }
-- 
2.43.0


From 2c91a07b17567d272f511de60d5201d53997e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 36/72] fix: a refreshed reference counts in a count tree as
 before

---
 grovedb/src/batch/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f01baaf..04d70bc 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2087,7 +2087,10 @@ where
                         .wrap_with_cost(cost);
                     };
 
-                    let merk_feature_type = in_tree_type.empty_tree_feature_type();
+                    let merk_feature_type = cost_return_on_error_into_no_add!(
+                        cost,
+                        element.get_feature_type(in_tree_type)
+                    );
 
                     let path_reference = cost_return_on_error_into!(
                         &mut cost,
-- 
2.43.0


From ade013bfd9e965b49d897f5b2da892aa27a66b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 37/72] fix: a batch can't both append to a data tree and
 replace its element

---
 grovedb/src/batch/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 04d70bc..01d9ffa 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -979,7 +979,7 @@ impl QualifiedGroveDbOp {
         }
 
         // Detect conflicts between keyless ops (appends) and keyed ops
-        // (delete/delete-tree) targeting the same tree element.
+        // (deletions, insertions, replacements) targeting the same tree element.
         // Keyless ops encode the tree as the last path segment; keyed ops use
         // (parent_path, key).
         let mut append_delete_conflicts = vec![];
@@ -996,9 +996,10 @@ impl QualifiedGroveDbOp {
                     }
                 }
             }
-            // Check keyed Delete / DeleteTree ops for conflicts.
+            // Check keyed ops that remove or replace the tree element for
+            // conflicts. (InsertIfNotExists leaves an existing tree as it is.)
             for op in ops.iter() {
-                if !matches!(op.op, GroveOp::Delete | GroveOp::DeleteTree(..)) {
+                if matches!(op.op, GroveOp::InsertIfNotExists { .. }) {
                     continue;
                 }
                 if let Some(ref key_info) = op.key {
@@ -1077,8 +1078,8 @@ pub struct GroveDbOpConsistencyResults {
     /// This shows issues when we delete a tree but insert under the deleted
     /// tree Deleted ops are first, with inserts under them in a tree
     insert_ops_below_deleted_ops: Vec<(QualifiedGroveDbOp, Vec<QualifiedGroveDbOp>)>,
-    /// Conflicts between keyless append ops and keyed delete ops targeting the
-    /// same tree element. Tuple is (append_op, delete_op).
+    /// Conflicts between keyless append ops and keyed ops that remove or
+    /// replace the same tree element. Tuple is (append_op, keyed_op).
     append_delete_conflicts: Vec<(QualifiedGroveDbOp, QualifiedGroveDbOp)>,
 }
 
-- 
2.43.0


From ce00250516f0da6c93f05ec8c2ec453d7452b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 38/72] fix: where a batch may not overwrite trees, neither may
 its references

---
 grovedb/src/batch/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 01d9ffa..0f5e9ae 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1814,10 +1814,8 @@ where
                         _ => unreachable!(),
                     };
 
-                    // Check tree-override protection for all non-reference elements.
-                    if batch_apply_options.validate_insertion_does_not_override_tree
-                        && !matches!(&element, Element::Reference(..))
-                    {
+                    // Check tree-override protection.
+                    if batch_apply_options.validate_insertion_does_not_override_tree {
                         let merk = self.merks.get_mut(path).expect("the Merk is cached");
                         let maybe_existing = cost_return_on_error_into!(
                             &mut cost,
-- 
2.43.0


From a6be2ffe036e64e4f0f5ce6a53955a8e1cba7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 39/72] fix: protection against overriding holds for trees that
 a batch inserts with elements below, and for commitment trees

---
 grovedb/src/batch/mod.rs | 165 ++++++++++++++++++++++++++-------------
 1 file changed, 111 insertions(+), 54 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 0f5e9ae..7c32f52 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1140,6 +1140,83 @@ where
     F: FnMut(&[Vec<u8>], bool) -> CostResult<Merk<S>, Error>,
     S: StorageContext<'db>,
 {
+    /// Fails if there is a tree at the key and the options do not allow for an
+    /// insertion to override it.
+    fn check_does_not_override_tree(
+        &self,
+        path: &[Vec<u8>],
+        key: &[u8],
+        batch_apply_options: &BatchApplyOptions,
+        grove_version: &GroveVersion,
+    ) -> CostResult<(), Error> {
+        let mut cost = OperationCost::default();
+        if !batch_apply_options.validate_insertion_does_not_override_tree {
+            return Ok(()).wrap_with_cost(cost);
+        }
+        let merk = self.merks.get(path).expect("the Merk is cached");
+        let maybe_existing = cost_return_on_error!(
+            &mut cost,
+            merk.get(
+                key,
+                true,
+                Some(&Element::value_defined_cost_for_serialized_value),
+                grove_version,
+            )
+            .map_err(|e| Error::CorruptedData(format!("unable to check for existing tree: {e}")))
+        );
+        if let Some(existing_bytes) = maybe_existing {
+            let existing_element = cost_return_on_error_no_add!(
+                cost,
+                Element::deserialize(existing_bytes.as_slice(), grove_version).map_err(|_| {
+                    Error::CorruptedData("unable to deserialize existing element".to_string())
+                })
+            );
+            if existing_element.is_any_tree() {
+                return Err(Error::InvalidBatchOperation(
+                    "attempting to overwrite a tree",
+                ))
+                .wrap_with_cost(cost);
+            }
+        }
+        Ok(()).wrap_with_cost(cost)
+    }
+
+    /// Fails if there is an element at the key of a tree that the batch inserts
+    /// together with elements below it, and the options do not allow for an
+    /// insertion to override it.
+    fn check_new_tree_does_not_override(
+        &self,
+        path: &[Vec<u8>],
+        key: &[u8],
+        batch_apply_options: &BatchApplyOptions,
+        grove_version: &GroveVersion,
+    ) -> CostResult<(), Error> {
+        let mut cost = OperationCost::default();
+        cost_return_on_error!(
+            &mut cost,
+            self.check_does_not_override_tree(path, key, batch_apply_options, grove_version)
+        );
+        if batch_apply_options.validate_insertion_does_not_override {
+            let merk = self.merks.get(path).expect("the Merk is cached");
+            let existing = cost_return_on_error!(
+                &mut cost,
+                merk.exists(
+                    key,
+                    Some(&Element::value_defined_cost_for_serialized_value),
+                    grove_version,
+                )
+                .map_err(|e| Error::CorruptedData(e.to_string()))
+            );
+            if existing {
+                return Err(Error::InvalidBatchOperation(
+                    "attempting to insert subtree that already exists",
+                ))
+                .wrap_with_cost(cost);
+            }
+        }
+        Ok(()).wrap_with_cost(cost)
+    }
+
     /// Processes a reference, determining whether it can be retrieved from a
     /// batch operation.
     ///
@@ -1815,40 +1892,15 @@ where
                     };
 
                     // Check tree-override protection.
-                    if batch_apply_options.validate_insertion_does_not_override_tree {
-                        let merk = self.merks.get_mut(path).expect("the Merk is cached");
-                        let maybe_existing = cost_return_on_error_into!(
-                            &mut cost,
-                            merk.get(
-                                key_info.get_key_clone().as_slice(),
-                                true,
-                                Some(&Element::value_defined_cost_for_serialized_value,),
-                                grove_version,
-                            )
-                            .map_err(|e| {
-                                Error::CorruptedData(format!(
-                                    "unable to check for existing tree: {e}"
-                                ))
-                            })
-                        );
-                        if let Some(existing_bytes) = maybe_existing {
-                            let existing_element = cost_return_on_error_no_add!(
-                                cost,
-                                Element::deserialize(existing_bytes.as_slice(), grove_version)
-                                    .map_err(|_| {
-                                        Error::CorruptedData(
-                                            "unable to deserialize existing element".to_string(),
-                                        )
-                                    })
-                            );
-                            if existing_element.is_any_tree() {
-                                return Err(Error::InvalidBatchOperation(
-                                    "attempting to overwrite a tree",
-                                ))
-                                .wrap_with_cost(cost);
-                            }
-                        }
-                    }
+                    cost_return_on_error!(
+                        &mut cost,
+                        self.check_does_not_override_tree(
+                            path,
+                            key_info.as_slice(),
+                            batch_apply_options,
+                            grove_version,
+                        )
+                    );
 
                     match &element {
                         Element::Reference(path_reference, element_max_reference_hop, _) => {
@@ -1931,6 +1983,7 @@ where
                         | Element::CountSumTree(..)
                         | Element::ProvableCountTree(..)
                         | Element::ProvableCountSumTree(..)
+                        | Element::CommitmentTree(..)
                         | Element::MmrTree(..)
                         | Element::BulkAppendTree(..)
                         | Element::DenseAppendOnlyFixedSizeTree(..) => {
@@ -1966,30 +2019,16 @@ where
                                     .get_feature_type(in_tree_type)
                                     .wrap_with_cost(OperationCost::default())
                             );
+                            let root_hash = if matches!(element, Element::CommitmentTree(..)) {
+                                grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+                            } else {
+                                NULL_HASH
+                            };
                             cost_return_on_error_into!(
                                 &mut cost,
                                 element.insert_subtree_into_batch_operations(
                                     key_info.get_key_clone(),
-                                    NULL_HASH,
-                                    false,
-                                    &mut batch_operations,
-                                    merk_feature_type,
-                                    grove_version,
-                                )
-                            );
-                        }
-                        Element::CommitmentTree(..) => {
-                            let merk_feature_type = cost_return_on_error_into!(
-                                &mut cost,
-                                element
-                                    .get_feature_type(in_tree_type)
-                                    .wrap_with_cost(OperationCost::default())
-                            );
-                            cost_return_on_error_into!(
-                                &mut cost,
-                                element.insert_subtree_into_batch_operations(
-                                    key_info.get_key_clone(),
-                                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                                    root_hash,
                                     false,
                                     &mut batch_operations,
                                     merk_feature_type,
@@ -2208,6 +2247,15 @@ where
                     flags,
                     aggregate_data,
                 } => {
+                    cost_return_on_error!(
+                        &mut cost,
+                        self.check_new_tree_does_not_override(
+                            path,
+                            key_info.as_slice(),
+                            batch_apply_options,
+                            grove_version,
+                        )
+                    );
                     // Standard Merk trees — infer element from aggregate_data
                     let element = match aggregate_data {
                         AggregateData::NoAggregateData => {
@@ -2269,6 +2317,15 @@ where
                 GroveOp::InsertNonMerkTree {
                     hash, flags, meta, ..
                 } => {
+                    cost_return_on_error!(
+                        &mut cost,
+                        self.check_new_tree_does_not_override(
+                            path,
+                            key_info.as_slice(),
+                            batch_apply_options,
+                            grove_version,
+                        )
+                    );
                     let element = meta.to_element(flags);
                     let merk_feature_type = cost_return_on_error_into_no_add!(
                         cost,
-- 
2.43.0


From bdf67319c513c65a008fe5acfd874b2c5ff46501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 40/72] fix: an insertion that is skipped because its key
 exists takes no part in the batch

---
 grovedb/src/batch/mod.rs | 77 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 7c32f52..cd62ddb 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -3342,6 +3342,73 @@ impl GroveDb {
         )
     }
 
+    /// Decides the `InsertIfNotExists` operations of a batch by what is stored:
+    /// where the key exists, it fails or the operation takes no part in the
+    /// batch at all (no reference follows its element, nothing goes into a tree
+    /// it would have inserted); where it does not, it is an insertion.
+    fn resolve_insert_if_not_exists_ops(
+        &self,
+        ops: Vec<QualifiedGroveDbOp>,
+        batch_apply_options: &Option<BatchApplyOptions>,
+        transaction: &Transaction,
+    ) -> CostResult<Vec<QualifiedGroveDbOp>, Error> {
+        let mut cost = OperationCost::default();
+        let never_override = batch_apply_options
+            .as_ref()
+            .is_some_and(|options| options.validate_insertion_does_not_override);
+        let mut resolved = Vec::with_capacity(ops.len());
+        for op in ops {
+            match (op.key, op.op) {
+                (
+                    Some(key),
+                    GroveOp::InsertIfNotExists {
+                        element,
+                        error_if_exists,
+                    },
+                ) => {
+                    let path = op.path.to_path();
+                    let storage = self
+                        .db
+                        .get_transactional_storage_context(
+                            path.as_slice().into(),
+                            None,
+                            transaction,
+                        )
+                        .unwrap_add_cost(&mut cost);
+                    let exists = cost_return_on_error!(
+                        &mut cost,
+                        storage.get(key.as_slice()).map_err(|e| e.into())
+                    )
+                    .is_some();
+                    if !exists {
+                        resolved.push(QualifiedGroveDbOp {
+                            path: op.path,
+                            key: Some(key),
+                            op: GroveOp::InsertWithKnownToNotAlreadyExist { element },
+                        });
+                    } else if error_if_exists || never_override {
+                        return Err(Error::InvalidBatchOperation(match element {
+                            Element::Reference(..) => {
+                                "attempting to insert reference that already exists"
+                            }
+                            _ if element.is_any_tree() => {
+                                "attempting to insert subtree that already exists"
+                            }
+                            _ => "attempting to insert element that already exists",
+                        }))
+                        .wrap_with_cost(cost);
+                    }
+                }
+                (key, grove_op) => resolved.push(QualifiedGroveDbOp {
+                    path: op.path,
+                    key,
+                    op: grove_op,
+                }),
+            }
+        }
+        Ok(resolved).wrap_with_cost(cost)
+    }
+
     /// Opens transactional merk at path with given storage batch context.
     /// Returns CostResult.
     pub fn open_batch_transactional_merk_at_path<'db, B: AsRef<[u8]>>(
@@ -3493,6 +3560,11 @@ impl GroveDb {
         // for a single atomic commit at the end.
         let storage_batch = StorageBatch::new();
 
+        let ops = cost_return_on_error!(
+            &mut cost,
+            self.resolve_insert_if_not_exists_ops(ops, &batch_apply_options, tx.as_ref())
+        );
+
         // Preprocess CommitmentTreeInsert ops: execute Sinsemilla operations
         // then convert to ReplaceTreeRootKey ops
         let ops = cost_return_on_error!(
@@ -3864,6 +3936,11 @@ impl GroveDb {
         // for a single atomic commit at the end.
         let storage_batch = StorageBatch::new();
 
+        let ops = cost_return_on_error!(
+            &mut cost,
+            self.resolve_insert_if_not_exists_ops(ops, &batch_apply_options, tx.as_ref())
+        );
+
         // Preprocess CommitmentTreeInsert ops
         let ops = cost_return_on_error!(
             &mut cost,
-- 
2.43.0


From 0a7aa96715a4aa1aca51b0bb3ec050671ca364e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 41/72] fix: references processed after the pause of a partial
 batch follow the operations from before it

---
 grovedb/src/batch/batch_structure.rs |  8 ++++++--
 grovedb/src/batch/mod.rs             | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/batch/batch_structure.rs b/grovedb/src/batch/batch_structure.rs
index 850d337..5e0b5ff 100644
--- a/grovedb/src/batch/batch_structure.rs
+++ b/grovedb/src/batch/batch_structure.rs
@@ -93,6 +93,7 @@ where
     ) -> CostResult<BatchStructure<C, F, SR>, Error> {
         Self::continue_from_ops(
             None,
+            BTreeMap::new(),
             ops,
             update_element_flags_function,
             split_remove_bytes_function,
@@ -100,9 +101,12 @@ where
         )
     }
 
-    /// Create batch structure from a list of ops. Returns CostResult.
+    /// Create batch structure from a list of ops, those left over from an
+    /// interrupted batch, and what that batch does by qualified path (which
+    /// references still to be processed have to follow). Returns CostResult.
     pub(super) fn continue_from_ops(
         previous_ops: Option<OpsByLevelPath>,
+        previous_ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp>,
         ops: Vec<QualifiedGroveDbOp>,
         update_element_flags_function: F,
         split_remove_bytes_function: SR,
@@ -115,7 +119,7 @@ where
             ops_by_level_paths.iter().map(|(k, _)| k).max().unwrap_or(0);
 
         // qualified paths meaning path + key
-        let mut ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp> = BTreeMap::new();
+        let mut ops_by_qualified_paths = previous_ops_by_qualified_paths;
 
         for op in ops.into_iter() {
             let QualifiedGroveDbOp {
diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index cd62ddb..166ba17 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2946,6 +2946,7 @@ impl GroveDb {
     fn continue_partial_apply_body<'db, S: StorageContext<'db>>(
         &self,
         previous_leftover_operations: Option<OpsByLevelPath>,
+        previous_ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp>,
         additional_ops: Vec<QualifiedGroveDbOp>,
         batch_apply_options: Option<BatchApplyOptions>,
         update_element_flags_function: impl FnMut(
@@ -2976,6 +2977,7 @@ impl GroveDb {
             &mut cost,
             BatchStructure::continue_from_ops(
                 previous_leftover_operations,
+                previous_ops_by_qualified_paths,
                 additional_ops,
                 update_element_flags_function,
                 split_removed_bytes_function,
@@ -4125,6 +4127,17 @@ impl GroveDb {
         // 5. Remove operation from the tree, repeat until there are operations to do;
         // 6. Add root leaves save operation to the batch
         // 7. Apply storage_cost batch
+        // References that are processed after the pause follow the operations
+        // from before it.
+        let ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp> = ops
+            .iter()
+            .filter_map(|op| {
+                let mut qualified_path = op.path.clone();
+                qualified_path.push(op.key.clone()?);
+                Some((qualified_path.to_path_consume(), op.op.clone()))
+            })
+            .collect();
+
         let left_over_operations = cost_return_on_error!(
             &mut cost,
             self.apply_body(
@@ -4202,6 +4215,7 @@ impl GroveDb {
             &mut cost,
             self.continue_partial_apply_body(
                 left_over_operations,
+                ops_by_qualified_paths,
                 new_operations,
                 Some(batch_apply_options),
                 update_element_flags_function,
-- 
2.43.0


From 7b2b8ae0ecd121213b367bfbced3888345859d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 42/72] fix: a batch can't add a sum item to a non sum tree
 either

---
 grovedb/src/batch/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 166ba17..b06de71 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2037,6 +2037,12 @@ where
                             );
                         }
                         Element::Item(..) | Element::SumItem(..) | Element::ItemWithSumItem(..) => {
+                            if element.is_sum_item() && !in_tree_type.allows_sum_item() {
+                                return Err(Error::InvalidInput(
+                                    "cannot add sum item to non sum tree",
+                                ))
+                                .wrap_with_cost(cost);
+                            }
                             let merk_feature_type = cost_return_on_error_into!(
                                 &mut cost,
                                 element
-- 
2.43.0


From 90fd193dfa0dd983abfefdb2337c062c7d3dcd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 43/72] fix: a reference in a batch with one hop left does not
 take the hash of another reference for its target's

---
 grovedb/src/batch/mod.rs | 82 ++++++++--------------------------------
 1 file changed, 15 insertions(+), 67 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index b06de71..f060814 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1220,15 +1220,10 @@ where
     /// Processes a reference, determining whether it can be retrieved from a
     /// batch operation.
     ///
-    /// This function performs the processing for a reference when it does not
-    /// change in the same batch. It distinguishes between two cases:
-    ///
-    /// 1. When the hop count is exactly 1, it tries to directly extract the
-    ///    value hash from the reference element.
-    ///
-    /// 2. When the hop count is greater than 1, it retrieves the referenced
-    ///    element and then determines the next step based on the type of the
-    ///    element.
+    /// This function performs the processing for a reference whose target does
+    /// not change in the same batch: it follows the reference that is there to
+    /// stay, where the target is refreshed in the batch, and otherwise retrieves
+    /// the referenced element and determines the next step based on its type.
     ///
     /// # Arguments
     ///
@@ -1276,55 +1271,12 @@ where
             u32,
         ) -> Result<(StorageRemovedBytes, StorageRemovedBytes), Error>,
     {
-        let mut cost = OperationCost::default();
+        let cost = OperationCost::default();
         let (key, reference_path) = qualified_path
             .split_last()
             .expect("path validated non-empty above");
 
-        let merk = match self.merks.entry(reference_path.to_vec()) {
-            HashMapEntry::Occupied(o) => o.into_mut(),
-            HashMapEntry::Vacant(v) => v.insert(cost_return_on_error!(
-                &mut cost,
-                (self.get_merk_fn)(reference_path, false)
-            )),
-        };
-
-        // Here the element being referenced doesn't change in the same batch
-        // and the max hop count is 1, meaning it should point directly to the base
-        // element at this point we can extract the value hash from the
-        // reference element directly
-        if recursions_allowed == 1 {
-            let referenced_element_value_hash_opt = cost_return_on_error!(
-                &mut cost,
-                merk.get_value_hash(
-                    key.as_ref(),
-                    true,
-                    Some(Element::value_defined_cost_for_serialized_value),
-                    grove_version,
-                )
-                .map_err(|e| Error::CorruptedData(e.to_string()))
-            );
-
-            let referenced_element_value_hash = cost_return_on_error!(
-                &mut cost,
-                referenced_element_value_hash_opt
-                    .ok_or({
-                        let reference_string = reference_path
-                            .iter()
-                            .map(hex::encode)
-                            .collect::<Vec<String>>()
-                            .join("/");
-                        Error::MissingReference(format!(
-                            "direct reference to path:`{}` key:`{}` in batch is missing",
-                            reference_string,
-                            hex::encode(key)
-                        ))
-                    })
-                    .wrap_with_cost(OperationCost::default())
-            );
-
-            Ok(referenced_element_value_hash).wrap_with_cost(cost)
-        } else if let Some(referenced_path) = intermediate_reference_info {
+        if let Some(referenced_path) = intermediate_reference_info {
             let path = cost_return_on_error_into_no_add!(
                 cost,
                 path_from_reference_qualified_path_type(referenced_path.clone(), qualified_path)
@@ -1339,11 +1291,11 @@ where
                 grove_version,
             )
         } else {
-            // Here the element being referenced doesn't change in the same batch
-            // but the hop count is greater than 1, we can't just take the value hash from
-            // the referenced element as an element further down in the chain might still
-            // change in the batch.
-            self.process_reference_with_hop_count_greater_than_one(
+            // Here the element being referenced doesn't change in the same batch, but
+            // we can't just take its value hash: it might be a reference (for which
+            // there may be no hop left) and an element further down in the chain
+            // might still change in the batch.
+            self.process_unchanged_reference_target(
                 key,
                 reference_path,
                 qualified_path,
@@ -1433,13 +1385,9 @@ where
         }
     }
 
-    /// Processes a reference with a hop count greater than one, handling the
-    /// retrieval and further processing of the referenced element.
-    ///
-    /// This function is used when the hop count is greater than 1, meaning that
-    /// the reference points to another element that may also be a reference.
-    /// It handles retrieving the referenced element, deserializing it, and
-    /// determining the appropriate action based on the type of the element.
+    /// Processes a reference whose target does not change in the batch,
+    /// handling the retrieval and further processing of the referenced element,
+    /// which may be a reference itself.
     ///
     /// # Arguments
     ///
@@ -1480,7 +1428,7 @@ where
     ///   deserializing the referenced element.
     /// * `Error::InvalidBatchOperation` - If the referenced element points to a
     ///   tree being updated, which is not allowed.
-    fn process_reference_with_hop_count_greater_than_one<'a, G, SR>(
+    fn process_unchanged_reference_target<'a, G, SR>(
         &'a mut self,
         key: &[u8],
         reference_path: &[Vec<u8>],
-- 
2.43.0


From d7127eaa0ebfbb806e17c58fe760ba2f89602170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 44/72] fix: a reference inserted by a batch can't point below
 a tree that the batch deletes

---
 grovedb/src/batch/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f060814..ed538ef 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1545,6 +1545,18 @@ where
         if !visited.insert(path_vec) {
             return Err(Error::CyclicReference).wrap_with_cost(cost);
         }
+        // What is below a tree that the batch deletes goes with it
+        for len in 1..qualified_path.len() {
+            if matches!(
+                ops_by_qualified_paths.get(&qualified_path[..len]),
+                Some(GroveOp::Delete | GroveOp::DeleteTree(..))
+            ) {
+                return Err(Error::InvalidBatchOperation(
+                    "references can not point to something currently being deleted",
+                ))
+                .wrap_with_cost(cost);
+            }
+        }
         // If the element being referenced changes in the same batch
         // we need to set the value_hash based on the new change and not the old state.
 
-- 
2.43.0


From e4514e09fc82510ae17d472fc8c0e195badb2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 45/72] fix: operations added at the pause of a partial batch
 see what the batch did before it

They opened the trees that had been worked on as they were before the batch
and wrote over them, appends among them were dropped, and contradictions
between them and the batch were not noticed.
---
 grovedb/src/batch/mod.rs | 76 ++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index ed538ef..61d3ba4 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -3890,6 +3890,10 @@ impl GroveDb {
             .map(|batch_options| !batch_options.disable_operation_consistency_check)
             .unwrap_or(true);
 
+        // What a whole batch would consist of, together with the add-on
+        // operations.
+        let mut all_operations = ops.clone();
+
         if check_batch_operation_consistency {
             let consistency_result = QualifiedGroveDbOp::verify_consistency_of_operations(&ops);
             if !consistency_result.is_empty() {
@@ -4146,32 +4150,58 @@ impl GroveDb {
             add_on_operations(&total_current_costs, &left_over_operations)
         );
 
-        // Validate the add-on operations for consistency. The callback is
-        // caller-provided, so the returned operations could contain duplicates,
-        // internal-only ops, or inserts under paths being deleted. Apply the
-        // same consistency gate used for the initial batch.
-        //
-        // Limitation: add-on DeleteTree ops bypass the
-        // SubelementsDeletionBehavior preflight (emptiness check, Skip
-        // filtering, cleanup path collection) that runs on the initial
-        // batch.  They go straight into continue_partial_apply_body →
-        // apply_body, where DeleteTree is a simple layered Merk delete
-        // with no emptiness enforcement.  In practice this is safe because
-        // partial-batch callers (Platform) control the callback and only
-        // return root-level propagation ops, not new DeleteTree ops.  If
-        // add-on DeleteTree support is needed in the future, the preflight
-        // must be extended to cover new_operations as well.
-        if check_batch_operation_consistency && !new_operations.is_empty() {
-            let consistency_result =
-                QualifiedGroveDbOp::verify_consistency_of_operations(&new_operations);
-            if !consistency_result.is_empty() {
-                return Err(Error::InvalidBatchOperation(
-                    "add-on operations from callback fail consistency checks",
-                ))
-                .wrap_with_cost(cost);
+        if !new_operations.is_empty() {
+            // Validate the add-on operations for consistency. The callback is
+            // caller-provided, so the returned operations could contain
+            // duplicates, internal-only ops, inserts under paths being deleted,
+            // or contradict those of the initial batch. Apply the same
+            // consistency gate used for the initial batch, to all of them.
+            all_operations.extend(new_operations.iter().cloned());
+            if check_batch_operation_consistency {
+                let consistency_result =
+                    QualifiedGroveDbOp::verify_consistency_of_operations(&all_operations);
+                if !consistency_result.is_empty() {
+                    return Err(Error::InvalidBatchOperation(
+                        "add-on operations from callback fail consistency checks",
+                    ))
+                    .wrap_with_cost(cost);
+                }
+            }
+
+            // What was done up to the pause is not visible to what comes after
+            // it, so add-on operations have to be for trees that are still to be
+            // worked on. Those that are for deeper ones, or that need to be
+            // prepared (appends and deletions of trees), become part of one batch
+            // with the initial operations. Nothing has been written so far.
+            let pause_height = batch_apply_options.batch_pause_height.unwrap_or_default() as u32;
+            if new_operations.iter().any(|op| {
+                op.key.is_none()
+                    || matches!(op.op, GroveOp::DeleteTree(..))
+                    || op.path.len() >= pause_height
+            }) {
+                batch_apply_options.batch_pause_height = None;
+                let result = self.apply_batch_with_element_flags_update(
+                    all_operations,
+                    Some(batch_apply_options),
+                    update_element_flags_function,
+                    split_removal_bytes_function,
+                    Some(tx.as_ref()),
+                    grove_version,
+                );
+                return result
+                    .flat_map_ok(|_| tx.commit_local().wrap_with_cost(Default::default()));
             }
         }
 
+        let new_operations = cost_return_on_error!(
+            &mut cost,
+            self.resolve_insert_if_not_exists_ops(
+                new_operations,
+                &Some(batch_apply_options.clone()),
+                tx.as_ref()
+            )
+        );
+
         // we are trying to finalize
         batch_apply_options.batch_pause_height = None;
 
-- 
2.43.0


From ec351843c69d053ea901125fc4f3acfb1b109fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 46/72] fix: a partial batch pauses before what is above its
 pause height also if there is nothing below

---
 grovedb/src/batch/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 61d3ba4..0530828 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2519,6 +2519,11 @@ impl GroveDb {
         let batch_apply_options = batch_apply_options.unwrap_or_default();
         let stop_level = batch_apply_options.batch_pause_height.unwrap_or_default() as u32;
 
+        if current_level < stop_level {
+            // there is nothing to do before the pause
+            return Ok(Some(ops_by_level_paths)).wrap_with_cost(cost);
+        }
+
         // We will update up the tree
         while let Some(ops_at_level) = ops_by_level_paths.remove(current_level) {
             for (path, ops_at_path) in ops_at_level.into_iter() {
-- 
2.43.0


From d66b33036ba88610a1f45c5bc411ce804cb1e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 47/72] fix: a batch that is applied as a whole ignores the
 pause height

---
 grovedb/src/batch/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 0530828..8318686 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -3511,6 +3511,12 @@ impl GroveDb {
             return Ok(()).wrap_with_cost(cost);
         }
 
+        // A whole batch is not paused: nothing would come after.
+        let batch_apply_options = batch_apply_options.map(|options| BatchApplyOptions {
+            batch_pause_height: None,
+            ..options
+        });
+
         // Check batch operation consistency BEFORE preprocessing so that
         // conflicting ops (e.g., CommitmentTreeInsert + Delete on the same
         // path/key) are caught before any work is done.
-- 
2.43.0


From dacdc458ba88e8f00789eb5fb07d198c4e6d155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 48/72] fix: at the pause of a partial batch, trees it has
 still to insert and propagated changes are known

---
 grovedb/src/batch/batch_structure.rs | 20 ++++++++++++++++++++
 grovedb/src/batch/mod.rs             | 16 +++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/batch/batch_structure.rs b/grovedb/src/batch/batch_structure.rs
index 5e0b5ff..b82d750 100644
--- a/grovedb/src/batch/batch_structure.rs
+++ b/grovedb/src/batch/batch_structure.rs
@@ -118,6 +118,26 @@ where
         let mut current_last_level: u32 =
             ops_by_level_paths.iter().map(|(k, _)| k).max().unwrap_or(0);
 
+        // The trees that the operations left over insert are new ones as well
+        for ops_at_path in ops_by_level_paths.values() {
+            for (path, ops) in ops_at_path {
+                for (key, op) in ops {
+                    if let GroveOp::InsertWithKnownToNotAlreadyExist { element }
+                    | GroveOp::InsertIfNotExists { element, .. }
+                    | GroveOp::InsertOrReplace { element }
+                    | GroveOp::Replace { element }
+                    | GroveOp::Patch { element, .. } = op
+                        && let Some(tree_type) = element.tree_type()
+                    {
+                        cost_return_on_error!(
+                            &mut cost,
+                            merk_tree_cache.insert(path, key, tree_type)
+                        );
+                    }
+                }
+            }
+        }
+
         // qualified paths meaning path + key
         let mut ops_by_qualified_paths = previous_ops_by_qualified_paths;
 
diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 8318686..28d3160 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -4181,14 +4181,24 @@ impl GroveDb {
 
             // What was done up to the pause is not visible to what comes after
             // it, so add-on operations have to be for trees that are still to be
-            // worked on. Those that are for deeper ones, or that need to be
-            // prepared (appends and deletions of trees), become part of one batch
-            // with the initial operations. Nothing has been written so far.
+            // worked on. Those that are for deeper ones, that need to be prepared
+            // (appends and deletions of trees), or that are for trees whose
+            // contents have changed, become part of one batch with the initial
+            // operations. Nothing has been written so far.
             let pause_height = batch_apply_options.batch_pause_height.unwrap_or_default() as u32;
+            let is_left_over = |op: &QualifiedGroveDbOp| {
+                left_over_operations
+                    .as_ref()
+                    .and_then(|levels| levels.get(op.path.len()))
+                    .and_then(|paths| paths.get(&op.path))
+                    .zip(op.key.as_ref())
+                    .is_some_and(|(keys, key)| keys.contains_key(key))
+            };
             if new_operations.iter().any(|op| {
                 op.key.is_none()
                     || matches!(op.op, GroveOp::DeleteTree(..))
                     || op.path.len() >= pause_height
+                    || is_left_over(op)
             }) {
                 batch_apply_options.batch_pause_height = None;
                 let result = self.apply_batch_with_element_flags_update(
-- 
2.43.0


From 526fc487044e4d1f828097214bb6eb0844646b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 49/72] fix: a transaction detects conflicts from its start on,
 not only from its first write on

---
 storage/src/rocksdb_storage/storage.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/storage/src/rocksdb_storage/storage.rs b/storage/src/rocksdb_storage/storage.rs
index 9ff20c4..8a68a31 100644
--- a/storage/src/rocksdb_storage/storage.rs
+++ b/storage/src/rocksdb_storage/storage.rs
@@ -41,7 +41,8 @@ use integer_encoding::VarInt;
 use lazy_static::lazy_static;
 use rocksdb::{
     checkpoint::Checkpoint, ColumnFamily, ColumnFamilyDescriptor, OptimisticTransactionDB,
-    Transaction, WriteBatchWithTransaction, DEFAULT_COLUMN_FAMILY_NAME,
+    OptimisticTransactionOptions, Transaction, WriteBatchWithTransaction, WriteOptions,
+    DEFAULT_COLUMN_FAMILY_NAME,
 };
 
 use super::{PrefixedRocksDbImmediateStorageContext, PrefixedRocksDbTransactionContext};
@@ -546,7 +547,12 @@ impl<'db> Storage<'db> for RocksDbStorage {
     type Transaction = Tx<'db>;
 
     fn start_transaction(&'db self) -> Self::Transaction {
-        self.db.transaction()
+        // With a snapshot, conflicts are detected from the start of the
+        // transaction on. Without one, a commit of someone else between a read
+        // and the write that is based on it would be overwritten silently.
+        let mut options = OptimisticTransactionOptions::default();
+        options.set_snapshot(true);
+        self.db.transaction_opt(&WriteOptions::default(), &options)
     }
 
     fn commit_transaction(&self, transaction: Self::Transaction) -> CostResult<(), Error> {
-- 
2.43.0


From ea506a7c854c30b76313f776504f24dd1dacbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 50/72] fix: a failure of the storage while a subtree is opened
 is not taken for an absent path

---
 grovedb/src/util/compat.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/util/compat.rs b/grovedb/src/util/compat.rs
index 8312c67..085bd05 100644
--- a/grovedb/src/util/compat.rs
+++ b/grovedb/src/util/compat.rs
@@ -48,8 +48,16 @@ where
             .unwrap_add_cost(&mut cost);
         let element = cost_return_on_error!(
             &mut cost,
-            Element::get_from_storage(&parent_storage, parent_key, grove_version)
-                .map_err(|e| C::parent_key_not_found(e.into(), parent_path, parent_key))
+            Element::get_from_storage(&parent_storage, parent_key, grove_version).map_err(|e| {
+                match e.into() {
+                    e @ Error::PathKeyNotFound(_) => {
+                        C::parent_key_not_found(e, parent_path, parent_key)
+                    }
+                    // the storage or what is stored is broken, that does not
+                    // mean that there is no such path
+                    e => e,
+                }
+            })
         );
         if let Some((root_key, tree_type)) = element.root_key_and_tree_type_owned() {
             Merk::open_layered_with_root_key(
-- 
2.43.0


From 9e2c109b96cc4c8d8464c7c1b0723c1fab0e9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 51/72] fix: an append to a data tree that fails leaves nothing
 of it in the transaction

---
 grovedb/src/operations/bulk_append_tree.rs | 19 ++-----------------
 grovedb/src/operations/commitment_tree.rs  | 19 ++-----------------
 grovedb/src/operations/dense_tree.rs       | 19 ++-----------------
 grovedb/src/operations/mmr_tree.rs         | 19 ++-----------------
 4 files changed, 8 insertions(+), 68 deletions(-)

diff --git a/grovedb/src/operations/bulk_append_tree.rs b/grovedb/src/operations/bulk_append_tree.rs
index 88c9679..0be945d 100644
--- a/grovedb/src/operations/bulk_append_tree.rs
+++ b/grovedb/src/operations/bulk_append_tree.rs
@@ -71,10 +71,10 @@ impl GroveDb {
         let subtree_path_refs: Vec<&[u8]> = subtree_path_vec.iter().map(|v| v.as_slice()).collect();
         let subtree_path = SubtreePath::from(subtree_path_refs.as_slice());
 
-        let data_batch = StorageBatch::new();
+        let batch = StorageBatch::new();
         let storage_ctx = self
             .db
-            .get_transactional_storage_context(subtree_path, Some(&data_batch), tx.as_ref())
+            .get_transactional_storage_context(subtree_path, Some(&batch), tx.as_ref())
             .unwrap_add_cost(&mut cost);
 
         // 3. Load tree, append
@@ -96,22 +96,7 @@ impl GroveDb {
         // Drop tree (and its embedded storage context) before opening merk
         drop(tree);
 
-        // Commit data batch to make writes visible in the transaction.
-        // Note: this commits subtree data before the parent element update
-        // below. If the parent Merk update fails, the subtree data is orphaned
-        // in the transaction. This is the same pattern as other direct GroveDB
-        // operations — the caller is expected to rollback the tx on error.
-        // The batch path (preprocess_bulk_append_ops) avoids this by using a
-        // shared StorageBatch that commits atomically with all other ops.
-        cost_return_on_error!(
-            &mut cost,
-            self.db
-                .commit_multi_context_batch(data_batch, Some(tx.as_ref()))
-                .map_err(Into::into)
-        );
-
         // 4. Update element in parent Merk
-        let batch = StorageBatch::new();
         let mut parent_merk = cost_return_on_error!(
             &mut cost,
             self.open_transactional_merk_at_path(
diff --git a/grovedb/src/operations/commitment_tree.rs b/grovedb/src/operations/commitment_tree.rs
index 4f98e32..4fbb5c3 100644
--- a/grovedb/src/operations/commitment_tree.rs
+++ b/grovedb/src/operations/commitment_tree.rs
@@ -127,10 +127,10 @@ impl GroveDb {
         let ct_path_refs: Vec<&[u8]> = ct_path_vec.iter().map(|v| v.as_slice()).collect();
         let ct_path = SubtreePath::from(ct_path_refs.as_slice());
 
-        let data_batch = StorageBatch::new();
+        let batch = StorageBatch::new();
         let storage_ctx = self
             .db
-            .get_transactional_storage_context(ct_path, Some(&data_batch), tx.as_ref())
+            .get_transactional_storage_context(ct_path, Some(&batch), tx.as_ref())
             .unwrap_add_cost(&mut cost);
 
         // 3. Open composite CommitmentTree and append (uses default DashMemo for
@@ -169,22 +169,7 @@ impl GroveDb {
         // Drop ct (and its storage context) before opening merk
         drop(ct);
 
-        // Commit data batch to make writes visible in the transaction.
-        // Note: this commits subtree data before the parent element update
-        // below. If the parent Merk update fails, the subtree data is orphaned
-        // in the transaction. This is the same pattern as other direct GroveDB
-        // operations — the caller is expected to rollback the tx on error.
-        // The batch path (preprocess_commitment_tree_ops) avoids this by using
-        // a shared StorageBatch that commits atomically with all other ops.
-        cost_return_on_error!(
-            &mut cost,
-            self.db
-                .commit_multi_context_batch(data_batch, Some(tx.as_ref()))
-                .map_err(Into::into)
-        );
-
         // 5. Update element in parent Merk
-        let batch = StorageBatch::new();
         let mut parent_merk = cost_return_on_error!(
             &mut cost,
             self.open_transactional_merk_at_path(
diff --git a/grovedb/src/operations/dense_tree.rs b/grovedb/src/operations/dense_tree.rs
index f0e6f31..fc6cd86 100644
--- a/grovedb/src/operations/dense_tree.rs
+++ b/grovedb/src/operations/dense_tree.rs
@@ -70,10 +70,10 @@ impl GroveDb {
         // 3. Open storage, create tree with embedded storage, insert.
         // Uses transactional context — the dense tree's write-through cache
         // provides read-after-write visibility for root hash computation.
-        let data_batch = StorageBatch::new();
+        let batch = StorageBatch::new();
         let storage_ctx = self
             .db
-            .get_transactional_storage_context(subtree_path.clone(), Some(&data_batch), tx.as_ref())
+            .get_transactional_storage_context(subtree_path.clone(), Some(&batch), tx.as_ref())
             .unwrap_add_cost(&mut cost);
 
         let mut tree = cost_return_on_error_no_add!(
@@ -93,22 +93,7 @@ impl GroveDb {
         // Drop tree (and its embedded storage context) before committing
         drop(tree);
 
-        // Commit data writes to the transaction.
-        // Note: this commits subtree data before the parent element update
-        // below. If the parent Merk update fails, the subtree data is orphaned
-        // in the transaction. This is the same pattern as other direct GroveDB
-        // operations — the caller is expected to rollback the tx on error.
-        // The batch path (preprocess_dense_tree_ops) avoids this by using a
-        // shared StorageBatch that commits atomically with all other ops.
-        cost_return_on_error!(
-            &mut cost,
-            self.db
-                .commit_multi_context_batch(data_batch, Some(tx.as_ref()))
-                .map_err(Into::into)
-        );
-
         // 4. Update element and propagate
-        let batch = StorageBatch::new();
         let mut parent_merk = cost_return_on_error!(
             &mut cost,
             self.open_transactional_merk_at_path(
diff --git a/grovedb/src/operations/mmr_tree.rs b/grovedb/src/operations/mmr_tree.rs
index 243bbb1..7b7dcc5 100644
--- a/grovedb/src/operations/mmr_tree.rs
+++ b/grovedb/src/operations/mmr_tree.rs
@@ -72,10 +72,10 @@ impl GroveDb {
         // 3. Open storage, create store adapter, push value.
         // Uses transactional context — the MMRBatch overlay provides
         // read-after-write, and root is computed before commit.
-        let data_batch = StorageBatch::new();
+        let batch = StorageBatch::new();
         let storage_ctx = self
             .db
-            .get_transactional_storage_context(subtree_path.clone(), Some(&data_batch), tx.as_ref())
+            .get_transactional_storage_context(subtree_path.clone(), Some(&batch), tx.as_ref())
             .unwrap_add_cost(&mut cost);
 
         let store = MmrStore::new(&storage_ctx);
@@ -110,22 +110,7 @@ impl GroveDb {
         #[allow(clippy::drop_non_drop)]
         drop(storage_ctx);
 
-        // Commit data writes to the transaction.
-        // Note: this commits subtree data before the parent element update
-        // below. If the parent Merk update fails, the subtree data is orphaned
-        // in the transaction. This is the same pattern as other direct GroveDB
-        // operations — the caller is expected to rollback the tx on error.
-        // The batch path (preprocess_mmr_tree_ops) avoids this by using a
-        // shared StorageBatch that commits atomically with all other ops.
-        cost_return_on_error!(
-            &mut cost,
-            self.db
-                .commit_multi_context_batch(data_batch, Some(tx.as_ref()))
-                .map_err(Into::into)
-        );
-
         // 4. Open parent Merk and update the MmrTree element
-        let batch = StorageBatch::new();
         let mut parent_merk = cost_return_on_error!(
             &mut cost,
             self.open_transactional_merk_at_path(
-- 
2.43.0


From 2719de3e008c5caa7a5502a30a9f366e38984f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 52/72] fix: clearing a subtree with the trees below it happens
 as a whole, also in a transaction

---
 grovedb/src/operations/delete/mod.rs | 46 ++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index b4d2a1e..927a43a 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -340,20 +340,40 @@ impl GroveDb {
                 };
                 if element.is_any_tree() {
                     if options.allow_deleting_subtrees {
-                        cost_return_on_error!(
-                            &mut cost,
-                            self.delete(
-                                subtree_path.clone(),
-                                key.as_slice(),
-                                Some(DeleteOptions {
-                                    allow_deleting_non_empty_trees: true,
-                                    deleting_non_empty_trees_returns_error: false,
-                                    ..Default::default()
-                                }),
-                                Some(tx.as_ref()),
-                                grove_version,
+                        // The elements go when the merk is cleared below; in
+                        // the same batch, so that a failure leaves everything
+                        // as it was.
+                        let child_path = subtree_path.derive_owned_with_child(key.as_slice());
+                        let storage_paths = if element.uses_non_merk_data_storage() {
+                            vec![child_path.to_vec()]
+                        } else {
+                            cost_return_on_error!(
+                                &mut cost,
+                                self.find_subtrees(
+                                    &SubtreePath::from(&child_path),
+                                    Some(tx.as_ref()),
+                                    grove_version,
+                                )
                             )
-                        );
+                        };
+                        for storage_path in storage_paths {
+                            let mut storage = self
+                                .db
+                                .get_transactional_storage_context(
+                                    storage_path.as_slice().into(),
+                                    Some(&batch),
+                                    tx.as_ref(),
+                                )
+                                .unwrap_add_cost(&mut cost);
+                            cost_return_on_error!(
+                                &mut cost,
+                                storage.clear().map_err(|e| {
+                                    Error::CorruptedData(format!(
+                                        "unable to cleanup tree from storage: {e}",
+                                    ))
+                                })
+                            );
+                        }
                     } else if options.trying_to_clear_with_subtrees_returns_error {
                         return Err(Error::ClearingTreeWithSubtreesNotAllowed(
                             "options do not allow to clear this merk tree as it contains subtrees",
-- 
2.43.0


From 3fa525447b5b93fc093f7ce6752d9094837b867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 53/72] fix: operations that read and then write without a
 transaction do both in the same one

---
 .../src/operations/delete/delete_up_tree.rs   | 28 ++++++----
 grovedb/src/operations/insert/mod.rs          | 56 +++++++++++++++----
 2 files changed, 61 insertions(+), 23 deletions(-)

diff --git a/grovedb/src/operations/delete/delete_up_tree.rs b/grovedb/src/operations/delete/delete_up_tree.rs
index f9f64c4..a444f7e 100644
--- a/grovedb/src/operations/delete/delete_up_tree.rs
+++ b/grovedb/src/operations/delete/delete_up_tree.rs
@@ -129,6 +129,7 @@ impl GroveDb {
         );
         let mut cost = OperationCost::default();
         let mut batch_operations: Vec<QualifiedGroveDbOp> = Vec::new();
+        let tx = TxRef::new(&self.db, transaction);
 
         let maybe_ops = cost_return_on_error!(
             &mut cost,
@@ -138,7 +139,7 @@ impl GroveDb {
                 options,
                 None,
                 &mut batch_operations,
-                transaction,
+                Some(tx.as_ref()),
                 grove_version,
             )
         );
@@ -158,15 +159,20 @@ impl GroveDb {
             }
         );
         let ops_len = ops.len();
-        self.apply_batch_with_element_flags_update(
-            ops,
-            None,
-            |_, _, _| Ok(false),
-            split_removal_bytes_function,
-            transaction,
-            grove_version,
-        )
-        .map_ok(|_| u16::try_from(ops_len).unwrap_or(u16::MAX))
+        cost_return_on_error!(
+            &mut cost,
+            self.apply_batch_with_element_flags_update(
+                ops,
+                None,
+                |_, _, _| Ok(false),
+                split_removal_bytes_function,
+                Some(tx.as_ref()),
+                grove_version,
+            )
+        );
+        tx.commit_local()
+            .map(|_| u16::try_from(ops_len).unwrap_or(u16::MAX))
+            .wrap_with_cost(cost)
     }
 
     /// Returns a vector of GroveDb ops
@@ -264,7 +270,7 @@ impl GroveDb {
                         &new_options,
                         None, // todo: maybe we can know this?
                         current_batch_operations,
-                        transaction,
+                        Some(tx.as_ref()),
                         grove_version,
                     )
                 ) {
diff --git a/grovedb/src/operations/insert/mod.rs b/grovedb/src/operations/insert/mod.rs
index d1963d5..2805e0b 100644
--- a/grovedb/src/operations/insert/mod.rs
+++ b/grovedb/src/operations/insert/mod.rs
@@ -390,16 +390,26 @@ impl GroveDb {
         let mut cost = OperationCost::default();
         cost_return_on_error!(&mut cost, validate_key_length(key));
         let subtree_path: SubtreePath<_> = path.into();
+        let tx = TxRef::new(&self.db, transaction);
 
         if cost_return_on_error!(
             &mut cost,
-            self.has_raw(subtree_path.clone(), key, transaction, grove_version)
+            self.has_raw(subtree_path.clone(), key, Some(tx.as_ref()), grove_version)
         ) {
             Ok(false).wrap_with_cost(cost)
         } else {
-            self.insert(subtree_path, key, element, None, transaction, grove_version)
-                .map_ok(|_| true)
-                .add_cost(cost)
+            cost_return_on_error!(
+                &mut cost,
+                self.insert(
+                    subtree_path,
+                    key,
+                    element,
+                    None,
+                    Some(tx.as_ref()),
+                    grove_version
+                )
+            );
+            tx.commit_local().map(|_| true).wrap_with_cost(cost)
         }
     }
 
@@ -446,17 +456,27 @@ impl GroveDb {
         let mut cost = OperationCost::default();
         cost_return_on_error!(&mut cost, validate_key_length(key));
         let subtree_path: SubtreePath<_> = path.into();
+        let tx = TxRef::new(&self.db, transaction);
 
         let previous_element = cost_return_on_error!(
             &mut cost,
-            self.get_raw_optional(subtree_path.clone(), key, transaction, grove_version)
+            self.get_raw_optional(subtree_path.clone(), key, Some(tx.as_ref()), grove_version)
         );
         if previous_element.is_some() {
             Ok(previous_element).wrap_with_cost(cost)
         } else {
-            self.insert(subtree_path, key, element, None, transaction, grove_version)
-                .map_ok(|_| None)
-                .add_cost(cost)
+            cost_return_on_error!(
+                &mut cost,
+                self.insert(
+                    subtree_path,
+                    key,
+                    element,
+                    None,
+                    Some(tx.as_ref()),
+                    grove_version
+                )
+            );
+            tx.commit_local().map(|_| None).wrap_with_cost(cost)
         }
     }
 
@@ -487,10 +507,11 @@ impl GroveDb {
         let mut cost = OperationCost::default();
         cost_return_on_error!(&mut cost, validate_key_length(key));
         let subtree_path: SubtreePath<B> = path.into();
+        let tx = TxRef::new(&self.db, transaction);
 
         let previous_element = cost_return_on_error!(
             &mut cost,
-            self.get_raw_optional(subtree_path.clone(), key, transaction, grove_version)
+            self.get_raw_optional(subtree_path.clone(), key, Some(tx.as_ref()), grove_version)
         );
         let needs_insert = match &previous_element {
             None => true,
@@ -499,9 +520,20 @@ impl GroveDb {
         if !needs_insert {
             Ok((false, None)).wrap_with_cost(cost)
         } else {
-            self.insert(subtree_path, key, element, None, transaction, grove_version)
-                .map_ok(|_| (true, previous_element))
-                .add_cost(cost)
+            cost_return_on_error!(
+                &mut cost,
+                self.insert(
+                    subtree_path,
+                    key,
+                    element,
+                    None,
+                    Some(tx.as_ref()),
+                    grove_version
+                )
+            );
+            tx.commit_local()
+                .map(|_| (true, previous_element))
+                .wrap_with_cost(cost)
         }
     }
 }
-- 
2.43.0


From cb3ade30b2d326afee67d65108b0d5faca3abcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 54/72] fix: visualizing a long string no longer panics inside
 a character

---
 visualize/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/visualize/src/lib.rs b/visualize/src/lib.rs
index 0268ccf..9be7168 100644
--- a/visualize/src/lib.rs
+++ b/visualize/src/lib.rs
@@ -147,7 +147,12 @@ impl Visualize for [u8] {
         drawer.write(format!("[hex: {hex_repr}").as_bytes())?;
         if let Ok(str_repr) = str_repr {
             let str_part = if str_repr.len() > STR_LEN {
-                &str_repr[..=STR_LEN]
+                // never cut a character in half
+                let end = (0..=STR_LEN + 1)
+                    .rev()
+                    .find(|end| str_repr.is_char_boundary(*end))
+                    .unwrap_or_default();
+                &str_repr[..end]
             } else {
                 &str_repr
             };
-- 
2.43.0


From b51ea6af826c40b3359011d69e0316514f7ad5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 55/72] fix: storage flags cut off inside an epoch entry are
 refused

---
 grovedb-epoch-based-storage-flags/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grovedb-epoch-based-storage-flags/src/lib.rs b/grovedb-epoch-based-storage-flags/src/lib.rs
index 5a9168a..8c4ca3e 100644
--- a/grovedb-epoch-based-storage-flags/src/lib.rs
+++ b/grovedb-epoch-based-storage-flags/src/lib.rs
@@ -575,6 +575,11 @@ impl StorageFlags {
                 offset += bytes_used;
                 bytes_per_epoch.insert(epoch_index, bytes_at_epoch);
             }
+            if offset != len {
+                return Err(StorageFlagsError::StorageFlagsWrongSize(
+                    "multi epoch must end with a complete epoch entry".to_string(),
+                ));
+            }
             Ok(MultiEpoch(base_epoch, bytes_per_epoch))
         }
     }
@@ -638,6 +643,11 @@ impl StorageFlags {
                 offset += bytes_used;
                 bytes_per_epoch.insert(epoch_index, bytes_at_epoch);
             }
+            if offset != len {
+                return Err(StorageFlagsError::StorageFlagsWrongSize(
+                    "multi epoch owned must end with a complete epoch entry".to_string(),
+                ));
+            }
             Ok(MultiEpochOwned(base_epoch, bytes_per_epoch, owner_id))
         }
     }
-- 
2.43.0


From 508d1076343922d487eb5081c5800d866d085b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 56/72] fix: splitting very large removals over epochs does not
 overflow

---
 grovedb-epoch-based-storage-flags/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb-epoch-based-storage-flags/src/lib.rs b/grovedb-epoch-based-storage-flags/src/lib.rs
index 8c4ca3e..c9712de 100644
--- a/grovedb-epoch-based-storage-flags/src/lib.rs
+++ b/grovedb-epoch-based-storage-flags/src/lib.rs
@@ -784,7 +784,7 @@ impl StorageFlags {
 
             while bytes_left > 0 {
                 if let Some((epoch_index, bytes_in_epoch)) = rev_iter.next() {
-                    if *bytes_in_epoch <= bytes_left + MINIMUM_NON_BASE_FLAGS_SIZE {
+                    if *bytes_in_epoch <= bytes_left.saturating_add(MINIMUM_NON_BASE_FLAGS_SIZE) {
                         let epoch_removable =
                             bytes_in_epoch.saturating_sub(MINIMUM_NON_BASE_FLAGS_SIZE);
                         sectioned_storage_removal.insert(*epoch_index, epoch_removable);
-- 
2.43.0


From c7aafa5f156cc87fe4b692056c70129375198d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 57/72] fix: a cost defined for a replaced value does not carry
 over to the new value

Overwriting a sum item or a tree by an item kept the fixed cost of the old
value, so the new item was charged (and verified) as if it were a sum item
whatever its size.
---
 merk/src/tree/kv.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merk/src/tree/kv.rs b/merk/src/tree/kv.rs
index 7dfcde8..07fea10 100644
--- a/merk/src/tree/kv.rs
+++ b/merk/src/tree/kv.rs
@@ -173,10 +173,12 @@ impl KV {
     }
 
     /// Replaces the `KV`'s value with the given value, does not update the hash
-    /// or value hash.
+    /// or value hash. A cost that was defined for the replaced value does not
+    /// carry over to the new one.
     #[inline]
     pub fn put_value_no_update_of_hashes(mut self, value: Vec<u8>) -> Self {
         self.value = value;
+        self.value_defined_cost = None;
         self
     }
 
@@ -221,8 +223,9 @@ impl KV {
         value: Vec<u8>,
         value_cost: ValueDefinedCostType,
     ) -> Self {
+        self = self.put_value_no_update_of_hashes(value);
         self.value_defined_cost = Some(value_cost);
-        self.put_value_no_update_of_hashes(value)
+        self
     }
 
     /// Returns the key as a slice.
-- 
2.43.0


From aa618f31e71a35b7aa2045a3b15245a30788a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 58/72] fix: the prover of bulk append tree values took the
 range around the query for the number of its results

---
 grovedb/src/operations/proof/generate.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index a813491..e42d994 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1561,9 +1561,16 @@ impl GroveDb {
                 .map_err(|e| Error::CorruptedData(format!("{}", e)))
         );
 
-        // Update limit: count individual values in the queried range
+        // Update limit: count the queried values, which may be fewer than the
+        // range around all query items has
         if let Some(limit) = overall_limit.as_mut() {
-            let count = (end.min(total_count) - start).min(u16::MAX as u64) as u16;
+            let count = (start..end)
+                .filter(|position| {
+                    let key = position.to_be_bytes();
+                    sub_query.items.iter().any(|item| item.contains(&key))
+                })
+                .take(u16::MAX as usize)
+                .count() as u16;
             *limit = limit.saturating_sub(count);
         }
 
-- 
2.43.0


From 45dccce49c73fb1b27bcb45e797e0dfebddbabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 59/72] fix: results of data trees in proofs come in the
 direction of the query; empty bulk trees and the last key verify

---
 grovedb/src/operations/proof/verify.rs | 28 +++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index c56dfbb..7f652f3 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -857,7 +857,12 @@ impl GroveDb {
             ));
         }
 
-        // Add each verified leaf to the result set
+        // Add each verified leaf to the result set, in the order of the query
+        let mut verified_leaves = verified_leaves;
+        verified_leaves.sort_by_key(|(leaf_index, _)| *leaf_index);
+        if !sub_query.left_to_right {
+            verified_leaves.reverse();
+        }
         for (leaf_index, value) in verified_leaves {
             let key = leaf_index.to_be_bytes().to_vec();
             let element = Element::new_item(value);
@@ -937,9 +942,12 @@ impl GroveDb {
         let (start, end) = Self::extract_range_from_query_items(&sub_query.items)?;
         let end = end.min(proof_result.total_count);
 
-        let values = proof_result
+        let mut values = proof_result
             .values_in_range(start, end)
             .map_err(|e| Error::CorruptedData(format!("{}", e)))?;
+        if !sub_query.left_to_right {
+            values.reverse();
+        }
 
         // Completeness: every position the query expects must be present in
         // the proof values. Build the expected set and check coverage.
@@ -992,6 +1000,12 @@ impl GroveDb {
             }
         }
 
+        // A BulkAppendTree is inserted without a state root, it gets one with
+        // the first append
+        if matches!(element, Element::BulkAppendTree(0, ..)) {
+            return Ok(NULL_HASH);
+        }
+
         // Return computed state_root as child Merk hash
         Ok(bulk_state_root)
     }
@@ -1097,11 +1111,15 @@ impl GroveDb {
         // verify_for_query validates height+count from the authenticated Element,
         // checks completeness (all queried positions present) and soundness
         // (no unrequested positions), then returns only matching entries.
-        let (computed_root, verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
+        let (computed_root, mut verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
             .verify_for_query(&level_query, element_height, element_count)
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
-        // Add each verified entry to the result set
+        // Add each verified entry to the result set, in the order of the query
+        verified_entries.sort_by_key(|(position, _)| *position);
+        if !level_query.left_to_right {
+            verified_entries.reverse();
+        }
         for (position, value) in verified_entries {
             let key = position.to_be_bytes().to_vec();
             let elem = Element::new_item(value);
@@ -1245,7 +1263,7 @@ impl GroveDb {
             }
         }
 
-        if min_start == u64::MAX {
+        if items.is_empty() {
             return Err(Error::InvalidInput(
                 "No valid range items found in BulkAppendTree query",
             ));
-- 
2.43.0


From 676d5cce4b98e7fa6979ede4013a929b7de5979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 60/72] fix: the parent tree info of a query with an absent
 path is not that of another tree

---
 grovedb/src/operations/proof/verify.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 7f652f3..eb6bc1f 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -511,7 +511,10 @@ impl GroveDb {
                             | Element::BulkAppendTree(..)
                             | Element::DenseAppendOnlyFixedSizeTree(..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
+                                // Trees on the way to the parent tree are not it
+                                if path.len() == query.path.len() {
+                                    *last_parent_tree_type = element.tree_feature_type();
+                                }
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // Nothing would bind the value of the tree
                                     return Err(Error::InvalidProof(
@@ -1495,7 +1498,10 @@ impl GroveDb {
                             | Element::ProvableCountTree(Some(_), ..)
                             | Element::ProvableCountSumTree(Some(_), ..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
+                                // Trees on the way to the parent tree are not it
+                                if path.len() == query.path.len() {
+                                    *last_parent_tree_type = element.tree_feature_type();
+                                }
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // We are actually looking for the tree
                                     let path_key_optional_value =
-- 
2.43.0


From 45d9d0caf1811a3935ff741d09c775a3c7f3849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 61/72] fix: a restored tree has the feature types and
 aggregates of its source

---
 merk/src/merk/restore.rs | 119 ++++++++++++++++++++++++++-------------
 1 file changed, 80 insertions(+), 39 deletions(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 576ef08..420493f 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -31,10 +31,12 @@
 
 use std::collections::BTreeMap;
 
+use grovedb_element::Element;
 use grovedb_storage::{Batch, StorageContext};
 use grovedb_version::version::GroveVersion;
 
 use crate::{
+    element::tree_type::ElementTreeTypeExtensions,
     merk,
     merk::MerkSource,
     proofs::{
@@ -47,13 +49,31 @@ use crate::{
         tree::{execute, Child, Tree as ProofTree},
         Node, Op,
     },
-    tree::{combine_hash, kv::ValueDefinedCostType, value_hash, RefWalker, TreeNode},
+    tree::{
+        combine_hash, kv::ValueDefinedCostType, value_hash, AggregateData, RefWalker, TreeNode,
+    },
     tree_type::TreeType,
     CryptoHash, Error,
     Error::{CostsError, StorageError},
     Link, Merk, TreeFeatureType,
 };
 
+/// The feature type of a node restored from a chunk. Chunk nodes carry either
+/// none or, in provable count trees, the aggregate of the node and its
+/// children, so that of an element is derived from the element itself. Raw merk
+/// values, which aren't elements, keep the one of the chunk.
+fn own_feature_type(
+    value: &[u8],
+    chunk_feature_type: TreeFeatureType,
+    tree_type: TreeType,
+    grove_version: &GroveVersion,
+) -> Result<TreeFeatureType, Error> {
+    match Element::deserialize(value, grove_version) {
+        Ok(element) => element.get_feature_type(tree_type),
+        Err(_) => Ok(chunk_feature_type),
+    }
+}
+
 /// Restorer handles verification of chunks and replication of Merk trees.
 /// Chunks can be processed randomly as long as their parent has been processed
 /// already.
@@ -86,7 +106,7 @@ use crate::{
 /// 3. **Mandatory finalization.** Callers must invoke [`Restorer::finalize`]
 ///    to obtain the restored `Merk`. `finalize` runs `verify_height`
 ///    which performs a full recursive height audit, and if any
-///    discrepancy is found, `rewrite_heights` traverses the entire tree
+///    discrepancy is found, `rewrite_links` traverses the entire tree
 ///    bottom-up to compute correct heights from the actual structure.
 ///    After height correction, `finalize` additionally calls
 ///    `merk.verify()` to validate the full tree integrity before
@@ -162,7 +182,8 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         }
 
         // next up, we need to write the chunk and build the map again
-        let chunk_write_result = self.write_chunk(chunk_tree, &mut root_traversal_instruction);
+        let chunk_write_result =
+            self.write_chunk(chunk_tree, &mut root_traversal_instruction, grove_version);
         if chunk_write_result.is_ok() {
             // if we were able to successfully write the chunk, we can remove
             // the chunk expected root hash from our chunk id map
@@ -283,7 +304,9 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         &mut self,
         chunk_tree: ProofTree,
         traversal_instruction: &mut Vec<bool>,
+        grove_version: &GroveVersion,
     ) -> Result<Vec<Vec<u8>>, Error> {
+        let tree_type = self.merk.tree_type;
         // this contains all the elements we want to write to storage
         let mut batch = self.merk.storage.new_batch();
         let mut new_chunk_ids = Vec::new();
@@ -299,7 +322,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             *vh,
-                            *feature_type,
+                            own_feature_type(value, *feature_type, tree_type, grove_version)?,
                         )
                         .unwrap();
 
@@ -322,7 +345,12 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             vh,
-                            TreeFeatureType::BasicMerkNode,
+                            own_feature_type(
+                                value,
+                                TreeFeatureType::BasicMerkNode,
+                                tree_type,
+                                grove_version,
+                            )?,
                         )
                         .unwrap();
 
@@ -340,7 +368,12 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             *vh,
-                            TreeFeatureType::BasicMerkNode,
+                            own_feature_type(
+                                value,
+                                TreeFeatureType::BasicMerkNode,
+                                tree_type,
+                                grove_version,
+                            )?,
                         )
                         .unwrap();
 
@@ -358,7 +391,12 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                             key.clone(),
                             value.clone(),
                             vh,
-                            TreeFeatureType::ProvableCountedMerkNode(*count),
+                            own_feature_type(
+                                value,
+                                TreeFeatureType::ProvableCountedMerkNode(*count),
+                                tree_type,
+                                grove_version,
+                            )?,
                         )
                         .unwrap();
 
@@ -468,7 +506,8 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         Ok(())
     }
 
-    /// Recomputes all child heights bottom-up from the actual tree structure.
+    /// Recomputes all child heights and aggregates bottom-up from the actual
+    /// tree structure.
     ///
     /// Heights are not part of the cryptographic commitment (they do not
     /// affect the Merkle root hash), so a chunk producer could supply
@@ -476,14 +515,16 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
     /// restoration, heights for chunk-boundary links are stored as
     /// placeholders. This method walks the entire tree, computes true
     /// heights from the leaves up, and rewrites every node with the
-    /// correct values. Called by `finalize()` when `verify_height` detects
-    /// a discrepancy.
-    fn rewrite_heights(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
-        fn rewrite_child_heights<'s, 'db, S: StorageContext<'db>>(
+    /// correct values. The same goes for the aggregates of the children: a
+    /// chunk holds only those of provable count trees. Called by `finalize()`
+    /// when `verify_height` detects a discrepancy, and for trees with
+    /// aggregates.
+    fn rewrite_links(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
+        fn rewrite_child_links<'s, 'db, S: StorageContext<'db>>(
             mut walker: RefWalker<MerkSource<'s, S>>,
             batch: &mut <S as StorageContext<'db>>::Batch,
             grove_version: &GroveVersion,
-        ) -> Result<(u8, u8), Error> {
+        ) -> Result<((u8, u8), AggregateData), Error> {
             let mut cloned_node = TreeNode::decode(
                 walker.tree().key().to_vec(),
                 walker.tree().encode().as_slice(),
@@ -505,14 +546,16 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 )
                 .value?
             {
-                let left_child_heights = rewrite_child_heights(left_walker, batch, grove_version)?;
+                let (left_child_heights, left_aggregate_data) =
+                    rewrite_child_links(left_walker, batch, grove_version)?;
                 left_height = left_child_heights.0.max(left_child_heights.1) + 1;
-                *cloned_node
-                    .link_mut(LEFT)
-                    .ok_or(Error::CorruptedState(
-                        "expected left link to exist after walking left child",
-                    ))?
-                    .child_heights_mut() = left_child_heights;
+                let left_link = cloned_node.link_mut(LEFT).ok_or(Error::CorruptedState(
+                    "expected left link to exist after walking left child",
+                ))?;
+                *left_link.child_heights_mut() = left_child_heights;
+                if let Link::Reference { aggregate_data, .. } = left_link {
+                    *aggregate_data = left_aggregate_data;
+                }
             }
 
             if let Some(right_walker) = walker
@@ -523,15 +566,16 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 )
                 .value?
             {
-                let right_child_heights =
-                    rewrite_child_heights(right_walker, batch, grove_version)?;
+                let (right_child_heights, right_aggregate_data) =
+                    rewrite_child_links(right_walker, batch, grove_version)?;
                 right_height = right_child_heights.0.max(right_child_heights.1) + 1;
-                *cloned_node
-                    .link_mut(RIGHT)
-                    .ok_or(Error::CorruptedState(
-                        "expected right link to exist after walking right child",
-                    ))?
-                    .child_heights_mut() = right_child_heights;
+                let right_link = cloned_node.link_mut(RIGHT).ok_or(Error::CorruptedState(
+                    "expected right link to exist after walking right child",
+                ))?;
+                *right_link.child_heights_mut() = right_child_heights;
+                if let Link::Reference { aggregate_data, .. } = right_link {
+                    *aggregate_data = right_aggregate_data;
+                }
             }
 
             let bytes = cloned_node.encode();
@@ -539,7 +583,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 .put(walker.tree().key(), &bytes, None, None)
                 .map_err(CostsError)?;
 
-            Ok((left_height, right_height))
+            Ok(((left_height, right_height), cloned_node.aggregate_data()?))
         }
 
         let mut batch = self.merk.storage.new_batch();
@@ -548,11 +592,11 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 .tree
                 .take()
                 .ok_or(Error::ChunkRestoringError(ChunkError::InternalError(
-                    "tree is None in rewrite_heights",
+                    "tree is None in rewrite_links",
                 )))?;
         let walker = RefWalker::new(&mut tree, self.merk.source());
 
-        rewrite_child_heights(walker, &mut batch, grove_version)?;
+        rewrite_child_links(walker, &mut batch, grove_version)?;
 
         self.merk.tree.set(Some(tree));
 
@@ -609,8 +653,10 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
 
         // Heights written during chunk processing may be placeholders (see
         // write_chunk doc comment). Verify them here, and rewrite if needed.
-        if self.verify_height(grove_version).is_err() {
-            self.rewrite_heights(grove_version)?;
+        // Aggregates of children aren't known before all chunks are.
+        if self.merk.tree_type != TreeType::NormalTree || self.verify_height(grove_version).is_err()
+        {
+            self.rewrite_links(grove_version)?;
             // update the root node after height rewrite
             self.merk
                 .load_base_root(
@@ -625,12 +671,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 })?;
         }
 
-        if !self
-            .merk
-            .verify(self.merk.tree_type != TreeType::NormalTree, grove_version)
-            .0
-            .is_empty()
-        {
+        if !self.merk.verify(false, grove_version).0.is_empty() {
             return Err(Error::ChunkRestoringError(ChunkError::InternalError(
                 "restored tree invalid",
             )));
-- 
2.43.0


From 3045bb18c1f4483b6dc5d745de48ece760ef85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 62/72] fix: a chunk whose items don't match their value hashes
 is refused

---
 merk/src/merk/restore.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 420493f..90bf796 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -162,6 +162,7 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         if chunk_id.is_empty() {
             parent_key_value_hash = self.parent_key_value_hash;
         }
+        Self::verify_value_hashes(&chunk, grove_version)?;
         let chunk_tree = Self::verify_chunk(chunk, expected_root_hash, &parent_key_value_hash)?;
 
         let mut root_traversal_instruction = vec_bytes_as_traversal_instruction(chunk_id)?;
@@ -228,6 +229,29 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         Ok(chunk_ids)
     }
 
+    /// Verifies that the value hashes that come along with values are theirs.
+    /// Only those of references and trees hold more than the value: for anything
+    /// else, a value hash must not stand in for the value.
+    fn verify_value_hashes(chunk: &[Op], grove_version: &GroveVersion) -> Result<(), Error> {
+        for op in chunk {
+            let (Op::Push(node) | Op::PushInverted(node)) = op else {
+                continue;
+            };
+            if let Node::KVValueHash(_, value, vh) | Node::KVValueHashFeatureType(_, value, vh, _) =
+                node
+            {
+                let has_combined_value_hash = Element::deserialize(value, grove_version)
+                    .is_ok_and(|element| element.is_reference() || element.is_any_tree());
+                if !has_combined_value_hash && value_hash(value.as_slice()).unwrap() != *vh {
+                    return Err(Error::ChunkRestoringError(ChunkError::InvalidChunkProof(
+                        "value doesn't match its value hash",
+                    )));
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Verifies the structure of a chunk and ensures the chunk matches the
     /// expected root hash
     fn verify_chunk(
-- 
2.43.0


From 772f294958ad932525776d61859dc9ee59824fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 63/72] fix: requests for chunks of a tree lower than its first
 chunk don't underflow

---
 merk/src/proofs/chunk/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merk/src/proofs/chunk/util.rs b/merk/src/proofs/chunk/util.rs
index 8f69012..2244ddc 100644
--- a/merk/src/proofs/chunk/util.rs
+++ b/merk/src/proofs/chunk/util.rs
@@ -226,7 +226,7 @@ pub fn chunk_index_from_traversal_instruction(
     //      height 2 is represented by [left] or [right] len of 1
     // therefore last chunk root node is address with total_height -
     // last_chunk_height
-    if traversal_instruction.len() > height - last_layer_height {
+    if traversal_instruction.len() > height.saturating_sub(last_layer_height) {
         return Err(Error::ChunkingError(BadTraversalInstruction(
             "traversal instruction should not address nodes past the root of the last layer chunks",
         )));
-- 
2.43.0


From cc6bc6d85b761fb011e324abff83e1c5f4a8dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 64/72] fix: a synchronisation isn't done while a subtree is
 missing, and an empty chunk isn't taken for a non-empty subtree

---
 grovedb/src/replication/state_sync_session.rs | 53 +++++++++++++++----
 merk/src/merk/restore.rs                      | 12 +++++
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/grovedb/src/replication/state_sync_session.rs b/grovedb/src/replication/state_sync_session.rs
index 2e75a75..7f150eb 100644
--- a/grovedb/src/replication/state_sync_session.rs
+++ b/grovedb/src/replication/state_sync_session.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use grovedb_merk::{
-    tree::{kv::ValueDefinedCostType, value_hash},
+    tree::{hash::NULL_HASH, kv::ValueDefinedCostType, value_hash},
     tree_type::TreeType,
     CryptoHash, Restorer,
 };
@@ -104,7 +104,6 @@ impl SubtreeStateSyncInfo<'_> {
                 "Incoming global_chunk_id not expected".to_string(),
             ));
         }
-        self.pending_chunks.remove(chunk_id);
         if !chunk_data.is_empty() {
             match decode_vec_ops(chunk_data) {
                 Ok(ops) => {
@@ -129,7 +128,23 @@ impl SubtreeStateSyncInfo<'_> {
                     )));
                 }
             }
+        } else {
+            // Only an empty subtree has an empty chunk. Chunks don't hold the data of
+            // trees that keep it outside of the merk, so these must be empty too.
+            let empty_root_hash = match self.tree_type {
+                TreeType::CommitmentTree(_) => {
+                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+                }
+                _ => NULL_HASH,
+            };
+            if !chunk_id.is_empty() || !self.restorer.expects_empty_tree(&empty_root_hash) {
+                return Err(Error::InternalError(
+                    "empty chunk for a non-empty subtree".to_string(),
+                ));
+            }
         }
+        // only a chunk that was applied isn't awaited anymore
+        self.pending_chunks.remove(chunk_id);
 
         Ok(res)
     }
@@ -162,6 +177,11 @@ pub struct MultiStateSyncSession<'db> {
     /// digests).
     processed_prefixes: BTreeSet<SubtreePrefix>,
 
+    /// Set of prefixes known to need processing that aren't completely
+    /// processed: those that await chunks, those still to be started, and those
+    /// that failed.
+    unfinished_prefixes: BTreeSet<SubtreePrefix>,
+
     /// Root application hash (`app_hash`).
     app_hash: [u8; 32],
 
@@ -193,6 +213,7 @@ impl<'db> MultiStateSyncSession<'db> {
             transaction: db.start_transaction(),
             current_prefixes: Default::default(),
             processed_prefixes: Default::default(),
+            unfinished_prefixes: Default::default(),
             app_hash,
             version: CURRENT_STATE_SYNC_VERSION,
             subtrees_batch_size,
@@ -210,14 +231,12 @@ impl<'db> MultiStateSyncSession<'db> {
     /// Returns true if all subtrees have been fully synchronized.
     /// Returns false if sync has never started (no prefixes processed).
     pub fn is_sync_completed(&self) -> bool {
-        if self.current_prefixes.is_empty() && self.processed_prefixes.is_empty() {
+        if self.processed_prefixes.is_empty() {
             return false;
         }
 
-        for (_, subtree_state_info) in self.current_prefixes.iter() {
-            if !subtree_state_info.pending_chunks.is_empty() {
-                return false;
-            }
+        if !self.unfinished_prefixes.is_empty() {
+            return false;
         }
 
         if self.pending_discovered_subtrees.is_some() {
@@ -356,6 +375,7 @@ impl<'db> MultiStateSyncSession<'db> {
             self.as_mut()
                 .current_prefixes()
                 .insert(chunk_prefix, sync_info);
+            self.as_mut().unfinished_prefixes().insert(chunk_prefix);
             encode_global_chunk_id(chunk_prefix, root_key, tree_type, vec![])
         } else {
             Err(Error::InternalError(
@@ -380,6 +400,14 @@ impl<'db> MultiStateSyncSession<'db> {
         &mut unsafe { self.get_unchecked_mut() }.processed_prefixes
     }
 
+    fn unfinished_prefixes(
+        self: Pin<&mut MultiStateSyncSession<'db>>,
+    ) -> &mut BTreeSet<SubtreePrefix> {
+        // SAFETY: we only access a single field and do not move the struct;
+        // the pin invariant only protects `transaction` from being moved.
+        &mut unsafe { self.get_unchecked_mut() }.unfinished_prefixes
+    }
+
     fn num_processed_subtrees_in_batch(self: Pin<&mut MultiStateSyncSession<'db>>) -> &mut usize {
         // SAFETY: we only access a single field and do not move the struct;
         // the pin invariant only protects `transaction` from being moved.
@@ -534,11 +562,10 @@ impl<'db> MultiStateSyncSession<'db> {
                     if is_subtree_empty {
                         // For empty subtrees, verify the restorer's underlying merk has a
                         // NULL root hash. A malicious peer that sends empty data for a
-                        // non-empty subtree will be caught here (and also at commit time
-                        // via H3 root hash verification).
+                        // non-empty subtree was caught when the chunk was applied.
                         let merk = prefix_data.restorer.into_merk();
                         let merk_root = merk.root_hash().unwrap();
-                        if merk_root != grovedb_merk::tree::hash::NULL_HASH {
+                        if merk_root != NULL_HASH {
                             return Err(Error::InternalError(
                                 "empty subtree has non-null root hash".to_string(),
                             ));
@@ -562,6 +589,12 @@ impl<'db> MultiStateSyncSession<'db> {
 
                 let new_subtrees_metadata =
                     self.discover_new_subtrees_metadata(&completed_path, grove_version)?;
+                for new_prefix in new_subtrees_metadata.data.keys() {
+                    if !self.processed_prefixes.contains(new_prefix) {
+                        self.as_mut().unfinished_prefixes().insert(*new_prefix);
+                    }
+                }
+                self.as_mut().unfinished_prefixes().remove(&chunk_prefix);
 
                 if self.num_processed_subtrees_in_batch >= self.subtrees_batch_size {
                     match self.as_mut().pending_discovered_subtrees() {
diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 90bf796..7b8b5de 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -145,6 +145,18 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
         self.merk
     }
 
+    /// Whether the tree to restore is the empty one, of the given root hash,
+    /// which has no chunks. Only meaningful before any chunk has been processed.
+    pub fn expects_empty_tree(&self, empty_root_hash: &CryptoHash) -> bool {
+        let empty_tree_hash = match &self.parent_key_value_hash {
+            Some(val_hash) => combine_hash(val_hash, empty_root_hash).unwrap(),
+            None => *empty_root_hash,
+        };
+        self.chunk_id_to_root_hash
+            .get(&traversal_instruction_as_vec_bytes(&[]))
+            .is_some_and(|expected_root_hash| expected_root_hash == &empty_tree_hash)
+    }
+
     /// Processes a chunk at some chunk id, returns the chunks id's of chunks
     /// that can be requested
     pub fn process_chunk(
-- 
2.43.0


From 4c738ff27dfd3d7fdbaef94d9dd62688480559fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:03 +0000
Subject: [PATCH 65/72] fix: the hash told with a branch of a provable count
 tree is that of its node

---
 merk/src/merk/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/merk/src/merk/mod.rs b/merk/src/merk/mod.rs
index 3f86f37..c48909e 100644
--- a/merk/src/merk/mod.rs
+++ b/merk/src/merk/mod.rs
@@ -973,15 +973,18 @@ where
                 Err(e) => return Err(e),
             };
 
-            // Navigate to the key and get its hash using recursion
+            // Navigate to the key and get its hash using recursion. It's the hash
+            // that the parent's link holds, which for provable count trees includes
+            // the count.
             fn get_hash_at_path<S: Fetch + Sized + Clone>(
                 walker: &mut RefWalker<'_, S>,
                 path: &[bool],
+                tree_type: TreeType,
                 grove_version: &GroveVersion,
                 cost: &mut OperationCost,
             ) -> Result<CryptoHash, Error> {
                 if path.is_empty() {
-                    return Ok(walker.tree().hash().unwrap_add_cost(cost));
+                    return Ok(walker.tree().hash_for_link(tree_type).unwrap_add_cost(cost));
                 }
 
                 let go_left = path[0];
@@ -995,7 +998,7 @@ where
 
                 match child_result {
                     Ok(Some(mut child)) => {
-                        get_hash_at_path(&mut child, &path[1..], grove_version, cost)
+                        get_hash_at_path(&mut child, &path[1..], tree_type, grove_version, cost)
                     }
                     Ok(None) => Err(Error::InternalError(
                         "inconsistent tree state during branch_query",
@@ -1004,8 +1007,13 @@ where
                 }
             }
 
-            let branch_root_hash =
-                get_hash_at_path(&mut walker, &traversal_path, grove_version, &mut cost)?;
+            let branch_root_hash = get_hash_at_path(
+                &mut walker,
+                &traversal_path,
+                self.tree_type,
+                grove_version,
+                &mut cost,
+            )?;
 
             // Use traverse_and_build_chunk to generate proof at the target location
             // Note: We need to get a fresh walker since the previous one was consumed
-- 
2.43.0


From d77a1f4c5f355372c57b8b8ec222a4d69652db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 66/72] fix: trunk chunk proofs with a minimum depth are
 verified with it

---
 grovedb/src/operations/proof/verify.rs | 46 +++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index eb6bc1f..b12f860 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1,7 +1,8 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use grovedb_merk::{
-    calculate_chunk_depths, calculate_max_tree_depth_from_count,
+    calculate_chunk_depths, calculate_chunk_depths_with_minimum,
+    calculate_max_tree_depth_from_count,
     element::tree_type::ElementTreeTypeExtensions,
     proofs::{
         execute,
@@ -2031,7 +2032,7 @@ impl GroveDb {
 
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
-        let mut count: Option<u64> = None;
+        let mut count: Option<(u64, bool)> = None;
         let mut grovedb_root_hash: Option<CryptoHash> = None;
 
         // Walk through each path segment, verifying layer proofs
@@ -2130,7 +2131,7 @@ impl GroveDb {
         }
 
         // Ensure we got a count from the element
-        let count = count.ok_or_else(|| {
+        let (count, is_provable) = count.ok_or_else(|| {
             Error::InvalidProof(
                 PathQuery::new_unsized(current_path.clone(), Query::default()),
                 "Could not extract count from path - target is not a count tree element"
@@ -2163,8 +2164,7 @@ impl GroveDb {
         }
 
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(query, tree_depth, is_provable)?;
 
         // Now we're at the target layer - decode and execute the trunk proof
         let mut decoder = Decoder::new(&current_layer.merk_proof);
@@ -2280,7 +2280,7 @@ impl GroveDb {
 
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
-        let mut count: Option<u64> = None;
+        let mut count: Option<(u64, bool)> = None;
         let mut grovedb_root_hash: CryptoHash = [0u8; 32];
 
         // Walk through each path segment, verifying layer proofs
@@ -2377,7 +2377,7 @@ impl GroveDb {
             current_path.push(path_segment.clone());
         }
 
-        let count = count.ok_or_else(|| {
+        let (count, is_provable) = count.ok_or_else(|| {
             Error::InvalidProof(
                 PathQuery::new_unsized(current_path.clone(), Query::default()),
                 "V1 trunk: could not extract count from path - target is not a count tree element"
@@ -2488,8 +2488,7 @@ impl GroveDb {
         // Non-empty tree: extract elements
         let target_tree = target_tree_opt.unwrap();
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(query, tree_depth, is_provable)?;
 
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
         let mut elements = BTreeMap::new();
@@ -2720,17 +2719,34 @@ impl GroveDb {
     }
 
     /// Extract the count from a CountTree, CountSumTree, ProvableCountTree,
-    /// or ProvableCountSumTree element.
-    fn extract_count_from_element(element: &Element) -> Option<u64> {
+    /// or ProvableCountSumTree element, and whether the count is provable.
+    fn extract_count_from_element(element: &Element) -> Option<(u64, bool)> {
         match element {
-            Element::CountTree(_, count, _)
-            | Element::CountSumTree(_, count, ..)
-            | Element::ProvableCountTree(_, count, _)
-            | Element::ProvableCountSumTree(_, count, ..) => Some(*count),
+            Element::CountTree(_, count, _) | Element::CountSumTree(_, count, ..) => {
+                Some((*count, false))
+            }
+            Element::ProvableCountTree(_, count, _)
+            | Element::ProvableCountSumTree(_, count, ..) => Some((*count, true)),
             _ => None,
         }
     }
 
+    /// The chunk depths of a trunk query, calculated as the prover does: the
+    /// minimum depth applies to provable count trees only.
+    fn trunk_chunk_depths(
+        query: &PathTrunkChunkQuery,
+        tree_depth: u8,
+        is_provable: bool,
+    ) -> Result<Vec<u8>, Error> {
+        match query.min_depth {
+            Some(min_depth) if is_provable => {
+                calculate_chunk_depths_with_minimum(tree_depth, query.max_depth, min_depth)
+            }
+            _ => calculate_chunk_depths(tree_depth, query.max_depth),
+        }
+        .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))
+    }
+
     /// Verify a serialized branch chunk proof.
     ///
     /// # Arguments
-- 
2.43.0


From dc7e760912d48b2b12db18391e0915615e41e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:36 +0000
Subject: [PATCH 67/72] fix: only counts that are part of the hash are told of
 the leaves of a chunk

---
 grovedb/src/operations/proof/verify.rs        | 10 ++++++++--
 grovedb/src/query/grove_trunk_query_result.rs |  5 ++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index b12f860..f86a37d 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2649,12 +2649,18 @@ impl GroveDb {
             // should match this node's hash.
             let node_hash = tree.hash().unwrap();
 
-            // Extract count from TreeFeatureType if available
+            // Extract the count if the node's hash includes it. The feature types
+            // of other trees aren't part of any hash, so that their counts can't
+            // be relied on.
             // Note: KVHashCount is not included as it never reaches this code path
             let count = match &tree.node {
                 Node::KVValueHashFeatureType(_, _, _, feature_type)
                 | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, feature_type, _) => {
-                    feature_type.count()
+                    match feature_type {
+                        TreeFeatureType::ProvableCountedMerkNode(count)
+                        | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
+                        _ => None,
+                    }
                 }
                 Node::KVCount(_, _, count) => Some(*count),
                 Node::KVRefValueHashCount(_, _, _, count) => Some(*count),
diff --git a/grovedb/src/query/grove_trunk_query_result.rs b/grovedb/src/query/grove_trunk_query_result.rs
index fff5d8f..46634d8 100644
--- a/grovedb/src/query/grove_trunk_query_result.rs
+++ b/grovedb/src/query/grove_trunk_query_result.rs
@@ -18,9 +18,8 @@ use crate::Element;
 pub struct LeafInfo {
     /// The hash of the node, used to verify branch proofs.
     pub hash: CryptoHash,
-    /// The count of elements in this subtree (if available from aggregate
-    /// data). Only present for ProvableCountSumTree, CountTree,
-    /// CountSumTree.
+    /// The count of elements in this subtree, where the hash includes it. Only
+    /// present for ProvableCountTree and ProvableCountSumTree.
     pub count: Option<u64>,
 }
 
-- 
2.43.0


From 73fcee4e8614f7757172dca95a7c1cd33f950fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 68/72] fix: trees and references in chunk proofs are checked
 against their value hashes

---
 grovedb/src/operations/proof/generate.rs | 129 ++++++++++++++++++++++-
 grovedb/src/operations/proof/verify.rs   |  23 +++-
 2 files changed, 144 insertions(+), 8 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index e42d994..c823f95 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -6,10 +6,12 @@ use grovedb_bulk_append_tree::BulkAppendTreeProof;
 use grovedb_commitment_tree::COMMITMENT_TREE_DATA_KEY;
 use grovedb_costs::{
     cost_return_on_error, cost_return_on_error_default, cost_return_on_error_into,
-    cost_return_on_error_no_add, CostResult, CostsExt, OperationCost,
+    cost_return_on_error_into_no_add, cost_return_on_error_no_add, CostResult, CostsExt,
+    OperationCost,
 };
 use grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof;
 use grovedb_merk::{
+    element::ElementExt,
     proofs::{encode_into, query::QueryItem, Node, Op},
     tree::{combine_hash, value_hash, NULL_HASH},
     Merk, ProofWithoutEncodingResult, TreeFeatureType,
@@ -29,7 +31,7 @@ use crate::{
     },
     query::PathTrunkChunkQuery,
     reference_path::path_from_reference_path_type,
-    Element, Error, GroveDb, PathQuery,
+    Element, Error, GroveDb, PathQuery, Transaction,
 };
 
 impl GroveDb {
@@ -787,13 +789,23 @@ impl GroveDb {
             )
         );
 
-        let trunk_result = cost_return_on_error!(
+        let mut trunk_result = cost_return_on_error!(
             &mut cost,
             target_tree
                 .trunk_query(query.max_depth, query.min_depth, grove_version)
                 .map_err(Error::MerkError)
         );
 
+        cost_return_on_error!(
+            &mut cost,
+            self.add_child_hashes_to_chunk(
+                path_slices.as_slice(),
+                &mut trunk_result.proof,
+                &tx,
+                grove_version
+            )
+        );
+
         let mut trunk_proof_encoded = Vec::new();
         encode_into(trunk_result.proof.iter(), &mut trunk_proof_encoded);
 
@@ -911,16 +923,125 @@ impl GroveDb {
         );
 
         // Perform the branch query - returns BranchQueryResult directly
-        let branch_result = cost_return_on_error!(
+        let mut branch_result = cost_return_on_error!(
             &mut cost,
             target_tree
                 .branch_query(&query.key, query.depth, grove_version)
                 .map_err(Error::MerkError)
         );
 
+        // Branches go with trunks, whose V0 proofs don't have the hashes
+        if grove_version
+            .grovedb_versions
+            .operations
+            .proof
+            .prove_trunk_chunk_non_serialized
+            >= 1
+        {
+            cost_return_on_error!(
+                &mut cost,
+                self.add_child_hashes_to_chunk(
+                    path_slices.as_slice(),
+                    &mut branch_result.proof,
+                    &tx,
+                    grove_version
+                )
+            );
+        }
+
         Ok(branch_result).wrap_with_cost(cost)
     }
 
+    /// Adds the hashes that the value hashes of trees and references are
+    /// combined with to the nodes of a chunk, so that the verifier can check
+    /// the elements against the value hashes.
+    fn add_child_hashes_to_chunk(
+        &self,
+        path: &[&[u8]],
+        ops: &mut [Op],
+        tx: &Transaction,
+        grove_version: &GroveVersion,
+    ) -> CostResult<(), Error> {
+        let mut cost = OperationCost::default();
+
+        for op in ops {
+            let (Op::Push(node) | Op::PushInverted(node)) = op else {
+                continue;
+            };
+            let (key, value, node_value_hash, feature_type) = match node {
+                Node::KVValueHash(key, value, value_hash) => {
+                    (key, value, value_hash, TreeFeatureType::BasicMerkNode)
+                }
+                Node::KVValueHashFeatureType(key, value, value_hash, feature_type) => {
+                    (key, value, value_hash, *feature_type)
+                }
+                _ => continue,
+            };
+            let element =
+                cost_return_on_error_into_no_add!(cost, Element::deserialize(value, grove_version));
+
+            let child_hash = match &element {
+                Element::Reference(reference_path, ..) => {
+                    let absolute_path = cost_return_on_error_into_no_add!(
+                        cost,
+                        path_from_reference_path_type(
+                            reference_path.clone(),
+                            path,
+                            Some(key.as_slice())
+                        )
+                    );
+                    let referenced_element = cost_return_on_error!(
+                        &mut cost,
+                        self.follow_reference(
+                            absolute_path.as_slice().into(),
+                            true,
+                            Some(tx),
+                            grove_version
+                        )
+                    );
+                    cost_return_on_error_into!(
+                        &mut cost,
+                        referenced_element.value_hash(grove_version)
+                    )
+                }
+                element if element.is_any_tree() => {
+                    let mut child_path = path.to_vec();
+                    child_path.push(key.as_slice());
+                    if element.uses_non_merk_data_storage() {
+                        self.compute_non_merk_child_hash(
+                            element,
+                            child_path.as_slice().into(),
+                            tx,
+                            NULL_HASH,
+                        )
+                    } else {
+                        let child_merk = cost_return_on_error!(
+                            &mut cost,
+                            self.open_transactional_merk_at_path(
+                                child_path.as_slice().into(),
+                                tx,
+                                None,
+                                grove_version
+                            )
+                        );
+                        child_merk.root_hash().unwrap_add_cost(&mut cost)
+                    }
+                }
+                _ => continue,
+            };
+
+            *node = Node::KVValueHashFeatureTypeWithChildHash(
+                key.clone(),
+                value.clone(),
+                *node_value_hash,
+                feature_type,
+                child_hash,
+            );
+        }
+
+        Ok(()).wrap_with_cost(cost)
+    }
+
     // ── V1 Proof Generation (MmrTree / BulkAppendTree support) ──────────
 
     /// V1: Generates a proof that supports MmrTree / BulkAppendTree elements.
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index f86a37d..fe2f7da 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2228,6 +2228,7 @@ impl GroveDb {
             &mut leaf_keys,
             0,
             max_depth,
+            false,
             grove_version,
         )?;
 
@@ -2499,6 +2500,7 @@ impl GroveDb {
             &mut leaf_keys,
             0,
             max_depth,
+            true,
             grove_version,
         )?;
 
@@ -2525,6 +2527,8 @@ impl GroveDb {
     /// * `leaf_keys` - Output map of key -> LeafInfo (hash + count)
     /// * `current_depth` - Current depth in the tree (0 = root)
     /// * `max_depth` - Maximum allowed depth (nodes beyond this should be Hash)
+    /// * `with_child_hashes` - Whether tree elements must come with the hash that
+    ///   their value hash is combined with
     /// * `grove_version` - Version for Element deserialization
     fn extract_elements_and_leaf_keys(
         tree: &grovedb_merk::proofs::tree::Tree,
@@ -2532,6 +2536,7 @@ impl GroveDb {
         leaf_keys: &mut BTreeMap<Vec<u8>, crate::query::LeafInfo>,
         current_depth: usize,
         max_depth: usize,
+        with_child_hashes: bool,
         grove_version: &GroveVersion,
     ) -> Result<(), Error> {
         // Check that we haven't exceeded the max depth
@@ -2590,10 +2595,11 @@ impl GroveDb {
                 let computed_vh = value_hash(&value).value().to_owned();
                 if computed_vh != *node_value_hash {
                     // For tree elements, value_hash = combine_hash(H(value),
-                    // child_root_hash). We can't decompose the combined hash,
-                    // but the hash chain verification already validates tree
-                    // elements through the merk proof structure.
-                    if !element.is_any_tree() {
+                    // child_root_hash). Chunks with these elements come with the
+                    // child_root_hash, in KVValueHashFeatureTypeWithChildHash, except
+                    // for those of V0 proofs, where there is nothing to check the
+                    // element against.
+                    if !element.is_any_tree() || with_child_hashes {
                         return Err(Error::InvalidProof(
                             PathQuery::new_unsized(Vec::new(), Query::default()),
                             format!(
@@ -2686,6 +2692,7 @@ impl GroveDb {
                 leaf_keys,
                 current_depth + 1,
                 max_depth,
+                with_child_hashes,
                 grove_version,
             )?;
         }
@@ -2698,6 +2705,7 @@ impl GroveDb {
                 leaf_keys,
                 current_depth + 1,
                 max_depth,
+                with_child_hashes,
                 grove_version,
             )?;
         }
@@ -2821,6 +2829,13 @@ impl GroveDb {
             &mut leaf_keys,
             0,
             query.depth as usize,
+            // Branches go with trunks, whose V0 proofs don't have the hashes
+            grove_version
+                .grovedb_versions
+                .operations
+                .proof
+                .prove_trunk_chunk_non_serialized
+                >= 1,
             grove_version,
         )?;
 
-- 
2.43.0


From fb468fe2b14ccec4abff2dd23c14ff32a5de4719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 69/72] fix: a proof of a commitment tree fails when its
 frontier cannot be read

---
 grovedb/src/operations/proof/generate.rs | 26 +++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index c823f95..4ecfeb4 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1736,16 +1736,22 @@ impl GroveDb {
             .get_transactional_storage_context(storage_path, None, tx)
             .unwrap_add_cost(&mut cost);
 
-        let sinsemilla_root = match storage_ctx.get(COMMITMENT_TREE_DATA_KEY).value {
-            Ok(Some(frontier_bytes)) => {
-                match grovedb_commitment_tree::CommitmentFrontier::deserialize(
-                    frontier_bytes.as_ref(),
-                ) {
-                    Ok(frontier) => frontier.root_hash(),
-                    Err(_) => grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT,
-                }
-            }
-            _ => grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT,
+        let frontier_bytes = cost_return_on_error!(
+            &mut cost,
+            storage_ctx
+                .get(COMMITMENT_TREE_DATA_KEY)
+                .map_err(|e| e.into())
+        );
+        let sinsemilla_root = match frontier_bytes {
+            Some(frontier_bytes) => cost_return_on_error_no_add!(
+                cost,
+                grovedb_commitment_tree::CommitmentFrontier::deserialize(frontier_bytes.as_ref())
+                    .map_err(|e| Error::CorruptedData(format!(
+                        "failed to deserialize commitment tree frontier: {e}"
+                    )))
+            )
+            .root_hash(),
+            None => grovedb_commitment_tree::EMPTY_SINSEMILLA_ROOT,
         };
         drop(storage_ctx);
 
-- 
2.43.0


From 1e88d2c994488d2047cdaa58cb95d8942aa8d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:12 +0000
Subject: [PATCH 70/72] fix: terminal keys take the first branch of a key that
 is asked for

---
 grovedb-query/src/query.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..6f46547 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -384,13 +384,19 @@ impl Query {
                 }
                 let conditional_keys = conditional_query_item.keys()?;
                 for key in conditional_keys.into_iter() {
+                    // only keys the query asks for have a branch, and of the
+                    // branches matching a key the first is used
+                    if !self.items.iter().any(|item| item.contains(&key))
+                        || !already_added_keys.insert(key.clone())
+                    {
+                        continue;
+                    }
                     if current_len > max_results {
                         return Err(Error::RequestAmountExceeded(format!(
                             "terminal keys limit exceeded for conditional subqueries, set max is \
                              {max_results}, current length is {current_len}",
                         )));
                     }
-                    already_added_keys.insert(key.clone());
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
@@ -442,6 +448,18 @@ impl Query {
                             subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
                         added += added_here;
                         current_len += added_here;
+                    } else {
+                        if current_len == max_results {
+                            return Err(Error::RequestAmountExceeded(format!(
+                                "terminal keys limit exceeded for conditional branch without \
+                                 subquery or subquery path, set max is {max_results}, current \
+                                 length is {current_len}",
+                            )));
+                        }
+                        // neither: the key itself is terminal
+                        result.push((path, key));
+                        added += 1;
+                        current_len += 1;
                     }
                 }
             }
-- 
2.43.0


From e3b478680f039005685f6d8cd62a55867b87e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 71/72] fix: chunks of trees that are not full, where some have
 no node to start from

---
 merk/src/merk/chunks.rs        | 63 ++++++++++++++++++++--------------
 merk/src/proofs/chunk/chunk.rs | 27 +++++++++++++++
 2 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/merk/src/merk/chunks.rs b/merk/src/merk/chunks.rs
index f74fb00..f9f84a9 100644
--- a/merk/src/merk/chunks.rs
+++ b/merk/src/merk/chunks.rs
@@ -150,8 +150,6 @@ where
             )));
         }
 
-        self.index = index + 1;
-
         let chunk_height = chunk_height(self.height, index)?;
 
         let tree_type = self.merk.tree_type;
@@ -172,13 +170,37 @@ where
             // costs intentionally discarded — chunk producer does not track them
             .value?;
 
-        // now we need to return the next index
-        // how do we know if we should return some or none
-        if self.index > max_chunk_index {
-            Ok((chunk, None))
-        } else {
-            Ok((chunk, Some(self.index)))
+        // now we need to return the next index, there is none after the last chunk
+        let next_index = self.next_existing_index(index, grove_version)?;
+        self.index = next_index.unwrap_or(max_chunk_index + 1);
+
+        Ok((chunk, next_index))
+    }
+
+    /// Returns the index of the first chunk after the given index that the tree
+    /// has: a tree that isn't full has no nodes where some chunks would start.
+    fn next_existing_index(
+        &self,
+        index: usize,
+        grove_version: &GroveVersion,
+    ) -> Result<Option<usize>, Error> {
+        for next_index in index + 1..=self.len() {
+            let traversal_instructions = generate_traversal_instruction(self.height, next_index)?;
+            let exists = self
+                .merk
+                .walk(|maybe_walker| match maybe_walker {
+                    Some(mut walker) => {
+                        walker.leads_to_node(&traversal_instructions, grove_version)
+                    }
+                    None => Ok(false).wrap_with_cost(Default::default()),
+                })
+                // costs intentionally discarded — chunk producer does not track them
+                .value?;
+            if exists {
+                return Ok(Some(next_index));
+            }
         }
+        Ok(None)
     }
 
     /// Generate multichunk with chunk id
@@ -286,16 +308,11 @@ where
         limit: Option<usize>,
         grove_version: &GroveVersion,
     ) -> Result<SubtreeChunk, Error> {
-        let max_chunk_index = number_of_chunks(self.height);
-        let mut chunk_index = index;
-
         // we first get the chunk at the given index
-        // TODO: use the returned chunk index rather than tracking
-        let (chunk_ops, _) = self.chunk_with_index(chunk_index, grove_version)?;
+        let (chunk_ops, mut next_index) = self.chunk_with_index(index, grove_version)?;
         let mut chunk_byte_length = chunk_ops.encoding_length().map_err(|_e| {
             Error::ChunkingError(ChunkError::InternalError("can't get encoding length"))
         })?;
-        chunk_index += 1;
 
         let mut chunk = VecDeque::from(chunk_ops);
 
@@ -313,8 +330,11 @@ where
         while iteration_index < chunk.len() {
             // we only perform replacements on Hash nodes
             if matches!(chunk[iteration_index], Op::Push(Node::Hash(..))) {
-                // TODO: use the returned chunk index rather than tracking
-                let (replacement_chunk, _) = self.chunk_with_index(chunk_index, grove_version)?;
+                let chunk_index = next_index.ok_or(Error::ChunkingError(
+                    ChunkError::InternalError("a chunk must exist for every hash node"),
+                ))?;
+                let (replacement_chunk, following_index) =
+                    self.chunk_with_index(chunk_index, grove_version)?;
 
                 // calculate the new total
                 let new_total = replacement_chunk.encoding_length().map_err(|_e| {
@@ -326,11 +346,6 @@ where
                 if let Some(limit) = limit
                     && new_total > limit
                 {
-                    let next_index = match chunk_index > max_chunk_index {
-                        true => None,
-                        _ => Some(chunk_index),
-                    };
-
                     return Ok(SubtreeChunk::new(
                         chunk.into(),
                         next_index,
@@ -339,7 +354,7 @@ where
                 }
 
                 chunk_byte_length = new_total;
-                chunk_index += 1;
+                next_index = following_index;
 
                 chunk.remove(iteration_index);
                 for op in replacement_chunk.into_iter().rev() {
@@ -351,10 +366,6 @@ where
         }
 
         let remaining_limit = limit.map(|l| l - chunk_byte_length);
-        let next_index = match chunk_index > max_chunk_index {
-            true => None,
-            _ => Some(chunk_index),
-        };
 
         Ok(SubtreeChunk::new(chunk.into(), next_index, remaining_limit))
     }
diff --git a/merk/src/proofs/chunk/chunk.rs b/merk/src/proofs/chunk/chunk.rs
index d188eb3..28e50f3 100644
--- a/merk/src/proofs/chunk/chunk.rs
+++ b/merk/src/proofs/chunk/chunk.rs
@@ -218,6 +218,33 @@ where
             .add_cost(cost)
     }
 
+    /// Tells whether there is a node at the end of the traversal instructions.
+    pub fn leads_to_node(
+        &mut self,
+        instructions: &[bool],
+        grove_version: &GroveVersion,
+    ) -> CostResult<bool, Error> {
+        let mut cost = OperationCost::default();
+
+        let Some(side) = instructions.first() else {
+            return Ok(true).wrap_with_cost(cost);
+        };
+        let maybe_child = cost_return_on_error!(
+            &mut cost,
+            self.walk(
+                *side,
+                None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
+                grove_version,
+            )
+        );
+        match maybe_child {
+            Some(mut child) => child
+                .leads_to_node(&instructions[1..], grove_version)
+                .add_cost(cost),
+            None => Ok(false).wrap_with_cost(cost),
+        }
+    }
+
     /// Returns the smallest amount of tree ops, that can convince
     /// a verifier of the tree height
     /// the generated subtree is of this form
-- 
2.43.0


From 1aa3ad047aa0855e89e9fee83912fffb87dde849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 72/72] fix: several chunks within a limit form a tree that can
 be restored

---
 merk/src/merk/chunks.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/merk/src/merk/chunks.rs b/merk/src/merk/chunks.rs
index f9f84a9..f8dd891 100644
--- a/merk/src/merk/chunks.rs
+++ b/merk/src/merk/chunks.rs
@@ -326,6 +326,10 @@ where
             )));
         }
 
+        // with a limit we may have to stop between any two replacements, but
+        // only a balanced chunk can be restored
+        let mut last_balanced = limit.map(|_| (chunk.clone(), next_index, chunk_byte_length));
+
         let mut iteration_index = 0;
         while iteration_index < chunk.len() {
             // we only perform replacements on Hash nodes
@@ -345,6 +349,7 @@ where
                 // verify that this chunk doesn't make use exceed the limit
                 if let Some(limit) = limit
                     && new_total > limit
+                    && let Some((chunk, next_index, chunk_byte_length)) = last_balanced
                 {
                     return Ok(SubtreeChunk::new(
                         chunk.into(),
@@ -360,6 +365,10 @@ where
                 for op in replacement_chunk.into_iter().rev() {
                     chunk.insert(iteration_index, op);
                 }
+
+                if last_balanced.is_some() && is_balanced(&chunk) {
+                    last_balanced = Some((chunk.clone(), next_index, chunk_byte_length));
+                }
             } else {
                 iteration_index += 1;
             }
@@ -410,6 +419,33 @@ where
     }
 }
 
+/// Whether the heights of the children of a chunk's root differ by one at most,
+/// as is demanded of proofs.
+fn is_balanced(chunk: &VecDeque<Op>) -> bool {
+    // left and right heights of the subtrees that aren't attached yet
+    let mut stack: Vec<(usize, usize)> = vec![];
+    for op in chunk {
+        match op {
+            Op::Parent => {
+                let (Some(parent), Some(child)) = (stack.pop(), stack.pop()) else {
+                    return false;
+                };
+                stack.push((child.0.max(child.1) + 1, parent.1));
+            }
+            Op::Child => {
+                let (Some(child), Some(parent)) = (stack.pop(), stack.pop()) else {
+                    return false;
+                };
+                stack.push((parent.0, child.0.max(child.1) + 1));
+            }
+            _ => stack.push((0, 0)),
+        }
+    }
+    stack
+        .pop()
+        .is_some_and(|(left, right)| left.abs_diff(right) <= 1)
+}
+
 /// Iterate over each chunk, returning `None` after last chunk
 impl<'db, S> ChunkProducer<'db, S>
 where
-- 
2.43.0

