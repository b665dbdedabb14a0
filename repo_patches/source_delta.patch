From ab4a47a77358416accc4e73e5827edaca8f393a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 01/29] fix: match tree roots only with each other, also when
 one tree is a bare root

A root of A could be matched to an inner node of B (by Dice score, or as a leaf
by the global leaf search), and two roots of the same kind stayed unmatched when
B's root had no children. Either way the edit script left B's root out and did
not turn A into B.
---
 cinereus/src/matching.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..8a5a282 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -341,6 +341,12 @@ where
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
 {
+    // A root can only correspond to the other root: the edit script cannot
+    // insert, delete or move a root.
+    if tree_a.parent(a_id).is_none() != tree_b.parent(b_id).is_none() {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
@@ -549,7 +555,6 @@ fn bottom_up_phase<TA, TB>(
                 .into_iter()
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
-                        && tree_b.child_count(b_id) > 0
                         && tree_b.parent(b_id).is_none() // Must also be a root
                         && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
                 })
-- 
2.43.0


From e83c54267ed221cffc0f57343d2480f462b11315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 02/29] fix: never match nodes into the content of an opaque
 node

When a plain node was matched with an opaque one, its children were still
matched by position or hash with nodes inside the opaque subtree. Those matches
then suppressed the Delete of nodes that are gone from the result.
---
 cinereus/src/matching.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 8a5a282..f09ba4a 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -468,7 +468,11 @@ fn bottom_up_phase<TA, TB>(
             // Note: We don't require b to have children - a node can go from having children to empty
             let candidates: Vec<NodeId> = tree_b
                 .children(parent_b)
-                .filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)
+                .filter(|&b_id| {
+                    !matching.contains_b(b_id)
+                        && !opaque_descendants_b.contains(&b_id)
+                        && tree_b.kind(b_id) == a_kind
+                })
                 .collect();
 
             // Match by position - don't fall back to first candidate as that can cause
@@ -600,6 +604,7 @@ fn bottom_up_phase<TA, TB>(
                 .children(parent_b)
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
+                        && !opaque_descendants_b.contains(&b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
                 })
-- 
2.43.0


From 71e6e8c0af13d075998a4afa4b992bb37e871c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 03/29] fix: recognise tree roots by identity, not by a missing
 parent

A DiffTree can be a part of a larger tree (hotmeal diffs the body of a document),
so its root can have a parent. Two roots with parents were not matched, and the
script moved or inserted the root under a node outside of the tree.
---
 cinereus/src/chawathe.rs | 7 +++++--
 cinereus/src/matching.rs | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index b28a8ca..70f818c 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -270,7 +270,7 @@ where
     // Process in breadth-first order so parents are inserted before children
     for b_id in tree_b.iter() {
         if !matching.contains_b(b_id) {
-            let parent_b = tree_b.parent(b_id);
+            let parent_b = tree_b.parent(b_id).filter(|_| b_id != tree_b.root());
 
             if let Some(parent_b) = parent_b {
                 // Skip descendants of opaque nodes — opaque subtrees are atomic
@@ -301,7 +301,10 @@ where
         if opaque_descendants_a.contains(&a_id) || opaque_descendants_b.contains(&b_id) {
             continue;
         }
-        // Skip root
+        // Skip root (it may have a parent of its own, outside of the tree)
+        if a_id == tree_a.root() || b_id == tree_b.root() {
+            continue;
+        }
         let Some(parent_a) = tree_a.parent(a_id) else {
             debug!(
                 a = usize::from(a_id),
diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index f09ba4a..00b0584 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -343,7 +343,7 @@ where
 {
     // A root can only correspond to the other root: the edit script cannot
     // insert, delete or move a root.
-    if tree_a.parent(a_id).is_none() != tree_b.parent(b_id).is_none() {
+    if (a_id == tree_a.root()) != (b_id == tree_b.root()) {
         return false;
     }
 
@@ -549,7 +549,7 @@ fn bottom_up_phase<TA, TB>(
                 "bottom_up pass1: dice match"
             );
             matching.add(a_id, b_id);
-        } else if parent_a.is_none() {
+        } else if a_id == tree_a.root() {
             // Root node with no Dice match - match by kind alone if there's a unique candidate
             // This handles the case where trees are structurally different but have same root type
             let root_candidates: Vec<_> = b_by_kind
@@ -559,7 +559,7 @@ fn bottom_up_phase<TA, TB>(
                 .into_iter()
                 .filter(|&b_id| {
                     !matching.contains_b(b_id)
-                        && tree_b.parent(b_id).is_none() // Must also be a root
+                        && b_id == tree_b.root() // Must also be a root
                         && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
                 })
                 .collect();
-- 
2.43.0


From c33bb32b24ac0ac1defd6746fb74ab02154fd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 04/29] fix: diff the attributes of the old body

The old tree's root was built without the body's attributes: attributes that the
new body no longer has were never removed, and two equal documents whose body has
attributes gave a patch.
---
 hotmeal/src/diff.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..deb8743 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,26 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            (
+                elem.tag.clone(),
+                body_node.ns,
+                elem.attrs.clone(),
+                Some(body_id),
+            )
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
-- 
2.43.0


From 9884b3737c909a6d773271c7dcd2d5a91efc53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 05/29] fix: take the html element as the document's root when
 a comment precedes it

Document.root was the first child of the document, so with a comment in front of
<html> the whole document was reduced to that comment.
---
 hotmeal/src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..59696d7 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1321,11 +1321,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>): comments may come before it
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From 21bd1bcbb06dcbba602f7236de3ecae51e13710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 06/29] fix: compute the paths of OpaqueChanged patches after
 the other patches

They were computed in the old tree although they are applied last, so they named
another node, or none, whenever an insert, move or removal came before.
---
 hotmeal/src/diff.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index deb8743..ae018fc 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1163,23 +1163,16 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
+    let (mut patches, shadow) = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
+
+    // Now emit OpaqueChanged patches. They come after all other patches, so their
+    // paths are those of the shadow tree after the whole edit script.
+    for (a_id, content) in opaque_patches {
+        let path = shadow.compute_path(a_id);
+        patches.push(Patch::OpaqueChanged {
+            path: NodePath(path),
+            content,
+        });
     }
 
     Ok(patches)
@@ -1533,6 +1526,8 @@ impl<'a> ShadowTree<'a> {
 
 /// Convert cinereus ops to path-based Patches.
 ///
+/// Also returns the shadow tree as it is after the last operation.
+///
 /// This uses a "shadow tree" approach: we maintain a mutable copy of tree_a
 /// and simulate applying each operation to it. This lets us compute correct
 /// paths that account for index shifts from earlier operations.
@@ -1544,7 +1539,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
-) -> Result<Vec<Patch<'a>>, DiffError> {
+) -> Result<(Vec<Patch<'a>>, ShadowTree<'a>), DiffError> {
     // Create shadow tree with encapsulated state
     let mut shadow = ShadowTree::new(tree_a.arena.clone(), tree_a.root);
 
@@ -1854,7 +1849,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
-    Ok(result)
+    Ok((result, shadow))
 }
 
 /// Extract attributes and children from a node in tree_b.
-- 
2.43.0


From 65ab906189a6be433903d3f203b320f4b640eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 07/29] fix: announce changes of attributes inside opaque
 elements

Whether the content of an opaque element changed was decided by comparing
hashes, which leave out attributes. No other patch is emitted for what is
inside an opaque element, so such a change never reached the client.
---
 hotmeal/src/diff.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index ae018fc..102539d 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1146,8 +1146,10 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        // Compare the contents — if identical, no change.
+        // Hashes would not do: they leave out attributes, and no patch is emitted
+        // for what changes inside an opaque node.
+        if same_content(&tree_a, a_id, &diff_b, b_id) {
             continue;
         }
         // Get the original DOM node IDs for serialization
@@ -1178,6 +1180,24 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     Ok(patches)
 }
 
+/// Whether two nodes have the same descendants, attributes included.
+fn same_content<'a, TA, TB>(tree_a: &TA, a_id: NodeId, tree_b: &TB, b_id: NodeId) -> bool
+where
+    TA: DiffTree<Types = HtmlTreeTypes<'a>>,
+    TB: DiffTree<Types = HtmlTreeTypes<'a>>,
+{
+    tree_a.child_count(a_id) == tree_b.child_count(b_id)
+        && tree_a
+            .children(a_id)
+            .zip(tree_b.children(b_id))
+            .all(|(a, b)| {
+                tree_a.kind(a) == tree_b.kind(b)
+                    && tree_a.text(a) == tree_b.text(b)
+                    && tree_a.properties(a).attrs == tree_b.properties(b).attrs
+                    && same_content(tree_a, a, tree_b, b)
+            })
+}
+
 /// Encapsulates the shadow tree with slot-based path computation.
 ///
 /// The arena has a "super root" whose children are slot nodes:
-- 
2.43.0


From bb9193e80ec94d103bf2dfd53cde274b804b1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 08/29] fix: match opaque nodes only with opaque nodes

The content of an opaque node is left alone, the content of any other node is
edited. Matching one with the other kept the old content next to the new one
(opaque before) or dropped the content without announcing the new one (opaque
after). Such nodes are now replaced; a body that is opaque on one side only
is treated like any other body.
---
 cinereus/src/matching.rs | 35 ++++++++++++++++++++++++++++++++---
 hotmeal/src/diff.rs      | 24 ++++++++++++++++++++----
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 00b0584..8cce7ac 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -228,15 +228,19 @@ fn top_down_phase<TA, TB>(
         }
 
         // If hashes match, these subtrees are identical
-        if a_hash == b_hash && a_kind == b_kind {
+        if a_hash == b_hash && a_kind == b_kind && opaque_compatible(tree_a, a_id, tree_b, b_id) {
             trace!(a = usize::from(a_id), a_kind = %a_kind, b = usize::from(b_id), "top_down: hash match");
             match_subtrees(tree_a, tree_b, a_id, b_id, matching);
         } else {
             trace!(a = usize::from(a_id), a_kind = %a_kind, b = usize::from(b_id), b_kind = %b_kind, "top_down: no hash match");
 
-            // If either node is opaque, match the pair but don't recurse into children
+            // If the nodes are opaque, match the pair but don't recurse into children
             if tree_a.is_opaque(a_id) || tree_b.is_opaque(b_id) {
-                if a_kind == b_kind && !matching.contains_a(a_id) && !matching.contains_b(b_id) {
+                if a_kind == b_kind
+                    && opaque_compatible(tree_a, a_id, tree_b, b_id)
+                    && !matching.contains_a(a_id)
+                    && !matching.contains_b(b_id)
+                {
                     matching.add(a_id, b_id);
                 }
                 continue;
@@ -281,6 +285,11 @@ fn match_subtrees<TA, TB>(
         return;
     }
 
+    // Hashes need not tell an opaque node from one that is not
+    if !opaque_compatible(tree_a, a_id, tree_b, b_id) {
+        return;
+    }
+
     matching.add(a_id, b_id);
 
     // If either node is opaque, match the pair but don't recurse into children
@@ -326,6 +335,20 @@ impl<'a, T: DiffTree> LazyDescendantMap<'a, T> {
     }
 }
 
+/// Check if A and B are both opaque, or both not.
+///
+/// The content of an opaque node is left alone by the edit script and the content
+/// of any other node is edited, so a node cannot turn from the one into the other:
+/// it is replaced instead. Roots cannot be replaced and match all the same.
+fn opaque_compatible<TA, TB>(tree_a: &TA, a_id: NodeId, tree_b: &TB, b_id: NodeId) -> bool
+where
+    TA: DiffTree,
+    TB: DiffTree<Types = TA::Types>,
+{
+    tree_a.is_opaque(a_id) == tree_b.is_opaque(b_id)
+        || (a_id == tree_a.root() && b_id == tree_b.root())
+}
+
 /// Check if B is a valid match for A based on ancestry constraints.
 ///
 /// If A's parent is matched to some node P_b, then B must be a descendant of P_b.
@@ -347,6 +370,10 @@ where
         return false;
     }
 
+    if !opaque_compatible(tree_a, a_id, tree_b, b_id) {
+        return false;
+    }
+
     // Check if A's parent is matched
     if let Some(a_parent) = tree_a.parent(a_id)
         && let Some(matched_b_parent) = matching.get_b(a_parent)
@@ -472,6 +499,7 @@ fn bottom_up_phase<TA, TB>(
                     !matching.contains_b(b_id)
                         && !opaque_descendants_b.contains(&b_id)
                         && tree_b.kind(b_id) == a_kind
+                        && opaque_compatible(tree_a, a_id, tree_b, b_id)
                 })
                 .collect();
 
@@ -607,6 +635,7 @@ fn bottom_up_phase<TA, TB>(
                         && !opaque_descendants_b.contains(&b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
+                        && opaque_compatible(tree_a, a_id, tree_b, b_id)
                 })
                 .collect();
 
diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 102539d..3004570 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -530,6 +530,8 @@ pub struct DiffableDocument<'b, 'a> {
     body_id: NodeId,
     /// Pre-computed diff data indexed by NodeId
     nodes: HashMap<NodeId, DiffNodeData<'a>>,
+    /// Whether the root may be opaque (see [`diff`])
+    opaque_root: bool,
 }
 
 impl<'b, 'a> DiffableDocument<'b, 'a> {
@@ -629,6 +631,7 @@ impl<'b, 'a> DiffableDocument<'b, 'a> {
             doc,
             body_id,
             nodes,
+            opaque_root: true,
         })
     }
 }
@@ -717,7 +720,9 @@ impl<'b, 'a> DiffTree for DiffableDocument<'b, 'a> {
     }
 
     fn is_opaque(&self, id: NodeId) -> bool {
-        if let Some(data) = self.nodes.get(&id) {
+        if id == self.body_id && !self.opaque_root {
+            false
+        } else if let Some(data) = self.nodes.get(&id) {
             data.props
                 .attrs
                 .iter()
@@ -765,7 +770,9 @@ impl Iterator for PostOrderIterator<'_, '_> {
 ///
 /// `Tree<T>` is generic and can't check HTML attributes for opaqueness.
 /// This wrapper delegates all DiffTree methods and adds the `data-hotmeal-opaque` check.
-struct OpaqueAwareTree<'a>(Tree<HtmlTreeTypes<'a>>);
+///
+/// The second field tells whether the root may be opaque (see [`diff`]).
+struct OpaqueAwareTree<'a>(Tree<HtmlTreeTypes<'a>>, bool);
 
 impl<'a> DiffTree for OpaqueAwareTree<'a> {
     type Types = HtmlTreeTypes<'a>;
@@ -813,6 +820,9 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
         self.0.descendants(id)
     }
     fn is_opaque(&self, id: NodeId) -> bool {
+        if id == self.0.root && !self.1 {
+            return false;
+        }
         self.0
             .properties(id)
             .attrs
@@ -1090,9 +1100,15 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
 
     // Build cinereus Tree for old (needed for shadow tree mutation)
     let raw_tree_a = build_tree_from_arena(old);
-    let tree_a = OpaqueAwareTree(raw_tree_a);
+    let mut tree_a = OpaqueAwareTree(raw_tree_a, true);
     // Use DiffableDocument for new (avoids second tree allocation)
-    let diff_b = DiffableDocument::new(new)?;
+    let mut diff_b = DiffableDocument::new(new)?;
+
+    // The bodies always match. If only one of them is opaque, treat neither as such:
+    // there is no way to replace the body together with its content.
+    let opaque_root = tree_a.is_opaque(tree_a.root()) && diff_b.is_opaque(diff_b.root());
+    tree_a.1 = opaque_root;
+    diff_b.opaque_root = opaque_root;
 
     #[cfg(test)]
     {
-- 
2.43.0


From 6cf8d62fc1a99ffea627a11226ef2d5ee9529991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 09/29] fix: create inserted elements in the namespace of their
 place

Insert patches carry no namespace, and the applier created every element as
an HTML element, also <svg>, <math> and everything inside of them.
---
 hotmeal/src/dom.rs | 61 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 59696d7..fe3c879 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -505,6 +505,8 @@ impl<'a> Document<'a> {
                 detach_to_slot,
             } => {
                 // Create new element node
+                let (parent_id, _) = self.get_slot_parent(&at.0.0, slots)?;
+                let ns = self.child_namespace(parent_id, &tag);
                 let elem_data = ElementData {
                     tag: tag.clone(),
                     attrs: attrs
@@ -514,12 +516,12 @@ impl<'a> Document<'a> {
                 };
                 let new_node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 // Add children to the new element
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(new_node, child)?;
                     new_node.append(child_node, &mut self.arena);
                 }
 
@@ -779,24 +781,45 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
-    fn create_insert_content(&mut self, content: InsertContent<'a>) -> Result<NodeId, DiffError> {
+    /// The namespace of an element called `tag` that is created in `parent`.
+    fn child_namespace(&self, parent: NodeId, tag: &str) -> Namespace {
+        let node = self.get(parent);
+        match &node.kind {
+            NodeKind::Element(elem) => {
+                let encoding = elem
+                    .attrs
+                    .iter()
+                    .find(|(name, _)| name.local.as_ref() == "encoding")
+                    .map(|(_, value)| value.as_ref());
+                node.ns.of_child(elem.tag.as_ref(), encoding, tag)
+            }
+            _ => Namespace::Html,
+        }
+    }
+
+    fn create_insert_content(
+        &mut self,
+        parent: NodeId,
+        content: InsertContent<'a>,
+    ) -> Result<NodeId, DiffError> {
         match content {
             InsertContent::Element {
                 tag,
                 attrs,
                 children,
             } => {
+                let ns = self.child_namespace(parent, &tag);
                 let elem_data = ElementData {
                     tag,
                     attrs: attrs.into_iter().map(|a| (a.name, a.value)).collect(),
                 };
                 let node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(node, child)?;
                     node.append(child_node, &mut self.arena);
                 }
 
@@ -1007,6 +1030,34 @@ impl Namespace {
             Namespace::MathMl => "http://www.w3.org/1998/Math/MathML",
         }
     }
+
+    /// The namespace of an element called `tag` within an element `parent_tag` of this
+    /// namespace, as the HTML parser assigns it. Patches leave it out.
+    ///
+    /// `encoding` is the parent's attribute of that name (for `annotation-xml`).
+    pub fn of_child(self, parent_tag: &str, encoding: Option<&str>, tag: &str) -> Namespace {
+        let html = match (self, parent_tag) {
+            (Namespace::Html, _) => true,
+            (Namespace::Svg, "foreignObject" | "desc" | "title") => true,
+            (Namespace::MathMl, "mi" | "mo" | "mn" | "ms" | "mtext") => {
+                !matches!(tag, "mglyph" | "malignmark")
+            }
+            (Namespace::MathMl, "annotation-xml") => {
+                tag == "svg"
+                    || encoding.is_some_and(|e| {
+                        e.eq_ignore_ascii_case("text/html")
+                            || e.eq_ignore_ascii_case("application/xhtml+xml")
+                    })
+            }
+            _ => false,
+        };
+        match tag {
+            _ if !html => self,
+            "svg" => Namespace::Svg,
+            "math" => Namespace::MathMl,
+            _ => Namespace::Html,
+        }
+    }
 }
 
 fn has_doctype_prefix(input: &str) -> bool {
-- 
2.43.0


From 4a1ff7178b850b0dbdc979069887d864f43c75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 10/29] fix: move nodes in document order, so that none is
 moved into its own subtree

---
 cinereus/src/chawathe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index 70f818c..379a6f7 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -290,8 +290,13 @@ where
     }
 
     // Phase 4: MOVE - matched nodes where parent or position changed
+    // Parents come before their children in tree B, so a node's new parent is in its
+    // final place when the node is moved: no move goes into the moved node's own subtree.
     debug!("Phase 4: MOVE - checking {} matched pairs", matching.len());
-    for (a_id, b_id) in matching.pairs() {
+    for b_id in tree_b.iter() {
+        let Some(a_id) = matching.get_a(b_id) else {
+            continue;
+        };
         debug!(
             a = usize::from(a_id),
             b = usize::from(b_id),
-- 
2.43.0


From c44719f6179e9cc7b9771248871544188be350e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 11/29] fix: keep the body's attributes when only one document
 has a body

---
 hotmeal/src/diff.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 3004570..db0e42e 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1075,6 +1075,8 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             // Old has no body, new has body - insert all new body children
             let new_body_id = new.body().unwrap();
             let mut patches = Vec::new();
+            // The body itself is created without attributes
+            patches.extend(body_props_patch(new, new_body_id));
             for (pos, child_id) in new_body_id.children(&new.arena).enumerate() {
                 patches.push(create_insert_patch(new, child_id, pos)?);
             }
@@ -1091,6 +1093,13 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
                     node: NodeRef(NodePath(smallvec![0, pos as u32])),
                 });
             }
+            // The body itself stays, as an empty element without attributes
+            patches.extend(
+                body_props_patch(old, old_body_id).map(|_| Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: Vec::new(),
+                }),
+            );
             return Ok(patches);
         }
         (true, true) => {
@@ -1196,6 +1205,27 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     Ok(patches)
 }
 
+/// A patch that gives a body without attributes those of the given one, if it has any.
+fn body_props_patch<'a>(doc: &Document<'a>, body_id: NodeId) -> Option<Patch<'a>> {
+    let dom::NodeKind::Element(elem) = &doc.get(body_id).kind else {
+        return None;
+    };
+    if elem.attrs.is_empty() {
+        return None;
+    }
+    Some(Patch::UpdateProps {
+        path: NodePath(smallvec![0]),
+        changes: elem
+            .attrs
+            .iter()
+            .map(|(name, value)| PropChange {
+                name: PropKey::Attr(name.clone()),
+                value: Some(value.clone()),
+            })
+            .collect(),
+    })
+}
+
 /// Whether two nodes have the same descendants, attributes included.
 fn same_content<'a, TA, TB>(tree_a: &TA, a_id: NodeId, tree_b: &TB, b_id: NodeId) -> bool
 where
-- 
2.43.0


From f8dad2fa15ed0c28f737ca54b1867cf37cdbedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 12/29] fix: find the DOCTYPE behind a byte order mark and
 comments

---
 hotmeal/src/dom.rs | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index fe3c879..0ba9eb5 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1060,18 +1060,41 @@ impl Namespace {
     }
 }
 
+/// Whether the document starts with a DOCTYPE. A byte order mark, whitespace and
+/// comments (which is also how `<?xml ... ?>` reads) may come before it.
 fn has_doctype_prefix(input: &str) -> bool {
-    let bytes = input.as_bytes();
-    let mut i = 0;
-    while i < bytes.len() && bytes[i].is_ascii_whitespace() {
-        i += 1;
-    }
-    let doctype = b"<!doctype";
-    i + doctype.len() <= bytes.len()
-        && bytes[i..i + doctype.len()]
-            .iter()
-            .zip(doctype)
-            .all(|(b, d)| b.to_ascii_lowercase() == *d)
+    let mut rest = input.strip_prefix('\u{feff}').unwrap_or(input);
+    loop {
+        rest = rest.trim_start_matches(|c: char| c.is_ascii_whitespace());
+        let bytes = rest.as_bytes();
+        let doctype = b"<!doctype";
+        if bytes.len() >= doctype.len() && bytes[..doctype.len()].eq_ignore_ascii_case(doctype) {
+            return true;
+        }
+        let end = if let Some(comment) = rest.strip_prefix("<!--") {
+            if comment.starts_with('>') {
+                Some(5)
+            } else if comment.starts_with("->") {
+                Some(6)
+            } else {
+                let ends = [("-->", 7), ("--!>", 8)];
+                ends.iter()
+                    .filter_map(|(end, len)| comment.find(end).map(|i| i + len))
+                    .min()
+            }
+        } else if rest.starts_with("<!")
+            || rest.starts_with("<?")
+            || (rest.starts_with("</") && !bytes.get(2).is_some_and(u8::is_ascii_alphabetic))
+        {
+            rest.find('>').map(|i| i + 1)
+        } else {
+            None
+        };
+        match end {
+            Some(end) => rest = &rest[end..],
+            None => return false,
+        }
+    }
 }
 
 /// Parse HTML from a StrTendril with zero-copy borrowing.
-- 
2.43.0


From 8a0c27490f2c7a45659f0eae9748405e920b78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 13/29] fix: read the content of annotation-xml with an HTML
 encoding as HTML

---
 hotmeal/src/dom.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 0ba9eb5..87c5a6f 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1043,11 +1043,7 @@ impl Namespace {
                 !matches!(tag, "mglyph" | "malignmark")
             }
             (Namespace::MathMl, "annotation-xml") => {
-                tag == "svg"
-                    || encoding.is_some_and(|e| {
-                        e.eq_ignore_ascii_case("text/html")
-                            || e.eq_ignore_ascii_case("application/xhtml+xml")
-                    })
+                tag == "svg" || encoding.is_some_and(is_html_encoding)
             }
             _ => false,
         };
@@ -1060,6 +1056,12 @@ impl Namespace {
     }
 }
 
+/// Whether an `annotation-xml` of this encoding holds HTML.
+fn is_html_encoding(encoding: &str) -> bool {
+    encoding.eq_ignore_ascii_case("text/html")
+        || encoding.eq_ignore_ascii_case("application/xhtml+xml")
+}
+
 /// Whether the document starts with a DOCTYPE. A byte order mark, whitespace and
 /// comments (which is also how `<?xml ... ?>` reads) may come before it.
 fn has_doctype_prefix(input: &str) -> bool {
@@ -1833,6 +1835,21 @@ impl<'a> TreeSink for ArenaSink<'a> {
         }
     }
 
+    fn is_mathml_annotation_xml_integration_point(&self, target: &Self::Handle) -> bool {
+        let arena = self.arena.borrow();
+        let node = arena[*target].get();
+        match &node.kind {
+            NodeKind::Element(elem) => {
+                node.ns == Namespace::MathMl
+                    && elem.tag.as_ref() == "annotation-xml"
+                    && elem.attrs.iter().any(|(name, value)| {
+                        name.local.as_ref() == "encoding" && is_html_encoding(value)
+                    })
+            }
+            _ => false,
+        }
+    }
+
     fn remove_from_parent(&self, target: &Self::Handle) {
         target.detach(&mut self.arena.borrow_mut());
     }
-- 
2.43.0


From 097ae701089b1dda3977b0f36ae0c4518f4822b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 14/29] fix: serialise raw text and void elements as the HTML
 standard does

---
 hotmeal/src/dom.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 87c5a6f..5eccc72 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -899,8 +899,12 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
+        // Void and raw text elements are HTML elements: in SVG and MathML, the same
+        // names have no special meaning
+        let is_html = self.get(node_id).ns == Namespace::Html;
+
         // Check if void element
-        if is_void_element(tag) {
+        if is_html && is_void_element(tag) {
             out.push('>');
             return;
         }
@@ -908,7 +912,7 @@ impl<'a> Document<'a> {
         out.push('>');
 
         // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_raw_text_element(tag);
+        let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -965,14 +969,17 @@ fn is_void_element(tag: &str) -> bool {
     )
 }
 
-/// HTML5 raw text elements whose content should not be escaped
-/// See: https://html.spec.whatwg.org/multipage/syntax.html#raw-text-elements
+/// Elements whose text should not be escaped
+/// See: https://html.spec.whatwg.org/multipage/parsing.html#serialising-html-fragments
 ///
 /// Note: `noscript` is included because we always parse with scripting enabled
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script" | "style" | "noscript" | "xmp" | "iframe" | "noembed" | "noframes" | "plaintext"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From f35f385ae38fd8ea2a20911b6b14616f88d5f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 15/29] fix: find the head tag, not header tags or mentions in
 comments and attribute values

---
 hotmeal-server/src/lib.rs | 63 ++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..addc80a 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -233,17 +233,12 @@ impl Default for LiveReloadServer {
 /// If no `<head>` tag is found, prepends content at the start.
 pub fn inject_into_head(html: &str, content: &str) -> String {
     // Find <head> or <head ...> tag (case-insensitive)
-    let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
-        // Find the closing '>' of the <head> tag
-        if let Some(head_end) = html[head_start..].find('>') {
-            let insert_pos = head_start + head_end + 1;
-            let mut result = String::with_capacity(html.len() + content.len());
-            result.push_str(&html[..insert_pos]);
-            result.push_str(content);
-            result.push_str(&html[insert_pos..]);
-            return result;
-        }
+    if let Some(insert_pos) = find_after_head_tag(html) {
+        let mut result = String::with_capacity(html.len() + content.len());
+        result.push_str(&html[..insert_pos]);
+        result.push_str(content);
+        result.push_str(&html[insert_pos..]);
+        return result;
     }
 
     // No <head> tag found — prepend
@@ -253,6 +248,52 @@ pub fn inject_into_head(html: &str, content: &str) -> String {
     result
 }
 
+/// Position right after the `<head>` start tag.
+///
+/// Goes from tag to tag, so that neither `<header>` nor a `<head>` mentioned in a comment
+/// or in an attribute value is taken for it.
+fn find_after_head_tag(html: &str) -> Option<usize> {
+    let mut pos = 0;
+    while let Some(offset) = html[pos..].find('<') {
+        let tag = pos + offset;
+        let rest = &html[tag + 1..];
+        if rest.starts_with("!--") {
+            // `<!-->` is a whole comment, too
+            let end = html[tag + 2..].find("-->")?;
+            pos = tag + 2 + end + 3;
+            continue;
+        }
+        if !rest.starts_with(|c: char| c.is_ascii_alphabetic() || c == '/') {
+            // Text, or a doctype
+            pos = tag + 1;
+            continue;
+        }
+
+        // The tag ends at the first '>' outside of quotes
+        let mut quote = None;
+        let end = rest.bytes().position(|b| {
+            match (quote, b) {
+                (None, b'>') => return true,
+                (None, b'"' | b'\'') => quote = Some(b),
+                (Some(q), b) if q == b => quote = None,
+                _ => {}
+            }
+            false
+        })?;
+        pos = tag + 1 + end + 1;
+        let is_name_end = |c: char| c.is_ascii_whitespace() || c == '/' || c == '>';
+        let name = rest.split(is_name_end).next().unwrap_or("");
+        if name.eq_ignore_ascii_case("head") {
+            return Some(pos);
+        }
+        if !name.is_empty() && !name.eq_ignore_ascii_case("html") {
+            // The head has begun without its tag, or there is none
+            return None;
+        }
+    }
+    None
+}
+
 /// Generate a `<script>` tag that loads hotmeal-wasm and starts live-reload.
 ///
 /// Arguments:
-- 
2.43.0


From a396769e96bf207b6379ff49f10359ed8bc773d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 16/29] fix: quote the strings in the loader script

---
 hotmeal-server/src/lib.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index addc80a..c77df76 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -307,15 +307,39 @@ pub fn loader_script(
     mount_selector: &str,
     ws_url: &str,
 ) -> String {
+    let [wasm_js_url, wasm_url, mount_selector, ws_url] =
+        [wasm_js_url, wasm_url, mount_selector, ws_url].map(js_string);
     format!(
         r#"<script type="module">
-import init, {{ start_live_reload }} from "{wasm_js_url}";
-await init("{wasm_url}");
-start_live_reload("{ws_url}", "{mount_selector}");
+import init, {{ start_live_reload }} from {wasm_js_url};
+await init({wasm_url});
+start_live_reload({ws_url}, {mount_selector});
 </script>"#,
     )
 }
 
+/// A JavaScript string literal for use in a `<script>` element.
+fn js_string(s: &str) -> String {
+    let mut out = String::with_capacity(s.len() + 2);
+    out.push('"');
+    for c in s.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\0' => out.push_str("\\x00"),
+            // No `</script>` or `<!--` in the element's text
+            '<' => out.push_str("\\x3c"),
+            _ => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From db86a9cfeb5abbe139717b0b42493f0d259b5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 17/29] fix: patch attributes and elements whose names the DOM
 interface refuses

UpdateProps and SetAttribute failed on names such as @click, and elements
with such an attribute were built from markup with end tags for void
elements and escaped raw text.
---
 hotmeal-wasm/src/lib.rs | 210 ++++++++++++++--------------------------
 1 file changed, 73 insertions(+), 137 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..8c835ff 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,13 +21,13 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, NodeId, QualName, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
 use tracing::{debug, trace};
 use wasm_bindgen::prelude::*;
-use web_sys::{Document, Element, Node};
+use web_sys::{Attr, Document, Element, HtmlTemplateElement, Node};
 
 /// Initialize tracing subscriber for WASM (sends output to browser console).
 /// Call this once at startup.
@@ -399,20 +399,12 @@ fn apply_patch(
 
         Patch::SetAttribute { path, name, value } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.set_attribute(&attr_name, value)?;
+            set_attribute(doc, &el, name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.remove_attribute(&attr_name)?;
+            el.remove_attribute(&qualified_name(name))?;
         }
 
         Patch::Remove { node } => {
@@ -466,16 +458,7 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, tag, attrs) {
-                Ok(el) => {
-                    for child in children {
-                        let child_node = create_insert_content(doc, child)?;
-                        el.append_child(&child_node)?;
-                    }
-                    el.into()
-                }
-                Err(_) => create_element_via_html(doc, tag, attrs, children)?,
-            };
+            let new_node = create_element_with_content(doc, tag, attrs, children)?;
 
             insert_at_position(
                 doc,
@@ -573,27 +556,23 @@ fn apply_patch(
             }
 
             if let Some(el) = node.dyn_ref::<Element>() {
-                let existing: std::collections::HashMap<String, String> =
-                    (0..el.attributes().length())
-                        .filter_map(|i| el.attributes().item(i).map(|a| (a.name(), a.value())))
-                        .collect();
+                let attributes = el.attributes();
+                let existing: Vec<Attr> = (0..attributes.length())
+                    .filter_map(|i| attributes.item(i))
+                    .collect();
 
-                for attr_name in existing.keys() {
-                    el.remove_attribute(attr_name)?;
+                for attr in &existing {
+                    el.remove_attribute_node(attr)?;
                 }
 
                 for change in changes {
-                    if let PropKey::Attr(ref qual_name) = change.name {
-                        let attr_name = if let Some(ref prefix) = qual_name.prefix {
-                            format!("{}:{}", prefix, qual_name.local)
-                        } else {
-                            qual_name.local.to_string()
-                        };
-                        let value = match &change.value {
-                            Some(v) => v.as_ref().to_string(),
-                            None => existing.get(&attr_name).cloned().unwrap_or_default(),
-                        };
-                        el.set_attribute(&attr_name, &value)?;
+                    if let PropKey::Attr(ref name) = change.name {
+                        let unchanged = existing.iter().find(|a| a.name() == qualified_name(name));
+                        match (&change.value, unchanged) {
+                            (Some(value), _) => set_attribute(doc, el, name, value)?,
+                            (None, Some(attr)) => drop(el.set_attribute_node(attr)?),
+                            (None, None) => set_attribute(doc, el, name, "")?,
+                        }
                     }
                 }
             }
@@ -718,108 +697,74 @@ fn insert_at_position(
     Ok(())
 }
 
-/// Try to create an element with attributes using the DOM API.
-/// Returns Err if any attribute name is invalid for setAttribute.
-fn create_element_with_attrs(
-    doc: &Document,
-    tag: &str,
-    attrs: &[hotmeal::AttrPair],
-) -> Result<Element, JsValue> {
-    let el = doc.create_element(tag)?;
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        el.set_attribute(&attr_name, &attr.value)?;
+/// The name of an attribute as the DOM spells it.
+fn qualified_name(name: &QualName) -> String {
+    match name.prefix.as_ref().filter(|p| !p.is_empty()) {
+        Some(prefix) => format!("{}:{}", prefix, name.local),
+        None => name.local.to_string(),
     }
-    Ok(el)
 }
 
-/// Create an element via innerHTML when setAttribute fails.
-/// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
-fn create_element_via_html(
+/// Set an attribute, whatever its name. The HTML parser accepts names that setAttribute
+/// rejects (`@click`), so the parser makes the attribute in that case.
+fn set_attribute(
     doc: &Document,
-    tag: &str,
-    attrs: &[hotmeal::AttrPair],
-    children: &[InsertContent],
-) -> Result<Node, JsValue> {
-    use web_sys::HtmlTemplateElement;
-
-    let mut html = format!("<{}", tag);
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
+    el: &Element,
+    name: &QualName,
+    value: &str,
+) -> Result<(), JsValue> {
+    let name = qualified_name(name);
+    el.set_attribute(&name, value).or_else(|error| {
+        let attr = parse_element(doc, &format!("<div {name}=\"\"></div>"))?
+            .and_then(|el| el.attributes().item(0).map(|attr| (el, attr)))
+            .filter(|(_, attr)| attr.name() == name);
+        let Some((owner, attr)) = attr else {
+            return Err(error);
         };
-        let escaped_value = attr
-            .value
-            .replace('&', "&amp;")
-            .replace('"', "&quot;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        html.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-    }
-    html.push('>');
-
-    for child in children {
-        serialize_insert_content(&mut html, child);
-    }
+        owner.remove_attribute_node(&attr)?;
+        attr.set_value(value);
+        el.set_attribute_node(&attr)?;
+        Ok(())
+    })
+}
 
-    html.push_str(&format!("</{}>", tag));
+/// Create an element, whatever its name. See [`set_attribute`].
+fn create_element(doc: &Document, tag: &str) -> Result<Element, JsValue> {
+    doc.create_element(tag).or_else(|error| {
+        let parsed = parse_element(doc, &format!("<{tag}></{tag}>"))?;
+        let el = parsed.filter(|el| el.local_name() == tag).ok_or(error)?;
+        el.remove();
+        Ok(el)
+    })
+}
 
+/// The first element of the given markup.
+fn parse_element(doc: &Document, html: &str) -> Result<Option<Element>, JsValue> {
     let template = doc
         .create_element("template")?
         .dyn_into::<HtmlTemplateElement>()
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
-    template.set_inner_html(&html);
-
-    template
-        .content()
-        .first_child()
-        .ok_or_else(|| JsValue::from_str("template content is empty"))
+    template.set_inner_html(html);
+    let first = template.content().first_child();
+    Ok(first.and_then(|node| node.dyn_into().ok()))
 }
 
-/// Serialize InsertContent to HTML string
-fn serialize_insert_content(out: &mut String, content: &InsertContent) {
-    match content {
-        InsertContent::Element {
-            tag,
-            attrs,
-            children,
-        } => {
-            out.push('<');
-            out.push_str(tag);
-            for attr in attrs {
-                let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                    Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-                    None => attr.name.local.to_string(),
-                };
-                let escaped_value = attr
-                    .value
-                    .replace('&', "&amp;")
-                    .replace('"', "&quot;")
-                    .replace('<', "&lt;")
-                    .replace('>', "&gt;");
-                out.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-            }
-            out.push('>');
-            for child in children {
-                serialize_insert_content(out, child);
-            }
-            out.push_str("</");
-            out.push_str(tag);
-            out.push('>');
-        }
-        InsertContent::Text(text) => {
-            out.push_str(&text.replace('&', "&amp;").replace('<', "&lt;"));
-        }
-        InsertContent::Comment(text) => {
-            out.push_str("<!--");
-            out.push_str(text);
-            out.push_str("-->");
-        }
+/// Create an element with attributes and children.
+fn create_element_with_content(
+    doc: &Document,
+    tag: &str,
+    attrs: &[hotmeal::AttrPair],
+    children: &[InsertContent],
+) -> Result<Node, JsValue> {
+    let el = create_element(doc, tag)?;
+    for attr in attrs {
+        set_attribute(doc, &el, &attr.name, &attr.value)?;
+    }
+    for child in children {
+        let child_node = create_insert_content(doc, child)?;
+        el.append_child(&child_node)?;
     }
+    Ok(el.into())
 }
 
 /// Create a DOM node from InsertContent.
@@ -829,16 +774,7 @@ fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, tag, attrs) {
-            Ok(el) => {
-                for child in children {
-                    let child_node = create_insert_content(doc, child)?;
-                    el.append_child(&child_node)?;
-                }
-                Ok(el.into())
-            }
-            Err(_) => create_element_via_html(doc, tag, attrs, children),
-        },
+        } => create_element_with_content(doc, tag, attrs, children),
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
     }
-- 
2.43.0


From 0088c09e0f7712d4c5c6e72a2e36bce35f71a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 18/29] fix: patch the contents of templates in the browser

The children of a template element are in its content fragment.
---
 hotmeal-wasm/src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 8c835ff..038e183 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -657,12 +657,13 @@ fn insert_at_position(
     detach_to_slot: Option<u32>,
     slots: &mut Slots,
 ) -> Result<(), JsValue> {
+    let parent = content_of(parent);
     let children = parent.child_nodes();
     let current_len = children.length() as usize;
     let pos = position as u32;
 
     trace!(
-        parent_tag = parent.tag_name(),
+        parent = parent.node_name(),
         position,
         current_len,
         ?detach_to_slot,
@@ -760,9 +761,10 @@ fn create_element_with_content(
     for attr in attrs {
         set_attribute(doc, &el, &attr.name, &attr.value)?;
     }
+    let content = content_of(&el);
     for child in children {
         let child_node = create_insert_content(doc, child)?;
-        el.append_child(&child_node)?;
+        content.append_child(&child_node)?;
     }
     Ok(el.into())
 }
@@ -780,11 +782,19 @@ fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node
     }
 }
 
+/// Where a node's children are: templates keep theirs in a fragment of their own.
+fn content_of(node: &Node) -> Node {
+    match node.dyn_ref::<HtmlTemplateElement>() {
+        Some(template) => template.content().into(),
+        None => node.clone(),
+    }
+}
+
 /// Navigate a relative path within a node (for slot-relative paths).
 fn navigate_within_node(root: &Node, path: &NodePath) -> Result<Node, JsValue> {
     let mut current = root.clone();
     for &idx in &path.0 {
-        let children = current.child_nodes();
+        let children = content_of(&current).child_nodes();
         current = children
             .item(idx)
             .ok_or_else(|| JsValue::from_str(&format!("relative path child {} not found", idx)))?;
@@ -806,7 +816,7 @@ fn find_node(root: &Node, path: &NodePath, slots: &Slots) -> Result<Node, JsValu
 
     let mut current = slot_root;
     for &idx in &path.0[1..] {
-        let children = current.child_nodes();
+        let children = content_of(&current).child_nodes();
         let num_children = children.length();
         trace!(idx, num_children, "navigating to child");
         current = children.item(idx).ok_or_else(|| {
-- 
2.43.0


From 475c53e7589cd44c51be848969ff73f608734eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 19/29] fix: create elements and attributes in their namespaces
 in the browser

Inserted SVG and MathML elements were HTML elements of that name, and
attributes such as xlink:href had no namespace.
---
 hotmeal-wasm/src/lib.rs | 63 ++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 038e183..9af17ff 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,7 +21,7 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, QualName, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, QualName, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -404,7 +404,10 @@ fn apply_patch(
 
         Patch::RemoveAttribute { path, name } => {
             let el = find_element(root, path, slots)?;
-            el.remove_attribute(&qualified_name(name))?;
+            match namespace_of(name) {
+                None => el.remove_attribute(&qualified_name(name))?,
+                namespace => el.remove_attribute_ns(namespace, &name.local)?,
+            }
         }
 
         Patch::Remove { node } => {
@@ -458,7 +461,7 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node = create_element_with_content(doc, tag, attrs, children)?;
+            let new_node = create_element_with_content(doc, &parent_el, tag, attrs, children)?;
 
             insert_at_position(
                 doc,
@@ -567,7 +570,10 @@ fn apply_patch(
 
                 for change in changes {
                     if let PropKey::Attr(ref name) = change.name {
-                        let unchanged = existing.iter().find(|a| a.name() == qualified_name(name));
+                        let unchanged = existing.iter().find(|attr| {
+                            attr.name() == qualified_name(name)
+                                && attr.namespace_uri().as_deref() == namespace_of(name)
+                        });
                         match (&change.value, unchanged) {
                             (Some(value), _) => set_attribute(doc, el, name, value)?,
                             (None, Some(attr)) => drop(el.set_attribute_node(attr)?),
@@ -706,6 +712,11 @@ fn qualified_name(name: &QualName) -> String {
     }
 }
 
+/// The namespace of an attribute, if it has one.
+fn namespace_of(name: &QualName) -> Option<&str> {
+    Some(name.ns.as_ref()).filter(|ns| !ns.is_empty())
+}
+
 /// Set an attribute, whatever its name. The HTML parser accepts names that setAttribute
 /// rejects (`@click`), so the parser makes the attribute in that case.
 fn set_attribute(
@@ -714,7 +725,11 @@ fn set_attribute(
     name: &QualName,
     value: &str,
 ) -> Result<(), JsValue> {
+    let namespace = namespace_of(name);
     let name = qualified_name(name);
+    if namespace.is_some() {
+        return el.set_attribute_ns(namespace, &name, value);
+    }
     el.set_attribute(&name, value).or_else(|error| {
         let attr = parse_element(doc, &format!("<div {name}=\"\"></div>"))?
             .and_then(|el| el.attributes().item(0).map(|attr| (el, attr)))
@@ -729,10 +744,27 @@ fn set_attribute(
     })
 }
 
+/// The namespace of an element called `tag` that is created in `parent`.
+fn child_namespace(parent: &Element, tag: &str) -> Namespace {
+    let namespace = Namespace::from_url(&parent.namespace_uri().unwrap_or_default());
+    let encoding = parent.get_attribute("encoding");
+    namespace.of_child(&parent.local_name(), encoding.as_deref(), tag)
+}
+
 /// Create an element, whatever its name. See [`set_attribute`].
-fn create_element(doc: &Document, tag: &str) -> Result<Element, JsValue> {
-    doc.create_element(tag).or_else(|error| {
-        let parsed = parse_element(doc, &format!("<{tag}></{tag}>"))?;
+fn create_element(doc: &Document, namespace: Namespace, tag: &str) -> Result<Element, JsValue> {
+    let created = match namespace {
+        Namespace::Html => doc.create_element(tag),
+        _ => doc.create_element_ns(Some(namespace.url()), tag),
+    };
+    created.or_else(|error| {
+        let parsed = match namespace {
+            Namespace::Html => parse_element(doc, &format!("<{tag}></{tag}>"))?,
+            Namespace::Svg => parse_element(doc, &format!("<svg><{tag}></{tag}></svg>"))?
+                .and_then(|svg| svg.first_element_child()),
+            Namespace::MathMl => parse_element(doc, &format!("<math><{tag}></{tag}></math>"))?
+                .and_then(|math| math.first_element_child()),
+        };
         let el = parsed.filter(|el| el.local_name() == tag).ok_or(error)?;
         el.remove();
         Ok(el)
@@ -750,33 +782,38 @@ fn parse_element(doc: &Document, html: &str) -> Result<Option<Element>, JsValue>
     Ok(first.and_then(|node| node.dyn_into().ok()))
 }
 
-/// Create an element with attributes and children.
+/// Create an element with attributes and children, to be inserted in `parent`.
 fn create_element_with_content(
     doc: &Document,
+    parent: &Element,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
     children: &[InsertContent],
 ) -> Result<Node, JsValue> {
-    let el = create_element(doc, tag)?;
+    let el = create_element(doc, child_namespace(parent, tag), tag)?;
     for attr in attrs {
         set_attribute(doc, &el, &attr.name, &attr.value)?;
     }
     let content = content_of(&el);
     for child in children {
-        let child_node = create_insert_content(doc, child)?;
+        let child_node = create_insert_content(doc, &el, child)?;
         content.append_child(&child_node)?;
     }
     Ok(el.into())
 }
 
-/// Create a DOM node from InsertContent.
-fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node, JsValue> {
+/// Create a DOM node from InsertContent, to be inserted in `parent`.
+fn create_insert_content(
+    doc: &Document,
+    parent: &Element,
+    content: &InsertContent,
+) -> Result<Node, JsValue> {
     match content {
         InsertContent::Element {
             tag,
             attrs,
             children,
-        } => create_element_with_content(doc, tag, attrs, children),
+        } => create_element_with_content(doc, parent, tag, attrs, children),
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
     }
-- 
2.43.0


From c9e628a1df00fad01617ee8fec32681be11bb87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 20/29] fix: refuse to move a node into its own subtree when
 applying patches

---
 hotmeal/src/diff.rs | 3 +++
 hotmeal/src/dom.rs  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index db0e42e..bc81bfb 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -148,6 +148,9 @@ pub enum DiffError {
 
     /// node is not a comment
     NotAComment,
+
+    /// cannot move a node into its own subtree
+    MoveIntoSelf,
 }
 
 /// A path to a node in the DOM tree.
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 5eccc72..0fafbb7 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -617,6 +617,10 @@ impl<'a> Document<'a> {
                     node_to_move.detach(&mut self.arena);
                 }
 
+                let (parent_id, _) = self.get_slot_parent(&to.0.0, slots)?;
+                if parent_id.ancestors(&self.arena).any(|n| n == node_to_move) {
+                    return Err(DiffError::MoveIntoSelf);
+                }
                 self.insert_at(&to, node_to_move, detach_to_slot, slots)?;
             }
             Patch::UpdateProps { path, changes } => {
-- 
2.43.0


From 20986a24e25109801670e088188669c6830cc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 21/29] fix: an empty path in a Remove patch is an error in the
 browser client, not a panic

---
 hotmeal-wasm/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 9af17ff..2ed057a 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -412,7 +412,10 @@ fn apply_patch(
 
         Patch::Remove { node } => {
             let NodeRef(path) = node;
-            let slot = path.0[0];
+            let slot = *path
+                .0
+                .first()
+                .ok_or_else(|| JsValue::from_str("empty path"))?;
             if slot == 0 {
                 let rel_path = NodePath(SmallVec::from_slice(&path.0[1..]));
                 let target = navigate_within_node(root, &rel_path)?;
-- 
2.43.0


From ed642456ad1c941c3ffacb9da5d215fc88290ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 22/29] fix: inner HTML of raw text elements is not escaped

---
 hotmeal/src/dom.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 0fafbb7..f4062a1 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -402,9 +402,7 @@ impl<'a> Document<'a> {
     /// Serialize the inner HTML of a node (its children, not the node itself).
     pub fn serialize_inner_html(&self, node_id: NodeId) -> String {
         let mut output = String::new();
-        for child_id in node_id.children(&self.arena) {
-            self.serialize_node(&mut output, child_id);
-        }
+        self.serialize_children(&mut output, node_id);
         output
     }
 
@@ -915,8 +913,23 @@ impl<'a> Document<'a> {
 
         out.push('>');
 
-        // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_html && is_raw_text_element(tag);
+        self.serialize_children(out, node_id);
+
+        // Closing tag
+        out.push_str("</");
+        out.push_str(tag);
+        out.push('>');
+    }
+
+    fn serialize_children(&self, out: &mut String, node_id: NodeId) {
+        // Raw text elements (script, style) should not have their content escaped
+        let node = self.get(node_id);
+        let is_raw_text = match &node.kind {
+            NodeKind::Element(elem) => {
+                node.ns == Namespace::Html && is_raw_text_element(elem.tag.as_ref())
+            }
+            _ => false,
+        };
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -924,11 +937,6 @@ impl<'a> Document<'a> {
                 self.serialize_node(out, child_id);
             }
         }
-
-        // Closing tag
-        out.push_str("</");
-        out.push_str(tag);
-        out.push('>');
     }
 
     /// Serialize a node without escaping text content (for raw text elements like script/style)
-- 
2.43.0


From 609b48a150eb217ec457c147767c5699bc4f1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 23/29] fix: opaque content is parsed in the context of its
 element

---
 hotmeal/src/dom.rs | 57 ++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index f4062a1..89eb2eb 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -677,25 +677,36 @@ impl<'a> Document<'a> {
             }
             Patch::OpaqueChanged { path, content } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
-                // Remove all existing children
+                let node = self.get(node_id);
+                let NodeKind::Element(elem) = &node.kind else {
+                    return Err(DiffError::NotAnElement);
+                };
+                // Parse the new content in the context of the element it is for, which
+                // decides what the markup may hold (rows in a table, text in a textarea...)
+                let context = QualName::new(
+                    None,
+                    html5ever::Namespace::from(node.ns.url()),
+                    elem.tag.clone(),
+                );
+                let context_attrs = elem
+                    .attrs
+                    .iter()
+                    .map(|(name, value)| Attribute {
+                        name: name.clone(),
+                        value: StrTendril::from(value.as_ref()),
+                    })
+                    .collect();
+                let content = StrTendril::from(content.as_ref());
+                let fragment = parse_fragment_in(&content, context, context_attrs);
+
+                // Replace all existing children
                 let children: Vec<_> = node_id.children(&self.arena).collect();
                 for child in children {
                     child.detach(&mut self.arena);
                 }
-                // Parse the new content and attach as children
-                // We parse a minimal document wrapper to get the content nodes
-                let wrapper_html =
-                    format!("<html><body><div>{}</div></body></html>", content.as_ref());
-                let wrapper_tendril = StrTendril::from(wrapper_html.as_str());
-                let wrapper_doc = crate::dom::parse(&wrapper_tendril);
-                if let Some(body_id) = wrapper_doc.body() {
-                    // The content is inside body > div
-                    if let Some(div_id) = body_id.children(&wrapper_doc.arena).next() {
-                        for child_id in div_id.children(&wrapper_doc.arena) {
-                            let cloned = self.clone_subtree_from(&wrapper_doc, child_id);
-                            node_id.append(cloned, &mut self.arena);
-                        }
-                    }
+                for child_id in fragment.root.children(&fragment.arena) {
+                    let cloned = self.clone_subtree_from(&fragment, child_id);
+                    node_id.append(cloned, &mut self.arena);
                 }
             }
         }
@@ -1175,15 +1186,23 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
 ///
 /// Use this when comparing against browser innerHTML parsing for parity testing.
 pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
+    // Parse as fragment with <body> as context
+    let context_name = QualName::new(None, ns!(html), local_name!("body"));
+    parse_fragment_in(tendril, context_name, vec![])
+}
+
+/// Parse markup as the content of the given element, scripting enabled.
+/// The content becomes the children of the document's root.
+fn parse_fragment_in(
+    tendril: &StrTendril,
+    context_name: QualName,
+    context_attrs: Vec<Attribute>,
+) -> Document<'_> {
     use html5ever::parse_fragment;
     use tendril::TendrilSink;
 
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
-
-    // Parse as fragment with <body> as context, scripting enabled
-    let context_name = QualName::new(None, ns!(html), local_name!("body"));
-    let context_attrs = vec![];
     let scripting_enabled = true;
 
     parse_fragment(
-- 
2.43.0


From 6eac46583599c35ea85ca60dd7dee33fb5e1968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:08 +0000
Subject: [PATCH 24/29] fix: inserting into a text or comment is an error

---
 hotmeal/src/dom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 89eb2eb..0f21676 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -447,6 +447,9 @@ impl<'a> Document<'a> {
         let position = path[path.len() - 1] as usize;
         let parent_path = &path[..path.len() - 1];
         let parent_id = self.navigate_slot_path(parent_path, slots)?;
+        if !matches!(self.get(parent_id).kind, NodeKind::Element(_)) {
+            return Err(DiffError::NotAnElement);
+        }
 
         Ok((parent_id, position))
     }
-- 
2.43.0


From 3d27e7740ce3f01c401fd99bd51289b6131f9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 25/29] fix: inject_into_head: find the head tag behind
 doctypes, odd comments and odd attributes

---
 hotmeal-server/src/lib.rs | 68 ++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index c77df76..f3fa235 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -250,8 +250,8 @@ pub fn inject_into_head(html: &str, content: &str) -> String {
 
 /// Position right after the `<head>` start tag.
 ///
-/// Goes from tag to tag, so that neither `<header>` nor a `<head>` mentioned in a comment
-/// or in an attribute value is taken for it.
+/// Goes from tag to tag, so that neither `<header>` nor a `<head>` mentioned in a comment,
+/// in a doctype or in an attribute value is taken for it.
 fn find_after_head_tag(html: &str) -> Option<usize> {
     let mut pos = 0;
     while let Some(offset) = html[pos..].find('<') {
@@ -259,27 +259,28 @@ fn find_after_head_tag(html: &str) -> Option<usize> {
         let rest = &html[tag + 1..];
         if rest.starts_with("!--") {
             // `<!-->` is a whole comment, too
-            let end = html[tag + 2..].find("-->")?;
-            pos = tag + 2 + end + 3;
+            let body = tag + 2;
+            let ends = [("-->", body), ("--!>", body + 2)];
+            pos = ends
+                .iter()
+                .filter_map(|&(end, from)| html[from..].find(end).map(|i| from + i + end.len()))
+                .min()?;
+            continue;
+        }
+        if rest.starts_with(['!', '?'])
+            || (rest.starts_with('/') && !rest[1..].starts_with(|c: char| c.is_ascii_alphabetic()))
+        {
+            // A doctype, or what the parser takes for a comment
+            pos = tag + 1 + rest.find('>')? + 1;
             continue;
         }
         if !rest.starts_with(|c: char| c.is_ascii_alphabetic() || c == '/') {
-            // Text, or a doctype
+            // Text
             pos = tag + 1;
             continue;
         }
 
-        // The tag ends at the first '>' outside of quotes
-        let mut quote = None;
-        let end = rest.bytes().position(|b| {
-            match (quote, b) {
-                (None, b'>') => return true,
-                (None, b'"' | b'\'') => quote = Some(b),
-                (Some(q), b) if q == b => quote = None,
-                _ => {}
-            }
-            false
-        })?;
+        let end = tag_end(rest)?;
         pos = tag + 1 + end + 1;
         let is_name_end = |c: char| c.is_ascii_whitespace() || c == '/' || c == '>';
         let name = rest.split(is_name_end).next().unwrap_or("");
@@ -294,6 +295,41 @@ fn find_after_head_tag(html: &str) -> Option<usize> {
     None
 }
 
+/// Position of the `>` that ends a tag: the first one that is not in a quoted value.
+///
+/// Quotes delimit a value only right after the `=` behind an attribute's name.
+fn tag_end(tag: &str) -> Option<usize> {
+    enum At {
+        TagName,
+        BeforeName,
+        Name,
+        AfterName,
+        BeforeValue,
+        Value,
+        Quoted(u8),
+    }
+    let mut at = At::TagName;
+    tag.bytes().position(|b| {
+        at = match (&at, b) {
+            (At::Quoted(q), _) if *q == b => At::BeforeName,
+            (At::Quoted(q), _) => At::Quoted(*q),
+            (_, b'>') => return true,
+            (At::BeforeValue, b'"' | b'\'') => At::Quoted(b),
+            (At::BeforeValue, _) if b.is_ascii_whitespace() => At::BeforeValue,
+            (At::BeforeValue, _) => At::Value,
+            (At::Value, _) if b.is_ascii_whitespace() => At::BeforeName,
+            (At::Value, _) => At::Value,
+            (_, b'/') => At::BeforeName,
+            (At::TagName | At::BeforeName, _) if b.is_ascii_whitespace() => At::BeforeName,
+            (At::TagName, _) => At::TagName,
+            (At::Name | At::AfterName, b'=') => At::BeforeValue,
+            (At::Name | At::AfterName, _) if b.is_ascii_whitespace() => At::AfterName,
+            _ => At::Name,
+        };
+        false
+    })
+}
+
 /// Generate a `<script>` tag that loads hotmeal-wasm and starts live-reload.
 ///
 /// Arguments:
-- 
2.43.0


From 10bfe9d7e5de6eb20ad4d37e5658a7351e05bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:58 +0000
Subject: [PATCH 26/29] fix: matching identical subtrees and Tree::height: no
 recursion, so that deep trees do not overflow the stack

---
 cinereus/src/matching.rs | 24 +++++++++++++++++++++++-
 cinereus/src/tree.rs     | 12 +++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 8cce7ac..758c96a 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -278,6 +278,25 @@ fn match_subtrees<TA, TB>(
 ) where
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
+{
+    // Not on the call stack, which a deep tree would overflow
+    let mut pending = vec![(a_id, b_id)];
+    while let Some((a_id, b_id)) = pending.pop() {
+        match_subtree_roots(tree_a, tree_b, a_id, b_id, matching, &mut pending);
+    }
+}
+
+/// Match the roots of two subtrees, and leave the pairs of their children in `pending`.
+fn match_subtree_roots<TA, TB>(
+    tree_a: &TA,
+    tree_b: &TB,
+    a_id: NodeId,
+    b_id: NodeId,
+    matching: &mut Matching,
+    pending: &mut Vec<(NodeId, NodeId)>,
+) where
+    TA: DiffTree,
+    TB: DiffTree<Types = TA::Types>,
 {
     // Skip if either node is already matched (can happen if a descendant was
     // matched earlier due to candidate processing order)
@@ -301,9 +320,12 @@ fn match_subtrees<TA, TB>(
     let a_children: Vec<_> = tree_a.children(a_id).collect();
     let b_children: Vec<_> = tree_b.children(b_id).collect();
 
+    let before = pending.len();
     for (a_child, b_child) in a_children.into_iter().zip(b_children.into_iter()) {
-        match_subtrees(tree_a, tree_b, a_child, b_child, matching);
+        pending.push((a_child, b_child));
     }
+    // The first pair is to be taken out next
+    pending[before..].reverse();
 }
 
 /// Lazily computed descendant sets for nodes in a tree.
diff --git a/cinereus/src/tree.rs b/cinereus/src/tree.rs
index 204ee9d..1ddb75b 100644
--- a/cinereus/src/tree.rs
+++ b/cinereus/src/tree.rs
@@ -463,12 +463,14 @@ impl<T: TreeTypes> Tree<T> {
 
     /// Get the height of a node (distance to furthest leaf).
     pub fn height(&self, id: NodeId) -> usize {
-        let children: Vec<_> = self.children(id).collect();
-        if children.is_empty() {
-            0
-        } else {
-            1 + children.iter().map(|&c| self.height(c)).max().unwrap_or(0)
+        // Level by level: recursion would overflow the stack on a deep tree
+        let mut height = 0;
+        let mut level: Vec<_> = self.children(id).collect();
+        while !level.is_empty() {
+            height += 1;
+            level = level.iter().flat_map(|&c| self.children(c)).collect();
         }
+        height
     }
 }
 
-- 
2.43.0


From 3270fc94f360264be43a09e0e9bd557ace1a2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:16 +0000
Subject: [PATCH 27/29] fix: a text among changed properties replaced an
 element's content in the browser

---
 hotmeal-wasm/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 2ed057a..b924861 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -555,8 +555,10 @@ fn apply_patch(
         Patch::UpdateProps { path, changes } => {
             let node = find_node(root, path, slots)?;
 
+            // A text is that of a text or comment, never the content of an element
             if let Some(text_change) = changes.iter().find(|c| matches!(c.name, PropKey::Text))
                 && let Some(v) = &text_change.value
+                && !node.has_type::<Element>()
             {
                 node.set_text_content(Some(v));
             }
-- 
2.43.0


From 744abcffc41f9bf7af9dd8990ad8243256bd6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 28/29] fix: SetText on an element is an error in the browser
 client, as it is natively

---
 hotmeal-wasm/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index b924861..4a57140 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -394,6 +394,10 @@ fn apply_patch(
     match patch {
         Patch::SetText { path, text } => {
             let node = find_node(root, path, slots)?;
+            if node.has_type::<Element>() {
+                // It would lose all its children
+                return Err(JsValue::from_str("node is not a text"));
+            }
             node.set_text_content(Some(text));
         }
 
-- 
2.43.0


From b4b34e214246c285d62d2dd47f49be3a4e52c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 29/29] fix: top-down matching takes larger subtrees first, as
 documented, so that parts of unchanged subtrees are not matched elsewhere
 before

---
 cinereus/src/matching.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 758c96a..139c58d 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -10,6 +10,7 @@ use crate::tree::{DiffTree, Properties, TreeTypes};
 use core::cell::RefCell;
 use indextree::NodeId;
 use rapidhash::{RapidHashMap as HashMap, RapidHashSet as HashSet};
+use std::collections::BinaryHeap;
 
 #[cfg(feature = "matching-stats")]
 thread_local! {
@@ -200,18 +201,14 @@ fn top_down_phase<TA, TB>(
 {
     trace!("top_down_phase start");
 
-    // Priority queue: process nodes by height (descending)
+    // Priority queue: process nodes by height (descending), the latest first among equals
     // Higher nodes = larger subtrees = more valuable to match first
-    let mut candidates: Vec<(NodeId, NodeId)> = vec![(tree_a.root(), tree_b.root())];
+    let mut candidates: BinaryHeap<(usize, usize, NodeId, NodeId)> = BinaryHeap::new();
+    let (root_a, root_b) = (tree_a.root(), tree_b.root());
+    candidates.push((tree_a.height(root_a), 0, root_a, root_b));
+    let mut added = 0;
 
-    // Sort by height descending
-    candidates.sort_by(|a, b| {
-        let ha = tree_a.height(a.0);
-        let hb = tree_a.height(b.0);
-        hb.cmp(&ha)
-    });
-
-    while let Some((a_id, b_id)) = candidates.pop() {
+    while let Some((a_height, _, a_id, b_id)) = candidates.pop() {
         // Skip if already matched
         if matching.contains_a(a_id) || matching.contains_b(b_id) {
             continue;
@@ -223,7 +220,7 @@ fn top_down_phase<TA, TB>(
         let b_kind = tree_b.kind(b_id);
 
         // Skip small subtrees (leave for bottom-up)
-        if tree_a.height(a_id) < config.min_height {
+        if a_height < config.min_height {
             continue;
         }
 
@@ -252,6 +249,7 @@ fn top_down_phase<TA, TB>(
             for a_child in tree_a.children(a_id) {
                 let a_child_hash = tree_a.hash(a_child);
                 let a_child_kind = tree_a.kind(a_child);
+                let a_child_height = tree_a.height(a_child);
 
                 for b_child in tree_b.children(b_id) {
                     if !matching.contains_b(b_child) {
@@ -259,7 +257,8 @@ fn top_down_phase<TA, TB>(
                         let b_child_kind = tree_b.kind(b_child);
                         // Match by hash (exact isomorphism) or kind (structural match)
                         if a_child_hash == b_child_hash || a_child_kind == b_child_kind {
-                            candidates.push((a_child, b_child));
+                            added += 1;
+                            candidates.push((a_child_height, added, a_child, b_child));
                         }
                     }
                 }
-- 
2.43.0

