From 7c24ce14e8901a371c093ce1a717703e75a121fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 01/10] fix: check every step of an update proof against the
 old root

verify_update accepted any proof without a leaf as showing that a deletion
is a no-op, and any proof whose leaf hashes up to the old root as the
neighbour of an inserted key, so forged proofs could skip deletions or
insert at a wrong place (or crash on lengths). Deletions of missing keys
now carry the non-existence proof, and every step is verified.
---
 src/tree.rs                   | 25 +++++++-----------------
 src/types/proof/definition.rs | 36 +++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..f4071d7 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -744,15 +744,8 @@ where
                         merkle_proof,
                     )
                 } else {
-                    // If there was no changes, don't generate a proof
-                    (
-                        PutResult::NotChanged,
-                        if with_proof {
-                            Some(SparseMerkleProof::new(None, vec![]))
-                        } else {
-                            None
-                        },
-                    )
+                    // If there was no changes, the proof shows that the key doesn't exist
+                    (PutResult::NotChanged, merkle_proof)
                 }
             }
         };
@@ -761,14 +754,7 @@ where
         let mut children: Children = internal_node.into();
         match put_result {
             PutResult::NotChanged => {
-                return Ok((
-                    PutResult::NotChanged,
-                    if with_proof {
-                        Some(SparseMerkleProof::new(None, vec![]))
-                    } else {
-                        None
-                    },
-                ));
+                return Ok((PutResult::NotChanged, merkle_proof));
             }
             PutResult::Updated((_, new_node)) => {
                 // update child
@@ -970,7 +956,10 @@ where
             Ok((
                 PutResult::NotChanged,
                 if with_proof {
-                    Some(SparseMerkleProof::new(None, vec![]))
+                    Some(SparseMerkleProof::new(
+                        Some(existing_leaf_node.into()),
+                        vec![],
+                    ))
                 } else {
                     None
                 },
diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..176561d 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -308,6 +308,21 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         new_element_key: KeyHash,
         new_element_value: Option<V>,
     ) -> Result<RootHash> {
+        // First verify that the old merkle path is valid: it must show either the current leaf of
+        // the updated key, or that the key doesn't exist.
+        match &self.leaf {
+            Some(leaf_node) if leaf_node.key_hash == new_element_key => {
+                ensure!(
+                    self.siblings.len() <= 256,
+                    "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+                    256,
+                    self.siblings.len(),
+                );
+                ensure!(self.root_hash() == old_root_hash);
+            }
+            _ => self.verify_nonexistence(old_root_hash, new_element_key)?,
+        }
+
         if let Some(new_element_value) = new_element_value {
             // A value have been supplied, we need to prove that we inserted a given value at the new key
 
@@ -315,8 +330,6 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                 // In the case there is a leaf in the Merkle path, we check that this leaf exists in the tree
                 // The inserted key is going to update an existing leaf
                 Some(leaf_node) => {
-                    // First verify that the old merkle path is valid
-                    ensure!(self.root_hash() == old_root_hash);
                     if new_element_key == leaf_node.key_hash {
                         // Step 2: we compute the new Merkle path (we build a new [`SparseMerkleProof`] object)
                         // In this case the siblings are left unchanged, only the leaf value is updated
@@ -344,10 +357,6 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 // There is no leaf in the Merkle path, which means the key we are going to insert does not update an existing leaf
                 None => {
-                    ensure!(self
-                        .verify_nonexistence(old_root_hash, new_element_key)
-                        .is_ok());
-
                     // Step 2: we compute the new Merkle path (we build a new [`SparseMerkleProof`] object)
                     // In that case, the leaf is none so we don't need to change the siblings
                     let new_merkle_path: SparseMerkleProof<H> = SparseMerkleProof::new(
@@ -364,15 +373,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
             }
         } else {
             // No value supplied, we need to prove that the previous value was deleted
-            if let Some(leaf_node) = self.leaf {
-                ensure!(self.root_hash() == old_root_hash);
-                ensure!(
-                    new_element_key == leaf_node.key_hash,
-                    "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
-                    new_element_key,
-                    leaf_node.key_hash
-                );
-
+            if self
+                .leaf
+                .is_some_and(|leaf_node| leaf_node.key_hash == new_element_key)
+            {
                 // Step 2: we compute the new Merkle tree path.
                 // In case of deletion, we need to rewind the nibble until we reach the first non-default hash
                 // to simulate node coalescing.
@@ -475,7 +479,7 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 Ok(new_merkle_hash)
             } else {
-                // We just return the old root hash if we try to remove the empty node
+                // We just return the old root hash if we try to remove a key that doesn't exist
                 // because there isn't any changes to the merkle tree
                 Ok(old_root_hash)
             }
-- 
2.43.0


From 44899cc8e367b94fc75851f1a745500f0ed90b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 02/10] fix: reject range proofs with more than 256 siblings
 instead of panicking

---
 src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 176561d..ebfb6d6 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -658,6 +658,12 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 6b3e6156708a15d3fbf3d6a82262b2a39132ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 03/10] fix: keep exactly one live root node per version

A version that changes nothing got its root copied without marking the
previous root stale, an empty tree's null root was never marked stale when
replaced, and when the first version ever written (above 0) changed nothing
it had no root at all, so that it could not be read. Several such versions
in one call also lost track of the newest root. A deletion from a tree
emptied earlier in the same version let the next update start from whatever
root the storage held for the unwritten version. Bulk insertion failed on
storage that was never written to.
---
 src/tree.rs       | 14 ++++++++++----
 src/tree_cache.rs | 35 +++++++++++++++++------------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index f4071d7..55b0b4b 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -130,7 +130,12 @@ where
     ) -> Result<(NodeKey, Node)> {
         assert!(!kvs.is_empty());
 
-        let node = tree_cache.get_node(&node_key)?;
+        // As in `insert_at`, the root node of a tree that was never written to doesn't exist.
+        let (node, node_already_exists) = match tree_cache.get_node_option(&node_key)? {
+            Some(node) => (node, true),
+            None if node_key.nibble_path().is_empty() => (Node::Null, false),
+            None => bail!("Missing node at {:?}.", node_key),
+        };
         Ok(match node {
             Node::Internal(internal_node) => {
                 // We always delete the existing internal node here because it will not be referenced anyway
@@ -209,7 +214,8 @@ where
                     );
                 }
 
-                if node_key.version() == version {
+                // Delete the old null node, which will not be referenced any more
+                if node_already_exists {
                     tree_cache.delete_node(&node_key, false /* is_leaf */);
                 }
                 self.batch_create_subtree(
@@ -623,8 +629,8 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if root_node_key.version() == version && node_already_exists {
+                // Delete the old null node, unless it stays the root
+                if node_already_exists && (value.is_some() || version == 0) {
                     tree_cache.delete_node(&root_node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..d9202c3 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -288,18 +288,12 @@ where
 
     /// Freezes all the contents in cache to be immutable and clear `node_cache`.
     pub fn freeze<H: SimpleHasher>(&mut self) -> Result<()> {
-        let mut root_node_key = self.get_root_node_key().clone();
+        let old_root_node_key = self.get_root_node_key().clone();
+        let old_root_node = self.get_node_option(&old_root_node_key)?;
 
-        let root_node = if let Some(root_node) = self.get_node_option(&root_node_key)? {
-            root_node
-        } else {
-            // If the root node does not exist, then we need to set it to the null node and record
-            // that node hash as the root hash of this version. This will happen if you delete as
-            // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
-            self.put_node(root_node_key.clone(), Node::new_null())?;
-            Node::Null
-        };
+        // If the root node does not exist, then the tree is empty, and its root is the null node.
+        // This will happen if nothing was ever inserted into the tree.
+        let root_node = old_root_node.clone().unwrap_or_else(Node::new_null);
 
         // Insert the root node's hash into the list of root hashes in the frozen cache, so that
         // they can be extracted later after a sequence of transactions:
@@ -313,13 +307,18 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
-            && self.node_cache.is_empty()
-            && self.stale_node_index_cache.is_empty()
-        {
-            let root_node = self.get_node(&self.root_node_key)?;
-            root_node_key.set_version(self.next_version);
-            self.put_node(root_node_key, root_node)?;
+        // The previous root node is not referenced any more since this version.
+        if old_root_node_key.version() == self.next_version {
+            if old_root_node.is_none() {
+                self.put_node(old_root_node_key, root_node)?;
+            }
+        } else if self.node_cache.is_empty() && self.stale_node_index_cache.is_empty() {
+            if old_root_node.is_some() {
+                self.delete_node(&old_root_node_key, root_node.is_leaf());
+            }
+            let root_node_key = NodeKey::new_empty_path(self.next_version);
+            self.put_node(root_node_key.clone(), root_node)?;
+            self.set_root_node_key(root_node_key);
         }
 
         // Transfer all the state from this version of the cache into the immutable version of the
-- 
2.43.0


From 17003485b9d755b78719a965c5c5d937de545d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 04/10] fix: report an already restored or foreign store
 instead of panicking

---
 src/restore.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..aa9c9a6 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -168,7 +168,11 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         let tree_reader = Arc::clone(&store);
         let (partial_nodes, previous_leaf) =
             if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
-                // TODO: confirm rightmost leaf is at the desired version
+                ensure!(
+                    node_key.version() == version,
+                    "Storage holds a leaf of version {}, cannot restore version {version} there.",
+                    node_key.version(),
+                );
                 // If the system crashed in the middle of the previous restoration attempt, we need
                 // to recover the partial nodes to the state right before the crash.
                 (
@@ -229,6 +233,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The root node is already stored, so the restoration has completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From 0130cc8c1e2fc2329d1093edf506f5336fdcb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 05/10] fix: forget a rejected restore chunk entirely and never
 panic on it

---
 src/restore.rs | 81 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index aa9c9a6..642fa68 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -86,7 +86,25 @@ impl InternalInfo {
 
     /// Converts `self` to an internal node, assuming all of its children are already known and
     /// fully initialized.
-    fn into_internal_node<H: SimpleHasher>(mut self, version: Version) -> (NodeKey, InternalNode) {
+    ///
+    /// Fails if it does not have the children that an internal node must have, i.e. if there are
+    /// leaves missing in its subtree.
+    fn into_internal_node<H: SimpleHasher>(
+        mut self,
+        version: Version,
+    ) -> Result<(NodeKey, InternalNode)> {
+        let mut num_children = 0;
+        let mut has_internal_child = false;
+        for child_info in self.children.iter().flatten() {
+            num_children += 1;
+            has_internal_child |= matches!(child_info, ChildInfo::Internal { .. });
+        }
+        ensure!(
+            num_children > 1 || has_internal_child,
+            "Some keys below {:?} are missing.",
+            self.node_key,
+        );
+
         let mut children = Children::new();
 
         // Calling `into_iter` on an array is equivalent to calling `iter`:
@@ -97,7 +115,7 @@ impl InternalInfo {
             }
         }
 
-        (self.node_key, InternalNode::new(children))
+        Ok((self.node_key, InternalNode::new(children)))
     }
 }
 
@@ -303,6 +321,26 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     ) -> Result<()> {
         ensure!(!chunk.is_empty(), "Should not add empty chunks.");
 
+        let partial_nodes = self.partial_nodes.clone();
+        let previous_leaf = self.previous_leaf.clone();
+        let num_keys_received = self.num_keys_received;
+
+        let result = self.verify_and_write_chunk(chunk, proof);
+        self.frozen_nodes.clear();
+        if result.is_err() {
+            // Forget everything about the rejected chunk.
+            self.partial_nodes = partial_nodes;
+            self.previous_leaf = previous_leaf;
+            self.num_keys_received = num_keys_received;
+        }
+        result
+    }
+
+    fn verify_and_write_chunk(
+        &mut self,
+        chunk: Vec<(KeyHash, OwnedValue)>,
+        proof: SparseMerkleRangeProof<H>,
+    ) -> Result<()> {
         for (key, value) in chunk {
             if let Some(ref prev_leaf) = self.previous_leaf {
                 ensure!(
@@ -313,7 +351,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             let value_hash = ValueHash::with::<H>(value.as_slice());
             self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
+            self.add_one(key, value_hash)?;
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -322,21 +360,22 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         self.verify(proof)?;
 
         // Write the frozen nodes to storage.
-        self.store.write_node_batch(&self.frozen_nodes)?;
-        self.frozen_nodes.clear();
-
-        Ok(())
+        self.store.write_node_batch(&self.frozen_nodes)
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // After resuming, the subtree of the last stored leaf may be complete already.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Key belongs to a subtree that has already been restored.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -356,14 +395,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -379,6 +418,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -391,7 +432,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -444,7 +485,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -461,12 +502,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -501,10 +544,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
     /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
             let last_node = self.partial_nodes.pop().expect("This node must exist.");
-            let (node_key, internal_node) = last_node.into_internal_node::<H>(self.version);
+            let (node_key, internal_node) = last_node.into_internal_node::<H>(self.version)?;
             // Keep the hash of this node before moving it into `frozen_nodes`, so we can update
             // its parent later.
             let node_hash = internal_node.hash::<H>();
@@ -537,6 +580,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -681,7 +726,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From 8c375d9d2b89437b0af7a00206a4e6f6ae079b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 06/10] fix: finish a restore only if the tree has the expected
 root

---
 src/restore.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 642fa68..277d8fa 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -702,7 +702,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
-        // Deal with the special case when the entire tree has a single leaf.
+        let root_node_key = NodeKey::new_empty_path(self.version);
+
+        // Deal with the special cases when the entire tree has a single leaf or none at all.
+        let mut special_root = None;
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
             let mut leaf = None;
@@ -715,18 +718,32 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
 
-            if num_children == 1 {
-                if let Some(node) = leaf {
-                    let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
-                    self.frozen_nodes.insert_node(node_key, node.into());
-                    self.store.write_node_batch(&self.frozen_nodes)?;
-                    return Ok(());
-                }
+            if num_children == 0 {
+                special_root = Some(Node::new_null());
+            } else if num_children == 1 {
+                special_root = leaf.map(Node::from);
+            }
+        }
+
+        match special_root {
+            Some(node) => {
+                self.frozen_nodes.insert_node(root_node_key.clone(), node);
             }
+            None => self.freeze(0)?,
         }
 
-        self.freeze(0)?;
+        // The chunks only prove a prefix of the tree. Make sure that it is the whole tree before
+        // the root is written.
+        let root_hash = self
+            .frozen_nodes
+            .nodes()
+            .get(&root_node_key)
+            .map(|root| root.hash::<H>());
+        ensure!(
+            root_hash == Some(self.expected_root_hash.0),
+            "Root hash mismatch: the restoration is incomplete.",
+        );
+
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From 5256d07a57b7a1ebc4619e7c3c968d0776e0f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 07/10] fix: do not report nodes stale that an append may put
 under the same key

---
 src/tree_cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index d9202c3..9918468 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -276,6 +276,11 @@ where
         // If node cache doesn't have this node, it means the node is in the previous version of
         // the tree on the disk.
         if self.node_cache.remove(old_node_key).is_none() {
+            // When overwriting the latest version, its nodes can be replaced or created again under
+            // the same key, now or by another overwrite. They must not be pruned then.
+            if old_node_key.version() == self.next_version {
+                return;
+            }
             let is_new_entry = self.stale_node_index_cache.insert(old_node_key.clone());
             assert!(is_new_entry, "Node gets stale twice unexpectedly.");
             if is_leaf {
-- 
2.43.0


From 0b0a75ed2f73d1769562b730002cb8715a42e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 08/10] fix: append to the latest version whatever version its
 rightmost leaf is of

---
 src/tree_cache.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 9918468..eff2c5c 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -197,12 +197,21 @@ where
     /// increasing the tree version's number.
     pub fn new_overwrite(reader: &'a R, current_version: Version) -> Result<Self> {
         let node_cache = HashMap::new();
-        let Some((node_key, _)) = reader.get_rightmost_leaf()? else {
+        if reader.get_rightmost_leaf()?.is_none() {
             bail!("creating an overwrite cache for an empty tree is not supported")
         };
 
+        // The nodes of the latest version may be of any earlier version, except for its root node.
+        let is_version = |version| -> Result<bool> {
+            let root_node_key = NodeKey::new_empty_path(version);
+            Ok(reader.get_node_option(&root_node_key)?.is_some())
+        };
+        let has_next_version = match current_version.checked_add(1) {
+            Some(next_version) => is_version(next_version)?,
+            None => false,
+        };
         anyhow::ensure!(
-            node_key.version() == current_version,
+            is_version(current_version)? && !has_next_version,
             "the supplied version is not the latest version of the tree"
         );
 
-- 
2.43.0


From aa57868fa454b18bcc8cd3ff39b2eed46d96cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 09/10] fix: report a failing storage read while building a
 proof instead of panicking

---
 src/node_type.rs | 54 ++++++++++++++++++++++++++++++------------------
 src/tree.rs      | 30 +++++++++++++--------------
 2 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/src/node_type.rs b/src/node_type.rs
index e12bf1b..ed35f66 100644
--- a/src/node_type.rs
+++ b/src/node_type.rs
@@ -14,7 +14,7 @@ use crate::SimpleHasher;
 use alloc::format;
 use alloc::vec::Vec;
 use alloc::{boxed::Box, vec};
-use anyhow::Context;
+use anyhow::{Context, Result};
 use borsh::{BorshDeserialize, BorshSerialize};
 use num_derive::{FromPrimitive, ToPrimitive};
 #[cfg(any(test))]
@@ -508,13 +508,13 @@ impl InternalNode {
         start: u8,
         width: u8,
         (existence_bitmap, leaf_bitmap): (u16, u16),
-    ) -> SparseMerkleNode {
+    ) -> Result<SparseMerkleNode> {
         // Given a bit [start, 1 << nibble_height], return the value of that range.
         let (range_existence_bitmap, range_leaf_bitmap) =
             Self::range_bitmaps(start, width, (existence_bitmap, leaf_bitmap));
         if range_existence_bitmap == 0 {
             // No child under this subtree
-            SparseMerkleNode::Null
+            Ok(SparseMerkleNode::Null)
         } else if has_only_child(width, range_existence_bitmap, range_leaf_bitmap) {
             // Only 1 leaf child under this subtree or reach the lowest level
             let only_child_index = Nibble::from(range_existence_bitmap.trailing_zeros() as u8);
@@ -538,14 +538,13 @@ impl InternalNode {
                          the child of version {:?} at index {:x}.",
                         child.version, only_child_index
                     )
-                })
-                .unwrap();
+                })?;
 
             match child_node {
-                Node::Internal(node) => {
-                    SparseMerkleNode::Internal(SparseMerkleInternalNode::from::<H>(node))
-                }
-                Node::Leaf(node) => SparseMerkleNode::Leaf(SparseMerkleLeafNode::from(node)),
+                Node::Internal(node) => Ok(SparseMerkleNode::Internal(
+                    SparseMerkleInternalNode::from::<H>(node),
+                )),
+                Node::Leaf(node) => Ok(SparseMerkleNode::Leaf(SparseMerkleLeafNode::from(node))),
                 Node::Null => unreachable!("Impossible to get a null node at this location"),
             }
         } else {
@@ -559,7 +558,10 @@ impl InternalNode {
                 width / 2,
                 (range_existence_bitmap, range_leaf_bitmap),
             );
-            SparseMerkleNode::Internal(SparseMerkleInternalNode::new(left_child, right_child))
+            Ok(SparseMerkleNode::Internal(SparseMerkleInternalNode::new(
+                left_child,
+                right_child,
+            )))
         }
     }
 
@@ -679,7 +681,7 @@ impl InternalNode {
         node_key: &NodeKey,
         n: Nibble,
         get_only_child: bool,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         let mut siblings: Vec<SparseMerkleNode> = vec![];
         let (existence_bitmap, leaf_bitmap) = self.generate_bitmaps();
 
@@ -698,14 +700,14 @@ impl InternalNode {
                 sibling_half_start,
                 width,
                 (existence_bitmap, leaf_bitmap),
-            ));
+            )?);
 
             let (range_existence_bitmap, range_leaf_bitmap) =
                 Self::range_bitmaps(child_half_start, width, (existence_bitmap, leaf_bitmap));
 
             if range_existence_bitmap == 0 {
                 // No child in this range.
-                return (None, siblings);
+                return Ok((None, siblings));
             } else if get_only_child
                 && (has_only_child(width, range_existence_bitmap, range_leaf_bitmap))
             {
@@ -714,7 +716,7 @@ impl InternalNode {
                 // `None` because it's existence indirectly proves the n-th child doesn't exist.
                 // Please read proof format for details.
                 let only_child_index = Nibble::from(range_existence_bitmap.trailing_zeros() as u8);
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(only_child_index)
@@ -731,13 +733,13 @@ impl InternalNode {
                         Some(node_key.gen_child_node_key(only_child_version, only_child_index))
                     },
                     siblings,
-                );
+                ));
             } else if !get_only_child
                 && (has_child(width, range_existence_bitmap, n_bitmap, range_leaf_bitmap))
             {
                 // Early return the child in that subtree iff it is the only child and the nibble points
                 // to it
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(n)
@@ -754,7 +756,7 @@ impl InternalNode {
                         Some(node_key.gen_child_node_key(only_child_version, n))
                     },
                     siblings,
-                );
+                ));
             }
         }
         unreachable!("Impossible to get here without returning even at the lowest level.")
@@ -767,23 +769,35 @@ impl InternalNode {
         tree_cache: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         self.get_child_with_siblings_helper::<H>(tree_cache, node_key, n, false)
     }
 
-    /// [`get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
+    /// [`try_get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
     /// child in the largest width range pointed by n (see the helper function [`get_child_with_siblings_helper`] for more information).
     ///
     /// Even this leaf child is not the n-th child, it should be returned instead of
     /// `None` because it's existence indirectly proves the n-th child doesn't exist.
     /// Please read proof format for details.
+    pub(crate) fn try_get_only_child_with_siblings<H: SimpleHasher>(
+        &self,
+        tree_reader: &impl TreeReader,
+        node_key: &NodeKey,
+        n: Nibble,
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
+        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+    }
+
+    /// As [`try_get_only_child_with_siblings`], for a reader that does not fail.
+    #[cfg(test)]
     pub(crate) fn get_only_child_with_siblings<H: SimpleHasher>(
         &self,
         tree_reader: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
     ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
-        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+        self.try_get_only_child_with_siblings::<H>(tree_reader, node_key, n)
+            .unwrap()
     }
 
     #[cfg(test)]
diff --git a/src/tree.rs b/src/tree.rs
index 55b0b4b..534c1dc 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -678,7 +678,7 @@ where
                         tree_cache,
                         &node_key,
                         child_index,
-                    );
+                    )?;
                     (child_key.unwrap(), siblings)
                 } else {
                     (
@@ -715,19 +715,19 @@ where
                 // we are looking for.
                 let merkle_proof = if with_proof {
                     let (child_key_opt, mut siblings) = internal_node
-                        .get_only_child_with_siblings::<H>(tree_cache, &node_key, child_index);
-
-                    let leaf: Option<SparseMerkleLeafNode> = child_key_opt.map(|child_key|
-                    {
-                        // We should be able to find the node in the case
-                        let node = tree_cache.get_node(&child_key).expect("this node should be in the cache");
-                        match node {
-                            Leaf(leaf_node) => {
-                                leaf_node.into()
-                            },
+                        .try_get_only_child_with_siblings::<H>(
+                            tree_cache,
+                            &node_key,
+                            child_index,
+                        )?;
+
+                    let leaf: Option<SparseMerkleLeafNode> = match child_key_opt {
+                        Some(child_key) => match tree_cache.get_node(&child_key)? {
+                            Leaf(leaf_node) => Some(leaf_node.into()),
                             _ => unreachable!("get_only_child_with_siblings should return a leaf node in that case")
-                        }
-                    });
+                        },
+                        None => None,
+                    };
 
                     siblings.reverse();
                     Some(SparseMerkleProof::new(leaf, siblings))
@@ -1026,11 +1026,11 @@ where
                         .ok_or_else(|| format_err!("ran out of nibbles"))?;
 
                     let (child_node_key, mut siblings_in_internal) = internal_node
-                        .get_only_child_with_siblings::<H>(
+                        .try_get_only_child_with_siblings::<H>(
                             self.reader,
                             &next_node_key,
                             queried_child_index,
-                        );
+                        )?;
 
                     siblings.append(&mut siblings_in_internal);
                     next_node_key = match child_node_key {
-- 
2.43.0


From 8c919e12e9e40eb40f3290c5d2bd116228dc785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 10/10] fix: let an iterator over a single leaf be retried
 after a failing read

---
 src/iterator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iterator.rs b/src/iterator.rs
index a58638b..0c5fb7e 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -290,12 +290,14 @@ where
                     // is greater or equal to `starting_key` (otherwise we would have set `done` to
                     // true in `new`). Return the node and mark `self.done` so next time we return
                     // None.
-                    self.done = true;
                     return match self
                         .reader
                         .get_value(root_node_key.version(), leaf_node.key_hash())
                     {
-                        Ok(value) => Some(Ok((leaf_node.key_hash(), value))),
+                        Ok(value) => {
+                            self.done = true;
+                            Some(Ok((leaf_node.key_hash(), value)))
+                        }
                         Err(e) => Some(Err(e)),
                     };
                 }
-- 
2.43.0

