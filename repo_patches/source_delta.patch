From b16b6a487900b151c460f5e7ec14a49bed31dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 1/5] fix: compare every byte up to the split index when
 looking for descendants

The byte holding the last bits before the split index was skipped when
the minimum split index was further into its byte than the split index,
so that keys which do not belong under a branch were sent down it and
keys which do could be looked up on the wrong side.
---
 src/utils/tree_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/tree_utils.rs b/src/utils/tree_utils.rs
index 3e4ecac..d07c026 100644
--- a/src/utils/tree_utils.rs
+++ b/src/utils/tree_utils.rs
@@ -86,7 +86,7 @@ pub fn check_descendants<'keys, const N: usize>(
     for (i, k) in keys.iter().enumerate() {
         let key = k.as_ref();
         let mut descendant = true;
-        for j in (min_split_index..branch_split_index).step_by(8) {
+        for j in (min_split_index & !7..branch_split_index).step_by(8) {
             let byte = j >> 3_usize;
             if branch_key[byte] == key[byte] {
                 continue;
-- 
2.43.0


From 77ab041fe9b2271543849aef45c11fec5936e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 2/5] fix: apply the depth limit of get to get_one and
 generate_inclusion_proof

Both counted the data node under a leaf as one more level, and so failed
for a leaf at exactly the maximum depth, which get returns.
---
 src/merkle_bit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index dca2bd1..cdf2007 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -673,7 +673,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut found_leaf = false;
         let mut depth = 0;
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // As in `get`, the step from a leaf to its data does not count towards the depth
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
@@ -818,7 +819,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut depth = 0;
 
         while let Some(location) = nodes.pop_front() {
-            if depth > self.depth {
+            // As in `get`, the step from a leaf to its data does not count towards the depth
+            if depth > self.depth && !found_leaf {
                 return Err(Exception::new("Depth limit exceeded"));
             }
             depth += 1;
-- 
2.43.0


From 0c25c86a5cf5c408b10153a37949c4478e7f3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 3/5] fix: do not allocate for the maximum depth when
 generating a proof

A tree with a very large depth limit panicked or aborted here.
---
 src/merkle_bit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index cdf2007..0e4f1b2 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -665,10 +665,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         root: &Array<N>,
         key: Array<N>,
     ) -> BinaryMerkleTreeResult<Vec<(Array<N>, bool)>> {
-        let mut nodes = VecDeque::with_capacity(self.depth);
+        let mut nodes = VecDeque::with_capacity(3);
         nodes.push_front(*root);
 
-        let mut proof = Vec::with_capacity(self.depth);
+        let mut proof = Vec::new();
 
         let mut found_leaf = false;
         let mut depth = 0;
-- 
2.43.0


From e14c20b68a4a9d5ccad7003d5cba07ff5a684c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 4/5] fix: deserialize Array from the sequence it is serialized
 as

Only bincode could read back the keys and locations in a branch or leaf,
the other formats do not accept a sequence in place of bytes.
---
 src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6655a89..381ea47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -78,7 +78,7 @@
 //! you make implementations for the `Branch`, `Leaf`, and `Data` traits.
 
 #[cfg(feature = "serde")]
-use serde::de::{Error, Visitor};
+use serde::de::{Error, SeqAccess, Visitor};
 #[cfg(feature = "serde")]
 use serde::ser::SerializeSeq;
 #[cfg(feature = "serde")]
@@ -249,12 +249,27 @@ impl<'de, const N: usize> Visitor<'de> for ArrayVisitor<N> {
 
         Ok(value)
     }
+
+    #[inline]
+    fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
+        let mut value = Array::default();
+        for i in 0..N {
+            value[i] = seq
+                .next_element()?
+                .ok_or_else(|| Error::invalid_length(i, &self))?;
+        }
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(Error::invalid_length(N + 1, &self));
+        }
+
+        Ok(value)
+    }
 }
 
 #[cfg(feature = "serde")]
 impl<'de, const N: usize> Deserialize<'de> for Array<N> {
     #[inline]
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ArrayVisitor)
+        deserializer.deserialize_seq(ArrayVisitor)
     }
 }
-- 
2.43.0


From 87953c5857f07c73ae2634d6d9a6dbdee6dd1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 5/5] fix: count one reference per parent and write an insert
 only once it is complete

An insert re-created branches that were already stored with a reference count
of one, counted references to nodes it only visited, and wrote level by level
before it knew whether it would succeed.  Removing one root could then destroy
nodes of another, removed roots stayed readable, and rejected or interrupted
inserts changed the storage.
---
 src/merkle_bit.rs | 149 ++++++++++++++++++++++------------------------
 1 file changed, 70 insertions(+), 79 deletions(-)

diff --git a/src/merkle_bit.rs b/src/merkle_bit.rs
index 0e4f1b2..c761f0b 100644
--- a/src/merkle_bit.rs
+++ b/src/merkle_bit.rs
@@ -23,6 +23,9 @@ use crate::utils::tree_utils::{
 /// A generic `Result` from an operation involving a `MerkleBIT`
 pub type BinaryMerkleTreeResult<T> = Result<T, Exception>;
 
+/// The nodes of a tree being built, by location, along with the locations each of them points to.
+type NewNodes<NodeType, const N: usize> = HashMap<Array<N>, (NodeType, Vec<Array<N>>)>;
+
 /// A trait collecting all the associated types for the `Merkle-BIT`.
 pub trait MerkleTree<const N: usize> {
     /// The type to use for database-like operations.  `Database` must implement the `Database` trait.
@@ -202,7 +205,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
         keys.sort_unstable();
 
-        let nodes = self.insert_leaves(keys, &value_map)?;
+        let mut new_nodes = HashMap::new();
+        let nodes = Self::create_leaves(keys, &value_map, &mut new_nodes)?;
 
         let mut tree_refs = Vec::with_capacity(keys.len());
         let mut key_map = HashMap::new();
@@ -217,7 +221,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             tree_refs.append(&mut proof_nodes);
         }
 
-        let new_root = self.create_tree(tree_refs)?;
+        let new_root = Self::create_tree(tree_refs, &mut new_nodes)?;
+        self.write_tree(new_root, new_nodes)?;
         Ok(new_root)
     }
 
@@ -225,7 +230,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     fn generate_treerefs(
-        &mut self,
+        &self,
         root: &Array<N>,
         keys: &mut [Array<N>],
         key_map: &HashMap<Array<N>, Array<N>>,
@@ -250,7 +255,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
     /// Traverse the tree and append proof nodes
     fn traverse_tree(
-        &mut self,
+        &self,
         key_map: &HashMap<Array<N>, Array<N>>,
         proof_nodes: &mut Vec<TreeRef<N>>,
         cell_queue: &mut VecDeque<TreeCell<M::Node, N>>,
@@ -264,24 +269,13 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             let depth = tree_cell.depth;
             let location = tree_cell.location;
 
-            let mut refs = node.get_references();
             let branch = match node.get_variant() {
                 NodeVariant::Branch(n) => n,
                 NodeVariant::Leaf(n) => {
                     let key = n.get_key();
-                    let mut update = false;
 
                     // Check if we are updating an existing value
-                    if let Some(loc) = key_map.get(key) {
-                        update = loc == &location;
-                        if !update {
-                            continue;
-                        }
-                    }
-
-                    self.insert_leaf(&location)?;
-
-                    if update {
+                    if key_map.contains_key(key) {
                         continue;
                     }
 
@@ -312,18 +306,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 )?;
 
                 if descendants.is_empty() {
-                    let mut new_branch = M::Branch::new();
-                    new_branch.set_count(branch_count);
-                    new_branch.set_zero(branch_zero);
-                    new_branch.set_one(branch_one);
-                    new_branch.set_split_index(branch_split_index);
-                    new_branch.set_key(branch_key);
-
-                    let tree_ref = TreeRef::new(branch_key, tree_cell.location, branch_count, 1);
-                    refs += 1;
-                    let mut new_node = M::Node::new(NodeVariant::Branch(new_branch));
-                    new_node.set_references(refs);
-                    self.db.insert(tree_ref.location, new_node)?;
+                    let tree_ref = TreeRef::new(branch_key, location, branch_count, 1);
                     proof_nodes.push(tree_ref);
                     continue;
                 }
@@ -347,25 +330,12 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Ok(())
     }
 
-    /// Inserts a leaf into the DB
-    fn insert_leaf(&mut self, location: &Array<N>) -> BinaryMerkleTreeResult<()> {
-        if let Some(mut l) = self.db.get_node(*location)? {
-            let leaf_refs = l.get_references() + 1;
-            l.set_references(leaf_refs);
-            self.db.insert(*location, l)?;
-            return Ok(());
-        }
-        Err(Exception::new(
-            "Corrupt merkle tree: Failed to update leaf references",
-        ))
-    }
-
     /// Splits nodes during tree traversal into either zeros or ones, depending on the selected bit
     /// from the index
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
     fn split_nodes<'node_list>(
-        &mut self,
+        &self,
         depth: usize,
         branch: Array<N>,
         node_list: &'node_list [Array<N>],
@@ -374,18 +344,14 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             return if node_list.is_empty() {
                 let other_key;
                 let count;
-                let refs = node.get_references() + 1;
-                let mut new_node;
                 match node.get_variant() {
                     NodeVariant::Branch(b) => {
                         count = b.get_count();
                         other_key = *b.get_key();
-                        new_node = M::Node::new(NodeVariant::Branch(b));
                     }
                     NodeVariant::Leaf(l) => {
                         count = 1;
                         other_key = *l.get_key();
-                        new_node = M::Node::new(NodeVariant::Leaf(l));
                     }
                     NodeVariant::Data(_) => {
                         return Err(Exception::new(
@@ -393,8 +359,6 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                         ));
                     }
                 }
-                new_node.set_references(refs);
-                self.db.insert(branch, new_node)?;
                 let tree_ref = TreeRef::new(other_key, branch, count, 1);
                 Ok(SplitNodeType::Ref(tree_ref))
             } else {
@@ -410,12 +374,11 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         Err(Exception::new("Failed to find node in database."))
     }
 
-    /// Inserts all the new leaves into the database.
-    /// Updates reference count if a leaf already exists.
-    fn insert_leaves(
-        &mut self,
+    /// Creates the leaf and data nodes of the items to insert.
+    fn create_leaves(
         keys: &[Array<N>],
         values: &HashMap<Array<N>, &M::Value>,
+        new_nodes: &mut NewNodes<M::Node, N>,
     ) -> BinaryMerkleTreeResult<Vec<Array<N>>> {
         let mut nodes = Vec::with_capacity(keys.len());
         for k in keys.iter() {
@@ -430,8 +393,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             data_hasher.update(data.get_value());
             let data_node_location = data_hasher.finalize();
 
-            let mut data_node = M::Node::new(NodeVariant::Data(data));
-            data_node.set_references(1);
+            let data_node = M::Node::new(NodeVariant::Data(data));
 
             // Create leaf node
             let mut leaf = M::Leaf::new();
@@ -444,21 +406,10 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             leaf_hasher.update(leaf.get_data().as_ref());
             let leaf_node_location = leaf_hasher.finalize();
 
-            let mut leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
-            leaf_node.set_references(1);
-
-            if let Some(n) = self.db.get_node(data_node_location)? {
-                let references = n.get_references() + 1;
-                data_node.set_references(references);
-            }
-
-            if let Some(n) = self.db.get_node(leaf_node_location)? {
-                let references = n.get_references() + 1;
-                leaf_node.set_references(references);
-            }
+            let leaf_node = M::Node::new(NodeVariant::Leaf(leaf));
 
-            self.db.insert(data_node_location, data_node)?;
-            self.db.insert(leaf_node_location, leaf_node)?;
+            new_nodes.insert(data_node_location, (data_node, vec![]));
+            new_nodes.insert(leaf_node_location, (leaf_node, vec![data_node_location]));
 
             nodes.push(leaf_node_location);
         }
@@ -470,13 +421,15 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// # Errors
     /// `Exception` generated when `tree_refs` is empty or an invalid state is encountered during
     /// tree traversal
-    fn create_tree(&mut self, mut tree_refs: Vec<TreeRef<N>>) -> BinaryMerkleTreeResult<Array<N>> {
+    fn create_tree(
+        mut tree_refs: Vec<TreeRef<N>>,
+        new_nodes: &mut NewNodes<M::Node, N>,
+    ) -> BinaryMerkleTreeResult<Array<N>> {
         if tree_refs.is_empty() {
             return Err(Exception::new("tree_refs should not be empty!"));
         }
 
         if tree_refs.len() == 1 {
-            self.db.batch_write()?;
             let node = tree_refs.remove(0);
             return Ok(node.location);
         }
@@ -492,7 +445,7 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut root = None;
         for i in indices.into_iter().rev() {
             if let Some(level) = tree_ref_queue.remove(&i) {
-                root = self.merge_nodes(&mut tree_refs, level)?;
+                root = Self::merge_nodes(&mut tree_refs, level, new_nodes)?;
             } else {
                 return Err(Exception::new("Level should not be empty."));
             }
@@ -518,9 +471,9 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
     /// ```
     /// If the two nodes are not adjacent, find the other node by following the pointer trail.
     fn merge_nodes(
-        &mut self,
         tree_refs: &mut [TreeRef<N>],
         level: Vec<(usize, usize, usize)>,
+        new_nodes: &mut NewNodes<M::Node, N>,
     ) -> BinaryMerkleTreeResult<Option<Array<N>>> {
         #[cfg(feature = "serde")]
         let mut root = Array::default();
@@ -571,10 +524,11 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
                 branch.set_key(tree_ref_key);
             }
 
-            let mut branch_node = M::Node::new(NodeVariant::Branch(branch));
-            branch_node.set_references(1);
-
-            self.db.insert(branch_node_location, branch_node)?;
+            let branch_node = M::Node::new(NodeVariant::Branch(branch));
+            new_nodes.insert(
+                branch_node_location,
+                (branch_node, vec![tree_ref_location, next_tree_ref_location]),
+            );
 
             {
                 tree_refs[lookahead_tree_ref_pointer].key = tree_ref_key;
@@ -587,10 +541,45 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
 
             root = branch_node_location;
         }
-        self.db.batch_write()?;
         Ok(Some(root))
     }
 
+    /// Adds a reference to the given root, and writes the nodes beneath it that are not in the
+    /// database yet.  A node which is already there holds the references to the nodes it points to,
+    /// so that it is the only one to gain a reference.
+    /// # Errors
+    /// `Exception` generated when a node is missing or the database fails.
+    fn write_tree(
+        &mut self,
+        root: Array<N>,
+        mut new_nodes: NewNodes<M::Node, N>,
+    ) -> BinaryMerkleTreeResult<()> {
+        let mut nodes = Vec::with_capacity(new_nodes.len());
+        let mut locations = vec![root];
+
+        while let Some(location) = locations.pop() {
+            let mut references = 1;
+            let mut node;
+            if let Some(n) = self.db.get_node(location)? {
+                references += n.get_references();
+                node = n;
+            } else if let Some((n, pointers)) = new_nodes.remove(&location) {
+                locations.extend(pointers);
+                node = n;
+            } else {
+                return Err(Exception::new("Failed to find node in database."));
+            }
+            node.set_references(references);
+            nodes.push((location, node));
+        }
+
+        // A node is written after those it points to, in case the writes are interrupted
+        for (location, node) in nodes.into_iter().rev() {
+            self.db.insert(location, node)?;
+        }
+        self.db.batch_write()
+    }
+
     /// Remove all items with less than 1 reference under the given root.
     /// # Errors
     /// `Exception` generated when an invalid state is encountered during tree traversal.
@@ -887,7 +876,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
         let mut value_map = HashMap::new();
         value_map.insert(*key, value);
 
-        let leaf_location = self.insert_leaves(&[*key], &value_map)?[0];
+        let mut new_nodes = HashMap::new();
+        let leaf_location = Self::create_leaves(&[*key], &value_map, &mut new_nodes)?[0];
 
         let mut tree_refs = Vec::with_capacity(1);
         let mut key_map = HashMap::new();
@@ -901,7 +891,8 @@ impl<M: MerkleTree<N>, const N: usize> MerkleBIT<M, N> {
             tree_refs.append(&mut proof_nodes);
         }
 
-        let new_root = self.create_tree(tree_refs)?;
+        let new_root = Self::create_tree(tree_refs, &mut new_nodes)?;
+        self.write_tree(new_root, new_nodes)?;
         Ok(new_root)
     }
 
-- 
2.43.0

