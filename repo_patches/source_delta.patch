From 9db389e822915a1863e99caa8567144659006937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 01/10] fix: release the nodes when dropping an IntoIter
 unwinds

When the drop of one of the remaining items panicked, the tree was left
rooted on nodes whose items had already been moved out, and the drop glue
then dropped those items a second time.
---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..6d43865 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -890,7 +890,17 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Releases the nodes without dropping their items, all of which have
+		/// been moved out, even if dropping one of the items panics.
+		struct Forget<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<'a, T, S: Storage<T>> Drop for Forget<'a, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget()
+			}
+		}
+
+		let guard = Forget(self);
+		let _ = guard.0.by_ref().last();
 	}
 }
-- 
2.43.0


From d70066361d1e525f7a78d44f79e8e3ec1c40bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 02/10] fix: detach the nodes before dropping them in clear

When dropping an item panicked, clear unwound with the root still pointing
to the nodes it had already released: any later use of the tree, including
dropping it, accessed freed nodes and dropped items twice.
---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6d43865..35cb87a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,12 +467,21 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// Detach the nodes first, so that they are not reachable anymore if
+		// dropping an item panics.
+		let root = self.root.take();
 		self.len = 0;
+
+		if let Some(root_id) = root {
+			if let Some(mut dropper) = self.nodes.start_dropping() {
+				let root_node = unsafe { self.nodes.get(root_id) };
+				root_node
+					.visit_from_leaves(&self.nodes, &mut |id| unsafe { dropper.drop_node(id) });
+				unsafe { dropper.drop_node(root_id) }
+			}
+		}
+
 		self.nodes = S::default();
 	}
 
-- 
2.43.0


From 8d4d3b2d3cdd06603e4e706f24606c9f56dd98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 03/10] fix: allocate the split nodes before inserting an item

Splitting an overflowing node moved half of its items out before asking
the storage for the new node: if the storage panicked (for instance because
it is full), these items were lost and the tree was left unbalanced, with a
wrong length. The nodes are now allocated before the tree is modified, and
released if one of the allocations panics.
---
 src/balancing.rs | 27 ++++++++++++++++++++----
 src/node/mod.rs  | 11 +++++++++-
 src/storage.rs   | 54 ++++++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 83 insertions(+), 9 deletions(-)

diff --git a/src/balancing.rs b/src/balancing.rs
index 08578c6..3524b94 100644
--- a/src/balancing.rs
+++ b/src/balancing.rs
@@ -2,18 +2,25 @@ use std::cmp::Ordering;
 
 use crate::{
 	node::{Address, Balance, WouldUnderflow},
-	Node, Storage,
+	utils::Array,
+	Node, Storage, M,
 };
 
+/// Rebalances the tree, starting from the node `id`.
+///
+/// The `spare_nodes` are allocated nodes used to split the overflowing nodes.
+///
 /// # Safety
 ///
-/// Input nodes must not have been deallocated.
+/// - Input nodes must not have been deallocated.
+/// - There must be exactly as many spare nodes as required by the splits.
 #[inline]
 pub unsafe fn rebalance<T, S: Storage<T>>(
 	tree: &mut S,
 	mut root: Option<S::Node>,
 	mut id: S::Node,
 	mut addr: Address<S::Node>,
+	mut spare_nodes: Vec<S::Node>,
 ) -> (Option<S::Node>, Option<Address<S::Node>>) {
 	let mut balance = tree.get(id).balance();
 
@@ -23,7 +30,7 @@ pub unsafe fn rebalance<T, S: Storage<T>>(
 			Balance::Overflow => {
 				assert!(!tree.get_mut(id).is_underflowing());
 				let (median_offset, median, right_node) = tree.get_mut(id).split();
-				let right_id = tree.insert_node(right_node);
+				let right_id = fill_node(tree, spare_nodes.pop().unwrap(), right_node);
 
 				match tree.get(id).parent() {
 					Some(parent_id) => {
@@ -58,7 +65,7 @@ pub unsafe fn rebalance<T, S: Storage<T>>(
 					None => {
 						let left_id = id;
 						let new_root = Node::binary(None, left_id, median, right_id);
-						let root_id = tree.insert_node(new_root);
+						let root_id = fill_node(tree, spare_nodes.pop().unwrap(), new_root);
 
 						root = Some(root_id);
 						tree.get_mut(left_id).set_parent(Some(root_id));
@@ -144,6 +151,18 @@ pub unsafe fn rebalance<T, S: Storage<T>>(
 	(root, addr)
 }
 
+/// Stores `node` in the allocated node `id`, setting the children parent.
+#[inline]
+unsafe fn fill_node<T, S: Storage<T>>(tree: &mut S, id: S::Node, node: Node<T, S>) -> S::Node {
+	let children: Array<S::Node, M> = node.children().collect();
+	*tree.get_mut(id) = node;
+	for child_id in children {
+		tree.get_mut(child_id).set_parent(Some(id));
+	}
+
+	id
+}
+
 /// Try to rotate left the node `id` to benefits the child number `deficient_child_index`.
 ///
 /// Returns true if the rotation succeeded, of false if the target child has no right sibling,
diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..b174f47 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -8,7 +8,7 @@ pub use addr::Address;
 pub use internal::Internal as InternalNode;
 pub use leaf::Leaf as LeafNode;
 
-use crate::Storage;
+use crate::{Storage, M};
 
 /// Offset in a node.
 #[derive(Clone, Copy, PartialEq, Eq, Hash)]
@@ -192,6 +192,15 @@ impl<T, S: Storage<T>> Node<T, S> {
 		}
 	}
 
+	/// Checks if the insertion of an item in this node would make it overflow.
+	#[inline]
+	pub fn is_full(&self) -> bool {
+		match self {
+			Node::Internal(node) => node.item_count() + 1 >= M,
+			Node::Leaf(leaf) => leaf.item_count() + 1 > M,
+		}
+	}
+
 	#[inline]
 	pub fn parent(&self) -> Option<S::Node> {
 		match self {
diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..1cf96c3 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -1,6 +1,6 @@
 use crate::{
 	balancing::rebalance,
-	node::{Address, Offset},
+	node::{Address, LeafNode, Offset},
 	utils::Array,
 	Node, M,
 };
@@ -404,9 +404,13 @@ pub unsafe trait Storage<T>: Default {
 	) -> (Option<Self::Node>, Option<Address<Self::Node>>) {
 		match addr {
 			Some(addr) => {
+				// Allocate the nodes needed to split the overflowing ones before
+				// modifying the tree: it must stay as it is if the storage
+				// panics.
+				let spare_nodes = allocate_split_nodes(self, addr.node);
 				self.get_mut(addr.node)
 					.insert(addr.offset, item, opt_right_id);
-				rebalance(self, root, addr.node, addr)
+				rebalance(self, root, addr.node, addr, spare_nodes)
 			}
 			None => {
 				let new_root = Node::leaf(None, item);
@@ -441,7 +445,7 @@ pub unsafe trait Storage<T>: Default {
 		match self.get_mut(addr.node).leaf_remove(addr.offset) {
 			Some(Ok(item)) => {
 				// removed from a leaf.
-				let (new_root, new_addr) = rebalance(self, root, addr.node, addr);
+				let (new_root, new_addr) = rebalance(self, root, addr.node, addr, Vec::new());
 				Some(RemovedItem {
 					new_root,
 					item,
@@ -453,7 +457,7 @@ pub unsafe trait Storage<T>: Default {
 				let new_addr = self.next_item_or_back_address(addr).unwrap();
 				let (separator, leaf_id) = self.remove_rightmost_leaf_of(left_child_id);
 				let item = self.get_mut(addr.node).replace(addr.offset, separator);
-				let (new_root, new_addr) = rebalance(self, root, leaf_id, new_addr);
+				let (new_root, new_addr) = rebalance(self, root, leaf_id, new_addr, Vec::new());
 				Some(RemovedItem {
 					new_root,
 					item,
@@ -482,6 +486,48 @@ pub unsafe trait Storage<T>: Default {
 	}
 }
 
+/// Allocates the (empty) nodes that are required to split the nodes that will
+/// overflow once an item is inserted in the node `id`.
+///
+/// # Safety
+///
+/// Input node must not have been deallocated.
+unsafe fn allocate_split_nodes<T, S: Storage<T>>(nodes: &mut S, mut id: S::Node) -> Vec<S::Node> {
+	/// Releases the allocated nodes on panic.
+	struct Guard<'a, T, S: Storage<T>>(&'a mut S, Vec<S::Node>);
+
+	impl<'a, T, S: Storage<T>> Drop for Guard<'a, T, S> {
+		fn drop(&mut self) {
+			for id in self.1.drain(..) {
+				unsafe { self.0.release_node(id) };
+			}
+		}
+	}
+
+	let mut count = 0;
+	while nodes.get(id).is_full() {
+		count += 1;
+		match nodes.get(id).parent() {
+			Some(parent_id) => id = parent_id,
+			None => {
+				// the root is split, which adds a new root.
+				count += 1;
+				break;
+			}
+		}
+	}
+
+	let mut guard = Guard(nodes, Vec::with_capacity(count));
+	for _ in 0..count {
+		let id = guard
+			.0
+			.allocate_node(Node::Leaf(LeafNode::new(None, Array::new())));
+		guard.1.push(id)
+	}
+
+	std::mem::take(&mut guard.1)
+}
+
 pub struct RemovedItem<T, S: Storage<T>> {
 	pub new_root: Option<S::Node>,
 	pub item: T,
-- 
2.43.0


From 97cd0476e9f960c2e628fa84b10e8d5e9a291bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 04/10] fix: reading or removing at a 'before' address panicked

The address before the first item of a node is valid, and returned by
previous_front_address. Reading at it in an internal node and removing at it
panicked instead of returning None.
---
 src/node/internal.rs | 8 ++++----
 src/node/mod.rs      | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..a488c03 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,16 +276,16 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
-			Some(b) => Some(&b.item),
+		match offset.value() {
+			Some(offset) => self.other_children.get(offset).map(|b| &b.item),
 			None => None,
 		}
 	}
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
-			Some(b) => Some(&mut b.item),
+		match offset.value() {
+			Some(offset) => self.other_children.get_mut(offset).map(|b| &mut b.item),
 			None => None,
 		}
 	}
diff --git a/src/node/mod.rs b/src/node/mod.rs
index b174f47..2830da6 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -425,6 +425,10 @@ impl<T, S: Storage<T>> Node<T, S> {
 
 	#[inline]
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
+		if offset.is_before() {
+			return None;
+		}
+
 		match self {
 			Node::Internal(node) => {
 				if offset < node.item_count() {
-- 
2.43.0


From 931e9ae429f5436eb3a8aea3750a07ea73fa6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 05/10] fix: previous_item_address panicked on 'before'
 addresses

---
 src/storage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 1cf96c3..6041df6 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -132,8 +132,7 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match addr.offset.value().and_then(|i| node.child_id_opt(i)) {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From e0a3f3619160fd203a63445adf0a818aaa2d8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 06/10] fix: normalize left 'before' addresses as they are
 instead of moving to the next item

---
 src/storage.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 6041df6..11b09a7 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -81,6 +81,15 @@ pub unsafe trait Storage<T>: Default {
 	///
 	/// Input address's node must not have been deallocated.
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
+		if addr.offset.is_before() {
+			// the next item is the first one below the node.
+			while let Some(child_id) = self.get(addr.node).child_id_opt(0) {
+				addr.node = child_id
+			}
+
+			addr.offset = 0.into()
+		}
+
 		loop {
 			let node = self.get(addr.node);
 			if addr.offset >= node.item_count() {
-- 
2.43.0


From 5d19fb5087e3dca1fde7940c359a82af3c227a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 07/10] fix: next_item_address went back into the last child
 from the back of an internal node

The address following the last item of a node comes after its last child (this
is where next_back_address leads), but next_item_address and
next_item_or_back_address descended again into this child.
---
 src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 11b09a7..cfd8312 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -229,7 +229,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// already after the last item (and child) of the node.
+			_ => return self.normalize(addr),
 		}
 
 		// let original_addr_shifted = addr;
@@ -330,7 +331,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// already after the last item (and child) of the node.
+			_ => return self.normalize(addr).or(Some(addr)),
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 481df3cc0104cf0b5b3680c600aa8af8474ae8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 08/10] fix: searching a node without items panicked

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From 128342b08bc48f8b7697882a02536a313e075b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 09/10] fix: pop_right returned the offset after the popped
 item

---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index a488c03..d3d8c32 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,8 +441,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
 			let last = self.other_children.pop().unwrap();
+			let offset = self.other_children.len();
 			Ok(RightBranch {
 				offset: offset.into(),
 				item: last.item,
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..89c084e 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,8 +200,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
 			let item = self.items.pop().unwrap();
+			let offset = self.items.len();
 			Ok((offset.into(), item))
 		}
 	}
-- 
2.43.0


From a46306471bceb1336d0f39293a88bb7b272a4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 10/10] fix: a rejected insertion leaked the nodes allocated
 for it

---
 src/storage.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index cfd8312..4395c50 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -414,6 +414,18 @@ pub unsafe trait Storage<T>: Default {
 	) -> (Option<Self::Node>, Option<Address<Self::Node>>) {
 		match addr {
 			Some(addr) => {
+				// Reject the insertion before allocating anything, or the
+				// allocated nodes would be lost.
+				let node = self.get(addr.node);
+				assert!(
+					addr.offset.unwrap() <= node.item_count(),
+					"cannot insert out of bounds"
+				);
+				assert!(
+					node.child_count() == 0 || opt_right_id.is_some(),
+					"cannot insert in an internal node without a right child"
+				);
+
 				// Allocate the nodes needed to split the overflowing ones before
 				// modifying the tree: it must stay as it is if the storage
 				// panics.
-- 
2.43.0

