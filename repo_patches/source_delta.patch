From 5f133e68d38f32a31c597697a5046d27f18ca772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 01/10] fix: dense_map decides key equality with the
 comparator, not operator==

---
 include/fast_containers/dense_map.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..f1d4f5f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -367,7 +367,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -388,7 +388,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -442,7 +442,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -462,7 +462,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -697,7 +697,7 @@ std::pair<
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From e0f1ccb9a17573a274b30cfdbc0c39ecb8efaeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 02/10] fix: dense_map insertion builds the new element before
 moving existing ones

Arguments that refer to elements of the same map were read after the shift,
a throwing copy lost the last element, and try_emplace constructed over a
live object, leaking what a vacated slot still owned.
---
 include/fast_containers/dense_map.hpp |  4 +--
 include/fast_containers/dense_map.ipp | 50 ++++++++++++---------------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..74adae8 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -442,10 +442,10 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename OnInsert>
+  template <typename OnExists, typename MakeValue>
   std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
                                         OnExists&& on_exists,
-                                        OnInsert&& on_insert);
+                                        MakeValue&& make_value);
 
 #ifdef __AVX2__
   /**
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1d4f5f..063fe4f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,10 +145,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> Value { return value; });
 }
 
 /**
@@ -190,10 +187,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> Value { return value; });
 }
 
 /**
@@ -223,11 +217,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
-      });
+      [&args...]() -> Value { return Value(std::forward<Args>(args)...); });
 }
 
 /**
@@ -254,10 +244,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
-      });
+      [&value]() -> Value { return Value(std::forward<M>(value)); });
 }
 
 /**
@@ -335,6 +322,10 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Build the new element before any element moves (building it may throw)
+  Key new_key(key);
+  Value new_value{};
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,8 +333,8 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
-  values_[idx] = Value{};
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
   ++size_;
 
   return values_[idx];
@@ -683,19 +674,20 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param make_value Callback returning the new value: () -> Value
+ *                   Called only if the key is absent, before elements move
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename OnInsert>
+template <typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
+    size_type idx, const Key& key, OnExists&& on_exists,
+    MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
@@ -707,17 +699,19 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Build the new element before any element moves: the arguments may refer
+  // to elements of this array, and building it may throw.
+  Key new_key(key);
+  Value new_value = std::forward<MakeValue>(make_value)();
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
-  keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From a256262884d2fc320b6aba02139968e87190305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 03/10] fix: dense_map gives up the resources of erased,
 cleared and replaced elements

Vacated slots kept owning what the removed element held until the slot was
reused, and a throwing copy assignment left the map with a size larger than
its valid content.
---
 include/fast_containers/dense_map.hpp | 17 ++++++++++++++++-
 include/fast_containers/dense_map.ipp | 12 ++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 74adae8..88e69b3 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -369,7 +369,10 @@ class dense_map {
   [[nodiscard]] bool empty() const { return size_ == 0; }
   [[nodiscard]] bool full() const { return size_ == Length; }
 
-  void clear() { size_ = 0; }
+  void clear() {
+    release_slots(0, size_);
+    size_ = 0;
+  }
 
   /**
    * Split this array at the given position, moving elements to output array.
@@ -438,6 +441,18 @@ class dense_map {
       size_type count);
 
  private:
+  /**
+   * Give up the resources owned by the vacated slots [first, last).
+   */
+  void release_slots(size_type first, size_type last) {
+    if constexpr (!std::is_trivially_destructible_v<Key>) {
+      for (size_type i = first; i < last; ++i) keys_[i] = Key();
+    }
+    if constexpr (!std::is_trivially_destructible_v<Value>) {
+      for (size_type i = first; i < last; ++i) values_[i] = Value();
+    }
+  }
+
   /**
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 063fe4f..b1aca7e 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,14 +69,16 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
-    size_ = other.size_;
+    // Stay empty until every element is copied: copying may throw
+    clear();
     // Copy only the active elements
-    if (size_ > 0) {
-      std::copy(other.keys_.begin(), other.keys_.begin() + size_,
+    if (other.size_ > 0) {
+      std::copy(other.keys_.begin(), other.keys_.begin() + other.size_,
                 keys_.begin());
-      std::copy(other.values_.begin(), other.values_.begin() + size_,
+      std::copy(other.values_.begin(), other.values_.begin() + other.size_,
                 values_.begin());
     }
+    size_ = other.size_;
   }
   return *this;
 }
@@ -96,6 +98,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     dense_map&& other) noexcept {
   if (this != &other) {
+    clear();
     size_ = other.size_;
     // Move the active elements
     if (size_ > 0) {
@@ -267,6 +270,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::erase(iterator pos) {
   std::move(values_.data() + idx + 1, values_.data() + size_,
             values_.data() + idx);
   --size_;
+  release_slots(size_, size_ + 1);
 
   // Return iterator to element following the erased element
   // (same index, since everything shifted left)
-- 
2.43.0


From 001ad049680e08a80fadaf8c15af5dbfdf795cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 04/10] fix: btree uses only the comparator to decide key
 equivalence

find_leaf_for_key, insert_impl, update_parent_key_recursive and range erase
compared keys with == / !=, so keys that are equivalent under Compare but not
equal could be routed to the wrong leaf, inserted twice, or never end a range
erase.
---
 include/fast_containers/btree.ipp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..c967179 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -689,7 +689,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +927,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  // (lower_bound already guarantees that pos->first is not less than key)
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1104,6 +1105,11 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Use lower_bound to efficiently find the entry (O(log n))
   auto it = children.lower_bound(new_min);
 
+  // Keys are the same when neither orders before the other
+  auto differs = [this](const Key& lhs, const Key& rhs) {
+    return comp_(lhs, rhs) || comp_(rhs, lhs);
+  };
+
   // Track if we're at position 0 (leftmost child)
   bool is_leftmost = false;
 
@@ -1112,7 +1118,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (differs(it->first, new_min)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1126,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child && differs(it->first, new_min)) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
-- 
2.43.0


From 0d49a8e195c7ab3891e536f31c0b1574007a5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 05/10] fix: btree insertion acquires everything that can fail
 before changing the tree

A leaf split allocated internal nodes and evaluated the value after the leaf
had been split, so an allocation failure or a throwing value left the tree
without the separator of the new leaf (lost elements, broken links, leaked
nodes), and a value or key argument referring to an element of the split leaf
was read after that element had been moved.
---
 include/fast_containers/btree.hpp |  26 +++++++-
 include/fast_containers/btree.ipp | 105 +++++++++++++++++++++++++-----
 2 files changed, 112 insertions(+), 19 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..bcc519e 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1014,6 +1014,23 @@ class btree {
   std::pair<iterator, bool> insert_impl(const Key& key, OnExists&& on_exists,
                                         GetValue&& get_value);
 
+  /**
+   * Allocate the internal nodes that splitting a full leaf will need: one for
+   * each full ancestor, and one for a new root if the split reaches the root.
+   * They are chained through their parent pointers, in the order of use.
+   */
+  internal_node* allocate_split_nodes(const leaf_node* leaf);
+
+  /**
+   * Take the first node of a chain made by allocate_split_nodes().
+   */
+  static internal_node* take_spare_node(internal_node*& spare_nodes);
+
+  /**
+   * Deallocate the nodes of a chain made by allocate_split_nodes().
+   */
+  void deallocate_spare_nodes(internal_node* spare_nodes);
+
   /**
    * Split a full leaf node with on-demand value construction.
    * Creates a new leaf and moves half the elements to it.
@@ -1038,20 +1055,23 @@ class btree {
    * Insert a promoted key and child pointer into a parent node.
    * If parent is full, splits it recursively.
    * If node has no parent, creates a new root.
+   * New nodes are taken from spare_nodes (see allocate_split_nodes()).
    *
    * Templated to handle both leaf_node and internal_node children.
    */
   template <typename NodeType>
   void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+                          NodeType* right_child, internal_node*& spare_nodes);
 
   /**
    * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
+   * Takes a new internal node from spare_nodes and moves half the children to
+   * it.
    * Returns a reference to the promoted key and pointer to the new node.
    * The key reference points to the first key in the new node's children.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  std::pair<const Key&, internal_node*> split_internal(
+      internal_node* node, internal_node*& spare_nodes);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index c967179..701a53c 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -834,6 +834,68 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   deallocate_internal_node(node);
 }
 
+// allocate_split_nodes
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::allocate_split_nodes(const leaf_node* leaf) {
+  internal_node* first = nullptr;
+  internal_node** tail = &first;
+  try {
+    // One sibling for every full ancestor...
+    const internal_node* ancestor = leaf->parent;
+    while (ancestor != nullptr) {
+      const size_type children = ancestor->children_are_leaves
+                                     ? ancestor->leaf_children.size()
+                                     : ancestor->internal_children.size();
+      if (children < InternalNodeSize) {
+        return first;
+      }
+      *tail = allocate_internal_node(ancestor->children_are_leaves);
+      tail = &(*tail)->parent;
+      ancestor = ancestor->parent;
+    }
+    // ...and a new root if the split reaches the root
+    *tail = allocate_internal_node(leaf->parent == nullptr);
+  } catch (...) {
+    deallocate_spare_nodes(first);
+    throw;
+  }
+  return first;
+}
+
+// take_spare_node
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::take_spare_node(internal_node*& spare_nodes) {
+  assert(spare_nodes != nullptr && "Split needs more nodes than allocated");
+  internal_node* node = spare_nodes;
+  spare_nodes = node->parent;
+  node->parent = nullptr;
+  return node;
+}
+
+// deallocate_spare_nodes
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+           Allocator>::deallocate_spare_nodes(internal_node* spare_nodes) {
+  while (spare_nodes != nullptr) {
+    deallocate_internal_node(take_spare_node(spare_nodes));
+  }
+}
+
 // split_leaf_and_insert
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -846,8 +908,21 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // Get the value and every node the split needs before changing anything: if
+  // one of these steps fails the tree is unchanged. The value and the key may
+  // refer to elements of the leaf that is about to be split, so take copies.
+  auto value = std::forward<GetValue>(get_value)();
+  const Key new_key(key);
+  internal_node* spare_nodes = allocate_split_nodes(leaf);
+
   // Create new leaf for right half
-  leaf_node* new_leaf = allocate_leaf_node();
+  leaf_node* new_leaf = nullptr;
+  try {
+    new_leaf = allocate_leaf_node();
+  } catch (...) {
+    deallocate_spare_nodes(spare_nodes);
+    throw;
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
@@ -874,14 +949,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key& promoted_key = new_leaf->data.begin()->first;
 
   // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
-
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
+  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
 
   // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  auto [leaf_it, inserted] =
+      target_leaf->data.try_emplace(new_key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
@@ -889,7 +961,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   size_++;
 
   // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
+  insert_into_parent(leaf, promoted_key, new_leaf, spare_nodes);
 
   // If we inserted into the left half, update parent key if necessary
   if (target_leaf == leaf) {
@@ -948,7 +1020,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // If we inserted at the beginning and leaf has a parent, update parent key
   if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
+    update_parent_key_recursive(leaf, leaf_it->first);
   }
 
   return {iterator(leaf, leaf_it), true};
@@ -962,7 +1034,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
+                                          NodeType* right_child,
+                                          internal_node*& spare_nodes) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
     if constexpr (std::is_same_v<NodeType, leaf_node>) {
@@ -986,8 +1059,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
+    internal_node* new_root = take_spare_node(spare_nodes);
 
     auto& children = get_children(new_root);
     auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
@@ -1010,7 +1082,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Check if parent is full
   if (parent_children.size() >= InternalNodeSize) {
     // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
+    auto [promoted_key, new_parent] = split_internal(parent, spare_nodes);
 
     // Determine which parent to insert into
     internal_node* target_parent =
@@ -1022,7 +1094,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     assert(inserted && "Insert into non-full parent should succeed");
 
     // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
+    insert_into_parent(parent, promoted_key, new_parent, spare_nodes);
   } else {
     // Parent has space - insert normally
     right_child->parent = parent;
@@ -1040,9 +1112,10 @@ std::pair<const Key&,
           typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
                          SearchModeT, Allocator>::internal_node*>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
+      Allocator>::split_internal(internal_node* node,
+                                 internal_node*& spare_nodes) {
   // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
+  internal_node* new_node = take_spare_node(spare_nodes);
 
   // Calculate split point
   const size_type split_point = (InternalNodeSize + 1) / 2;
-- 
2.43.0


From 959bf865a99f04c2ae060ab718f0bde6500b9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:10 +0000
Subject: [PATCH 06/10] fix: btree move assignment and swap keep nodes with the
 allocator that owns them

Move assignment took over the other tree's nodes but kept its own allocators
although propagate_on_container_move_assignment is true for the pool
allocators, and swap exchanged nodes without exchanging allocators; nodes were
later released to a foreign pool or used after their pool was unmapped.
---
 include/fast_containers/btree.ipp             | 27 +++++++++++++++++++
 .../policy_based_hugepage_allocator.hpp       |  2 +-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 701a53c..bcffc09 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -122,9 +122,30 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(btree&& other) noexcept {
   if (this != &other) {
+    constexpr bool propagate = std::allocator_traits<
+        Allocator>::propagate_on_container_move_assignment::value;
+    if constexpr (!propagate) {
+      // Nodes can only change hands between equal allocators
+      if (!(leaf_alloc_ == other.leaf_alloc_) ||
+          !(internal_alloc_ == other.internal_alloc_)) {
+        clear();
+        for (iterator it = other.begin(); it != other.end(); ++it) {
+          try_emplace(it->first, std::move(it->second));
+        }
+        other.clear();
+        return *this;
+      }
+    }
+
     // Deallocate existing tree (including root)
     deallocate_tree();
 
+    // The nodes of other must be released through the allocators of other
+    if constexpr (propagate) {
+      leaf_alloc_ = other.leaf_alloc_;
+      internal_alloc_ = other.internal_alloc_;
+    }
+
     // Move other's resources to this
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
@@ -199,6 +220,12 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // Swap allocators: nodes must be released through the allocator they came from
+  if constexpr (!std::allocator_traits<Allocator>::is_always_equal::value) {
+    std::swap(leaf_alloc_, other.leaf_alloc_);
+    std::swap(internal_alloc_, other.internal_alloc_);
+  }
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..416bcc6 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -264,7 +264,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 16760581d40c8067e347c7be1067fe664a171ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 07/10] fix: multi-size allocator and pool mis-served
 overflowing and moved-from cases

n * sizeof(T) could wrap around and return a block too small for the request,
std::bit_ceil was called outside its domain for requests above 2^63 bytes, a
moved-from allocator held no pool (so the moved-from container crashed), and a
failed pool creation left a null entry counted as an active size class.
---
 .../multi_size_hugepage_allocator.hpp              | 13 +++++++++++++
 .../fast_containers/multi_size_hugepage_pool.hpp   | 14 ++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..7814bad 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -72,6 +74,13 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  // Copying also serves as moving: a moved-from allocator must stay usable and
+  // equal to the allocator constructed from it
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
@@ -96,6 +105,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<size_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..476fdc2 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <memory>
 #include <unordered_map>
+#include <utility>
 
 #include "hugepage_pool.hpp"
 
@@ -102,6 +103,10 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       // Round up to nearest 256 bytes
       return (bytes + 255) & ~static_cast<size_type>(255);
     }
+    if (bytes > ~(~static_cast<size_type>(0) >> 1)) {
+      // No power of 2 is large enough (and no pool can serve such a request)
+      return bytes;
+    }
     // Round up to next power of 2
     return std::bit_ceil(bytes);
   }
@@ -125,15 +130,16 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      auto pool = std::make_unique<HugePagePool>(
           initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+      it = pools_.emplace(size_class, std::move(pool)).first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
-- 
2.43.0


From 06bd5c1d7586cb9fe0713435e170dbe6598c56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 08/10] fix: hugepage pool never hands out a block that does
 not fit the request

The free list ignored block size and alignment, so a pool shared by objects of
different sizes handed a small block to a larger object; a request larger than
the growth size overran the new region; bytes + padding could wrap around; and
a region could be leaked when recording it failed.
---
 include/fast_containers/hugepage_pool.hpp | 75 ++++++++++++++++++-----
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..56a2691 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -52,12 +55,22 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   static constexpr size_type hugepage_size = 2UL * 1024 * 1024;  // 2MB
+  static constexpr size_type page_size = 4096;
 
   struct memory_region {
     std::byte* base = nullptr;
     size_type size = 0;
   };
 
+  /**
+   * Intrusive list of released blocks. Blocks of different sizes may share the
+   * pool and must not be mistaken for each other.
+   */
+  struct free_list {
+    size_type bytes = 0;
+    void* head = nullptr;
+  };
+
   /**
    * Statistics tracked by the pool.
    * Only populated when allocator_stats_enabled is true.
@@ -104,7 +117,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One per block size (usually only one)
   stats stats_;
 
  public:
@@ -127,6 +140,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     // Allocate initial region
     memory_region initial_region;
 
+    // Make sure that recording the region cannot fail
+    regions_.reserve(1);
+
     // Try hugepages first if requested
     if (use_hugepages) {
       initial_region = allocate_hugepages_region(initial_size);
@@ -173,13 +189,17 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    for (void** link = &get_free_list(bytes).head; *link != nullptr;
+         link = reinterpret_cast<void**>(*link)) {
+      // Normally the first block is suitably aligned
+      if (reinterpret_cast<uintptr_t>(*link) % alignment == 0) {
+        void* ptr = *link;
+        *link = *reinterpret_cast<void**>(ptr);
 
-      stats_.record_allocation(bytes);
+        stats_.record_allocation(bytes);
 
-      return ptr;
+        return ptr;
+      }
     }
 
     // Allocate from pool
@@ -192,8 +212,8 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      grow(bytes, alignment);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -225,8 +245,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    free_list& blocks = get_free_list(bytes);
+    *reinterpret_cast<void**>(ptr) = blocks.head;
+    blocks.head = ptr;
 
     stats_.record_deallocation(bytes);
   }
@@ -302,20 +323,44 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Get the list of released blocks of the given size.
+   */
+  free_list& get_free_list(size_type bytes) {
+    for (auto& list : free_lists_) {
+      if (list.bytes == bytes) {
+        return list;
+      }
+    }
+    free_lists_.push_back({.bytes = bytes, .head = nullptr});
+    return free_lists_.back();
+  }
+
+  /**
+   * Grow the pool by allocating a new region of growth_size_, or larger if the
+   * given request would not fit.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type bytes, size_type alignment) {
+    // Regions start on a page boundary, so only larger alignments need padding
+    const size_type max_padding = alignment > page_size ? alignment : 0;
+    if (bytes > std::numeric_limits<size_type>::max() - max_padding) {
+      throw std::bad_alloc();
+    }
+    const size_type size = std::max(growth_size_, bytes + max_padding);
+
     memory_region new_region;
 
+    // Make sure that recording the new region cannot fail
+    regions_.reserve(regions_.size() + 1);
+
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(size);
     }
 
     regions_.push_back(new_region);
-- 
2.43.0


From 731f31f519ff4fcd0f4a49dcea93e4b69f5ccb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 09/10] fix: policy-based allocators compare equal exactly when
 they share pools

Comparing allocators of different types compared the pool one takes T objects
from with the pool the other takes U objects from: allocators with the same
policy compared unequal, and allocators with different policies could compare
equal.
---
 include/fast_containers/policy_based_hugepage_allocator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 416bcc6..4fa2a45 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -246,9 +246,11 @@ class PolicyBasedHugePageAllocator {
   friend bool operator==(
       const PolicyBasedHugePageAllocator& lhs,
       const PolicyBasedHugePageAllocator<U, PoolPolicy>& rhs) noexcept {
-    // Compare pool pointers for leaf pools (simple equality check)
+    // Equal when both take objects of either type from the same pool
     return lhs.policy_.template get_pool_for_type<T>() ==
-           rhs.policy_.template get_pool_for_type<U>();
+               rhs.policy_.template get_pool_for_type<T>() &&
+           lhs.policy_.template get_pool_for_type<U>() ==
+               rhs.policy_.template get_pool_for_type<U>();
   }
 
   template <typename U>
-- 
2.43.0


From d3dc30c6e493dad84e55a2f3bef512cd31e5a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 10/10] fix: btree copy constructor releases its nodes when
 copying fails

---
 include/fast_containers/btree.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index bcffc09..a531c75 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,14 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    // The destructor does not run for a tree that was never constructed
+    deallocate_tree();
+    throw;
   }
 }
 
-- 
2.43.0

