From ff897561a99776efc41e82e46d49372b39a051fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 1/6] fix: debug-formatting a list no longer uses stack space
 per element

---
 src/list/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 1742738..dcecaa0 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -2,7 +2,7 @@ use alloc::vec::Vec;
 use archery::*;
 use core::borrow::Borrow;
 use core::cmp::Ordering;
-use core::fmt::Display;
+use core::fmt::{Debug, Display};
 use core::hash::{Hash, Hasher};
 use core::iter::FromIterator;
 
@@ -114,7 +114,6 @@ where
     length: usize,
 }
 
-#[derive(Debug)]
 struct Node<T, P>
 where
     P: SharedPointerKind,
@@ -123,6 +122,19 @@ where
     next: Option<SharedPointer<Node<T, P>, P>>,
 }
 
+// Deriving this would use stack space for each element of the list.
+impl<T: Debug, P> Debug for Node<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn fmt(&self, fmt: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        let nodes =
+            core::iter::successors(Some(self), |node| node.next.as_ref().map(AsRef::as_ref));
+
+        fmt.debug_list().entries(nodes.map(|node| node.value.as_ref())).finish()
+    }
+}
+
 impl<T, P> Clone for Node<T, P>
 where
     P: SharedPointerKind,
-- 
2.43.0


From 33692bec78168e1adc183927d2038bb1382d6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 2/6] fix: releasing a list while other threads release theirs
 no longer recurses

---
 src/list/mod.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index dcecaa0..6939598 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -412,26 +412,43 @@ where
     }
 }
 
-// Drop the list iteratively to prevent stack overflow.
-impl<T, P> Drop for List<T, P>
+/// Releases the nodes iteratively to prevent stack overflow.
+fn release_nodes<T, P>(mut head: Option<SharedPointer<Node<T, P>, P>>)
 where
     P: SharedPointerKind,
 {
-    fn drop(&mut self) {
-        let mut head = self.head.take();
-        while let Some(node) = head {
-            match SharedPointer::try_unwrap(node) {
-                Ok(mut node) => {
-                    head = node.next.take();
-                }
-                _ => {
-                    break;
-                }
+    while let Some(node) = head {
+        match SharedPointer::try_unwrap(node) {
+            Ok(mut node) => {
+                head = node.next.take();
+            }
+            _ => {
+                break;
             }
         }
     }
 }
 
+impl<T, P> Drop for List<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn drop(&mut self) {
+        release_nodes(self.head.take());
+    }
+}
+
+// A node that was shared when its list was dropped can still end up being released with that list,
+// if the other lists that share it are dropped by other threads at the same time.
+impl<T, P> Drop for Node<T, P>
+where
+    P: SharedPointerKind,
+{
+    fn drop(&mut self) {
+        release_nodes(self.next.take());
+    }
+}
+
 #[derive(Debug)]
 pub struct IterPtr<'a, T, P>
 where
-- 
2.43.0


From 5b8ed6d2ab81f7c453b491d78f05c53ee17f9c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 3/6] fix: collecting into a list no longer reserves memory for
 the upper bound of the size hint

---
 src/list/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 6939598..15c606f 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -394,14 +394,7 @@ where
     P: SharedPointerKind,
 {
     fn from_iter<I: IntoIterator<Item = T>>(into_iter: I) -> List<T, P> {
-        let iter = into_iter.into_iter();
-        let (min_size, max_size_hint) = iter.size_hint();
-        let mut vec: Vec<T> = Vec::with_capacity(max_size_hint.unwrap_or(min_size));
-
-        for e in iter {
-            vec.push(e);
-        }
-
+        let vec: Vec<T> = into_iter.into_iter().collect();
         let mut list: List<T, P> = List::new_with_ptr_kind();
 
         for e in vec.into_iter().rev() {
-- 
2.43.0


From bf757a129b624609589a3a4cb3e6d68b74cd5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 4/6] fix: deserializing a list no longer reserves memory for
 an unchecked size hint

A size hint taken from a length prefix in malformed or hostile input made
List (and Stack and Queue) panic with a capacity overflow or abort for lack
of memory, before a single element was read.
---
 src/list/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 15c606f..853848e 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -533,11 +533,8 @@ pub mod serde {
         where
             A: SeqAccess<'de>,
         {
-            let mut vec: Vec<T> = if let Some(capacity) = seq.size_hint() {
-                Vec::with_capacity(capacity)
-            } else {
-                Vec::new()
-            };
+            // The size hint may come straight from untrusted input, hence it must not be trusted.
+            let mut vec: Vec<T> = Vec::new();
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
-- 
2.43.0


From fe91d1bce5a00e33e90fef7dfb3ab50cc5111cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 5/6] fix: a vector can no longer be created with a branching
 factor that does not fit usize

Vector::new_with_bits() accepted 64..=255 bits, for which every shift by that
amount overflows: pushing panics, or, without overflow checks, loses elements.
---
 src/vector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 5a0d73b..a265675 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -294,6 +294,7 @@ where
     #[must_use]
     pub fn new_with_bits(bits: u8) -> Vector<T, P> {
         assert!(bits > 0, "number of bits for the vector must be positive");
+        assert!(u32::from(bits) < usize::BITS, "number of bits for the vector is too big");
 
         Vector { root: SharedPointer::new(Node::new_empty_leaf()), bits, length: 0 }
     }
-- 
2.43.0


From 58de0c62d0aac83a3563c5cca8af46f7fab5532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 6/6] fix: a hash trie can no longer be created with degree 1

One is a power of two, hence it was accepted, but a trie of degree 1 uses no
bits of the hash at any depth: inserting a second key recursed forever.
---
 src/map/hash_trie_map/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/map/hash_trie_map/mod.rs b/src/map/hash_trie_map/mod.rs
index 4ded787..e33269b 100644
--- a/src/map/hash_trie_map/mod.rs
+++ b/src/map/hash_trie_map/mod.rs
@@ -750,6 +750,7 @@ where
         degree: u8,
     ) -> HashTrieMap<K, V, P, H> {
         assert!(degree.is_power_of_two(), "degree must be a power of two");
+        assert!(degree > 1, "degree is too small");
         assert!(degree <= DEFAULT_DEGREE, "degree is too big");
 
         HashTrieMap {
-- 
2.43.0

