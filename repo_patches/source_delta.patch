From e0bfe55e43449484c992bfe5828ce907d50695c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 1/4] fix: keep the maximum in place when inserting below the
 minimum

Inserting a key smaller than the minimum into a tree with two or more
elements moved the old minimum into the maximum slot and pushed the real
maximum down into a subtree, so max_val, successor, predecessor, find and
remove answered wrongly afterwards.
---
 src/tree.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..e81d3ca 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -522,13 +522,8 @@ where
                 return None;
             }
             (Ordering::Less, Some(data)) => {
+                // The previous `min` is always less than `max`, so `max` is left alone
                 let (k, v) = replace(&mut self.min, (k, v));
-                let (k, v) = match data.max.0.cmp(&k) {
-                    Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
-                    Ordering::Greater => replace(&mut data.max, (k, v)),
-                    Ordering::Less => (k, v),
-                };
-
                 (k, v, data)
             }
             (Ordering::Greater, Some(data)) => match k.borrow().cmp(&data.max.0) {
-- 
2.43.0


From d36e66c4462c252c1f728808f0754be4f3c593af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 2/4] fix: zero-extend the array index of signed keys

index() subtracted MIN in the signed type and then sign-extended to usize,
so every non-negative i8/i16/i32 key (i64 on 128-bit targets) indexed far
outside the array and array-backed trees with a signed high half panicked.
---
 src/key.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..efb6379 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -233,7 +233,7 @@ impl SizedVebKey for i64 {
     type Cardinality = op!(U1 << U64);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0


From 6fececa6ea75386096b97eecebcc86cb2aebe694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 3/4] fix: ByteMap::remove_key panics on an absent key in
 release builds

TreeCollection::remove_key is documented to panic when the value is not
contained. ByteMap only checked that with a debug_assert, so a release build
silently removed an element of a neighbouring tree instead.
---
 src/bitset/map/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bitset/map/mod.rs b/src/bitset/map/mod.rs
index 34f976f..fd8d2e1 100644
--- a/src/bitset/map/mod.rs
+++ b/src/bitset/map/mod.rs
@@ -73,7 +73,10 @@ impl<L: list::TreeList> TreeCollection for ByteMap<L> {
         R: FnOnce(Self::Tree) -> RemoveResult<Self::Tree>,
     {
         let k = *h.borrow();
-        debug_assert!(self.set.find(k).is_some());
+        assert!(
+            self.set.is_present(k),
+            "collection should contain tree at key"
+        );
         let i = self.set.count_below(k);
 
         match self.list.remove_key(i, r) {
-- 
2.43.0


From 569eb7cce02e9335c721cb58271bfda32411b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 4/4] fix: make Marker64 trees usable beyond two elements

The third insertion into a Marker64/Marker64Empty tree allocated an array
with 2^32 slots (755 GB for the set variant) and aborted the process. Keep
the children in a hash map instead.
---
 src/markers.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/markers.rs b/src/markers.rs
index fa29ad8..e7ce048 100644
--- a/src/markers.rs
+++ b/src/markers.rs
@@ -3,7 +3,7 @@ use ghost::phantom;
 
 use crate::{
     bitset::{ByteSetMarker, ByteTreeMarker, VecDequeMarker},
-    collection::array::ArrayTreeCollectionMarker,
+    collection::{array::ArrayTreeCollectionMarker, hash::HashMapMarker},
     tree::{TreeMarker, VebTreeMarker},
 };
 
@@ -57,22 +57,20 @@ pub type Marker32 = TreeMarker<
     >,
 >;
 
+// The `Hi` half of a `u64` has 2^32 values, far too many for an array with a slot
+// for each, so children are kept in a hash map instead.
 pub type Marker64Empty = TreeMarker<
     Marker32Empty, // Summary
-    ArrayTreeCollectionMarker<
-        BoxMarker<
-            // Children
-            Marker32Empty, // Child tree
-        >,
+    HashMapMarker<
+        // Children
+        Marker32Empty, // Child tree
     >,
 >;
 pub type Marker64 = TreeMarker<
     Marker32Empty, // Summary
-    ArrayTreeCollectionMarker<
-        BoxMarker<
-            // Children
-            Marker32, // Child "tree"
-        >,
+    HashMapMarker<
+        // Children
+        Marker32, // Child "tree"
     >,
 >;
 
-- 
2.43.0

