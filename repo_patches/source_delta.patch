From d47beb9e82244a42880b3888e9c3c4d9cea8b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 1/9] fix: OrdinalMap::contains_key reported absent keys as
 present

After the first insertion the storage has a slot for every key, so asking
whether the slot exists is not asking whether the key is in the map.
---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From 7c7f9f956f0416b4723d04b6c031e28198ebc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 2/9] fix: OrdinalSet64::all overflowed for types with 64
 values

---
 ordinal-map/src/set/set64.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..6f51c24 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,9 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: u64::MAX
+                .checked_shr(u64::BITS - T::ORDINAL_SIZE as u32)
+                .unwrap_or(0),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 214726d96c351e24d5960d19a420fc4e427bb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 3/9] fix: total IntoIterArray did not report its exact length
 in size_hint

It implements ExactSizeIterator, so adapters relying on the length
(skip, take, rev of enumerate) misbehaved or panicked.
---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0


From 586725581703748a766359e123d66f0b8ab0626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 4/9] fix: iterating or formatting a set of a type without
 values panicked

OrdinalSet and OrdinalSet64 keep one word for such types, which a debug
assertion rejected.
---
 ordinal-map/src/set/set_ref.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set_ref.rs b/ordinal-map/src/set/set_ref.rs
index 5913072..241a2d7 100644
--- a/ordinal-map/src/set/set_ref.rs
+++ b/ordinal-map/src/set/set_ref.rs
@@ -19,7 +19,8 @@ impl<'a, T: Ordinal> OrdinalSetRef<'a, T> {
 
     #[inline]
     pub(crate) fn new(words: &'a [u64]) -> Self {
-        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>());
+        // Single-word sets have a word even if there are no values of `T`.
+        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>().max(1));
         OrdinalSetRef {
             words,
             _phantom: PhantomData,
-- 
2.43.0


From 38ef9363b601752800daae96e562ed3919ad8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 5/9] fix: map iterators paired values with wrong keys after a
 panic in from_ordinal

The value was taken from the underlying iterator but the key number was not
advanced, so every later item came with the key of its predecessor.
---
 ordinal-map/src/map/enumerate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/enumerate.rs b/ordinal-map/src/map/enumerate.rs
index 3a0970f..7345c40 100644
--- a/ordinal-map/src/map/enumerate.rs
+++ b/ordinal-map/src/map/enumerate.rs
@@ -24,8 +24,10 @@ impl<K: Ordinal, I: Iterator> Iterator for OrdinalEnumerate<K, I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         let v = self.iter.next()?;
-        let k = K::from_ordinal(self.next).unwrap();
+        // Advance first: if `from_ordinal` panics, later items still get their own keys.
+        let ordinal = self.next;
         self.next += 1;
+        let k = K::from_ordinal(ordinal).unwrap();
         Some((k, v))
     }
 
-- 
2.43.0


From 65a5fe8ed20f0042f9e610e305031de0573cc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 6/9] fix: char decoded from numbers outside its range

---
 ordinal-map/src/ordinal/impls/char.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..18229ba 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -15,10 +15,11 @@ impl Ordinal for char {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
-        if ordinal < SURROGATE_START as usize {
-            char::from_u32(ordinal as u32)
+        let ordinal = u32::try_from(ordinal).ok()?;
+        if ordinal < SURROGATE_START {
+            char::from_u32(ordinal)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(ordinal.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From f6b9fa5e3945526482c0d580589a54ec22333b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 7/9] fix: derive failed for types with a field named rem

---
 ordinal-map-derive/src/ordinal.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index f0ece3a..cfaa3db 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -267,24 +267,27 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
+    // Must not clash with the names of the fields.
+    let rem = format_ident!("__ordinal_map_rem");
+
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
-        let mut rem = #ordinal;
+        let mut #rem = #ordinal;
     });
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
             syn::parse_quote_spanned! { field_var.span() =>
                 let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
-                    rem % #field_ordinal_size).unwrap();
+                    #rem % #field_ordinal_size).unwrap();
             },
             syn::parse_quote_spanned! { field_var.span() =>
-                rem /= #field_ordinal_size;
+                #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
-        if rem != 0 {
+        if #rem != 0 {
             return None
         }
     });
-- 
2.43.0


From dcc97bc576913e5d7026e2105743084d73d3b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 8/9] hook: let a simulator fail weak compare-exchanges (--cfg
 ordinal_map_sim)

---
 ordinal-map/src/atomic.rs     |   3 +
 ordinal-map/src/lib.rs        |   4 ++
 ordinal-map/src/sim_atomic.rs | 118 ++++++++++++++++++++++++++++++++++
 3 files changed, 125 insertions(+)
 create mode 100644 ordinal-map/src/sim_atomic.rs

diff --git a/ordinal-map/src/atomic.rs b/ordinal-map/src/atomic.rs
index 1660a85..67f9366 100644
--- a/ordinal-map/src/atomic.rs
+++ b/ordinal-map/src/atomic.rs
@@ -2,9 +2,12 @@ use std::fmt;
 use std::fmt::Debug;
 use std::fmt::Formatter;
 use std::marker::PhantomData;
+#[cfg(not(ordinal_map_sim))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering;
 
+#[cfg(ordinal_map_sim)]
+use crate::sim_atomic::AtomicUsize;
 use crate::Ordinal;
 
 /// [`Ordinal`] stored in [`AtomicUsize`].
diff --git a/ordinal-map/src/lib.rs b/ordinal-map/src/lib.rs
index 508e911..277e667 100644
--- a/ordinal-map/src/lib.rs
+++ b/ordinal-map/src/lib.rs
@@ -2,6 +2,8 @@
 #![deny(missing_docs)]
 // For cargo-rdme.
 #![allow(rustdoc::redundant_explicit_links)]
+// `ordinal_map_sim` is set by hand, for deterministic simulation only.
+#![allow(unexpected_cfgs)]
 
 //! The library provides [`Ordinal`](crate::Ordinal) trait to map types to `usize` values,
 //! proc-macro to derive `Ordinal` trait for structs and enums,
@@ -43,6 +45,8 @@ mod atomic;
 pub mod map;
 mod ordinal;
 pub mod set;
+#[cfg(ordinal_map_sim)]
+mod sim_atomic;
 pub(crate) mod tests;
 mod values;
 
diff --git a/ordinal-map/src/sim_atomic.rs b/ordinal-map/src/sim_atomic.rs
new file mode 100644
index 0000000..1748c0a
--- /dev/null
+++ b/ordinal-map/src/sim_atomic.rs
@@ -0,0 +1,118 @@
+//! Stand-in for [`std::sync::atomic::AtomicUsize`] compiled only with `--cfg ordinal_map_sim`:
+//! the same operations, except that the simulator decides when a weak compare-exchange
+//! fails spuriously, which the hardware simulations run on never does.
+
+use std::ops::Deref;
+use std::ops::DerefMut;
+use std::sync::atomic;
+use std::sync::atomic::Ordering;
+
+extern "Rust" {
+    fn __ordinal_map_sim_weak_fails(expected: usize) -> bool;
+}
+
+#[derive(Debug, Default)]
+#[repr(transparent)]
+pub(crate) struct AtomicUsize(atomic::AtomicUsize);
+
+#[allow(dead_code)]
+impl AtomicUsize {
+    #[inline]
+    pub(crate) const fn new(v: usize) -> Self {
+        AtomicUsize(atomic::AtomicUsize::new(v))
+    }
+
+    #[inline]
+    pub(crate) fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+
+    #[inline]
+    pub(crate) fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+
+    #[inline]
+    pub(crate) fn load(&self, order: Ordering) -> usize {
+        self.0.load(order)
+    }
+
+    #[inline]
+    pub(crate) fn store(&self, v: usize, order: Ordering) {
+        self.0.store(v, order)
+    }
+
+    #[inline]
+    pub(crate) fn swap(&self, v: usize, order: Ordering) -> usize {
+        self.0.swap(v, order)
+    }
+
+    #[inline]
+    pub(crate) fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    #[inline]
+    pub(crate) fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        if unsafe { __ordinal_map_sim_weak_fails(current) } {
+            // A failed exchange is a load.
+            return Err(self.0.load(failure));
+        }
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    #[inline]
+    pub(crate) fn fetch_update<F>(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: F,
+    ) -> Result<usize, usize>
+    where
+        F: FnMut(usize) -> Option<usize>,
+    {
+        let mut prev = self.load(fetch_order);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                Ok(x) => return Ok(x),
+                Err(x) => prev = x,
+            }
+        }
+        Err(prev)
+    }
+}
+
+impl From<usize> for AtomicUsize {
+    #[inline]
+    fn from(v: usize) -> Self {
+        Self::new(v)
+    }
+}
+
+impl Deref for AtomicUsize {
+    type Target = atomic::AtomicUsize;
+
+    #[inline]
+    fn deref(&self) -> &atomic::AtomicUsize {
+        &self.0
+    }
+}
+
+impl DerefMut for AtomicUsize {
+    #[inline]
+    fn deref_mut(&mut self) -> &mut atomic::AtomicUsize {
+        &mut self.0
+    }
+}
-- 
2.43.0


From 03de7f5a5594e30c940dfea30550d56f3641a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 9/9] fix: reject a mismatching array size in
 OrdinalTotalArrayMap::from_array

The other constructors assert at compile time that the size parameter is the
number of keys; from_array accepted any size.
---
 ordinal-map/src/map/total/array_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ordinal-map/src/map/total/array_map.rs b/ordinal-map/src/map/total/array_map.rs
index 157cdb5..b3bc839 100644
--- a/ordinal-map/src/map/total/array_map.rs
+++ b/ordinal-map/src/map/total/array_map.rs
@@ -71,6 +71,7 @@ impl<K: Ordinal, V, const S: usize> OrdinalTotalArrayMap<K, V, S> {
 
     /// Create a new map from an array of values in ordinal order of keys.
     pub fn from_array(array: [V; S]) -> Self {
+        const { Self::ASSERT };
         OrdinalTotalArrayMap {
             map: array,
             _phantom: PhantomData,
-- 
2.43.0

