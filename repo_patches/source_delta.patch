From 56f67048726734aa4d333b8f3ed19aa94cfe3bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 1/8] fix: OrdinalMap::contains_key must be false for absent
 keys

After the first insertion every key has a slot, so checking the slot alone
reported every key as present.
---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From 8a40022e7aae62cd0a9b49c8312ad905ce6a3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 2/8] fix: OrdinalSet64::all for types with exactly 64 values

The shift overflowed: panic in debug builds, empty set in release builds.
---
 ordinal-map/src/set/set64.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..6f51c24 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,9 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: u64::MAX
+                .checked_shr(u64::BITS - T::ORDINAL_SIZE as u32)
+                .unwrap_or(0),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 4c5bbc1ef2eebe73b26c4a541b6f58d8fa4d0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 3/8] fix: char::from_ordinal must reject ordinals above
 u32::MAX

The ordinal was truncated to u32, so large ordinals aliased valid chars.
---
 ordinal-map/src/ordinal/impls/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..b760f59 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -18,7 +18,7 @@ impl Ordinal for char {
         if ordinal < SURROGATE_START as usize {
             char::from_u32(ordinal as u32)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(u32::try_from(ordinal).ok()?.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From 4346a942a2da1646d5ea28f2d280b05837bc2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 4/8] fix: OrdinalTotalArrayMap::from_array must check the size
 parameter

It was the only constructor that accepted an array whose length differs
from K::ORDINAL_SIZE.
---
 ordinal-map/src/map/total/array_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ordinal-map/src/map/total/array_map.rs b/ordinal-map/src/map/total/array_map.rs
index 157cdb5..b3bc839 100644
--- a/ordinal-map/src/map/total/array_map.rs
+++ b/ordinal-map/src/map/total/array_map.rs
@@ -71,6 +71,7 @@ impl<K: Ordinal, V, const S: usize> OrdinalTotalArrayMap<K, V, S> {
 
     /// Create a new map from an array of values in ordinal order of keys.
     pub fn from_array(array: [V; S]) -> Self {
+        const { Self::ASSERT };
         OrdinalTotalArrayMap {
             map: array,
             _phantom: PhantomData,
-- 
2.43.0


From 74f8bdc449096329566fc72ab2eead54fab10695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 5/8] fix: derive(Ordinal) for types with a field named `rem`

The generated code declared a local `rem` which was shadowed by the field.
---
 ordinal-map-derive/src/ordinal.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index f0ece3a..306681d 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -267,24 +267,27 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
+    // Must not collide with the names of record fields.
+    let rem = format_ident!("__ordinal_map_rem", span = span);
+
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
-        let mut rem = #ordinal;
+        let mut #rem = #ordinal;
     });
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
             syn::parse_quote_spanned! { field_var.span() =>
                 let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
-                    rem % #field_ordinal_size).unwrap();
+                    #rem % #field_ordinal_size).unwrap();
             },
             syn::parse_quote_spanned! { field_var.span() =>
-                rem /= #field_ordinal_size;
+                #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
-        if rem != 0 {
+        if #rem != 0 {
             return None
         }
     });
-- 
2.43.0


From 046444e69830a17ea796dcfad6ed60a1fe1880d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 6/8] fix: size_hint of the OrdinalTotalArrayMap owning
 iterator

The iterator is ExactSizeIterator, so its size hint must be exact;
the default hint made len() of std adapters panic.
---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0


From 9fc0a85342e24cb368efad35ba7bf303251b44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 7/8] fix: iterating and formatting sets of types with no
 values

The single word of a small set was passed as storage although a type
with no values needs none, which failed a debug assertion.
---
 ordinal-map/src/set/set.rs   | 5 ++++-
 ordinal-map/src/set/set64.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ordinal-map/src/set/set.rs b/ordinal-map/src/set/set.rs
index 31110a5..9ebc8bd 100644
--- a/ordinal-map/src/set/set.rs
+++ b/ordinal-map/src/set/set.rs
@@ -4,6 +4,7 @@ use std::fmt::Formatter;
 use std::marker::PhantomData;
 use std::slice;
 
+use crate::set::array::ordinal_array_set_s;
 use crate::set::iter::Iter;
 use crate::set::set_mut::OrdinalSetMut;
 use crate::set::set_ref::OrdinalSetRef;
@@ -47,7 +48,9 @@ impl<T: Ordinal> OrdinalSet<T> {
     #[inline]
     fn as_ref(&self) -> OrdinalSetRef<'_, T> {
         match (Self::IS_SMALL, &self.set) {
-            (true, SetImpl::Small(set)) => OrdinalSetRef::new(slice::from_ref(set)),
+            (true, SetImpl::Small(set)) => {
+                OrdinalSetRef::new(&slice::from_ref(set)[..ordinal_array_set_s::<T>()])
+            }
             (false, SetImpl::Large(set)) => OrdinalSetRef::new(set),
             _ => unreachable!(),
         }
diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index 6f51c24..3951001 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -4,6 +4,7 @@ use std::fmt::Formatter;
 use std::marker::PhantomData;
 use std::slice;
 
+use crate::set::array::ordinal_array_set_s;
 use crate::set::set_ref::OrdinalSetRef;
 use crate::Ordinal;
 
@@ -92,7 +93,7 @@ impl<T: Ordinal> OrdinalSet64<T> {
     }
 
     fn as_ref(&self) -> OrdinalSetRef<'_, T> {
-        OrdinalSetRef::new(slice::from_ref(&self.set))
+        OrdinalSetRef::new(&slice::from_ref(&self.set)[..ordinal_array_set_s::<T>()])
     }
 
     /// Create a set containing all possible elements of [`K`](Ordinal).
-- 
2.43.0


From 429d071667789c3eb68d6eeef5f0c608eceff6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 8/8] fix: derive(Ordinal) must not collide with names in the
 deriving code

The remainder variable could still clash with a record field, and a bare
`None` resolved to a variant of that name imported by the user.
---
 ordinal-map-derive/src/ordinal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 306681d..a0f8952 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -72,7 +72,7 @@ fn check_zero_size() -> syn::Stmt {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
         if Self::ORDINAL_SIZE == 0 {
-            return None;
+            return std::option::Option::None;
         }
     }
 }
@@ -267,8 +267,8 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
-    // Must not collide with the names of record fields.
-    let rem = format_ident!("__ordinal_map_rem", span = span);
+    // Must not collide with the names of record fields, whatever they are.
+    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
 
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
@@ -288,7 +288,7 @@ fn struct_from_ordinal<'a>(
     }
     stmts.push(syn::parse_quote_spanned! { span =>
         if #rem != 0 {
-            return None
+            return std::option::Option::None
         }
     });
     let build = constructor(
-- 
2.43.0

