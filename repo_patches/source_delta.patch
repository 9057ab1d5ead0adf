From 6482c466eb003bc3b3b19ec436c0636efe451c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 1/8] fix: report newly inserted None in option sets

Inserting None into a set over Option<K> returned whether it was already
present instead of whether it was newly inserted.
---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..02f2832 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From 42c5131129ee9b187e2e68373686b705ea5c6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 2/8] fix: report newly inserted values in boolean sets

Inserting into a set over bool returned whether the value was already
present instead of whether it was newly inserted.
---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..b83fe87 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 6c7fc264146bcefab91ea84b005c2ffd1437d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 3/8] fix: report removal of the removed value only in boolean
 sets

Removing an absent value from a set over bool returned true if the other
value was present.
---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index b83fe87..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 82c44ef4542686ed4f4dab7feb6c963fdf418b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 4/8] fix: emptiness of option sets

A set over Option<K> was reported empty exactly when it held None and
nothing else.
---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 02f2832..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From bbe6dec55e43a6603b5635396b19b890be1d70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 5/8] fix: retain of singleton sets

Retaining over a set of a singleton key called the predicate on an absent
element and inserted the element if the predicate answered true.
---
 src/set/storage/singleton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..6e92c05 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,9 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        if self.is_set {
+            self.is_set = func(T::default());
+        }
     }
 
     #[inline]
-- 
2.43.0


From ad1b380c00c4f5895a4e036e6650b0d34e915d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 6/8] fix: keys of empty singleton maps

The keys iterator of a map over a singleton key yielded the key even if the
map was empty.
---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..22721e4 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.is_some().then(K::default).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From 687096135d29c337e06e10f537c831e804c6e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 7/8] fix: order bitset sets by declaration order

Sets using #[key(bitset)] were ordered by their raw value, while sets are
documented to be ordered by their elements in declaration order.
---
 fixed-map-derive/src/unit_variants.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..afd918f 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -391,7 +391,9 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let hash_t = cx.toks.hash_t();
+    let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
+    let iterator_partial_cmp_bool = cx.toks.iterator_partial_cmp_bool();
     let mem = cx.toks.mem();
     let option = cx.toks.option();
     let ord_t = cx.toks.ord_t();
@@ -428,7 +430,10 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #iterator_partial_cmp_bool(
+                    &[#(self.data & #numbers != 0),*],
+                    &[#(other.data & #numbers != 0),*],
+                )
             }
         }
 
@@ -436,7 +441,10 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                #iterator_cmp_bool(
+                    &[#(self.data & #numbers != 0),*],
+                    &[#(other.data & #numbers != 0),*],
+                )
             }
         }
 
-- 
2.43.0


From 9bba987b9909f0fe2a689c4178eb62d619daf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 8/8] fix: ignore bits of no variant in raw bitset values

A bitset built from a raw value with bits set that stand for no variant had a
wrong length and emptiness and compared unequal to sets with its elements.
---
 fixed-map-derive/src/unit_variants.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index afd918f..78e8042 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -532,7 +532,9 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn from_raw(data: #ty) -> #set_storage {
-                #set_storage { data }
+                #set_storage {
+                    data: data & (0 #(| #numbers)*),
+                }
             }
         }
     })
-- 
2.43.0

