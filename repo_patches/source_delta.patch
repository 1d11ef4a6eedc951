From 10c9360f9295b8c9de04dd9ad2c87ad4e499c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 1/3] fix: UBig::clear_bit beyond the top word of a one-word
 number must not zero it

---
 src/bits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f6d0bb4 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -102,6 +102,8 @@ impl UBig {
             Small(word) => {
                 if n < WORD_BITS_USIZE {
                     *self = UBig::from_word(word & !(1 << n))
+                } else {
+                    *self = UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From 45626979f1c69d5e4c23af95bf6ee8557ada27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 2/3] fix: num_traits::Signed::abs_sub is the positive
 difference, zero when self <= other

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..0c9c808 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self <= other {
+            IBig::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0


From ffa5156265688d3d012e1b297fdda4eacec9f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 3/3] fix: deserializing UBig must not trust the sequence size
 hint

---
 src/serde.rs | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..1ac6b39 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -42,30 +42,15 @@ impl<'de> Visitor<'de> for UBigVisitor {
     }
 
     fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<UBig, A::Error> {
-        match seq.size_hint() {
-            Some(0) => {
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from_word(0))
-            }
-            Some(1) => {
-                let word_64: u64 = seq.next_element()?.unwrap();
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from(word_64))
-            }
-            Some(num_words_64) => {
-                let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
-                for _ in 0..num_words_64 {
-                    let word_64: u64 = seq.next_element()?.unwrap();
-                    push_word_64(&mut buffer, word_64);
-                }
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(buffer.into())
-            }
-            None => {
-                let mut words_64 = Vec::new();
-                while let Some(word_64) = seq.next_element()? {
-                    words_64.push(word_64);
-                }
+        // The input is untrusted: its size hint may be wrong, so just read until the end.
+        let mut words_64: Vec<u64> = Vec::new();
+        while let Some(word_64) = seq.next_element()? {
+            words_64.push(word_64);
+        }
+        match words_64[..] {
+            [] => Ok(UBig::from_word(0)),
+            [word_64] => Ok(UBig::from(word_64)),
+            _ => {
                 let mut buffer = Buffer::allocate(len_64_to_max_len(words_64.len()));
                 for word_64 in words_64 {
                     push_word_64(&mut buffer, word_64);
-- 
2.43.0

