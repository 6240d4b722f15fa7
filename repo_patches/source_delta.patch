From 3160cc18cffd70a19e795fb22c6460a31e776b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:34 +0000
Subject: [PATCH 1/3] fix: clear the EI shadow after an IM 0 interrupt executes
 EI in execute_with_limit

---
 src/z80.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/z80.rs b/src/z80.rs
index 83f7e65..8ed647e 100644
--- a/src/z80.rs
+++ b/src/z80.rs
@@ -518,6 +518,8 @@ impl<Q: Flavour> Cpu for Z80<Q> {
             if tsc.is_past_limit(vc_limit) {
                 return Ok(());
             }
+            // the next instruction is executed without checking for interrupts, also after EI in IM 0
+            self.last_ei = false;
         }
 
         // let mut prefix = self.prefix;
@@ -560,6 +562,7 @@ impl<Q: Flavour> Cpu for Z80<Q> {
                         if tsc.is_past_limit(vc_limit) {
                             return Ok(());
                         }
+                        self.last_ei = false;
                         continue;
                     }
                     Err(cause) => return Err(cause)
-- 
2.43.0


From c74fc7c3925afda1b10b26601ebfb8970a9dfee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:30 +0000
Subject: [PATCH 2/3] fix: read unsigned register pairs from formats presenting
 integers as i64

---
 src/cpu/registers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/registers.rs b/src/cpu/registers.rs
index 288ec58..a3fc62c 100644
--- a/src/cpu/registers.rs
+++ b/src/cpu/registers.rs
@@ -232,8 +232,8 @@ impl<'de> Visitor<'de> for RegisterPairVisitor {
     }
 
     fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
-        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::i16::MAX) {
-            Ok(RegisterPair::from(value as i16))
+        if value >= i64::from(std::i16::MIN) && value <= i64::from(std::u16::MAX) {
+            Ok(RegisterPair::from(value as u16))
         } else {
             Err(E::custom(format!("RegisterPair out of range: {}", value)))
         }
-- 
2.43.0


From 2857984ed6ca772d2726698551e8e5260158276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:09 +0000
Subject: [PATCH 3/3] fix: read a CPU without a pending prefix from formats
 that omit empty options

---
 src/z80/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/z80/serde.rs b/src/z80/serde.rs
index 02281e2..d7e8719 100644
--- a/src/z80/serde.rs
+++ b/src/z80/serde.rs
@@ -289,7 +289,7 @@ fn visit_map<'de, A>(mut map: A, force_variant: Option<&str>) -> Result<Z80Any,
     let iff1     = iff1.ok_or_else(||       de::Error::missing_field("iff1"))?;
     let iff2     = iff2.ok_or_else(||       de::Error::missing_field("iff2"))?;
     let halt     = halt.ok_or_else(||       de::Error::missing_field("halt"))?;
-    let prefix   = prefix.ok_or_else(||     de::Error::missing_field("prefix"))?;
+    let prefix   = prefix.unwrap_or_default();
     let r        = r.unwrap_or_else(|| Wrapping(ir.get8lo()));
 
     match &*force_variant.map(Cow::Borrowed).unwrap_or_else(|| variant.unwrap_or(DEFAULT_VARIANT)) {
-- 
2.43.0

