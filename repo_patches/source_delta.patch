From 6f5258b489c54feb7d061dda5c89ddd6560a2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:05 +0000
Subject: [PATCH 1/5] fix: use the 0.65 < e <= 0.715 polynomial for G520 at e =
 0.715

The published half-day resonance theory switches to the third polynomial
only when the eccentricity exceeds 0.715.
---
 README.md         | 2 +-
 src/deep_space.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 4052cfc..8256ff2 100644
--- a/README.md
+++ b/README.md
@@ -799,7 +799,7 @@ G₄₂₂ = │ - 146.407 + 841.88 e₀ - 1629.014 e₀² + 1083.435 e₀³   i
        │ - 3581.69 + 16178.11 e₀ - 24462.77 e₀² + 12422.52 e₀³ otherwise
 
 G₅₂₀ = │ - 532.114 + 3017.977 e₀ - 5740.032 e₀² + 3708.276 e₀³ if e₀ ≤ 0.65
-       │ 1464.74 - 4664.75 e₀ + 3763.64 e₀²                    if 0.65 < e₀ < 0.715
+       │ 1464.74 - 4664.75 e₀ + 3763.64 e₀²                    if 0.65 < e₀ ≤ 0.715
        │ - 5149.66 + 29936.92 e₀ - 54087.36 e₀² + 31324.56 e₀³ otherwise
 
 G₅₃₂ = │ - 853.666 + 4690.25 e₀ - 8624.77 e₀² + 5341.4 e₀³         if e₀ < 0.7
diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..7946696 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -487,13 +487,13 @@ pub(crate) fn constants(
                             };
 
                             // G₅₂₀ = │ - 532.114 + 3017.977 e₀ - 5740.032 e₀² + 3708.276 e₀³ if e₀ ≤ 0.65
-                            //        │ 1464.74 - 4664.75 e₀ + 3763.64 e₀²                    if 0.65 < e₀ < 0.715
+                            //        │ 1464.74 - 4664.75 e₀ + 3763.64 e₀²                    if 0.65 < e₀ ≤ 0.715
                             //        │ - 5149.66 + 29936.92 e₀ - 54087.36 e₀² + 31324.56 e₀³ otherwise
                             let g520 = if orbit_0.eccentricity <= 0.65 {
                                 -532.114 + 3017.977 * orbit_0.eccentricity
                                     - 5740.032 * orbit_0.eccentricity.powi(2)
                                     + 3708.276 * orbit_0.eccentricity.powi(3)
-                            } else if orbit_0.eccentricity < 0.715 {
+                            } else if orbit_0.eccentricity <= 0.715 {
                                 1464.74 - 4664.75 * orbit_0.eccentricity
                                     + 3763.64 * orbit_0.eccentricity.powi(2)
                             } else {
-- 
2.43.0


From e4906b563f823cf10a9853c72004db45eb25ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:07 +0000
Subject: [PATCH 2/5] fix: return from the resonance integrator when the target
 time is not finite

---
 src/deep_space.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 7946696..528b10c 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -181,10 +181,12 @@ impl ResonanceState {
                     )
                 }
             };
-            if (t - delta_t)
-                .partial_cmp(&self.t)
-                .unwrap_or(Ordering::Equal)
-                == ordering
+            // a non-finite target time cannot be reached by stepping
+            if !t.is_finite()
+                || (t - delta_t)
+                    .partial_cmp(&self.t)
+                    .unwrap_or(Ordering::Equal)
+                    == ordering
             {
                 return (
                     // p₂₈ = (kₑ / (nᵢ + ṅᵢ (t - tᵢ) + ¹/₂ n̈ᵢ (t - tᵢ)²))²ᐟ³
-- 
2.43.0


From 13c9b69ffbef4f34d159a68b7831dab1ea3e3cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:06 +0000
Subject: [PATCH 3/5] fix: do not underflow when the TLE checksum column holds
 a character below '0'

---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From c46a8bb556734b8b0281f305d53ace4fe01348f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:06 +0000
Subject: [PATCH 4/5] fix: reject OMM ephemeris types that do not fit in a byte

---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..3cd0552 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -424,7 +424,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => u8::try_from(value).map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From 9cb8526ae392b389c4a0b8b30ec3b492a4a04182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:06 +0000
Subject: [PATCH 5/5] fix: report an error when converting NaN minutes to a
 datetime

---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 3cd0552..c6b40ef 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -915,7 +915,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if !(i64::MIN as f64..i64::MAX as f64).contains(&nanoseconds) {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0

