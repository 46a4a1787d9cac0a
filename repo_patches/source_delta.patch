From 9814d050e12331d7625b44e2a8226396b00ae023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 01/39] fix: return errors instead of panicking on malformed
 composite keys

---
 crates/bonsaidb-core/src/key.rs            | 19 ++++++++++---------
 crates/bonsaidb-core/src/key/deprecated.rs |  5 +++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index e16d0c1..b1862a5 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1563,8 +1563,10 @@ impl CompositeKeyNullHandler for EscapeNullBytes {
                     bytes.remove(index);
                     index = next_index;
                 } else {
-                    todo!("error: unescaped null byte")
-                    // return Err(CompositeKeyError::new("unescaped null byte encountered"));
+                    return Err(CompositeKeyError::new(io::Error::new(
+                        ErrorKind::InvalidData,
+                        "unescaped null byte encountered",
+                    )));
                 }
 
                 // Find the next null byte, if one exists.
@@ -1701,7 +1703,8 @@ where
                 .rev()
                 .enumerate();
 
-            for (index, byte) in iterator {
+            // Lengths are encoded from a `u16`, which uses at most 3 bytes.
+            for (index, byte) in iterator.take(3) {
                 length |= usize::from(byte & 0x7f) << (index * 7);
 
                 if byte & 0x80 == 0 {
@@ -1719,7 +1722,9 @@ where
             length
         };
         let end = self.offset + length;
-        if end <= self.end {
+        // Variable fields always have an extra null byte to delimit the data
+        let next_offset = end + usize::from(T::LENGTH.is_none());
+        if next_offset <= self.end {
             let mut bytes = match &self.bytes {
                 ByteSource::Borrowed(bytes) => ByteSource::Borrowed(&bytes[self.offset..end]),
                 ByteSource::Ephemeral(bytes) => ByteSource::Ephemeral(&bytes[self.offset..end]),
@@ -1729,11 +1734,7 @@ where
                 bytes = self.null_handling.decode_nulls_if_needed(bytes)?;
             }
             let decoded = T::from_ord_bytes(bytes).map_err(CompositeKeyError::new)?;
-            self.offset = end;
-            if T::LENGTH.is_none() {
-                // Variable fields always have an extra null byte to delimit the data
-                self.offset += 1;
-            }
+            self.offset = next_offset;
             Ok(decoded)
         } else {
             Err(CompositeKeyError::new(io::Error::from(
diff --git a/crates/bonsaidb-core/src/key/deprecated.rs b/crates/bonsaidb-core/src/key/deprecated.rs
index e602a29..ec77a7c 100644
--- a/crates/bonsaidb-core/src/key/deprecated.rs
+++ b/crates/bonsaidb-core/src/key/deprecated.rs
@@ -71,6 +71,11 @@ pub fn decode_composite_field<'a, 'k, T: Key<'k>>(
         usize::try_from(u64::decode_variable(&mut bytes)?)?
     };
 
+    if length > bytes.len() {
+        return Err(CompositeKeyError::new(std::io::Error::from(
+            ErrorKind::UnexpectedEof,
+        )));
+    }
     let (t2, remaining) = bytes.split_at(length);
     Ok((
         T::from_ord_bytes(ByteSource::Ephemeral(t2)).map_err(CompositeKeyError::new)?,
-- 
2.43.0


From cdc1280466455c34e85c98a268183a8fd5dc31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 02/39] fix: reject encoded durations whose nanoseconds are out
 of range

---
 crates/bonsaidb-core/src/key/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index c3f78ea..5313db0 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -15,6 +15,9 @@ impl<'k> Key<'k> for Duration {
         let merged = u128::decode_variable(bytes.as_ref()).map_err(|_| TimeError::InvalidValue)?;
         let seconds = u64::try_from(merged >> 30).map_err(|_| TimeError::DeltaNotRepresentable)?;
         let nanos = u32::try_from(merged & (2_u128.pow(30) - 1)).unwrap();
+        if nanos >= 1_000_000_000 {
+            return Err(TimeError::InvalidValue);
+        }
         Ok(Self::new(seconds, nanos))
     }
 }
-- 
2.43.0


From e4bfe512a9ae1eff82bc5025eefe57bc4669f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 03/39] fix: return an error for times before the unix epoch
 instead of panicking

---
 crates/bonsaidb-core/src/key/time.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index 5313db0..d416da2 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -91,7 +91,9 @@ impl KeyEncoding<Self> for SystemTime {
     }
 
     fn as_ord_bytes(&self) -> Result<Cow<'_, [u8]>, Self::Error> {
-        let since_epoch = self.duration_since(UNIX_EPOCH).unwrap();
+        let since_epoch = self
+            .duration_since(UNIX_EPOCH)
+            .map_err(|_| TimeError::DeltaNotRepresentable)?;
         match since_epoch.as_ord_bytes()? {
             Cow::Owned(bytes) => Ok(Cow::Owned(bytes)),
             Cow::Borrowed(_) => unreachable!(),
@@ -1060,7 +1062,8 @@ pub mod limited {
 
     impl AnyTimestamp for SystemTime {
         fn duration_since_unix_epoch(&self) -> Result<Duration, TimeError> {
-            Ok(self.duration_since(UNIX_EPOCH).unwrap())
+            self.duration_since(UNIX_EPOCH)
+                .map_err(|_| TimeError::DeltaNotRepresentable)
         }
     }
 
-- 
2.43.0


From ef0125333abfa7cbf429911bd35255c3783ec820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 04/39] fix: convert negative durations exactly in every time
 resolution

---
 crates/bonsaidb-core/src/key/time.rs | 55 ++++++++++++++++------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index d416da2..25d44bb 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -572,6 +572,14 @@ pub mod limited {
         }
     }
 
+    /// Returns the representation of a negative duration spanning `units`.
+    fn negative_repr<Repr: TryFrom<i128>>(units: u128) -> Result<Repr, TimeError> {
+        i128::try_from(units)
+            .ok()
+            .and_then(|units| Repr::try_from(-units).ok())
+            .ok_or(TimeError::DeltaNotRepresentable)
+    }
+
     /// A [`TimeResolution`] implementation that truncates time measurements to
     /// microseconds. Internally, the number of microseconds is represented as
     /// an `i64`, allowing a range of +/- ~292,471 years.
@@ -590,7 +598,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_micros(positive)))
             }
         }
@@ -603,9 +611,7 @@ pub mod limited {
                     let rounded_up = duration
                         .checked_add(Duration::from_nanos(999))
                         .ok_or(TimeError::DeltaNotRepresentable)?;
-                    i64::try_from(rounded_up.as_micros())
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(rounded_up.as_micros())
                 }
             }
         }
@@ -629,7 +635,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_millis(positive)))
             }
         }
@@ -642,9 +648,7 @@ pub mod limited {
                     let rounded_up = duration
                         .checked_add(Duration::from_nanos(999_999))
                         .ok_or(TimeError::DeltaNotRepresentable)?;
-                    i64::try_from(rounded_up.as_millis())
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(rounded_up.as_millis())
                 }
             }
         }
@@ -668,7 +672,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_secs(positive)))
             }
         }
@@ -682,9 +686,7 @@ pub mod limited {
                     let rounded_up = duration
                         .checked_add(Duration::from_nanos(999_999_999))
                         .ok_or(TimeError::DeltaNotRepresentable)?;
-                    i64::try_from(rounded_up.as_secs())
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    negative_repr(u128::from(rounded_up.as_secs()))
                 }
             }
         }
@@ -714,9 +716,12 @@ pub mod limited {
             match duration {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / 60)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
-                SignedDuration::Negative(duration) => i32::try_from((duration.as_secs() + 59) / 60)
-                    .map(|repr| -repr)
-                    .map_err(|_| TimeError::DeltaNotRepresentable),
+                SignedDuration::Negative(duration) => {
+                    let rounded_up = duration
+                        .checked_add(Duration::new(59, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    negative_repr(u128::from(rounded_up.as_secs() / 60))
+                }
             }
         }
     }
@@ -751,9 +756,10 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    let rounded_up = duration
+                        .checked_add(Duration::new(FACTOR - 1, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    negative_repr(u128::from(rounded_up.as_secs() / FACTOR))
                 }
             }
         }
@@ -789,8 +795,10 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    Ok(i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map_or(i32::MIN, |repr| -repr))
+                    let rounded_up = duration
+                        .checked_add(Duration::new(FACTOR - 1, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    negative_repr(u128::from(rounded_up.as_secs() / FACTOR))
                 }
             }
         }
@@ -826,9 +834,10 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map(|repr| -repr)
-                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                    let rounded_up = duration
+                        .checked_add(Duration::new(FACTOR - 1, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    negative_repr(u128::from(rounded_up.as_secs() / FACTOR))
                 }
             }
         }
-- 
2.43.0


From 6fbe2100340bff5a9f096bad1e67f7ae4e5a6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 05/39] fix: carry whole seconds and saturate when adding to a
 Timestamp

---
 crates/bonsaidb-core/src/keyvalue/timestamp.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-core/src/keyvalue/timestamp.rs b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
index 82dc9b9..155c2c3 100644
--- a/crates/bonsaidb-core/src/keyvalue/timestamp.rs
+++ b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
@@ -65,13 +65,12 @@ impl std::ops::Add<Duration> for Timestamp {
     type Output = Self;
 
     fn add(self, rhs: Duration) -> Self::Output {
-        let mut nanos = self.nanos + rhs.subsec_nanos();
-        let mut seconds = self.seconds.saturating_add(rhs.as_secs());
-        while nanos > 1_000_000_000 {
-            nanos -= 1_000_000_000;
-            seconds = seconds.saturating_add(1);
-        }
-        Self { seconds, nanos }
+        Duration::from(self)
+            .checked_add(rhs)
+            .map_or(Self::MAX, |sum| Self {
+                seconds: sum.as_secs(),
+                nanos: sum.subsec_nanos(),
+            })
     }
 }
 
-- 
2.43.0


From 4ad47032752d8a6fa3950cf23838103fb744605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 06/39] fix: deserialize the end bound of a serialized range

---
 crates/bonsaidb-core/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/connection.rs b/crates/bonsaidb-core/src/connection.rs
index c4e34e8..3c45bd8 100644
--- a/crates/bonsaidb-core/src/connection.rs
+++ b/crates/bonsaidb-core/src/connection.rs
@@ -2507,7 +2507,7 @@ impl Range<Bytes> {
     ) -> Result<Range<T>, <T as KeyEncoding<T>>::Error> {
         Ok(Range {
             start: self.start.deserialize()?,
-            end: self.start.deserialize()?,
+            end: self.end.deserialize()?,
         })
     }
 }
-- 
2.43.0


From 119b01e05a9f44b736a642e4c4b5a19acd2d6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 07/39] fix: pad fixed-width composite key fields so None
 decodes correctly

---
 crates/bonsaidb-core/src/key.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index b1862a5..ff743fe 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1366,7 +1366,12 @@ where
             self.encoded_lengths.push(encoded_length);
         }
         self.bytes.extend_from_slice(&encoded);
-        if T::LENGTH.is_none() {
+        if let Some(length) = T::LENGTH {
+            // `Option::None` encodes as a single byte. The decoder relies on
+            // fixed-width fields always occupying their full width.
+            self.bytes
+                .extend(std::iter::repeat(0).take(length.saturating_sub(encoded.len())));
+        } else {
             // With variable length data, we need the key to have a delimiter to
             // ensure that "a" sorts before "aa".
             self.bytes.push(0);
-- 
2.43.0


From 2b1615885585c7459576ad7657745ab7a33a9744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 08/39] fix: display document ids containing '$' so that they
 parse back

---
 crates/bonsaidb-core/src/document/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..e8ca0ed 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,11 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            // `$` identifies the hexadecimal format when parsing.
+            if string
+                .bytes()
+                .all(|b| (32..=127).contains(&b) && b != b'$')
+            {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From 501a401d7bc59bdf6e8b6de9263981cb726a7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 09/39] fix: enforce the document id length limit when parsing
 and deserializing

---
 crates/bonsaidb-core/src/document/id.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index e8ca0ed..2fb4aee 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -137,11 +137,11 @@ impl FromStr for DocumentId {
 
             let mut id = TinyVec::new();
             decode_big_endian_hex(&bytes[pound_offset + 1..], &mut id)?;
+            let total_length = preceding_zeroes + id.len();
+            if total_length > Self::MAX_LENGTH {
+                return Err(crate::Error::DocumentIdTooLong);
+            }
             if preceding_zeroes > 0 {
-                let total_length = preceding_zeroes + id.len();
-                if total_length > Self::MAX_LENGTH {
-                    return Err(crate::Error::DocumentIdTooLong);
-                }
                 // The full length indicated a longer ID, so we need to prefix some null bytes.
                 id.splice(0..0, std::iter::repeat(0).take(preceding_zeroes));
             }
@@ -300,7 +300,7 @@ impl<'de> Visitor<'de> for DocumentIdVisitor {
     where
         E: serde::de::Error,
     {
-        Ok(DocumentId(TinyVec::from(v)))
+        DocumentId::try_from(v).map_err(E::custom)
     }
 }
 
-- 
2.43.0


From f7864b179f92d03800e7af41f175bc3a7199149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 10/39] fix: return None when a Numeric float is not exactly an
 integer

---
 crates/bonsaidb-core/src/keyvalue.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-core/src/keyvalue.rs b/crates/bonsaidb-core/src/keyvalue.rs
index 1df1b21..e0908c8 100644
--- a/crates/bonsaidb-core/src/keyvalue.rs
+++ b/crates/bonsaidb-core/src/keyvalue.rs
@@ -554,10 +554,14 @@ impl Numeric {
             Self::Integer(value) => Some(*value),
             Self::UnsignedInteger(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract().abs() > 0. {
-                    None
-                } else {
+                // -2^63..2^63. NaN is never within the range.
+                if value.fract() == 0.
+                    && (-9_223_372_036_854_775_808_f64..9_223_372_036_854_775_808_f64)
+                        .contains(value)
+                {
                     Some(*value as i64)
+                } else {
+                    None
                 }
             }
         }
@@ -591,7 +595,8 @@ impl Numeric {
             Self::UnsignedInteger(value) => Some(*value),
             Self::Integer(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract() < f64::EPSILON && value.is_sign_positive() {
+                // 0..2^64. NaN is never within the range.
+                if value.fract() == 0. && (0_f64..18_446_744_073_709_551_616_f64).contains(value) {
                     Some(*value as u64)
                 } else {
                     None
-- 
2.43.0


From cbc18acb9c49223dfb98d2bcb114c4c144a75fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 11/39] hook: expose key-value internals to external
 verification (cfg bonsaidb_verify)

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 57 +++++++++++++++++++
 crates/bonsaidb-local/src/lib.rs              | 14 +++++
 2 files changed, 71 insertions(+)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..5e76983 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -869,6 +869,63 @@ impl Job for ExpirationLoader {
     }
 }
 
+/// Read and write access to the key-value state for external verification.
+#[cfg(bonsaidb_verify)]
+pub mod verify {
+    #![allow(missing_docs, clippy::missing_errors_doc, clippy::must_use_candidate)]
+    use super::{
+        Arc, BTreeMap, BackgroundWorkerProcessTarget, Entry, KeyValueState, Numeric, Timestamp,
+        VecDeque,
+    };
+
+    pub type Keys = BTreeMap<String, Option<Entry>>;
+
+    pub fn full_key(namespace: Option<&str>, key: &str) -> String {
+        super::full_key(namespace, key)
+    }
+    pub fn split_key(full_key: &str) -> Option<(Option<String>, String)> {
+        super::split_key(full_key)
+    }
+    pub fn increment(existing: &Numeric, amount: &Numeric, saturating: bool) -> Numeric {
+        super::increment(existing, amount, saturating)
+    }
+    pub fn decrement(existing: &Numeric, amount: &Numeric, saturating: bool) -> Numeric {
+        super::decrement(existing, amount, saturating)
+    }
+    pub fn get(state: &KeyValueState, key: &str) -> Result<Option<Entry>, nebari::Error> {
+        state.get(key)
+    }
+    pub fn remove_expired_keys(state: &mut KeyValueState, now: Timestamp) {
+        state.remove_expired_keys(now);
+    }
+    pub fn needs_commit(state: &mut KeyValueState, now: Timestamp) -> bool {
+        state.needs_commit(now)
+    }
+    pub fn stage_dirty_keys(state: &mut KeyValueState) -> Option<Arc<Keys>> {
+        state.stage_dirty_keys()
+    }
+    pub fn update_background_worker_target(state: &mut KeyValueState) {
+        state.update_background_worker_target();
+    }
+    pub fn target(state: &KeyValueState) -> BackgroundWorkerProcessTarget {
+        *state.background_worker_target.read()
+    }
+    pub fn dirty_keys(state: &mut KeyValueState) -> &mut Keys {
+        &mut state.dirty_keys
+    }
+    pub fn keys_being_persisted(state: &mut KeyValueState) -> &mut Option<Arc<Keys>> {
+        &mut state.keys_being_persisted
+    }
+    pub fn expirations(
+        state: &mut KeyValueState,
+    ) -> (&mut BTreeMap<String, Timestamp>, &mut VecDeque<String>) {
+        (&mut state.expiring_keys, &mut state.expiration_order)
+    }
+    pub fn last_commit(state: &mut KeyValueState) -> &mut Timestamp {
+        &mut state.last_commit
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::time::{Duration, Instant};
diff --git a/crates/bonsaidb-local/src/lib.rs b/crates/bonsaidb-local/src/lib.rs
index 297c821..7eddf56 100644
--- a/crates/bonsaidb-local/src/lib.rs
+++ b/crates/bonsaidb-local/src/lib.rs
@@ -47,5 +47,19 @@ mod r#async;
 #[cfg(feature = "async")]
 pub use r#async::*;
 
+/// Internals exposed to external verification harnesses. Not part of the public
+/// API, and only present when built with `--cfg bonsaidb_verify`.
+#[cfg(bonsaidb_verify)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verify {
+    pub use nebari::io::any::{AnyFile, AnyFileManager};
+    pub use nebari::{Config as RootsConfig, Error as RootsError, Roots};
+
+    pub use crate::database::keyvalue::{
+        verify as keyvalue, BackgroundWorkerProcessTarget, Entry, KeyValueState,
+    };
+}
+
 #[cfg(test)]
 mod tests;
-- 
2.43.0


From 122d5d97fb643bef7b954ba1fbfd1d48ac624d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 12/39] hook: more key-value internals and collection contracts
 for external verification (cfg bonsaidb_verify)

---
 .../bonsaidb-local/src/database/keyvalue.rs   |  72 +++-
 crates/bonsaidb-local/src/lib.rs              |   3 +
 .../bonsaidb-local/src/verify_collections.rs  | 348 ++++++++++++++++++
 3 files changed, 421 insertions(+), 2 deletions(-)
 create mode 100644 crates/bonsaidb-local/src/verify_collections.rs

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 5e76983..3550931 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+#[cfg(not(all(kani, bonsaidb_verify)))]
 use std::collections::{btree_map, BTreeMap, VecDeque};
 use std::sync::{Arc, Weak};
 use std::time::Duration;
@@ -23,6 +24,8 @@ use crate::config::KeyValuePersistence;
 use crate::database::compat;
 use crate::storage::StorageLock;
 use crate::tasks::{Job, Keyed, Task};
+#[cfg(all(kani, bonsaidb_verify))]
+use crate::verify_collections::{btree_map, BTreeMap, VecDeque};
 use crate::{Database, DatabaseNonBlocking, Error};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
@@ -874,8 +877,8 @@ impl Job for ExpirationLoader {
 pub mod verify {
     #![allow(missing_docs, clippy::missing_errors_doc, clippy::must_use_candidate)]
     use super::{
-        Arc, BTreeMap, BackgroundWorkerProcessTarget, Entry, KeyValueState, Numeric, Timestamp,
-        VecDeque,
+        Arc, BTreeMap, BackgroundWorkerProcessTarget, Entry, KeyValuePersistence, KeyValueState,
+        Mutex, Numeric, Output, Root, SetCommand, Timestamp, Unversioned, VecDeque, KEY_TREE,
     };
 
     pub type Keys = BTreeMap<String, Option<Entry>>;
@@ -895,6 +898,50 @@ pub mod verify {
     pub fn get(state: &KeyValueState, key: &str) -> Result<Option<Entry>, nebari::Error> {
         state.get(key)
     }
+    pub fn execute_set_operation(
+        state: &mut KeyValueState,
+        namespace: Option<&str>,
+        key: &str,
+        set: SetCommand,
+        now: Timestamp,
+    ) -> Result<Output, bonsaidb_core::Error> {
+        state.execute_set_operation(namespace, key, set, now)
+    }
+    pub fn execute_get_operation(
+        state: &mut KeyValueState,
+        namespace: Option<&str>,
+        key: &str,
+        delete: bool,
+    ) -> Result<Output, bonsaidb_core::Error> {
+        state.execute_get_operation(namespace, key, delete)
+    }
+    pub fn execute_delete_operation(
+        state: &mut KeyValueState,
+        namespace: Option<&str>,
+        key: &str,
+    ) -> Result<Output, bonsaidb_core::Error> {
+        state.execute_delete_operation(namespace, key)
+    }
+    pub fn execute_increment_operation(
+        state: &mut KeyValueState,
+        namespace: Option<&str>,
+        key: &str,
+        amount: &Numeric,
+        saturating: bool,
+        now: Timestamp,
+    ) -> Result<Output, bonsaidb_core::Error> {
+        state.execute_increment_operation(namespace, key, amount, saturating, now)
+    }
+    pub fn execute_decrement_operation(
+        state: &mut KeyValueState,
+        namespace: Option<&str>,
+        key: &str,
+        amount: &Numeric,
+        saturating: bool,
+        now: Timestamp,
+    ) -> Result<Output, bonsaidb_core::Error> {
+        state.execute_decrement_operation(namespace, key, amount, saturating, now)
+    }
     pub fn remove_expired_keys(state: &mut KeyValueState, now: Timestamp) {
         state.remove_expired_keys(now);
     }
@@ -924,6 +971,27 @@ pub mod verify {
     pub fn last_commit(state: &mut KeyValueState) -> &mut Timestamp {
         &mut state.last_commit
     }
+    pub fn persistence(state: &mut KeyValueState) -> &mut KeyValuePersistence {
+        &mut state.persistence
+    }
+    pub fn is_shutting_down(state: &KeyValueState) -> bool {
+        state.shutdown.is_some()
+    }
+    pub fn put_on_disk(state: &KeyValueState, key: &str, entry: &Entry) {
+        let tree = state.roots.tree(Unversioned::tree(KEY_TREE)).unwrap();
+        tree.set(key.as_bytes().to_vec(), bincode::serialize(entry).unwrap())
+            .unwrap();
+    }
+    pub fn read_from_disk(state: &KeyValueState, key: &str) -> Option<Entry> {
+        KeyValueState::retrieve_key_from_disk(&state.roots, key).unwrap()
+    }
+    pub fn persist_keys(
+        state: &Arc<Mutex<KeyValueState>>,
+        keys: &Keys,
+    ) -> Result<(), bonsaidb_core::Error> {
+        let roots = state.lock().roots.clone();
+        KeyValueState::persist_keys(state, &roots, keys)
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/bonsaidb-local/src/lib.rs b/crates/bonsaidb-local/src/lib.rs
index 7eddf56..4c74543 100644
--- a/crates/bonsaidb-local/src/lib.rs
+++ b/crates/bonsaidb-local/src/lib.rs
@@ -47,6 +47,9 @@ mod r#async;
 #[cfg(feature = "async")]
 pub use r#async::*;
 
+#[cfg(all(kani, bonsaidb_verify))]
+mod verify_collections;
+
 /// Internals exposed to external verification harnesses. Not part of the public
 /// API, and only present when built with `--cfg bonsaidb_verify`.
 #[cfg(bonsaidb_verify)]
diff --git a/crates/bonsaidb-local/src/verify_collections.rs b/crates/bonsaidb-local/src/verify_collections.rs
new file mode 100644
index 0000000..02711f7
--- /dev/null
+++ b/crates/bonsaidb-local/src/verify_collections.rs
@@ -0,0 +1,348 @@
+//! Contracts of the standard collections used by the key-value store, stated
+//! executably over a few inline slots so that a model checker does not have to
+//! unfold the real implementations. Only present under `cfg(kani)`.
+#![allow(dead_code, missing_docs, clippy::all, clippy::pedantic)]
+
+use std::borrow::Borrow;
+use std::cmp::Ordering;
+
+const CAPACITY: usize = 4;
+
+/// A map with at most [`CAPACITY`] keys, which are pairwise different. The
+/// order of iteration is the order of insertion.
+#[derive(Debug, Clone)]
+pub struct BTreeMap<K, V> {
+    slots: [Option<(K, V)>; CAPACITY],
+}
+
+pub mod btree_map {
+    pub enum Entry<'a, K, V> {
+        Occupied(OccupiedEntry<'a, K, V>),
+        Vacant(VacantEntry<'a, K, V>),
+    }
+    pub struct OccupiedEntry<'a, K, V> {
+        pub(super) slot: &'a mut Option<(K, V)>,
+        pub(super) key: K,
+    }
+    pub struct VacantEntry<'a, K, V> {
+        pub(super) slot: &'a mut Option<(K, V)>,
+        pub(super) key: K,
+    }
+    impl<'a, K, V> OccupiedEntry<'a, K, V> {
+        pub fn key(&self) -> &K {
+            &self.key
+        }
+        pub fn get(&self) -> &V {
+            &self.slot.as_ref().unwrap().1
+        }
+        pub fn get_mut(&mut self) -> &mut V {
+            &mut self.slot.as_mut().unwrap().1
+        }
+        pub fn into_mut(self) -> &'a mut V {
+            &mut self.slot.as_mut().unwrap().1
+        }
+        pub fn insert(&mut self, value: V) -> V {
+            std::mem::replace(self.get_mut(), value)
+        }
+        pub fn remove(self) -> V {
+            self.slot.take().unwrap().1
+        }
+    }
+    impl<'a, K, V> VacantEntry<'a, K, V> {
+        pub fn key(&self) -> &K {
+            &self.key
+        }
+        pub fn insert(self, value: V) -> &'a mut V {
+            &mut self.slot.insert((self.key, value)).1
+        }
+    }
+    impl<'a, K, V> Entry<'a, K, V> {
+        pub fn key(&self) -> &K {
+            match self {
+                Self::Occupied(e) => e.key(),
+                Self::Vacant(e) => e.key(),
+            }
+        }
+        pub fn or_insert(self, value: V) -> &'a mut V {
+            match self {
+                Self::Occupied(e) => e.into_mut(),
+                Self::Vacant(e) => e.insert(value),
+            }
+        }
+        pub fn or_insert_with<F: FnOnce() -> V>(self, value: F) -> &'a mut V {
+            match self {
+                Self::Occupied(e) => e.into_mut(),
+                Self::Vacant(e) => e.insert(value()),
+            }
+        }
+        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
+            if let Self::Occupied(e) = &mut self {
+                f(e.get_mut());
+            }
+            self
+        }
+    }
+}
+
+impl<K, V> Default for BTreeMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<K, V> BTreeMap<K, V> {
+    pub const fn new() -> Self {
+        Self {
+            slots: [None, None, None, None],
+        }
+    }
+    pub fn len(&self) -> usize {
+        let mut len = 0;
+        for slot in &self.slots {
+            if slot.is_some() {
+                len += 1;
+            }
+        }
+        len
+    }
+    pub fn is_empty(&self) -> bool {
+        self.len() == 0
+    }
+    pub fn clear(&mut self) {
+        *self = Self::new();
+    }
+    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
+        self.slots.iter().flatten().map(|slot| (&slot.0, &slot.1))
+    }
+    pub fn keys(&self) -> impl Iterator<Item = &K> {
+        self.slots.iter().flatten().map(|slot| &slot.0)
+    }
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.slots.iter().flatten().map(|slot| &slot.1)
+    }
+}
+
+impl<K: Ord, V> BTreeMap<K, V> {
+    fn find<Q: Ord + ?Sized>(&self, key: &Q) -> Option<usize>
+    where
+        K: Borrow<Q>,
+    {
+        let mut index = 0;
+        while index < CAPACITY {
+            if let Some(slot) = &self.slots[index] {
+                if slot.0.borrow().cmp(key) == Ordering::Equal {
+                    return Some(index);
+                }
+            }
+            index += 1;
+        }
+        None
+    }
+    fn vacant(&self) -> usize {
+        let mut index = 0;
+        while index < CAPACITY {
+            if self.slots[index].is_none() {
+                return index;
+            }
+            index += 1;
+        }
+        panic!("more keys than the contract covers")
+    }
+    pub fn get<Q: Ord + ?Sized>(&self, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+    {
+        self.find(key)
+            .and_then(|index| self.slots[index].as_ref().map(|slot| &slot.1))
+    }
+    pub fn get_mut<Q: Ord + ?Sized>(&mut self, key: &Q) -> Option<&mut V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.find(key) {
+            Some(index) => self.slots[index].as_mut().map(|slot| &mut slot.1),
+            None => None,
+        }
+    }
+    pub fn contains_key<Q: Ord + ?Sized>(&self, key: &Q) -> bool
+    where
+        K: Borrow<Q>,
+    {
+        self.find(key).is_some()
+    }
+    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+        match self.find(&key) {
+            Some(index) => self.slots[index]
+                .as_mut()
+                .map(|slot| std::mem::replace(&mut slot.1, value)),
+            None => {
+                let index = self.vacant();
+                self.slots[index] = Some((key, value));
+                None
+            }
+        }
+    }
+    pub fn remove<Q: Ord + ?Sized>(&mut self, key: &Q) -> Option<V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.find(key) {
+            Some(index) => self.slots[index].take().map(|slot| slot.1),
+            None => None,
+        }
+    }
+    pub fn entry(&mut self, key: K) -> btree_map::Entry<'_, K, V> {
+        match self.find(&key) {
+            Some(index) => btree_map::Entry::Occupied(btree_map::OccupiedEntry {
+                slot: &mut self.slots[index],
+                key,
+            }),
+            None => {
+                let index = self.vacant();
+                btree_map::Entry::Vacant(btree_map::VacantEntry {
+                    slot: &mut self.slots[index],
+                    key,
+                })
+            }
+        }
+    }
+}
+
+impl<K, V> IntoIterator for BTreeMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, CAPACITY>>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.slots.into_iter().flatten()
+    }
+}
+
+impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = std::iter::Map<
+        std::iter::Flatten<std::slice::Iter<'a, Option<(K, V)>>>,
+        fn(&'a (K, V)) -> (&'a K, &'a V),
+    >;
+
+    fn into_iter(self) -> Self::IntoIter {
+        fn pair<K, V>(entry: &(K, V)) -> (&K, &V) {
+            (&entry.0, &entry.1)
+        }
+        self.slots.iter().flatten().map(pair)
+    }
+}
+
+/// A queue of at most [`CAPACITY`] elements, kept in the first slots.
+#[derive(Debug, Clone)]
+pub struct VecDeque<T> {
+    slots: [Option<T>; CAPACITY],
+    len: usize,
+}
+
+impl<T> Default for VecDeque<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<T> VecDeque<T> {
+    pub const fn new() -> Self {
+        Self {
+            slots: [None, None, None, None],
+            len: 0,
+        }
+    }
+    pub fn len(&self) -> usize {
+        self.len
+    }
+    pub fn is_empty(&self) -> bool {
+        self.len == 0
+    }
+    pub fn clear(&mut self) {
+        *self = Self::new();
+    }
+    pub fn get(&self, index: usize) -> Option<&T> {
+        if index < self.len {
+            self.slots[index].as_ref()
+        } else {
+            None
+        }
+    }
+    pub fn front(&self) -> Option<&T> {
+        self.get(0)
+    }
+    pub fn back(&self) -> Option<&T> {
+        self.len.checked_sub(1).and_then(|index| self.get(index))
+    }
+    pub fn iter(&self) -> std::iter::Flatten<std::slice::Iter<'_, Option<T>>> {
+        self.slots.iter().flatten()
+    }
+    pub fn insert(&mut self, index: usize, value: T) {
+        assert!(index <= self.len && self.len < CAPACITY);
+        let mut moving = Some(value);
+        let mut at = 0;
+        while at < CAPACITY {
+            if at >= index && at <= self.len {
+                std::mem::swap(&mut self.slots[at], &mut moving);
+            }
+            at += 1;
+        }
+        std::mem::forget(moving);
+        self.len += 1;
+    }
+    pub fn remove(&mut self, index: usize) -> Option<T> {
+        if index >= self.len {
+            return None;
+        }
+        let removed = self.slots[index].take();
+        let mut at = 0;
+        while at + 1 < CAPACITY {
+            if at >= index && at + 1 < self.len {
+                self.slots.swap(at, at + 1);
+            }
+            at += 1;
+        }
+        self.len -= 1;
+        removed
+    }
+    pub fn push_back(&mut self, value: T) {
+        self.insert(self.len, value);
+    }
+    pub fn push_front(&mut self, value: T) {
+        self.insert(0, value);
+    }
+    pub fn pop_front(&mut self) -> Option<T> {
+        self.remove(0)
+    }
+    pub fn pop_back(&mut self) -> Option<T> {
+        self.len.checked_sub(1).and_then(|index| self.remove(index))
+    }
+    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut keep: F) {
+        let mut at = 0;
+        while at < CAPACITY {
+            let kept = at < self.len && keep(self.slots[at].as_ref().unwrap());
+            if at < self.len && !kept {
+                self.remove(at);
+            } else {
+                at += 1;
+            }
+        }
+    }
+}
+
+impl<T> std::ops::Index<usize> for VecDeque<T> {
+    type Output = T;
+
+    fn index(&self, index: usize) -> &T {
+        self.get(index).expect("index out of bounds")
+    }
+}
+
+impl<'a, T> IntoIterator for &'a VecDeque<T> {
+    type Item = &'a T;
+    type IntoIter = std::iter::Flatten<std::slice::Iter<'a, Option<T>>>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter()
+    }
+}
-- 
2.43.0


From 5416b0435f90626ab61b5525552d87a0d2e6980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 13/39] fix: wait for keys being persisted when shutting down
 the key-value store

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 3550931..ea001f4 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -242,7 +242,9 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // If keys are already being persisted, any dirty keys will be persisted
+        // once that finishes.
+        if self.keys_being_persisted.is_some() || self.commit_dirty_keys(state) {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
@@ -736,6 +738,9 @@ impl KeyValueState {
                 )?)
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
+        } else {
+            // Release the tree before any remaining keys are persisted below.
+            drop(transaction);
         }
 
         // If we are shutting down, check if we still have dirty keys.
-- 
2.43.0


From 98f5aa2dba96f554644d7c182c7d020f6df66c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 14/39] fix: keep key-value changes that failed to persist and
 do not block shutdown on them

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index ea001f4..0882ae8 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -685,11 +685,33 @@ impl KeyValueState {
         self.last_persistence.watch()
     }
 
-    #[cfg_attr(feature = "instrument", tracing::instrument(level = "trace", skip_all))]
     fn persist_keys(
         key_value_state: &Arc<Mutex<KeyValueState>>,
         roots: &Roots<AnyFile>,
         keys: &BTreeMap<String, Option<Entry>>,
+    ) -> Result<(), bonsaidb_core::Error> {
+        let result = Self::try_persist_keys(key_value_state, roots, keys);
+        if result.is_err() {
+            // Keep the keys that could not be persisted, unless they have been
+            // changed since, and let a shutdown continue.
+            let mut state = key_value_state.lock();
+            if let Some(keys) = state.keys_being_persisted.take() {
+                for (key, entry) in keys.iter() {
+                    if !state.dirty_keys.contains_key(key) {
+                        state.dirty_keys.insert(key.clone(), entry.clone());
+                    }
+                }
+            }
+            state.shutdown = None;
+        }
+        result
+    }
+
+    #[cfg_attr(feature = "instrument", tracing::instrument(level = "trace", skip_all))]
+    fn try_persist_keys(
+        key_value_state: &Arc<Mutex<KeyValueState>>,
+        roots: &Roots<AnyFile>,
+        keys: &BTreeMap<String, Option<Entry>>,
     ) -> Result<(), bonsaidb_core::Error> {
         let mut transaction = roots
             .transaction(&[Unversioned::tree(KEY_TREE)])
-- 
2.43.0


From 4c6c60e9f1c3b7e198faaa51908ca10f7b4c79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 15/39] hook: drive the key-value background worker and commit
 schedule under cfg(bonsaidb_verify)

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0882ae8..4977277 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -904,8 +904,9 @@ impl Job for ExpirationLoader {
 pub mod verify {
     #![allow(missing_docs, clippy::missing_errors_doc, clippy::must_use_candidate)]
     use super::{
-        Arc, BTreeMap, BackgroundWorkerProcessTarget, Entry, KeyValuePersistence, KeyValueState,
-        Mutex, Numeric, Output, Root, SetCommand, Timestamp, Unversioned, VecDeque, KEY_TREE,
+        Arc, BTreeMap, BackgroundWorkerProcessTarget, Duration, Entry, KeyValuePersistence, KeyValueState,
+        Mutex, Numeric, Output, Root, SetCommand, Timestamp, Unversioned, VecDeque, Watcher, Weak,
+        KEY_TREE,
     };
 
     pub type Keys = BTreeMap<String, Option<Entry>>;
@@ -1001,6 +1002,19 @@ pub mod verify {
     pub fn persistence(state: &mut KeyValueState) -> &mut KeyValuePersistence {
         &mut state.persistence
     }
+    pub fn background_worker(
+        state: &Weak<Mutex<KeyValueState>>,
+        target: &mut Watcher<BackgroundWorkerProcessTarget>,
+    ) {
+        super::background_worker(state, target, None);
+    }
+    pub fn duration_until_next_commit(
+        persistence: &KeyValuePersistence,
+        changes: usize,
+        elapsed: Duration,
+    ) -> Option<Duration> {
+        persistence.duration_until_next_commit(changes, elapsed)
+    }
     pub fn is_shutting_down(state: &KeyValueState) -> bool {
         state.shutdown.is_some()
     }
-- 
2.43.0


From 6522e81bdbce4bc93c7b8a90caa2cb0d7ae6efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 16/39] fix: return an error when seeking before the start of a
 file's contents and seek from its end

---
 crates/bonsaidb-files/src/direct.rs | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3b6de45..cc13d99 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1031,31 +1031,36 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
 impl<Database: Clone, Config: FileConfig> Seek for Contents<Database, Config> {
     fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
         let seek_to = match pos {
-            SeekFrom::Start(offset) => offset,
+            SeekFrom::Start(offset) => Some(offset),
             SeekFrom::End(from_end) => {
                 if from_end < 0 {
-                    self.len() - u64::try_from(from_end.saturating_abs()).unwrap()
+                    self.len().checked_sub(from_end.unsigned_abs())
                 } else {
                     // Seek to the end
-                    self.len()
+                    Some(self.len())
                 }
             }
             SeekFrom::Current(from_current) => {
-                if self.blocks.is_empty() {
-                    return Ok(0);
+                // When the last block has been fully read, there is no current
+                // block and the position is the end of the file.
+                let position = match self.blocks.get(self.current_block) {
+                    Some(block) => block.offset + u64::try_from(self.offset).unwrap(),
+                    None => self.len(),
+                };
+
+                if from_current < 0 {
+                    position.checked_sub(from_current.unsigned_abs())
+                } else {
+                    Some(position.saturating_add(from_current.unsigned_abs()))
                 }
-
-                u64::try_from(
-                    i64::try_from(
-                        self.blocks[self.current_block].offset
-                            + u64::try_from(self.offset).unwrap(),
-                    )
-                    .unwrap()
-                        + from_current,
-                )
-                .unwrap()
             }
-        };
+        }
+        .ok_or_else(|| {
+            std::io::Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative position",
+            )
+        })?;
         if let Some((index, block)) = self
             .blocks
             .iter()
-- 
2.43.0


From a173c118db7fb3c88b18e7c08fc0cb44070277eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 17/39] fix: keep the position when reading a file's contents
 into an empty buffer

---
 crates/bonsaidb-files/src/direct.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index cc13d99..0e06f0c 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1014,6 +1014,10 @@ impl<Database: Connection + Clone, Config: FileConfig> Read
     for Contents<Blocking<Database>, Config>
 {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         loop {
             match self.non_blocking_read(|block| {
                 let bytes_to_read = buf.len().min(block.len());
@@ -1121,6 +1125,10 @@ impl<
         cx: &mut std::task::Context<'_>,
         buf: &mut tokio::io::ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
+        if buf.remaining() == 0 {
+            return Poll::Ready(Ok(()));
+        }
+
         self.spawn_block_fetching_task();
         loop {
             match self.non_blocking_read(|block| {
-- 
2.43.0


From 572b225ad96b866545a27e713a192929bc166c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 18/39] fix: report bytes read from a file before waiting for
 more blocks

---
 crates/bonsaidb-files/src/direct.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 0e06f0c..6d0b41b 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1142,11 +1142,9 @@ impl<
                     Poll::Ready(Ok(false)) => return Poll::Ready(Ok(())),
                     Poll::Ready(Err(err)) => return Poll::Ready(Err(err)),
                 },
-                NonBlockingReadResult::ReadBytes(bytes) => {
-                    if bytes == 0 || buf.remaining() == 0 {
-                        return Poll::Ready(Ok(()));
-                    }
-                }
+                // Any bytes already placed in `buf` must be reported before
+                // waiting for more blocks to be loaded.
+                NonBlockingReadResult::ReadBytes(_) => return Poll::Ready(Ok(())),
                 NonBlockingReadResult::Eof => return Poll::Ready(Ok(())),
             }
         }
-- 
2.43.0


From 14f8dc38e7e33bb1a79e071896334564426bce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 19/39] fix: return only the remaining contents from an
 asynchronous to_vec

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 6d0b41b..884209c 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -794,8 +794,8 @@ impl<
     /// read, this returns the entire contents.
     #[allow(clippy::missing_panics_doc)] // Not reachable
     pub async fn into_vec(mut self) -> std::io::Result<Vec<u8>> {
-        let mut contents = vec![0; usize::try_from(self.len()).unwrap()];
-        <Self as tokio::io::AsyncReadExt>::read_exact(&mut self, &mut contents).await?;
+        let mut contents = Vec::with_capacity(usize::try_from(self.len()).unwrap());
+        <Self as tokio::io::AsyncReadExt>::read_to_end(&mut self, &mut contents).await?;
         Ok(contents)
     }
 
-- 
2.43.0


From 1d005e19480684e1b9ff32f20c17f0d232d13735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 20/39] fix: discard blocks requested before an asynchronous
 seek

---
 crates/bonsaidb-files/src/direct.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 884209c..39a2605 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -704,7 +704,8 @@ pub struct Contents<Database: Clone, Config: FileConfig> {
 struct AsyncBlockTask {
     block_receiver:
         flume::r#async::RecvFut<'static, Result<BTreeMap<u64, Vec<u8>>, std::io::Error>>,
-    requested: bool,
+    /// The index of the first block requested, while a request is outstanding.
+    requested: Option<usize>,
     request_sender: flume::Sender<Vec<u64>>,
 }
 
@@ -835,7 +836,7 @@ impl<
             self.async_blocks = Some(AsyncBlockTask {
                 block_receiver: block_receiver.into_recv_async(),
                 request_sender,
-                requested: false,
+                requested: None,
             });
         }
     }
@@ -844,7 +845,7 @@ impl<
         &mut self,
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Result<bool, std::io::Error>> {
-        if self.async_blocks.as_mut().unwrap().requested {
+        if let Some(first_block) = self.async_blocks.as_mut().unwrap().requested {
             match ready!(self
                 .async_blocks
                 .as_mut()
@@ -853,10 +854,12 @@ impl<
                 .poll_unpin(cx))
             {
                 Ok(Ok(blocks)) => {
-                    self.async_blocks.as_mut().unwrap().requested = false;
+                    self.async_blocks.as_mut().unwrap().requested = None;
                     for (index, (_, contents)) in blocks.into_iter().enumerate() {
+                        // The position may have changed since these blocks were
+                        // requested.
                         let loaded_block = LoadedBlock {
-                            index: self.current_block + index,
+                            index: first_block + index,
                             contents,
                         };
                         self.loaded.push_back(loaded_block);
@@ -874,7 +877,8 @@ impl<
                 return Poll::Ready(Ok(false));
             }
             self.loaded.clear();
-            self.async_blocks.as_mut().unwrap().requested = true;
+            let first_block = self.current_block;
+            self.async_blocks.as_mut().unwrap().requested = Some(first_block);
             if let Err(err) = self
                 .async_blocks
                 .as_mut()
-- 
2.43.0


From 021d04bcd4d5b551fa117694fc0f608556dc9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 21/39] fix: buffer at least one block when appending to files
 with large blocks

---
 crates/bonsaidb-files/src/direct.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 39a2605..68ae26b 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1241,9 +1241,10 @@ impl<'a, Config: FileConfig, Database: Connection + Clone> Write
         if self.buffer.capacity() == 0 {
             const ONE_MEGABYTE: usize = 1024 * 1024;
             // By default, reserve the largest multiple of BLOCK_SIZE that is
-            // less than or equal to 1 megabyte.
-            self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+            // less than or equal to 1 megabyte, but at least one block.
+            self.buffer.reserve_exact(
+                (ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE,
+            );
         } else if self.buffer.capacity() == self.buffer.len() {
             self.flush()?;
         }
@@ -1315,9 +1316,10 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
         if self.buffer.capacity() == 0 {
             const ONE_MEGABYTE: usize = 1024 * 1024;
             // By default, reserve the largest multiple of BLOCK_SIZE that is
-            // less than or equal to 1 megabyte.
-            self.buffer
-                .reserve_exact(ONE_MEGABYTE / Config::BLOCK_SIZE * Config::BLOCK_SIZE);
+            // less than or equal to 1 megabyte, but at least one block.
+            self.buffer.reserve_exact(
+                (ONE_MEGABYTE / Config::BLOCK_SIZE).max(1) * Config::BLOCK_SIZE,
+            );
         }
 
         if self.flush_future.is_some() {
-- 
2.43.0


From a06a047702902e75606f316f571944993236746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 22/39] fix: reject renaming a file to an empty name

---
 crates/bonsaidb-files/src/direct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 68ae26b..f6a47a7 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -159,7 +159,7 @@ where
 
     /// Renames this file to the new name.
     pub fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.is_empty() || new_name.as_bytes().contains(&b'/') {
             return Err(Error::InvalidName);
         }
 
@@ -390,7 +390,7 @@ where
 
     /// Renames this file to the new name.
     pub async fn rename(&mut self, new_name: String) -> Result<(), Error> {
-        if new_name.as_bytes().contains(&b'/') {
+        if new_name.is_empty() || new_name.as_bytes().contains(&b'/') {
             return Err(Error::InvalidName);
         }
 
-- 
2.43.0


From 6328d5db715e811ad16da9276ad124e1f1b154f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 23/39] fix: report blocks removed while reading a file's
 contents

---
 crates/bonsaidb-files/src/direct.rs | 58 ++++++++++++++++-------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index f6a47a7..5618fea 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1,6 +1,4 @@
-#[cfg(feature = "async")]
-use std::collections::BTreeMap;
-use std::collections::VecDeque;
+use std::collections::{BTreeMap, VecDeque};
 use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
 use std::marker::PhantomData;
 #[cfg(feature = "async")]
@@ -763,19 +761,9 @@ impl<Database: Connection + Clone, Config: FileConfig> Contents<Blocking<Databas
 
     fn load_blocks(&mut self) -> std::io::Result<()> {
         self.loaded.clear();
-        for (index, (_, contents)) in
-            schema::block::Block::<Config>::load(&self.next_blocks(), &self.database.0)
-                .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?
-                .into_iter()
-                .enumerate()
-        {
-            self.loaded.push_back(LoadedBlock {
-                index: self.current_block + index,
-                contents,
-            });
-        }
-
-        Ok(())
+        let blocks = schema::block::Block::<Config>::load(&self.next_blocks(), &self.database.0)
+            .map_err(|err| std::io::Error::new(ErrorKind::Other, err))?;
+        self.blocks_loaded(self.current_block, blocks)
     }
 }
 
@@ -855,16 +843,9 @@ impl<
             {
                 Ok(Ok(blocks)) => {
                     self.async_blocks.as_mut().unwrap().requested = None;
-                    for (index, (_, contents)) in blocks.into_iter().enumerate() {
-                        // The position may have changed since these blocks were
-                        // requested.
-                        let loaded_block = LoadedBlock {
-                            index: first_block + index,
-                            contents,
-                        };
-                        self.loaded.push_back(loaded_block);
-                    }
-                    Poll::Ready(Ok(true))
+                    // The position may have changed since these blocks were
+                    // requested.
+                    Poll::Ready(self.blocks_loaded(first_block, blocks).map(|()| true))
                 }
                 Ok(Err(db_err)) => Poll::Ready(Err(std::io::Error::new(ErrorKind::Other, db_err))),
                 Err(flume_error) => {
@@ -895,6 +876,31 @@ impl<
 }
 
 impl<Database: Clone, Config: FileConfig> Contents<Database, Config> {
+    /// Stores the blocks that were loaded, the first of which is expected to be
+    /// `first_block`. Returns an error if it has been removed from the file.
+    fn blocks_loaded(
+        &mut self,
+        first_block: usize,
+        mut blocks: BTreeMap<u64, Vec<u8>>,
+    ) -> std::io::Result<()> {
+        for (index, info) in self.blocks.iter().enumerate().skip(first_block) {
+            if let Some(contents) = blocks.remove(&info.header.id) {
+                self.loaded.push_back(LoadedBlock { index, contents });
+            } else {
+                break;
+            }
+        }
+
+        if self.loaded.is_empty() && first_block == self.current_block {
+            return Err(std::io::Error::new(
+                ErrorKind::NotFound,
+                "this part of the file has been removed",
+            ));
+        }
+
+        Ok(())
+    }
+
     fn next_blocks(&self) -> Vec<u64> {
         let mut last_block = self.current_block;
         let mut requesting_size = 0;
-- 
2.43.0


From 1ae298dc6e8458b95659e01e1a5c603757641148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:18 +0000
Subject: [PATCH 24/39] fix: do not poll a completed flush of an asynchronous
 buffered append

---
 crates/bonsaidb-files/src/direct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 5618fea..3ee2782 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1373,7 +1373,9 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> tokio:
             }
             .boxed();
             let poll_result = flush_task.poll_unpin(cx);
-            self.flush_future = Some(flush_task);
+            if poll_result.is_pending() {
+                self.flush_future = Some(flush_task);
+            }
             poll_result
         }
     }
-- 
2.43.0


From 5d8239f5bc65fb30f1baae8c808c583b54e9657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 25/39] hook: expose file contents and truncation internals to
 external verification (cfg bonsaidb_verify)

---
 crates/bonsaidb-files/src/direct.rs      | 119 +++++++++++++++++++++++
 crates/bonsaidb-files/src/schema/file.rs |   2 +-
 2 files changed, 120 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3ee2782..3497948 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1417,3 +1417,122 @@ impl<'a, Config: FileConfig, Database: AsyncConnection + Clone + 'static> Drop
         }
     }
 }
+
+/// Access to private state for external verification. Not part of the public
+/// API, and only present when built with `--cfg bonsaidb_verify`.
+#[cfg(bonsaidb_verify)]
+#[doc(hidden)]
+#[allow(missing_docs, clippy::must_use_candidate, clippy::missing_panics_doc)]
+pub mod verify {
+    use bonsaidb_core::document::{CollectionHeader, Revision};
+    use bonsaidb_core::transaction::Transaction;
+
+    use super::*;
+
+    #[derive(Debug, Eq, PartialEq, Clone)]
+    pub enum Read {
+        NeedBlocks,
+        Bytes(usize),
+        Eof,
+    }
+
+    #[derive(Debug, Eq, PartialEq, Clone)]
+    pub enum Block {
+        NeedBlocks,
+        Bytes(Vec<u8>),
+        Eof,
+    }
+
+    fn block_info(offset: u64, length: usize, id: u64) -> BlockInfo {
+        BlockInfo {
+            offset,
+            length,
+            timestamp: TimestampAsNanoseconds::from_representation(0),
+            header: CollectionHeader {
+                id,
+                revision: Revision {
+                    id: 0,
+                    sha256: [0; 32],
+                },
+            },
+        }
+    }
+
+    /// Contents of blocks given by their lengths and ids.
+    pub fn contents<Database: Clone, Config: FileConfig>(
+        database: Database,
+        blocks: &[(usize, u64)],
+        buffer_size: usize,
+    ) -> Contents<Database, Config> {
+        let mut offset = 0;
+        let mut infos = Vec::with_capacity(blocks.len());
+        for (length, id) in blocks {
+            infos.push(block_info(offset, *length, *id));
+            offset += *length as u64;
+        }
+        Contents {
+            database,
+            blocks: infos,
+            loaded: VecDeque::with_capacity(blocks.len()),
+            current_block: 0,
+            offset: 0,
+            buffer_size,
+            #[cfg(feature = "async")]
+            async_blocks: None,
+            _config: PhantomData,
+        }
+    }
+
+    pub fn place<D: Clone, C: FileConfig>(contents: &mut Contents<D, C>, block: usize, at: usize) {
+        contents.current_block = block;
+        contents.offset = at;
+    }
+
+    pub fn place_of<D: Clone, C: FileConfig>(contents: &Contents<D, C>) -> (usize, usize) {
+        (contents.current_block, contents.offset)
+    }
+
+    pub fn load<D: Clone, C: FileConfig>(
+        contents: &mut Contents<D, C>,
+        index: usize,
+        bytes: Vec<u8>,
+    ) {
+        contents.loaded.push_back(LoadedBlock {
+            index,
+            contents: bytes,
+        });
+    }
+
+    pub fn next_blocks<D: Clone, C: FileConfig>(contents: &Contents<D, C>) -> Vec<u64> {
+        contents.next_blocks()
+    }
+
+    pub fn read<D: Clone, C: FileConfig>(
+        contents: &mut Contents<D, C>,
+        callback: impl FnMut(&[u8]) -> usize,
+    ) -> Read {
+        match contents.non_blocking_read(callback) {
+            NonBlockingReadResult::NeedBlocks => Read::NeedBlocks,
+            NonBlockingReadResult::ReadBytes(bytes) => Read::Bytes(bytes),
+            NonBlockingReadResult::Eof => Read::Eof,
+        }
+    }
+
+    pub fn read_block<D: Clone, C: FileConfig>(contents: &mut Contents<D, C>) -> Block {
+        match contents.non_blocking_read_block() {
+            NonBlockingBlockReadResult::NeedBlocks => Block::NeedBlocks,
+            NonBlockingBlockReadResult::ReadBlock(bytes) => Block::Bytes(bytes),
+            NonBlockingBlockReadResult::Eof => Block::Eof,
+        }
+    }
+
+    /// The transaction truncating a file made of `blocks`.
+    pub fn truncation<Config: FileConfig>(
+        blocks: &[(usize, u64)],
+        new_length: u64,
+        from: Truncate,
+    ) -> Transaction {
+        let blocks = contents::<_, Config>((), blocks, 0).blocks;
+        schema::file::File::<Config>::create_truncate_transaction(blocks, new_length, from)
+    }
+}
diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 9442ed2..369974b 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -308,7 +308,7 @@ where
         Ok(())
     }
 
-    fn create_truncate_transaction(
+    pub(crate) fn create_truncate_transaction(
         mut blocks: Vec<BlockInfo>,
         new_length: u64,
         from: Truncate,
-- 
2.43.0


From b49a2b949477100d88f801080c2a725a522d229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 26/39] fix: list files recursively regardless of how their
 names sort

---
 crates/bonsaidb-files/src/schema/file.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 369974b..851cdf7 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -564,14 +564,22 @@ impl<'fk> KeyEncoding<OwnedFileKey> for FileKey<'fk> {
                 Ok(Cow::Owned(bytes))
             }
             FileKey::RecursivePathPart { path, start } => {
-                let mut encoder = CompositeKeyEncoder::default();
-                if *start {
-                    encoder.encode(path)?;
+                // `CompositeKeyEncoder::finish()` appends the lengths of the
+                // encoded fields, which must not be part of a prefix: only the
+                // encoded characters of the path are.
+                let prefix = if *start {
+                    Cow::Borrowed(*path)
                 } else {
-                    let next = next_string_sequence(path);
-                    encoder.encode(&next)?;
+                    Cow::Owned(next_string_sequence(path))
+                };
+                let mut bytes = Vec::with_capacity(prefix.len());
+                for byte in prefix.bytes() {
+                    bytes.push(byte);
+                    if byte == 0 {
+                        bytes.push(0);
+                    }
                 }
-                Ok(Cow::Owned(encoder.finish()))
+                Ok(Cow::Owned(bytes))
             }
             FileKey::ExactPath { .. } | FileKey::RecursivePath { .. } => unreachable!(),
         }
-- 
2.43.0


From 30f9d3c809ac2ac7c1bfbe2c64563d2b876081c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 27/39] hook: expose file key encodings to external
 verification (cfg bonsaidb_verify)

---
 crates/bonsaidb-files/src/direct.rs      |  1 +
 crates/bonsaidb-files/src/schema/file.rs | 47 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/crates/bonsaidb-files/src/direct.rs b/crates/bonsaidb-files/src/direct.rs
index 3497948..9672075 100644
--- a/crates/bonsaidb-files/src/direct.rs
+++ b/crates/bonsaidb-files/src/direct.rs
@@ -1428,6 +1428,7 @@ pub mod verify {
     use bonsaidb_core::transaction::Transaction;
 
     use super::*;
+    pub use crate::schema::file::verify::{exact_range, full_key, recursive_range};
 
     #[derive(Debug, Eq, PartialEq, Clone)]
     pub enum Read {
diff --git a/crates/bonsaidb-files/src/schema/file.rs b/crates/bonsaidb-files/src/schema/file.rs
index 851cdf7..739262a 100644
--- a/crates/bonsaidb-files/src/schema/file.rs
+++ b/crates/bonsaidb-files/src/schema/file.rs
@@ -585,3 +585,50 @@ impl<'fk> KeyEncoding<OwnedFileKey> for FileKey<'fk> {
         }
     }
 }
+
+/// Encoded view keys, for external verification. Only present when built with
+/// `--cfg bonsaidb_verify`.
+#[cfg(bonsaidb_verify)]
+pub(crate) mod verify {
+    use super::*;
+
+    fn bytes(key: &FileKey<'_>) -> Vec<u8> {
+        key.as_ord_bytes().unwrap().into_owned()
+    }
+
+    /// The key of the file `name` located in `path`.
+    pub fn full_key(path: &str, name: &str) -> Vec<u8> {
+        bytes(&FileKey::Full {
+            path: Cow::Borrowed(path),
+            name: Cow::Borrowed(name),
+        })
+    }
+
+    fn range(key: &FileKey<'_>) -> (Vec<u8>, Vec<u8>) {
+        let range = key.to_prefix_range();
+        let encode = |bound: BoundRef<'_, OwnedFileKey, FileKey<'_>>| {
+            bound.map_result::<_, (), _>(|key| Ok(bytes(key))).unwrap()
+        };
+        match (encode(range.start), encode(range.end)) {
+            (Bound::Included(start), Bound::Excluded(end)) => (start, end),
+            _ => unreachable!(),
+        }
+    }
+
+    /// The start (included) and end (excluded) of the keys listed for `path`.
+    pub fn exact_range(path: &str) -> (Vec<u8>, Vec<u8>) {
+        range(&FileKey::ExactPath {
+            start: Box::new(FileKey::ExactPathPart { path, start: true }),
+            end: Box::new(FileKey::ExactPathPart { path, start: false }),
+        })
+    }
+
+    /// The start (included) and end (excluded) of the keys listed recursively
+    /// for `path`.
+    pub fn recursive_range(path: &str) -> (Vec<u8>, Vec<u8>) {
+        range(&FileKey::RecursivePath {
+            start: Box::new(FileKey::RecursivePathPart { path, start: true }),
+            end: Box::new(FileKey::RecursivePathPart { path, start: false }),
+        })
+    }
+}
-- 
2.43.0


From c57ce5a71c012f3ab174ba2afa2b7af2c77f679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 28/39] fix: report the stored document's header in delete and
 check conflicts

---
 crates/bonsaidb-local/src/database.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..07d5d04 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -652,7 +652,7 @@ impl Database {
             } else {
                 Err(Error::Core(bonsaidb_core::Error::DocumentConflict(
                     operation.collection.clone(),
-                    Box::new(header.clone()),
+                    Box::new(doc.header),
                 )))
             }
         } else {
@@ -742,7 +742,7 @@ impl Database {
                 if doc.header.revision != revision {
                     return Err(Error::Core(bonsaidb_core::Error::DocumentConflict(
                         operation.collection.clone(),
-                        Box::new(Header { id, revision }),
+                        Box::new(doc.header),
                     )));
                 }
             }
-- 
2.43.0


From 2ef77179a350f9022ed21760c0972dbb6ab2f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 29/39] fix: limit and order view queries by their mappings

---
 crates/bonsaidb-local/src/database.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 07d5d04..301927d 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -802,6 +802,9 @@ impl Database {
                             .into_iter()
                             .map(|(_, value)| value),
                     );
+                    if !forwards {
+                        values.reverse();
+                    }
                 }
             }
         } else {
@@ -1469,8 +1472,14 @@ impl LowLevelConnection for Database {
             &BonsaiAction::Database(DatabaseAction::View(ViewAction::Query)),
         )?;
         let mut results = Vec::new();
+        let limit_results = limit
+            .and_then(|limit| usize::try_from(limit).ok())
+            .unwrap_or(usize::MAX);
         self.for_each_in_view(view, key, order, limit, access_policy, |entry| {
-            for mapping in entry.mappings {
+            // The limit applies to mappings, and an entry can contain more than
+            // one.
+            let remaining = limit_results - results.len();
+            for mapping in entry.mappings.into_iter().take(remaining) {
                 results.push(bonsaidb_core::schema::view::map::Serialized {
                     source: mapping.source,
                     key: entry.key.clone(),
-- 
2.43.0


From 09906eb5681a2f23e0bddd42365763d77458b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 30/39] fix: delete each document once in delete_docs

---
 crates/bonsaidb-local/src/database.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 301927d..de2c26e 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1620,9 +1620,13 @@ impl LowLevelConnection for Database {
         let view = self.data.schema.view_by_name(view)?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        let mut deleted = HashSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                // A document can be mapped to more than one matching key.
+                if deleted.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From 2860ea72fcf015cb98bbae39d1e90ec0da4036df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 31/39] fix: query each key of a multiple-key view query once

---
 crates/bonsaidb-local/src/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index de2c26e..a2bc55d 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -795,6 +795,7 @@ impl Database {
                 }
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
+                    list.dedup();
 
                     values.extend(
                         view_entries
-- 
2.43.0


From 2ea86684824121adc739887d79a189080b02389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 32/39] fix: limit document lists by the documents that exist

---
 crates/bonsaidb-local/src/database.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index a2bc55d..9db499c 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1263,7 +1263,11 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // Deleted documents remain in the tree without a position.
+                    return ScanEvaluation::Skip;
+                }
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1326,7 +1330,11 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // Deleted documents remain in the tree without a position.
+                    return ScanEvaluation::Skip;
+                }
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From 48937372592b92ca0e840782c3f90472fe681ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 33/39] fix: count only the documents inside the range

---
 crates/bonsaidb-local/src/database.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 9db499c..52d4800 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1386,9 +1386,29 @@ impl LowLevelConnection for Database {
             .tree(self.collection_tree::<Versioned, _>(collection, document_tree_name(collection))?)
             .map_err(Error::from)?;
         let ids = DocumentIdRange(ids);
-        let stats = tree.reduce(&ids.borrow_as_bytes()).map_err(Error::from)?;
+        if ids.0.start == connection::Bound::Unbounded && ids.0.end == connection::Bound::Unbounded
+        {
+            let stats = tree.reduce(&(..)).map_err(Error::from)?;
+            return Ok(stats.alive_keys);
+        }
+
+        let mut alive_keys = 0;
+        tree.scan::<Infallible, _, _, _, _>(
+            &ids.borrow_as_bytes(),
+            true,
+            |_, _, _| ScanEvaluation::ReadData,
+            |_, index| {
+                // Deleted documents remain in the tree without a position.
+                if index.position > 0 {
+                    alive_keys += 1;
+                }
+                ScanEvaluation::Skip
+            },
+            |_, _, _| Ok(()),
+        )
+        .map_err(Error::from)?;
 
-        Ok(stats.alive_keys)
+        Ok(alive_keys)
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(
-- 
2.43.0


From 95011768a08819fcab1ca5e23d7542c076dea727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 34/39] fix: order multiple-key view queries by key

---
 crates/bonsaidb-local/src/database.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 52d4800..2e2bed7 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -797,12 +797,11 @@ impl Database {
                     list.sort();
                     list.dedup();
 
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    let mut entries =
+                        view_entries.get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+                    values.extend(entries.into_iter().map(|(_, value)| value));
                     if !forwards {
                         values.reverse();
                     }
-- 
2.43.0


From 6635e1f05126f62d4348ed0e201ba98e1121c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 35/39] fix: map documents whose transaction is still becoming
 visible

---
 crates/bonsaidb-local/src/views/mapper.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..9b16b83 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,10 +73,20 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
-        let transaction_id = self
-            .database
-            .last_transaction_id()?
-            .expect("no way to have documents without a transaction");
+        // A transaction is logged before its invalidated documents become
+        // visible. While the invalidated entries are locked, everything up to
+        // the last logged transaction is visible.
+        let transaction_id = {
+            let _locked = self
+                .database
+                .roots()
+                .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                    Box::new(invalidated_entries.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
+                ])?;
+            self.database
+                .last_transaction_id()?
+                .expect("no way to have documents without a transaction")
+        };
 
         let storage = self.database.clone();
         let map_request = self.map.clone();
-- 
2.43.0


From 05ce527a9e6592c77e66a9c15b50ee5cfe9353aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:37 +0000
Subject: [PATCH 36/39] hook: more methods on the model collections of the
 verification build

---
 .../bonsaidb-local/src/verify_collections.rs  | 155 ++++++++++++++++++
 1 file changed, 155 insertions(+)

diff --git a/crates/bonsaidb-local/src/verify_collections.rs b/crates/bonsaidb-local/src/verify_collections.rs
index 02711f7..a778a15 100644
--- a/crates/bonsaidb-local/src/verify_collections.rs
+++ b/crates/bonsaidb-local/src/verify_collections.rs
@@ -75,6 +75,12 @@ pub mod btree_map {
                 Self::Vacant(e) => e.insert(value()),
             }
         }
+        pub fn or_default(self) -> &'a mut V
+        where
+            V: Default,
+        {
+            self.or_insert_with(V::default)
+        }
         pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
             if let Self::Occupied(e) = &mut self {
                 f(e.get_mut());
@@ -120,6 +126,32 @@ impl<K, V> BTreeMap<K, V> {
     pub fn values(&self) -> impl Iterator<Item = &V> {
         self.slots.iter().flatten().map(|slot| &slot.1)
     }
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
+        self.slots
+            .iter_mut()
+            .flatten()
+            .map(|slot| (&slot.0, &mut slot.1))
+    }
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
+        self.slots.iter_mut().flatten().map(|slot| &mut slot.1)
+    }
+    pub fn into_keys(self) -> impl Iterator<Item = K> {
+        self.slots.into_iter().flatten().map(|slot| slot.0)
+    }
+    pub fn into_values(self) -> impl Iterator<Item = V> {
+        self.slots.into_iter().flatten().map(|slot| slot.1)
+    }
+    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut keep: F) {
+        for slot in &mut self.slots {
+            let kept = match slot {
+                Some((key, value)) => keep(key, value),
+                None => true,
+            };
+            if !kept {
+                *slot = None;
+            }
+        }
+    }
 }
 
 impl<K: Ord, V> BTreeMap<K, V> {
@@ -170,6 +202,22 @@ impl<K: Ord, V> BTreeMap<K, V> {
     {
         self.find(key).is_some()
     }
+    pub fn get_key_value<Q: Ord + ?Sized>(&self, key: &Q) -> Option<(&K, &V)>
+    where
+        K: Borrow<Q>,
+    {
+        self.find(key)
+            .and_then(|index| self.slots[index].as_ref().map(|slot| (&slot.0, &slot.1)))
+    }
+    pub fn remove_entry<Q: Ord + ?Sized>(&mut self, key: &Q) -> Option<(K, V)>
+    where
+        K: Borrow<Q>,
+    {
+        match self.find(key) {
+            Some(index) => self.slots[index].take(),
+            None => None,
+        }
+    }
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
         match self.find(&key) {
             Some(index) => self.slots[index]
@@ -232,6 +280,22 @@ impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
     }
 }
 
+impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, items: I) {
+        for (key, value) in items {
+            self.insert(key, value);
+        }
+    }
+}
+
+impl<K: Ord, V> std::iter::FromIterator<(K, V)> for BTreeMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(items: I) -> Self {
+        let mut map = Self::new();
+        map.extend(items);
+        map
+    }
+}
+
 /// A queue of at most [`CAPACITY`] elements, kept in the first slots.
 #[derive(Debug, Clone)]
 pub struct VecDeque<T> {
@@ -311,6 +375,66 @@ impl<T> VecDeque<T> {
     pub fn push_front(&mut self, value: T) {
         self.insert(0, value);
     }
+    pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
+        if index < self.len {
+            self.slots[index].as_mut()
+        } else {
+            None
+        }
+    }
+    pub fn front_mut(&mut self) -> Option<&mut T> {
+        self.get_mut(0)
+    }
+    pub fn back_mut(&mut self) -> Option<&mut T> {
+        match self.len.checked_sub(1) {
+            Some(index) => self.get_mut(index),
+            None => None,
+        }
+    }
+    pub fn iter_mut(&mut self) -> std::iter::Flatten<std::slice::IterMut<'_, Option<T>>> {
+        self.slots.iter_mut().flatten()
+    }
+    pub fn contains(&self, value: &T) -> bool
+    where
+        T: PartialEq,
+    {
+        self.iter().any(|element| element == value)
+    }
+    pub fn swap(&mut self, a: usize, b: usize) {
+        assert!(a < self.len && b < self.len);
+        self.slots.swap(a, b);
+    }
+    pub fn truncate(&mut self, len: usize) {
+        while self.len > len {
+            self.remove(self.len - 1);
+        }
+    }
+    /// Sorted input: the first index for which `holds` is false.
+    pub fn partition_point<F: FnMut(&T) -> bool>(&self, mut holds: F) -> usize {
+        let mut at = 0;
+        while at < self.len && holds(self.slots[at].as_ref().unwrap()) {
+            at += 1;
+        }
+        at
+    }
+    pub fn binary_search_by<F: FnMut(&T) -> Ordering>(&self, mut order: F) -> Result<usize, usize> {
+        let mut at = 0;
+        while at < self.len {
+            match order(self.slots[at].as_ref().unwrap()) {
+                Ordering::Less => at += 1,
+                Ordering::Equal => return Ok(at),
+                Ordering::Greater => return Err(at),
+            }
+        }
+        Err(at)
+    }
+    pub fn binary_search_by_key<B: Ord, F: FnMut(&T) -> B>(
+        &self,
+        wanted: &B,
+        mut by: F,
+    ) -> Result<usize, usize> {
+        self.binary_search_by(|element| by(element).cmp(wanted))
+    }
     pub fn pop_front(&mut self) -> Option<T> {
         self.remove(0)
     }
@@ -346,3 +470,34 @@ impl<'a, T> IntoIterator for &'a VecDeque<T> {
         self.iter()
     }
 }
+
+impl<T> std::ops::IndexMut<usize> for VecDeque<T> {
+    fn index_mut(&mut self, index: usize) -> &mut T {
+        self.get_mut(index).expect("index out of bounds")
+    }
+}
+
+impl<T> IntoIterator for VecDeque<T> {
+    type Item = T;
+    type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<T>, CAPACITY>>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.slots.into_iter().flatten()
+    }
+}
+
+impl<T> Extend<T> for VecDeque<T> {
+    fn extend<I: IntoIterator<Item = T>>(&mut self, items: I) {
+        for item in items {
+            self.push_back(item);
+        }
+    }
+}
+
+impl<T> std::iter::FromIterator<T> for VecDeque<T> {
+    fn from_iter<I: IntoIterator<Item = T>>(items: I) -> Self {
+        let mut queue = Self::new();
+        queue.extend(items);
+        queue
+    }
+}
-- 
2.43.0


From 6158500776046fc25a394eda4f6682c817276b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:12 +0000
Subject: [PATCH 37/39] fix: do not load an expiration that is being changed

While a database is opened, its expirations are loaded in the background from
a snapshot. A key that was set again without an expiration (or with a later
one) between the snapshot and its entry being loaded was removed at the old
time.
---
 crates/bonsaidb-local/src/database.rs          | 15 ++++-----------
 crates/bonsaidb-local/src/database/keyvalue.rs | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 2e2bed7..0a99979 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -14,7 +14,9 @@ use bonsaidb_core::connection::{
 #[cfg(any(feature = "encryption", feature = "compression"))]
 use bonsaidb_core::document::KeyId;
 use bonsaidb_core::document::{BorrowedDocument, DocumentId, Header, OwnedDocument, Revision};
-use bonsaidb_core::keyvalue::{KeyOperation, Output, Timestamp};
+#[cfg(test)]
+use bonsaidb_core::keyvalue::Timestamp;
+use bonsaidb_core::keyvalue::{KeyOperation, Output};
 use bonsaidb_core::limits::{
     LIST_TRANSACTIONS_DEFAULT_RESULT_COUNT, LIST_TRANSACTIONS_MAX_RESULTS,
 };
@@ -899,16 +901,6 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
-        &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
-    }
-
     /// Converts this instance into its blocking version, which is able to be
     /// used without async. The returned instance uses the current Tokio runtime
     /// handle to spawn blocking tasks.
@@ -1756,6 +1748,7 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 4977277..b537c8d 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -74,6 +74,13 @@ impl Database {
     ) -> Result<BTreeMap<(Option<String>, String), Entry>, Error> {
         // Lock the state so that new new modifications can be made while we gather this snapshot.
         let state = self.data.context.key_value_state.lock();
+        self.key_value_entries_with_state(&state)
+    }
+
+    fn key_value_entries_with_state(
+        &self,
+        state: &KeyValueState,
+    ) -> Result<BTreeMap<(Option<String>, String), Entry>, Error> {
         let database = self.clone();
         // Initialize our entries with any dirty keys and any keys that are about to be persisted.
         let mut all_entries = BTreeMap::new();
@@ -882,12 +889,17 @@ impl Job for ExpirationLoader {
         let database = self.database.clone();
         let launched_at = self.launched_at;
 
-        for ((namespace, key), entry) in database.all_key_value_entries()? {
+        // Keep the state locked until the expirations are loaded. Otherwise, an
+        // expiration that is changed in between would be overwritten with the
+        // outdated one.
+        let mut state = database.data.context.key_value_state.lock();
+        for ((namespace, key), entry) in database.key_value_entries_with_state(&state)? {
             if entry.last_updated < launched_at && entry.expiration.is_some() {
-                self.database
+                state
                     .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
             }
         }
+        drop(state);
 
         self.database
             .storage()
-- 
2.43.0


From ee8bdf7b254309893fc1d5b1ac3b5756169ea373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 38/39] hook: swap_remove_* on the model VecDeque

---
 crates/bonsaidb-local/src/verify_collections.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/bonsaidb-local/src/verify_collections.rs b/crates/bonsaidb-local/src/verify_collections.rs
index a778a15..d1aba1b 100644
--- a/crates/bonsaidb-local/src/verify_collections.rs
+++ b/crates/bonsaidb-local/src/verify_collections.rs
@@ -369,6 +369,21 @@ impl<T> VecDeque<T> {
         self.len -= 1;
         removed
     }
+    pub fn swap_remove_back(&mut self, index: usize) -> Option<T> {
+        if index >= self.len {
+            return None;
+        }
+        self.slots.swap(index, self.len - 1);
+        self.len -= 1;
+        self.slots[self.len].take()
+    }
+    pub fn swap_remove_front(&mut self, index: usize) -> Option<T> {
+        if index >= self.len {
+            return None;
+        }
+        self.slots.swap(index, 0);
+        self.remove(0)
+    }
     pub fn push_back(&mut self, value: T) {
         self.insert(self.len, value);
     }
-- 
2.43.0


From f7ac648744db155e2aa6588020ca0c22d615a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:50 +0000
Subject: [PATCH 39/39] fix: check a view against the documents that are
 visible when it is marked

A document committed between the scan of the documents and the deletion of
the view's files lost its invalidation and was never mapped, and a
transaction could fail because the files it was using were deleted.
---
 .../src/views/integrity_scanner.rs            | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 9728893..d1fdb16 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 use bonsaidb_core::document::DocumentId;
 use bonsaidb_core::schema::{CollectionName, ViewName};
 use nebari::io::any::AnyFile;
-use nebari::tree::{Operation, ScanEvaluation, Unversioned, Versioned};
+use nebari::tree::{AnyTreeRoot, Operation, ScanEvaluation, Unversioned, Versioned};
 use nebari::{ArcBytes, Roots, Tree};
 use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
@@ -43,13 +43,11 @@ impl Job for IntegrityScanner {
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     #[allow(clippy::too_many_lines)]
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
-        let documents =
-            self.database
-                .roots()
-                .tree(self.database.collection_tree::<Versioned, _>(
-                    &self.scan.collection,
-                    document_tree_name(&self.scan.collection),
-                )?)?;
+        let documents_tree = self.database.collection_tree::<Versioned, _>(
+            &self.scan.collection,
+            document_tree_name(&self.scan.collection),
+        )?;
+        let documents = self.database.roots().tree(documents_tree.clone())?;
 
         let view_versions_tree = self.database.collection_tree::<Unversioned, _>(
             &self.scan.collection,
@@ -71,14 +69,19 @@ impl Job for IntegrityScanner {
         let task = if version.is_current(view_version) {
             None
         } else {
-            // The view isn't the current version, queue up all documents.
-            let missing_entries = tree_keys::<Versioned>(&documents)?;
             // When a version is updated, we can make no guarantees about
             // existing keys. The best we can do is delete the existing files so
-            // that the view starts fresh.
-            roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
-            roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
-            roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
+            // that the view starts fresh. While the documents are locked, no
+            // transaction is using these files.
+            {
+                let _locked = roots
+                    .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                        Box::new(documents_tree.clone()) as Box<dyn AnyTreeRoot<AnyFile>>,
+                    ])?;
+                roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
+                roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
+                roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
+            }
             // Add all missing entries to the invalidated list. The view
             // mapping job will update them on the next pass.
             let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
@@ -86,8 +89,16 @@ impl Job for IntegrityScanner {
                 view_invalidated_docs_tree_name(&self.scan.view_name),
             )?;
 
-            let transaction = roots.transaction(&[invalidated_entries_tree, view_versions_tree])?;
+            // The documents are locked so that each document is either scanned
+            // below, or invalidated by the transaction that writes it.
+            let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(invalidated_entries_tree) as Box<dyn AnyTreeRoot<AnyFile>>,
+                Box::new(view_versions_tree),
+                Box::new(documents_tree),
+            ])?;
             {
+                // The view isn't the current version, queue up all documents.
+                let missing_entries = tree_keys::<Versioned>(&documents)?;
                 let mut view_versions = transaction.tree::<Unversioned>(1).unwrap();
                 view_versions.set(
                     view_name.to_string().as_bytes().to_vec(),
-- 
2.43.0

