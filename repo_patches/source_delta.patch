From ef266ea723f223a8159badff84c235b299855ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/39] fix: reject malformed qualified material with an error
 instead of panicking or accepting short material

---
 src/cesr/core/counter/mod.rs | 12 ++++--------
 src/cesr/core/indexer/mod.rs | 32 ++++++++++++++++++++------------
 src/cesr/core/matter/mod.rs  | 28 ++++++++++++++++++----------
 src/cesr/core/util.rs        | 12 ++++++++++++
 4 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index b94ef26..704f364 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -138,10 +138,8 @@ impl Counter {
     }
 
     pub fn new_with_qb64b(qb64b: &[u8]) -> Result<Self> {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
-
         let mut counter: Counter = Default::default();
-        counter.exfil(&qb64)?;
+        counter.exfil(std::str::from_utf8(qb64b)?)?;
         Ok(counter)
     }
 
@@ -217,8 +215,7 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = util::slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -228,8 +225,7 @@ impl Counter {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +236,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::slice(qb64, szg.hs as usize, cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index d6f5e97..3c8a17f 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -161,10 +161,8 @@ pub trait Indexer: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
-
         let mut i: Self = Self::default();
-        i.exfil(&qb64)?;
+        i.exfil(std::str::from_utf8(qb64b)?)?;
         Ok(i)
     }
 
@@ -394,7 +392,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -408,8 +406,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::slice(qb64, hs, hs + ms as usize)?)?;
+        let odx = util::slice(qb64, hs + ms as usize, hs + (ms + szg.os) as usize)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -458,13 +456,13 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let body = util::slice(qb64, cs as usize, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
         let raw = if ps != 0 {
             let mut buf = "A".repeat(ps as usize);
-            buf.push_str(&qb64[(cs as usize)..]);
+            buf.push_str(body);
 
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
@@ -480,9 +478,11 @@ pub trait Indexer: Default {
 
             paw[ps as usize..].to_owned()
         } else {
-            let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            base64::engine::general_purpose::URL_SAFE.decode_vec(body, &mut paw)?;
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage("insufficient material for lead bytes".to_string()));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -497,9 +497,17 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
+        // base64 padding inside the material would otherwise shorten it unnoticed
+        if raw.len() != ((fs - cs) * 3 / 4 - szg.ls) as usize {
+            return err!(Error::Conversion(format!(
+                "improperly qualified material: raw size = {}",
+                raw.len()
+            )));
+        }
+
         self.set_code(hard);
         self.set_raw(&raw);
         self.set_index(index);
@@ -586,7 +594,7 @@ pub trait Indexer: Default {
         };
 
         let bfs = ((fs + 1) * 3) / 4;
-        if qb2.len() < bfs as usize {
+        if qb2.len() < bfs as usize || bfs < bcs + szg.ls {
             return err!(Error::Shortage(format!(
                 "insufficient material: qb2 size = {s}, bfs = {bfs}",
                 s = qb2.len(),
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fe9f663..1dae14a 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -126,10 +126,8 @@ pub trait Matter: Default {
     where
         Self: Sized,
     {
-        let qb64 = String::from_utf8(qb64b.to_vec())?;
-
         let mut matter = Self::default();
-        matter.exfil(&qb64)?;
+        matter.exfil(std::str::from_utf8(qb64b)?)?;
         Ok(matter)
     }
 
@@ -329,8 +327,7 @@ pub trait Matter: Default {
             )));
         }
 
-        // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -349,7 +346,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::slice(qb64, szg.hs as usize, cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -363,12 +360,12 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let body = util::slice(qb64, cs as usize, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
         let mut raw = if ps != 0 {
-            let mut buf = "A".repeat(ps as usize) + &trim[(cs as usize)..];
+            let mut buf = "A".repeat(ps as usize) + body;
 
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
@@ -390,7 +387,10 @@ pub trait Matter: Default {
             raw
         } else {
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            b64_engine::URL_SAFE.decode_vec(body, &mut paw)?;
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage("insufficient material for lead bytes".to_string()));
+            }
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
@@ -408,6 +408,14 @@ pub trait Matter: Default {
             raw
         };
 
+        // base64 padding inside the material would otherwise shorten it unnoticed
+        if raw.len() != ((fs - cs) * 3 / 4 - szg.ls) as usize {
+            return err!(Error::Conversion(format!(
+                "improperly qualified material: raw size = {}",
+                raw.len()
+            )));
+        }
+
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
@@ -459,7 +467,7 @@ pub trait Matter: Default {
         };
 
         let bfs = ((fs + 1) * 3) / 4;
-        if qb2.len() < bfs as usize {
+        if qb2.len() < bfs as usize || bfs < bcs + szg.ls {
             return err!(Error::Shortage(format!(
                 "insufficient material: qb2 size = {}, bfs = {bfs}",
                 qb2.len(),
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 40fee97..916ea45 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -2,6 +2,18 @@ use crate::error::{err, Error, Result};
 
 pub const REB64_STRING: &str = "^[A-Za-z0-9\\-_]*$";
 
+/// characters start..end, or an error when they have not arrived or are not whole characters
+pub(crate) fn slice(text: &str, start: usize, end: usize) -> Result<&str> {
+    if text.len() < end {
+        return err!(Error::Shortage(format!("need {} more characters", end - text.len())));
+    }
+
+    match text.get(start..end) {
+        Some(s) => Ok(s),
+        None => err!(Error::ParseQb64("non-base64 character".to_string())),
+    }
+}
+
 pub fn b64_char_to_index(c: char) -> Result<u8> {
     Ok(match c {
         'A' => 0,
-- 
2.43.0


From 57aa866388ad3f4b741344fb24d2d38dcf770c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/39] fix: parse a primitive from the head of a byte stream
 whatever follows it

---
 src/cesr/core/counter/mod.rs | 2 +-
 src/cesr/core/indexer/mod.rs | 2 +-
 src/cesr/core/matter/mod.rs  | 2 +-
 src/cesr/core/util.rs        | 8 ++++++++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index 704f364..9b82e0c 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -139,7 +139,7 @@ impl Counter {
 
     pub fn new_with_qb64b(qb64b: &[u8]) -> Result<Self> {
         let mut counter: Counter = Default::default();
-        counter.exfil(std::str::from_utf8(qb64b)?)?;
+        counter.exfil(util::text_head(qb64b))?;
         Ok(counter)
     }
 
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 3c8a17f..0429375 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -162,7 +162,7 @@ pub trait Indexer: Default {
         Self: Sized,
     {
         let mut i: Self = Self::default();
-        i.exfil(std::str::from_utf8(qb64b)?)?;
+        i.exfil(util::text_head(qb64b))?;
         Ok(i)
     }
 
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 1dae14a..6cee7ff 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -127,7 +127,7 @@ pub trait Matter: Default {
         Self: Sized,
     {
         let mut matter = Self::default();
-        matter.exfil(std::str::from_utf8(qb64b)?)?;
+        matter.exfil(util::text_head(qb64b))?;
         Ok(matter)
     }
 
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 916ea45..d6dfc4c 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -14,6 +14,14 @@ pub(crate) fn slice(text: &str, start: usize, end: usize) -> Result<&str> {
     }
 }
 
+/// leading text of a stream, whatever (e.g. binary or partially received) content follows it
+pub(crate) fn text_head(stream: &[u8]) -> &str {
+    match std::str::from_utf8(stream) {
+        Ok(s) => s,
+        Err(e) => std::str::from_utf8(&stream[..e.valid_up_to()]).unwrap_or_default(),
+    }
+}
+
 pub fn b64_char_to_index(c: char) -> Result<u8> {
     Ok(match c {
         'A' => 0,
-- 
2.43.0


From 53d47eeaf2699b74c7ea4f54a59aed2f4db788d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 03/39] fix: report a partially received message as short
 instead of panicking

---
 src/cesr/core/common.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index bac8701..97f8777 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -244,6 +244,13 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        if raw.len() < size as usize {
+            return err!(Error::Shortage(format!(
+                "need {} more bytes",
+                size as usize - raw.len()
+            )));
+        }
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-- 
2.43.0


From fbeb6b204d955fa996d8e518c98cc4b0c3dbd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 04/39] fix: read a message from the head of a stream whatever
 bytes follow it

---
 src/cesr/core/common.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 97f8777..642884c 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -281,6 +281,8 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref REVER_BYTES: regex::bytes::Regex =
+            regex::bytes::Regex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -290,8 +292,8 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
+    // attachments or a partially received message, not necessarily text, may follow
+    let start = match REVER_BYTES.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
@@ -302,7 +304,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let vs = std::str::from_utf8(&raw[start..(start + VERSION_FULL_SIZE)])?;
 
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-- 
2.43.0


From a9d9bffe2f3370a0a791727ba599a1e8f9d3eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 05/39] fix: accept any JSON number in received data instead of
 panicking

---
 src/data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..e1812c2 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -284,10 +284,11 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    // floats, with or without a decimal point, and integers too large for i64
+                    Self::Number(Number::from(n.as_f64().unwrap_or(f64::NAN)))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
-- 
2.43.0


From e4effc46d2ee69b162c1040642ddf4b46b487eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 06/39] fix: report a missing or mistyped message field as an
 error instead of panicking

---
 src/cesr/core/creder.rs   |  6 +++---
 src/cesr/core/sadder.rs   |  6 +++---
 src/cesr/core/saider.rs   |  2 +-
 src/cesr/core/serder.rs   |  6 +++---
 src/data.rs               | 11 +++++++++++
 src/prefexing/prefixer.rs |  4 ++--
 6 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/cesr/core/creder.rs b/src/cesr/core/creder.rs
index c95215e..c84df47 100644
--- a/src/cesr/core/creder.rs
+++ b/src/cesr/core/creder.rs
@@ -57,15 +57,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().field(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().field(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        self.ked().field(Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index ea3018a..3bcf45c 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 272cc74..4bd2597 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -61,7 +61,7 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
diff --git a/src/cesr/core/serder.rs b/src/cesr/core/serder.rs
index 75445f1..fc55476 100644
--- a/src/cesr/core/serder.rs
+++ b/src/cesr/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.field(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.field(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.field(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index e1812c2..d063908 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,17 @@ impl Value {
         }
     }
 
+    /// field of a map, or an error if this is not a map or the field is absent
+    pub(crate) fn field(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field {label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index ed1ce86..8fd7254 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -58,7 +58,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.field(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -332,7 +332,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.field(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 63235216e3efef756b9d88a585322006af991dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 07/39] fix: cut a pretty printed message between characters
 instead of panicking

---
 src/cesr/core/sadder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index 3bcf45c..f67c39b 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -199,8 +199,11 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From 9f3adef245f060d6eba826de7e088d6549d2f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 08/39] fix: ignore signer positions outside a weighted
 threshold instead of panicking

---
 src/cesr/core/tholder.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c3dfdfc..31f9fec 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -218,13 +218,12 @@ impl Tholder {
             static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
         }
 
-        let mut indices = indices.to_vec();
-        indices.sort();
-        indices.dedup();
-
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // a position outside the list carries no weight
+            if let Some(sat) = sats.get_mut(*index as usize) {
+                *sat = true;
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From 56fedb525244753ee21dfcf8767dbd4bc8b9c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 09/39] fix: count each signer once towards a numeric threshold

---
 src/cesr/core/tholder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 31f9fec..5111d5c 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -206,6 +206,11 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        // the same signer counts once
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From e003227080db0087b3f7f9569f76145e842f54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/39] fix: reject a threshold weight that is not a number
 instead of panicking or miscounting it

---
 src/cesr/core/tholder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 5111d5c..f766a5e 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -39,9 +39,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
-                if parts[0] == "0" {
+                if weight == "0" {
                     clause.push(Rational32::new(0, 1));
-                } else if parts[0] == "1" {
+                } else if weight == "1" {
                     clause.push(Rational32::new(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
@@ -52,6 +52,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {weight} has no value")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-- 
2.43.0


From a05ec8527873c5b1213c85d4cf5546b45b4858fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 11/39] fix: sum threshold weights without overflowing

---
 src/cesr/core/tholder.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index f766a5e..c41b29f 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -8,8 +8,7 @@ use crate::{
     error::{err, Error, Result},
 };
 
-use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::BigRational;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,13 +25,13 @@ impl Default for Tholder {
     }
 }
 
-fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
+fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
-    let mut clauses: Vec<Vec<Rational32>> = Vec::new();
+    let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
     for _clause in threshold {
-        let mut clause: Vec<Rational32> = Vec::new();
+        let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
@@ -40,9 +39,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             if parts.len() != 2 {
                 // must be 0 or 1
                 if weight == "0" {
-                    clause.push(Rational32::new(0, 1));
+                    clause.push(BigRational::from_integer(0.into()));
                 } else if weight == "1" {
-                    clause.push(Rational32::new(1, 1));
+                    clause.push(BigRational::from_integer(1.into()));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
@@ -58,20 +57,20 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-                clause.push(Rational32::new(numer, denom));
+                clause.push(BigRational::new(numer.into(), denom.into()));
             }
         }
         clauses.push(clause);
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = BigRational::from_integer(0.into());
 
         for weight in clause {
             sum += weight;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < BigRational::from_integer(1.into()) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -82,12 +81,12 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
-fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
+fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
         let mut text_clause: Vec<String> = Vec::new();
         for weight in clause {
-            if *weight.denom() == 1 {
+            if weight.is_integer() {
                 text_clause.push(format!("{n}", n = weight.numer()));
             } else {
                 text_clause.push(format!("{n}s{d}", n = weight.numer(), d = weight.denom()));
@@ -222,9 +221,7 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
-        }
+        let one = BigRational::from_integer(1.into());
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
@@ -238,14 +235,14 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = BigRational::from_integer(0.into());
             for weight in clause {
                 if sats[wio] {
                     cw += weight;
                 }
                 wio += 1;
             }
-            if cw < *RATIONAL_ONE {
+            if cw < one {
                 return Ok(false);
             }
         }
@@ -377,7 +374,7 @@ impl Tholder {
         for clause in threshold {
             let mut inner: Vec<Value> = Vec::new();
             for weight in clause {
-                if *weight.denom() == 1 {
+                if weight.is_integer() {
                     inner.push(dat!(&format!("{n}", n = weight.numer())));
                 } else {
                     inner.push(dat!(&weight.to_string()));
-- 
2.43.0


From 5f810b188fa578789fc09c8ba9b9e1f8643e0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 12/39] fix: report a threshold that is not qualified material
 as an error instead of panicking

---
 src/cesr/core/tholder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c41b29f..ff1aeb0 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -3,6 +3,7 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
@@ -270,7 +271,7 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = util::slice(&limen, 0, hs)?;
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From 92d69bfd8662da58ac7e5ed63b86ba0175a3bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 13/39] fix: reject qualified material of another kind as a
 salt, number or prefix

---
 src/cesr/core/number.rs   | 1 +
 src/cesr/core/salter.rs   | 1 +
 src/prefexing/prefixer.rs | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index d5a27f9..4a1a48f 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -89,6 +89,7 @@ impl Number {
             validate_code(code)?;
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
+        validate_code(&number.code())?;
 
         Ok(number)
     }
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index e8984a2..4f2cf65 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -54,6 +54,7 @@ impl Salter {
             } else {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
+        validate_code(&salter.code())?;
 
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index 8fd7254..821699d 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -268,7 +268,9 @@ impl Prefixer {
             || qb2.is_some()
         {
             validate_code(code.unwrap_or(matter::Codex::Ed25519N))?;
-            Matter::new(code, raw, qb64b, qb64, qb2)?
+            let prefixer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
+            validate_code(&prefixer.code())?;
+            prefixer
         } else {
             let ked = if let Some(ked) = ked {
                 if code.is_none() && !ked.to_map()?.contains_key(Ids::i) {
-- 
2.43.0


From 793139f6e3087a65ec898f4bdee4e1e6472d581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 14/39] fix: reject an incomplete variable size code instead of
 panicking

---
 src/cesr/core/matter/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 6cee7ff..3823367 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -64,12 +64,13 @@ pub trait Matter: Default {
                     if size < 64_u32.pow(2) {
                         let hs = 2;
                         let s = tables::SMALL_VRZ_DEX[ls as usize];
-                        code = format!("{s}{}", &code[1..hs as usize]);
+                        code = format!("{s}{}", util::slice(&code, 1, hs as usize)?);
                     } else if size < 64_u32.pow(4) {
                         let hs = 4;
                         let s = tables::LARGE_VRZ_DEX[ls as usize];
+                        let kind = util::slice(&code, 1, 2)?;
 
-                        code = format!("{s}{}{}", &"AAAA"[0..hs as usize - 2], &code[1..2]);
+                        code = format!("{s}{}{kind}", &"AAAA"[0..hs as usize - 2]);
                     } else {
                         return err!(Error::InvalidVarRawSize(format!(
                             "unsupported raw size: code = '{code}'",
@@ -79,7 +80,7 @@ pub trait Matter: Default {
                     if size < 64_u32.pow(4) {
                         let hs = 4;
                         let s = tables::LARGE_VRZ_DEX[ls as usize];
-                        code = format!("{s}{}", &code[1..hs as usize]);
+                        code = format!("{s}{}", util::slice(&code, 1, hs as usize)?);
                     } else {
                         return err!(Error::InvalidVarRawSize(format!(
                             "unsupported raw size: code = '{code}'",
-- 
2.43.0


From 9caba40194780165a169802de8f6b2b398a3885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 15/39] fix: accept an empty list where a non-transferable
 inception must commit to nothing

---
 src/prefexing/prefixer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index 821699d..9f09183 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -87,6 +87,13 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+fn is_empty(value: &Value) -> Result<bool> {
+    match value.to_vec() {
+        Ok(v) => Ok(v.is_empty()),
+        Err(_) => Ok(value.to_string()?.is_empty()),
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -112,17 +119,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From 70982b47ee40801b14da3b402bc5ac6500dd802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 16/39] fix: treat a non-transferable secp256r1 key as
 non-transferable

---
 src/cesr/core/matter/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 3823367..7418272 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -170,8 +170,12 @@ pub trait Matter: Default {
     }
 
     fn transferable(&self) -> bool {
-        const CODES: &[&str] =
-            &[tables::Codex::Ed25519N, tables::Codex::ECDSA_256k1N, tables::Codex::Ed448N];
+        const CODES: &[&str] = &[
+            tables::Codex::Ed25519N,
+            tables::Codex::ECDSA_256k1N,
+            tables::Codex::ECDSA_256r1N,
+            tables::Codex::Ed448N,
+        ];
 
         !CODES.contains(&self.code().as_str())
     }
-- 
2.43.0


From 8847c741586811c801e2514c5ae24ad8c1b87316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 17/39] fix: report a stored salt that cannot be read instead
 of panicking

---
 src/signify/creating.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 5b4c116..399deaf 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -54,7 +54,7 @@ impl SaltyCreator {
         if let Some(s) = salter {
             salty_creator.salter = s;
         } else {
-            salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
+            salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
 
         Ok(salty_creator)
-- 
2.43.0


From 63f74088d96aad11384c831252037dc71fc2a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 18/39] fix: stretch created keys with the requested security
 tier

---
 src/signify/creating.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 399deaf..e28da40 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -56,6 +56,7 @@ impl SaltyCreator {
         } else {
             salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
+        salty_creator.tier = salty_creator.salter.tier();
 
         Ok(salty_creator)
     }
-- 
2.43.0


From 23ef0e554ad5ebffdcc4071eef8a27fdf9f63f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 19/39] fix: derive keys past key index 65535 instead of
 panicking or repeating earlier keys

---
 src/signify/creating.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index e28da40..22b5985 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -104,7 +104,7 @@ impl SaltyCreator {
 
         let mut signers = vec![];
         for (i, c) in codes.iter().enumerate() {
-            let path = format!("{}{:x}{:x}", stem, &ridx, kidx + i as u16);
+            let path = format!("{}{:x}{:x}", stem, &ridx, kidx as usize + i);
             signers.push(
                 self.salter
                     .signer(Some(c), Some(transferable), Some(&path), Some(&self.tier), Some(temp))
-- 
2.43.0


From 8d7c342a9db6546d9d738359e61fddf137062738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 20/39] fix: strip exactly the root from the front of a path

---
 src/pathing/pather.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 71a5cbe..5891b79 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -134,22 +134,13 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
-            return Ok(self.clone());
-        }
-
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
+        match path.strip_prefix(root_path.as_slice()) {
+            Some(path) => Pather::new_with_path(&dat!(path)),
+            None => Ok(self.clone()),
         }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From a49868bcb513215ad6f3ef2e3c3a3dd70f259520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 21/39] fix: compare whole path elements when testing for a
 leading path

---
 src/pathing/pather.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 5891b79..e060e9f 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -144,7 +144,7 @@ impl Pather {
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-        Ok(self.bext()?.starts_with(&path.bext()?))
+        Ok(self.path()?.to_vec()?.starts_with(&path.path()?.to_vec()?))
     }
 
     pub fn resolve(&self, sad: &Value) -> Result<Value> {
-- 
2.43.0


From 63f87df05404a8cbb18c7e691c4b81e1de31f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 22/39] fix: erase temporary copies of secret keys and salts

---
 src/cesr/core/matter/mod.rs |  2 +-
 src/cesr/core/salter.rs     | 12 +++++-------
 src/signing/signer.rs       | 16 ++++++++--------
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 7418272..3c65585 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -146,7 +146,7 @@ pub trait Matter: Default {
     }
 
     fn qb64b(&self) -> Result<Vec<u8>> {
-        Ok(self.qb64()?.as_bytes().to_vec())
+        Ok(self.qb64()?.into_bytes())
     }
 
     fn qb2(&self) -> Result<Vec<u8>> {
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index 4f2cf65..97a98d9 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::signing::signer::Signer;
 use crate::{
@@ -93,7 +93,7 @@ impl Salter {
         let path = path.unwrap_or("");
         let size = size.unwrap_or(32);
 
-        let seed = salt::stretch(path.as_bytes(), &self.raw(), size, tier)?;
+        let seed = salt::stretch(path.as_bytes(), &Zeroizing::new(self.raw()), size, tier)?;
 
         Ok(seed)
     }
@@ -116,12 +116,10 @@ impl Salter {
         let temp = temp.unwrap_or(false);
 
         let size = matter::raw_size(code)?;
-        let mut seed = self.stretch(Some(size as usize), Some(path), tier, Some(temp))?;
+        let seed = self.stretch(Some(size as usize), Some(path), tier, Some(temp))?;
+        let seed = Zeroizing::new(seed);
 
-        let signer = Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)?;
-        seed.zeroize();
-
-        Ok(signer)
+        Signer::new(Some(transferable), Some(code), Some(&seed), None, None, None)
     }
 
     #[allow(clippy::too_many_arguments)]
diff --git a/src/signing/signer.rs b/src/signing/signer.rs
index 383b79b..a79bca8 100644
--- a/src/signing/signer.rs
+++ b/src/signing/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{Zeroize, ZeroizeOnDrop};
+use zeroize::{ZeroizeOnDrop, Zeroizing};
 
 use crate::cesr::core::{
     cigar::Cigar,
@@ -105,10 +105,9 @@ impl Signer {
         let mut signer: Signer = if qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let code = code.unwrap_or(matter::Codex::Ed25519_Seed);
             validate_code(code)?;
-            let mut raw = if let Some(raw) = raw { raw.to_vec() } else { sign::generate(code)? };
-            let matter = Matter::new(Some(code), Some(&raw), None, None, None)?;
-            raw.zeroize();
-            matter
+            let raw = if let Some(raw) = raw { raw.to_vec() } else { sign::generate(code)? };
+            let raw = Zeroizing::new(raw);
+            Matter::new(Some(code), Some(&raw), None, None, None)?
         } else {
             let signer: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
             validate_code(&signer.code())?;
@@ -151,7 +150,7 @@ impl Signer {
             _ => return err!(Error::UnexpectedCode(self.code())),
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Cigar::new(Some(&self.verfer()), Some(code), Some(&sig), None, None, None)
     }
 
@@ -203,7 +202,7 @@ impl Signer {
             (code, Some(ondex))
         };
 
-        let sig = sign::sign(&self.code(), &self.raw(), ser)?;
+        let sig = sign::sign(&self.code(), &Zeroizing::new(self.raw()), ser)?;
         Siger::new(
             Some(&self.verfer()),
             Some(index),
@@ -221,7 +220,8 @@ impl Signer {
     }
 
     fn derive_and_assign_verfer(&mut self, transferable: bool) -> Result<()> {
-        self.verfer = derive_verfer(&self.code(), &self.raw(), transferable)?;
+        let raw = Zeroizing::new(self.raw());
+        self.verfer = derive_verfer(&self.code(), &raw, transferable)?;
         Ok(())
     }
 }
-- 
2.43.0


From d7bf6d624330f53c96f4093f07996cc9d8a5da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 23/39] hook: open private entry points to the simulator (cfg
 keride_sim, off by default)

---
 src/lib.rs              |  2 ++
 src/messaging.rs        | 13 +++++++++++++
 src/receipting.rs       | 12 ++++++++++++
 src/signify/creating.rs | 18 ++++++++++++++++++
 4 files changed, 45 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3537902..a9d61e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 // TODO: remove before 1.0.0
 #![allow(dead_code)]
+// keride_sim (off by default) opens private entry points to the simulator
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 #[cfg(feature = "cesr")]
diff --git a/src/messaging.rs b/src/messaging.rs
index 6fd5a7c..0b4c066 100644
--- a/src/messaging.rs
+++ b/src/messaging.rs
@@ -64,3 +64,16 @@ fn messagize(
 
     Ok(message + &atc)
 }
+
+/// messagize, for the simulator. A seal is given by its parts: i, s, d, last
+#[cfg(keride_sim)]
+pub fn sim_messagize(
+    serder: &Serder,
+    sigers: Option<&[Siger]>,
+    seal: Option<(&str, &str, &str, bool)>,
+    wigers: Option<&[Siger]>,
+    cigars: Option<&[Cigar]>,
+) -> Result<String> {
+    let seal = seal.map(|(i, s, d, last)| Seal::new(i, s, d, Some(last)));
+    messagize(serder, sigers, seal.as_ref(), wigers, cigars)
+}
diff --git a/src/receipting.rs b/src/receipting.rs
index 64d7792..20c3422 100644
--- a/src/receipting.rs
+++ b/src/receipting.rs
@@ -33,3 +33,15 @@ fn receipt(
 
     Serder::new_with_ked(&ked, None, None)
 }
+
+/// receipt, for the simulator
+#[cfg(keride_sim)]
+pub fn sim_receipt(
+    pre: &str,
+    sn: u128,
+    said: &str,
+    version: Option<&Version>,
+    kind: Option<&str>,
+) -> Result<Serder> {
+    receipt(pre, sn, said, version, kind)
+}
diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 22b5985..8451437 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -157,6 +157,24 @@ impl RandyCreator {
     }
 }
 
+/// RandyCreator, for the simulator
+#[cfg(keride_sim)]
+impl RandyCreator {
+    pub fn sim_new() -> Self {
+        Self::new()
+    }
+
+    pub fn sim_create(
+        &self,
+        codes: Option<Vec<&str>>,
+        count: Option<u16>,
+        code: Option<&str>,
+        transferable: Option<bool>,
+    ) -> Vec<Signer> {
+        self.create(codes, count, code, transferable)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::cesr::{
-- 
2.43.0


From 7dde021967f3773ac03f77be994fc31c08c1a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 24/39] fix: check index sizes of the code in use when writing
 the binary form

The range check of an index used the whole soft size, which overflows for
the largest code (3A, 3B: a panic with overflow checks), and checked the
other index only where it is one character.
---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index 0429375..e07707c 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -291,13 +291,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From ff840ad32d544bbf83b49098d0f26646c4bb3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 25/39] fix: keep integers above i64 exact in message content

An integer between i64::MAX and u64::MAX was read as a float, so a received
message came out with other digits and two different integers looked equal.
---
 src/data.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index d063908..fc0add4 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,8 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    // wide enough for every integer JSON is read into
+    i: i128,
     float: bool,
 }
 
@@ -26,9 +27,15 @@ impl From<f64> for Number {
     }
 }
 
+impl From<u64> for Number {
+    fn from(i: u64) -> Self {
+        Self { f: 0.0, i: i as i128, float: false }
+    }
+}
+
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
-        Self { f: 0.0, i, float: false }
+        Self { f: 0.0, i: i as i128, float: false }
     }
 }
 
@@ -67,7 +74,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -121,7 +128,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -297,8 +304,10 @@ impl From<&JsonValue> for Value {
             JsonValue::Number(n) => {
                 if let Some(i) = n.as_i64() {
                     Self::Number(Number::from(i))
+                } else if let Some(i) = n.as_u64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    // floats, with or without a decimal point, and integers too large for i64
+                    // floats, with or without a decimal point, and integers too large for u64
                     Self::Number(Number::from(n.as_f64().unwrap_or(f64::NAN)))
                 }
             }
@@ -350,7 +359,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From 3c4b74893d18273a98297812215f835a39462964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 26/39] fix: refuse an unknown security tier when a salty
 creator is made

---
 src/signify/creating.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 8451437..4452809 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -5,7 +5,7 @@ use crate::cesr::common::Tierage;
 use crate::cesr::Salter;
 
 use crate::cesr::core::matter::tables as matter;
-use crate::error::Result;
+use crate::error::{err, Error, Result};
 use crate::signing::Signer;
 
 pub const STEM: &str = "signify:aid";
@@ -58,6 +58,13 @@ impl SaltyCreator {
         }
         salty_creator.tier = salty_creator.salter.tier();
 
+        // create() has no way to report it
+        if ![Tierage::min, Tierage::low, Tierage::med, Tierage::high]
+            .contains(&salty_creator.tier.as_str())
+        {
+            return err!(Error::Value("unknown security tier selected".to_string()));
+        }
+
         Ok(salty_creator)
     }
 
-- 
2.43.0


From d37256efa3701442cf600227dd5cb72d4118cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 27/39] fix: self-addressed content without its identifier
 field does not verify

---
 src/cesr/core/saider.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 4bd2597..5851286 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -233,7 +233,8 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
+        // the field may be missing, it is filled in when the digest is derived
+        if prefixed && sad.to_map()?.get(label) != Some(&dat!(&self.qb64()?)) {
             return Ok(false);
         }
 
-- 
2.43.0


From b17b9c39df0763311bbfa7569a7f71084682766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 28/39] fix: keep the order of fields when some are left out of
 a self-addressing digest

---
 src/cesr/core/saider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 5851286..03f3c60 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -76,7 +76,7 @@ fn derive(
     let mut map = sad.to_map()?;
     for key in ignore.unwrap_or(&[]) {
         if map.contains_key(*key) {
-            map.remove(*key);
+            map.shift_remove(*key);
         }
     }
     let ser = dat!(&map);
-- 
2.43.0


From 66f1a67ebbc4a997573ca74669ff8397cf6538e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 29/39] fix: refuse a threshold without any weights

---
 src/cesr/core/tholder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index ff1aeb0..da32a29 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -367,6 +367,11 @@ impl Tholder {
 
     fn process_weighted(&mut self, thold: &Value) -> Result<()> {
         let threshold = &values_to_rationals(thold)?;
+        if threshold.is_empty() {
+            // no clauses would be met by nobody at all
+            return err!(Error::Value("empty weight list".to_string()));
+        }
+
         let mut size = 0;
         for clause in threshold {
             size += clause.len() as u32;
-- 
2.43.0


From dee66f55311c220b553be49d90b251b6951d7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:49 +0000
Subject: [PATCH 30/39] fix: refuse a date time that does not fit its fixed
 size form

Text that is too long was silently cut, and characters standing for others
were replaced, so the time read back was not the one given.
---
 src/cesr/core/dater.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cesr/core/dater.rs b/src/cesr/core/dater.rs
index b4f1cc6..c704d06 100644
--- a/src/cesr/core/dater.rs
+++ b/src/cesr/core/dater.rs
@@ -35,11 +35,6 @@ fn now_as_iso8601() -> String {
     dt.to_rfc3339_opts(chrono::SecondsFormat::Micros, false)
 }
 
-fn now_as_b64() -> String {
-    let dt = now_as_iso8601();
-    iso_8601_to_b64(&dt)
-}
-
 impl Dater {
     pub fn new(
         dts: Option<&str>,
@@ -52,9 +47,16 @@ impl Dater {
         let code = if let Some(code) = code { Some(code) } else { Some(matter::Codex::DateTime) };
 
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
-            let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
-            let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
-            Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
+            let dts = if let Some(dts) = dts { dts.to_string() } else { now_as_iso8601() };
+            let qb64 = format!("{}{}", matter::Codex::DateTime, iso_8601_to_b64(&dts));
+            let dater: Self = Matter::new(code, raw, qb64b, Some(&qb64), qb2)?;
+
+            // what does not fit the fixed size form would be read back as another text
+            if dater.dts()? != dts {
+                return err!(Error::Value(format!("invalid date time string {dts}")));
+            }
+
+            dater
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
         };
-- 
2.43.0


From c0a035377bead15bfaf70c39ab5b93e298dc5a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:20 +0000
Subject: [PATCH 31/39] fix: refuse a version or size that does not fit the
 version string

---
 src/cesr/core/common.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 642884c..58b8ad5 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -233,11 +233,19 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
-    Ok(format!(
+    let vs = format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
         minor = version.minor
-    ))
+    );
+
+    if vs.len() != VERSION_FULL_SIZE {
+        return err!(Error::Value(format!(
+            "version {version:?} or size {size} does not fit in version string"
+        )));
+    }
+
+    Ok(vs)
 }
 
 pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result<Value> {
-- 
2.43.0


From 124945d438dc8ce30260af30367299815de52151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 32/39] fix: refuse a base 64 number that does not fit the
 integer

---
 src/cesr/core/util.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index d6dfc4c..b3baac7 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -166,6 +166,10 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("base 64 number too large: b64 = '{b64}'")));
+        }
+
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -176,6 +180,10 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion(format!("base 64 number too large: b64 = '{b64}'")));
+        }
+
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0


From 18ccd259fc58155e34841388d2b8b2a522c5f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 33/39] fix: refuse a prior position a single position code
 cannot carry

---
 src/cesr/core/indexer/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index e07707c..b71dde9 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -98,11 +98,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
+        if BothSigCodex::has_code(code) && ondex.is_none() {
+            // when not provided make ondex match index
+            ondex = Some(index);
         } else if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
-- 
2.43.0


From 4be9d2a1a131459d4abf812e3eb5241de767d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 34/39] fix: report a given digest that cannot be read instead
 of computing another one

---
 src/cesr/core/diger.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/diger.rs b/src/cesr/core/diger.rs
index 6f334f3..e4ed45e 100644
--- a/src/cesr/core/diger.rs
+++ b/src/cesr/core/diger.rs
@@ -64,9 +64,9 @@ impl Diger {
         qb64: Option<&str>,
         qb2: Option<&[u8]>,
     ) -> Result<Self> {
-        let result = Matter::new(code, raw, qb64b, qb64, qb2);
-        if result.is_ok() {
-            let diger: Self = result?;
+        // material that is given but cannot be read is an error: it is never replaced
+        if raw.is_some() || qb64b.is_some() || qb64.is_some() || qb2.is_some() {
+            let diger: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
             validate_code(&diger.code())?;
             Ok(diger)
         } else if let Some(ser) = ser {
-- 
2.43.0


From 979627b3d06df84a59080a826942871aeb104326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:53 +0000
Subject: [PATCH 35/39] fix: erase what is decoded or copied of a secret on
 every path

---
 src/cesr/core/matter/mod.rs | 34 ++++++++++++----------------------
 src/cesr/core/salter.rs     |  1 +
 src/cesr/core/util.rs       |  3 +++
 src/signing/signer.rs       |  3 ++-
 4 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 3c65585..4298582 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -183,7 +183,7 @@ pub trait Matter: Default {
     fn infil(&self) -> Result<String> {
         let code = &self.code();
         let size = self.size();
-        let mut raw = self.raw();
+        let raw = Zeroizing::new(self.raw());
 
         let ps = (3 - raw.len() % 3) % 3;
         let szg = tables::sizage(code)?;
@@ -217,7 +217,6 @@ pub trait Matter: Default {
 
             let mut buffer = Zeroizing::new(vec![0u8; raw.len() + szg.ls as usize]);
             buffer[szg.ls as usize..].clone_from_slice(&raw);
-            raw.zeroize();
 
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
@@ -236,7 +235,6 @@ pub trait Matter: Default {
 
             let mut buffer = Zeroizing::new(vec![0u8; raw.len() + ps]);
             buffer[ps..].clone_from_slice(&raw);
-            raw.zeroize();
 
             let mut b64_vec = Zeroizing::new(vec![0u8; buffer.len() * 4 / 3]);
             b64_engine::URL_SAFE.encode_slice(&buffer, &mut b64_vec)?;
@@ -248,7 +246,7 @@ pub trait Matter: Default {
     fn binfil(&self) -> Result<Vec<u8>> {
         let code = &self.code();
         let size = self.size();
-        let mut raw = self.raw();
+        let raw = Zeroizing::new(self.raw());
 
         let szg = tables::sizage(code)?;
         let cs = szg.hs + szg.ss;
@@ -306,13 +304,13 @@ pub trait Matter: Default {
 
         let bfs = buffer.len();
         if bfs % 3 != 0 || (bfs * 4 / 3) != fs as usize {
+            buffer.zeroize();
             return err!(Error::InvalidCodeSize(format!(
                 "invalid code for raw size: code = '{both}', raw size = {}",
                 raw.len()
             )));
         }
 
-        raw.zeroize();
         Ok(buffer)
     }
 
@@ -369,13 +367,12 @@ pub trait Matter: Default {
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
-        let mut raw = if ps != 0 {
-            let mut buf = "A".repeat(ps as usize) + body;
+        let raw = if ps != 0 {
+            let buf = Zeroizing::new("A".repeat(ps as usize) + body);
 
             // decode base to leave pre-padded raw
-            let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
-            buf.zeroize();
+            let mut paw = Zeroizing::new(Vec::<u8>::new());
+            b64_engine::URL_SAFE.decode_vec(buf.as_str(), &mut paw)?;
 
             let mut pi: i32 = 0;
             // readInt
@@ -387,11 +384,9 @@ pub trait Matter: Default {
                 return err!(Error::Prepad());
             }
 
-            let raw = paw[ps as usize..].to_vec();
-            paw.zeroize();
-            raw
+            Zeroizing::new(paw[ps as usize..].to_vec())
         } else {
-            let mut paw = Vec::<u8>::new();
+            let mut paw = Zeroizing::new(Vec::<u8>::new());
             b64_engine::URL_SAFE.decode_vec(body, &mut paw)?;
             if paw.len() < szg.ls as usize {
                 return err!(Error::Shortage("insufficient material for lead bytes".to_string()));
@@ -408,9 +403,7 @@ pub trait Matter: Default {
                     _ => return err!(Error::NonZeroedLeadBytes()),
                 }
             }
-            let raw = paw[szg.ls as usize..].to_vec();
-            paw.zeroize();
-            raw
+            Zeroizing::new(paw[szg.ls as usize..].to_vec())
         };
 
         // base64 padding inside the material would otherwise shorten it unnoticed
@@ -424,7 +417,6 @@ pub trait Matter: Default {
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
-        raw.zeroize();
 
         Ok(())
     }
@@ -479,7 +471,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let mut trim = qb2[..bfs as usize].to_vec();
+        let trim = Zeroizing::new(qb2[..bfs as usize].to_vec());
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
         if ps != 0 {
@@ -500,19 +492,17 @@ pub trait Matter: Default {
             }
         }
 
-        let mut raw = trim[(bcs + szg.ls) as usize..].to_vec();
+        let raw = Zeroizing::new(trim[(bcs + szg.ls) as usize..].to_vec());
         if raw.len() != (trim.len() - bcs as usize) - szg.ls as usize {
             // unreachable. rust prevents this by the definition of `raw` above.
             return err!(Error::Conversion(format!(
                 "improperly qualified material: qb2 = {qb2:?}",
             )));
         }
-        trim.zeroize();
 
         self.set_code(&hard);
         self.set_size(size);
         self.set_raw(&raw);
-        raw.zeroize();
 
         Ok(())
     }
diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index 97a98d9..49f5c16 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -176,6 +176,7 @@ impl Matter for Salter {
     }
 
     fn set_raw(&mut self, raw: &[u8]) {
+        self.raw.zeroize();
         self.raw = raw.to_vec();
     }
 
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index b3baac7..994b652 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -284,6 +284,9 @@ pub fn nab_sextets(binary: &[u8], count: usize) -> Result<Vec<u8>> {
         return err!(Error::TooSmall(n - binary.len()));
     }
 
+    // what follows may be secret, leave it alone
+    let binary = &binary[..n];
+
     let bps = 3 - (binary.len() % 3);
     let mut padded = vec![0; binary.len() + bps];
     padded[..binary.len()].copy_from_slice(binary);
diff --git a/src/signing/signer.rs b/src/signing/signer.rs
index a79bca8..44a2fdb 100644
--- a/src/signing/signer.rs
+++ b/src/signing/signer.rs
@@ -1,4 +1,4 @@
-use zeroize::{ZeroizeOnDrop, Zeroizing};
+use zeroize::{Zeroize, ZeroizeOnDrop, Zeroizing};
 
 use crate::cesr::core::{
     cigar::Cigar,
@@ -244,6 +244,7 @@ impl Matter for Signer {
     }
 
     fn set_raw(&mut self, raw: &[u8]) {
+        self.raw.zeroize();
         self.raw = raw.to_vec();
     }
 
-- 
2.43.0


From 8a071275c38b576f325e83bcd8d19b1a8c2ab944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:42 +0000
Subject: [PATCH 36/39] fix: sniff reports a message head that has not fully
 arrived as a shortage

---
 src/cesr/core/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 58b8ad5..9a3ee95 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -294,7 +294,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
-        return err!(Error::Value(format!(
+        return err!(Error::Shortage(format!(
             "need more bytes than {bytes} to sniff",
             bytes = raw.len()
         )));
-- 
2.43.0


From 6e8fe4a7f073efad572fbd3d8ed9e04a82882a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:06 +0000
Subject: [PATCH 37/39] fix: Ed25519 signatures that need no secret key are not
 accepted

Under a public key of small order one fixed signature verified for any bytes (as libsodium, refuse such keys
and signatures).
---
 src/cesr/crypto/sign.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cesr/crypto/sign.rs b/src/cesr/crypto/sign.rs
index e6c02c8..02393ba 100644
--- a/src/cesr/crypto/sign.rs
+++ b/src/cesr/crypto/sign.rs
@@ -74,7 +74,7 @@ pub(crate) fn verify(code: &str, public_key: &[u8], sig: &[u8], ser: &[u8]) -> R
 }
 
 mod ed25519 {
-    use ed25519_dalek::{Signature, Signer, SigningKey, Verifier, VerifyingKey};
+    use ed25519_dalek::{Signature, Signer, SigningKey, VerifyingKey};
     use rand_core::OsRng;
 
     use crate::error::Result;
@@ -109,7 +109,8 @@ mod ed25519 {
         let public_key = VerifyingKey::from_bytes(public_key.try_into()?)?;
         let signature = Signature::from_bytes(sig.try_into()?);
 
-        match public_key.verify(ser, &signature) {
+        // under a key of small order one signature would verify for any bytes
+        match public_key.verify_strict(ser, &signature) {
             Ok(_) => Ok(true),
             Err(_) => Ok(false),
         }
-- 
2.43.0


From aa98f429b7cc8cb5e60f2fb5116be612a604254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:56 +0000
Subject: [PATCH 38/39] fix: an ECDSA public key in another encoding does not
 verify the signatures of the compressed one

The SEC1 compact form has the size of the compressed one, so one secret had two public keys and identifiers.
---
 src/cesr/crypto/sign.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cesr/crypto/sign.rs b/src/cesr/crypto/sign.rs
index 02393ba..67f8579 100644
--- a/src/cesr/crypto/sign.rs
+++ b/src/cesr/crypto/sign.rs
@@ -124,7 +124,7 @@ mod ecdsa_256k1 {
     };
     use rand_core::OsRng;
 
-    use crate::error::Result;
+    use crate::error::{err, Error, Result};
 
     pub(crate) fn generate() -> Result<Vec<u8>> {
         let mut csprng = OsRng {};
@@ -145,7 +145,12 @@ mod ecdsa_256k1 {
     }
 
     pub(crate) fn verify(public_key: &[u8], sig: &[u8], ser: &[u8]) -> Result<bool> {
-        let public_key = VerifyingKey::from_sec1_bytes(public_key)?;
+        let encoded = public_key;
+        let public_key = VerifyingKey::from_sec1_bytes(encoded)?;
+        // the same point in another encoding would be another key that verifies the same signatures
+        if public_key.to_encoded_point(true).as_bytes() != encoded {
+            return err!(Error::Value("public key is not in compressed form".to_string()));
+        }
         let signature = Signature::try_from(sig)?;
 
         match public_key.verify(ser, &signature) {
@@ -162,7 +167,7 @@ mod ecdsa_256r1 {
     };
     use rand_core::OsRng;
 
-    use crate::error::Result;
+    use crate::error::{err, Error, Result};
 
     pub(crate) fn generate() -> Result<Vec<u8>> {
         let mut csprng = OsRng {};
@@ -183,7 +188,12 @@ mod ecdsa_256r1 {
     }
 
     pub(crate) fn verify(public_key: &[u8], sig: &[u8], ser: &[u8]) -> Result<bool> {
-        let public_key = VerifyingKey::from_sec1_bytes(public_key)?;
+        let encoded = public_key;
+        let public_key = VerifyingKey::from_sec1_bytes(encoded)?;
+        // the same point in another encoding would be another key that verifies the same signatures
+        if public_key.to_encoded_point(true).as_bytes() != encoded {
+            return err!(Error::Value("public key is not in compressed form".to_string()));
+        }
         let signature = Signature::try_from(sig)?;
 
         match public_key.verify(ser, &signature) {
-- 
2.43.0


From e04abb4352c1b8923949d557fcded6ff45d689fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:32 +0000
Subject: [PATCH 39/39] fix: add up many threshold weights without cubic work

---
 src/cesr/core/tholder.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index da32a29..a790709 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -65,13 +65,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = BigRational::from_integer(0.into());
-
-        for weight in clause {
-            sum += weight;
-        }
-
-        if sum < BigRational::from_integer(1.into()) {
+        if !reaches_one(clause) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -82,6 +76,29 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     Ok(clauses)
 }
 
+// whether the weights of a clause sum to one or more. Adding them up one after the other as reduced
+// fractions costs the cube of their number when the denominators have little in common, so halves
+// are added to each other and nothing is reduced on the way
+fn reaches_one(weights: &[BigRational]) -> bool {
+    fn sum(weights: &[BigRational]) -> BigRational {
+        match weights {
+            [] => BigRational::from_integer(0.into()),
+            [weight] => weight.clone(),
+            _ => {
+                let (left, right) = weights.split_at(weights.len() / 2);
+                let (left, right) = (sum(left), sum(right));
+                BigRational::new_raw(
+                    left.numer() * right.denom() + right.numer() * left.denom(),
+                    left.denom() * right.denom(),
+                )
+            }
+        }
+    }
+
+    let sum = sum(weights);
+    sum.numer() >= sum.denom()
+}
+
 fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
@@ -222,8 +239,6 @@ impl Tholder {
     }
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
-        let one = BigRational::from_integer(1.into());
-
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
             // a position outside the list carries no weight
@@ -236,14 +251,14 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = BigRational::from_integer(0.into());
+            let mut signed: Vec<BigRational> = Vec::new();
             for weight in clause {
                 if sats[wio] {
-                    cw += weight;
+                    signed.push(weight);
                 }
                 wio += 1;
             }
-            if cw < one {
+            if !reaches_one(&signed) {
                 return Ok(false);
             }
         }
-- 
2.43.0

