From c95281a0ab6589c7d7fd49a1aae9fde4edf456db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 01/47] fix: string length close to usize::MAX no longer
 overflows the bounds check in DeBin

---
 src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..9c83663 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -254,7 +254,7 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len().saturating_sub(*o) {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
-- 
2.43.0


From 47978e1a4bf3dbbb94e23de44dfadd2e4ff4fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 02/47] fix: do not reserve memory for more elements than there
 are input bytes in DeBin

---
 src/serde_bin.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 9c83663..7381663 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -299,7 +299,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(d.len().saturating_sub(*o)));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +355,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        let mut out = std::collections::HashSet::with_capacity(len.min(d.len().saturating_sub(*o)));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +602,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        let mut h = std::collections::HashMap::with_capacity(len.min(d.len().saturating_sub(*o)));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From 1511eef4fd1738b865558951a9c47e2ce5801209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 03/47] fix: reject Duration nanos of one full second, which
 made Duration::new panic for large secs

---
 src/serde_bin.rs  | 4 ++--
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 7381663..50bb35f 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -675,11 +675,11 @@ impl DeBin for Duration {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Duration, DeBinErr> {
         let secs: u64 = DeBin::de_bin(o, d)?;
         let nanos: u32 = DeBin::de_bin(o, d)?;
-        if nanos > 1_000_000_000 {
+        if nanos >= 1_000_000_000 {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Range(
-                    "Duration nanos must be at most 1,000,000,000".to_owned(),
+                    "Duration nanos must be less than 1,000,000,000".to_owned(),
                 ),
             });
         }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..317c2b2 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1354,8 +1354,8 @@ impl DeJson for Duration {
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
         let nanos = nanos.unwrap_or(0);
 
-        if nanos > 1_000_000_000 {
-            Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
+        if nanos >= 1_000_000_000 {
+            Err(s.err_range("Duration nanos must be less than 1,000,000,000"))
         } else {
             Ok(Duration::new(secs, nanos))
         }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..01d1ac2 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1351,8 +1351,8 @@ impl DeRon for Duration {
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
         let nanos = nanos.unwrap_or(0);
 
-        if nanos > 1_000_000_000 {
-            Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
+        if nanos >= 1_000_000_000 {
+            Err(s.err_range("Duration nanos must be less than 1,000,000,000"))
         } else {
             Ok(Duration::new(secs, nanos))
         }
-- 
2.43.0


From 6e2bc2717893ee333c10d8d56819369fc2faced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 04/47] fix: a SystemTime too far in the future is an error,
 not a panic, when deserializing

---
 src/serde_bin.rs  | 7 ++++++-
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 50bb35f..3d56f77 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -699,7 +699,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime out of range".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 317c2b2..1e136f7 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1375,7 +1375,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 01d1ac2..069cc63 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1372,7 +1372,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From de76b92921ce1adf887a77522305570dab616a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 05/47] fix: skipping an unknown JSON field no longer panics on
 a missing value or loops forever at end of input

---
 src/serde_json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 1e136f7..295c32f 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -303,6 +303,10 @@ impl DeJsonState {
                         open_brackets -= 1;
                     }
 
+                    if self.tok == DeJsonTok::Eof {
+                        return Err(self.err_token("} or ]"));
+                    }
+
                     self.next_tok(i)?;
 
                     if open_brackets == 0 {
@@ -311,7 +315,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From 6b06a2851e73555291959f31fa108fa301db9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 06/47] fix: unsigned JSON/RON integers above i64::MAX are
 rejected for signed targets instead of wrapping

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 295c32f..f4d5d99 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -416,7 +416,7 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 069cc63..5d38d22 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,7 +393,7 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
-- 
2.43.0


From 23bc9fe1728ac1a0c9b62f3291b05ed7069d2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 07/47] fix: serializing an empty slice or array to JSON/RON no
 longer underflows

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index f4d5d99..410f286 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1031,7 +1031,7 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_json(d + 1, s);
             if index != last {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 5d38d22..8aa90c2 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1017,7 +1017,7 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_ron(d + 1, s);
             if index != last {
-- 
2.43.0


From b06889f01b4d43176e6d94238a4a6017e231f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 08/47] fix: JSON comments are skipped in a loop, so many
 comments cannot overflow the stack

---
 src/serde_json.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 410f286..7a3af42 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -457,18 +457,13 @@ impl DeJsonState {
         while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
             self.next(i);
         }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        while self.cur == '/' {
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
                 }
                 '*' => {
                     let mut last = self.cur;
@@ -483,12 +478,18 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
                 }
             }
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+        }
+        if self.cur == '\0' {
+            self.tok = DeJsonTok::Eof;
+            return Ok(());
         }
         match self.cur {
             ':' => {
-- 
2.43.0


From bde99f93491f43d5f0d7e3ed6646e07f40c6663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 09/47] fix: /*/ does not close a block comment, and an
 unterminated RON block comment is an error

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7a3af42..4d167aa 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -466,7 +466,7 @@ impl DeJsonState {
                     }
                 }
                 '*' => {
-                    let mut last = self.cur;
+                    let mut last = ' ';
                     loop {
                         self.next(i);
                         if self.cur == '\0' {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 8aa90c2..e7acdd0 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -497,7 +497,11 @@ impl DeRonState {
                     } else if self.cur == '*' {
                         // multline comment
                         let mut last_star = false;
-                        while self.cur != '\0' {
+                        self.next(i);
+                        loop {
+                            if self.cur == '\0' {
+                                return Err(self.err_parse("comment"));
+                            }
                             if self.cur == '/' && last_star {
                                 self.next(i);
                                 break;
-- 
2.43.0


From 5bdcd94e79a66acffa692724b0de9a794f186713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 10/47] fix: accept a plus sign in the exponent of JSON/RON
 numbers

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4d167aa..4e4ae34 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -550,7 +550,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index e7acdd0..20a0822 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -541,7 +541,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From a80ffb6fbddd209647e05273f04ccb6fa7b3f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 11/47] fix: report the error of a failing JSON/RON tuple
 element, not the one of the separator after it

---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4e4ae34..7cdfe86 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1100,9 +1100,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 20a0822..868c16a 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1089,9 +1089,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0


From 406178ea02a2984c2ae238ec0f7e752c9fb89579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 12/47] fix: RON and TOML errors report the column

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 868c16a..1a9aa32 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From 9384956efd32ca779763c4d362310262b2afc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 13/47] fix: a RON char literal is a token of its own, not
 skipped

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 1a9aa32..1e718b4 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -607,6 +607,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From ec9d857932cb6242f861caeb66dc523d87206a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 14/47] fix: f32 values read from JSON/RON are not rounded
 twice

---
 src/serde_json.rs | 8 ++++++--
 src/serde_ron.rs  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7cdfe86..e80bebf 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -757,9 +757,13 @@ macro_rules! impl_ser_de_json_float {
         impl DeJson for $ty {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                let val = match s.tok {
+                    // parsing as $ty directly avoids rounding twice
+                    DeJsonTok::F64(val) => s.numbuf.parse().unwrap_or(val as $ty),
+                    _ => s.as_f64()? as $ty,
+                };
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 1e718b4..a401fb6 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -760,9 +760,13 @@ macro_rules! impl_ser_de_ron_float {
         impl DeRon for $ty {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
-                let val = s.as_f64()?;
+                let val = match s.tok {
+                    // parsing as $ty directly avoids rounding twice
+                    DeRonTok::F64(val) => s.numbuf.parse().unwrap_or(val as $ty),
+                    _ => s.as_f64()? as $ty,
+                };
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From 9315ad9a4f25151b9ffc881c0b46aa3325e9214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 15/47] fix: container attributes on enums are honoured by the
 derives

---
 derive/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index f7ed622..9ef9fb7 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1523,7 +1523,8 @@ pub fn parse_data(input: TokenStream) -> Data {
             res = Data::Struct(struct_);
         }
         "enum" => {
-            let enum_ = next_enum(&mut source);
+            let mut enum_ = next_enum(&mut source);
+            enum_.attributes = attributes;
             res = Data::Enum(enum_);
         }
         "union" => unimplemented!("Unions are not supported"),
-- 
2.43.0


From 801473af5e632eb364844a8a5bb43004a88302ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 16/47] fix: SerRon/DeRon can be derived for unit structs, and
 DeJson for empty tuple structs

---
 derive/src/serde_json.rs |  2 +-
 derive/src/serde_ron.rs  | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..aaf55bb 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -620,7 +620,7 @@ pub fn derive_de_json_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
 
     // no fields - was encoded as {}
     let body = if struct_.fields.is_empty() {
-        "s.curly_open(i)?;let r = Self;s.curly_close(i)?;".to_string()
+        "s.curly_open(i)?;let r = Self {};s.curly_close(i)?;".to_string()
     }
     // if it was transparent newtype struct - skip "container"
     // and just deserialize content
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..aaa6112 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -104,7 +104,7 @@ pub fn derive_ser_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
     let (generic_w_bounds, generic_no_bounds) =
         struct_bounds_strings(struct_, "SerRon", crate_name);
 
-    let last = struct_.fields.len() - 1;
+    let last = struct_.fields.len().saturating_sub(1);
     for (n, _field) in struct_
         .fields
         .iter()
@@ -306,12 +306,18 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
             crate_name
         );
     }
+    // no fields - `Self {}` works for unit structs as well
+    let body = if struct_.fields.is_empty() {
+        "{}".to_string()
+    } else {
+        format!("({})", body)
+    };
 
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 s.paren_open(i)?;
-                let r = Self({});
+                let r = Self{};
                 s.paren_close(i)?;
                 ::core::result::Result::Ok(r)
             }}
-- 
2.43.0


From 1dac9952cb30604de0582793ca4c147dcefe32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 17/47] fix: SerJson/SerRon can be derived for enums with empty
 tuple variants

---
 derive/src/serde_json.rs | 2 +-
 derive/src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index aaf55bb..dca4be6 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -389,7 +389,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut names = Vec::new();
                 let mut inner = String::new();
-                let last = contents.len() - 1;
+                let last = contents.len().saturating_sub(1);
                 for (index, _) in contents.iter().enumerate() {
                     let field_name = format!("f{}", index);
                     names.push(field_name.clone());
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index aaa6112..0712c80 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -401,7 +401,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut names = Vec::new();
                 let mut inner = String::new();
-                let last = contents.len() - 1;
+                let last = contents.len().saturating_sub(1);
                 for (index, _) in &mut contents.iter().enumerate() {
                     let name = format!("f{}", index);
                     l!(inner, "{}.ser_ron(d, s);", name);
-- 
2.43.0


From 61b6678c7915ae2b7cf6d24f0c773883543fee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 18/47] fix: derives accept pub(crate) and alike on containers,
 and pub fields of tuple type in tuple structs

---
 derive/src/parse.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9ef9fb7..b4c507c 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -472,7 +472,15 @@ pub fn next_visibility_modifier(
 
             // skip (crate) and alike
             if let Some(TokenTree::Group(group)) = source.peek() {
-                if group.delimiter() == Delimiter::Parenthesis {
+                let is_restriction = match group.stream().into_iter().next() {
+                    Some(TokenTree::Ident(ident)) => {
+                        matches!(ident.to_string().as_str(), "crate" | "self" | "super" | "in")
+                            && group.delimiter() == Delimiter::Parenthesis
+                    }
+                    _ => false,
+                };
+                // anything else is the type of a tuple struct field: `pub (A, B)`
+                if is_restriction {
                     next_group(source);
                 }
             }
@@ -1506,13 +1514,9 @@ pub fn parse_data(input: TokenStream) -> Data {
 
     let attributes = next_attributes_list(&mut source);
 
-    let pub_or_type = next_ident(&mut source).expect("Not an ident");
+    let _visibility = next_visibility_modifier(&mut source);
 
-    let type_keyword = if pub_or_type == "pub" {
-        next_ident(&mut source).expect("pub(whatever) is not supported yet")
-    } else {
-        pub_or_type
-    };
+    let type_keyword = next_ident(&mut source).expect("Not an ident");
 
     let res;
 
-- 
2.43.0


From eb34bcc1dd3f1241fd6b9f5fda09c0e1bb3847f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 19/47] fix: DeBin can be derived for tuple structs with
 skipped fields

---
 derive/src/serde_bin.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..0879a04 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -195,12 +195,13 @@ pub fn derive_de_bin_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         }
     }
 
-    for field in struct_.fields.iter().filter(|f| attrs_skip(&f.attributes)) {
-        l!(
-            body,
-            "{}: Default::default(),",
-            field.field_name.as_ref().unwrap()
-        );
+    for (n, _) in struct_
+        .fields
+        .iter()
+        .enumerate()
+        .filter(|(_, f)| attrs_skip(&f.attributes))
+    {
+        l!(body, "{}: Default::default(),", n);
     }
 
     format!(
-- 
2.43.0


From 85386aa9ab29c243a94ae44714d093bc3cd1e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 20/47] fix: skipped fields of tuple structs are neither
 written nor read in JSON and RON

---
 derive/src/serde_json.rs | 17 ++++++++++++++---
 derive/src/serde_ron.rs  | 12 ++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index dca4be6..be4b1fb 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -571,8 +571,15 @@ pub fn derive_ser_json_struct_unnamed(struct_: &Struct, crate_name: &str) -> Tok
     // if more than one field - encode as array []
     else {
         l!(body, "s.out.push('[');");
-        let last = struct_.fields.len() - 1;
-        for (n, _) in struct_.fields.iter().enumerate() {
+        let last = struct_
+            .fields
+            .iter()
+            .rposition(|f| !shared::attrs_skip(&f.attributes))
+            .unwrap_or(0);
+        for (n, field) in struct_.fields.iter().enumerate() {
+            if shared::attrs_skip(&field.attributes) {
+                continue;
+            }
             l!(body, "self.{}.ser_json(d, s);", n);
             if n != last {
                 l!(body, "s.out.push_str(\", \");");
@@ -609,7 +616,11 @@ pub fn derive_de_json_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
 
     let transparent = shared::attrs_transparent(&struct_.attributes);
 
-    for _ in &struct_.fields {
+    for field in &struct_.fields {
+        if shared::attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(body, "{{ let r = {}::DeJson::de_json(s, i)?;", crate_name);
         if struct_.fields.len() != 1 {
             l!(body, "  s.eat_comma_block(i)?;");
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 0712c80..05522f7 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -104,7 +104,11 @@ pub fn derive_ser_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
     let (generic_w_bounds, generic_no_bounds) =
         struct_bounds_strings(struct_, "SerRon", crate_name);
 
-    let last = struct_.fields.len().saturating_sub(1);
+    let last = struct_
+        .fields
+        .iter()
+        .rposition(|f| !attrs_skip(&f.attributes))
+        .unwrap_or(0);
     for (n, _field) in struct_
         .fields
         .iter()
@@ -295,7 +299,11 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
     let mut body = String::new();
     let (generic_w_bounds, generic_no_bounds) = struct_bounds_strings(struct_, "DeRon", crate_name);
 
-    for _ in &struct_.fields {
+    for field in &struct_.fields {
+        if attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(
             body,
             "{{
-- 
2.43.0


From 3d58022cb37765e10e90e0a91a33ae6f1a3febca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 21/47] fix: an unknown field of a struct without fields is
 skipped in JSON and named in the error in RON

---
 derive/src/serde_json.rs | 38 +++++++++++++++++---------------------
 derive/src/serde_ron.rs  |  6 ++----
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index be4b1fb..812d02e 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -137,7 +137,6 @@ pub fn derive_de_json_named(
 ) -> TokenStream {
     let mut local_vars = Vec::new();
     let mut struct_field_names = Vec::new();
-    let mut json_field_names = Vec::new();
     let mut matches = Vec::new();
     let mut unwraps = Vec::new();
 
@@ -208,14 +207,13 @@ pub fn derive_de_json_named(
                     localvar, proxified_t, struct_fieldname
                 ));
             }
-            matches.push((json_fieldname.clone(), localvar.clone()));
+            matches.push((json_fieldname, localvar.clone()));
             local_vars.push(localvar);
         } else {
             unwraps.push(default_val.unwrap_or_else(|| String::from("Default::default()")));
         }
 
         struct_field_names.push(struct_fieldname);
-        json_field_names.push(json_fieldname);
     }
 
     let mut r = String::new();
@@ -225,25 +223,23 @@ pub fn derive_de_json_named(
     l!(r, "s.curly_open(i) ?;");
     l!(r, "while s.next_str().is_some() {");
 
-    if !json_field_names.is_empty() {
-        l!(r, "match AsRef::<str>::as_ref(&s.strbuf) {");
-        for (json_field_name, local_var) in matches.iter() {
-            l!(
-                r,
-                "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::DeJson::de_json(s, i) ?)}},",
-                json_field_name,
-                local_var,
-                crate_name
-            );
-        }
-        // TODO: maybe introduce "exhaustive" attribute?
-        // l!(
-        //     r,
-        //     "_ => return ::core::result::Result::Err(s.err_exp(&s.strbuf))"
-        // );
-        l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
-        l!(r, "}");
+    l!(r, "match AsRef::<str>::as_ref(&s.strbuf) {");
+    for (json_field_name, local_var) in matches.iter() {
+        l!(
+            r,
+            "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::DeJson::de_json(s, i) ?)}},",
+            json_field_name,
+            local_var,
+            crate_name
+        );
     }
+    // TODO: maybe introduce "exhaustive" attribute?
+    // l!(
+    //     r,
+    //     "_ => return ::core::result::Result::Err(s.err_exp(&s.strbuf))"
+    // );
+    l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
+    l!(r, "}");
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
     l!(r, "s.curly_close(i) ?;");
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 05522f7..dee7ddd 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -211,7 +211,7 @@ pub fn derive_de_ron_named(
         )
     }
 
-    let match_names = if !ron_field_names.is_empty() {
+    let match_names = {
         let mut inner = String::new();
         for (ron_field_name, (local_var, _)) in ron_field_names.iter().zip(local_vars.iter()) {
             let Some(ron_field_name) = ron_field_name else {
@@ -229,14 +229,12 @@ pub fn derive_de_ron_named(
             );
         }
         format!(
-            "match s.identbuf.as_ref() {{
+            "match AsRef::<str>::as_ref(&s.identbuf) {{
                 {}
                 _ => return ::core::result::Result::Err(s.err_exp(&s.identbuf))
             }}",
             inner
         )
-    } else {
-        String::new()
     };
 
     let mut body = String::new();
-- 
2.43.0


From 3cc54744d0e4b38b20bb2a7e2e4b1204855b9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 22/47] fix: the token after an enum variant name no longer
 replaces the name in JSON and RON

---
 derive/src/serde_json.rs | 16 ++++++++++------
 derive/src/serde_ron.rs  |  7 ++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 812d02e..e626afe 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -508,11 +508,13 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             "
                     {}::DeJsonTok::CurlyOpen => {{
                         s.curly_open(i)?;
-                        let _ = s.string(i)?;
+                        // the payload may overwrite strbuf
+                        let variant = s.as_string()?;
+                        s.next_tok(i)?;
                         s.colon(i)?;
-                        let r = ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let r = ::core::result::Result::Ok(match AsRef::<str>::as_ref(&variant) {{
                             {}
-                            _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
+                            _ => return ::core::result::Result::Err(s.err_enum(&variant))
                         }});
                         s.curly_close(i)?;
                         r
@@ -525,10 +527,12 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        // the token after it may overwrite strbuf
+                        let variant = s.as_string()?;
+                        s.next_tok(i)?;
+                        ::core::result::Result::Ok(match AsRef::<str>::as_ref(&variant) {{
                             {}
-                            _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
+                            _ => return ::core::result::Result::Err(s.err_enum(&variant))
                         }})
                     }},",
             crate_name, r_units,
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index dee7ddd..f049bac 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -513,11 +513,12 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
-                // we are expecting an identifier
+                // we are expecting an identifier, the token after it may overwrite identbuf
+                let variant = s.identbuf.clone();
                 s.ident(i)?;
-                ::core::result::Result::Ok(match s.identbuf.as_ref() {{
+                ::core::result::Result::Ok(match AsRef::<str>::as_ref(&variant) {{
                     {}
-                    _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
+                    _ => return ::core::result::Result::Err(s.err_enum(&variant))
                 }})
             }}
         }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
-- 
2.43.0


From 877a1e3fffdd506a11698dc5fb93333c28aefbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 23/47] fix: an unknown variant index reports the offset at
 which decoding stopped

---
 derive/src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 0879a04..894ef8b 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -373,7 +373,7 @@ pub fn derive_de_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let id: u16 = {}::DeBin::de_bin(o,d)?;
                 Ok(match id {{
                     {}
-                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: 0, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
+                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: *o, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
                 }})
             }}
         }}",
-- 
2.43.0


From 370bd1781187f403013ddc12ce963400d47cb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 24/47] fix: JSON enum struct variants: no trailing comma
 before an absent last field, rename and skip honoured, any field name

---
 derive/src/serde_json.rs | 66 +++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index e626afe..959cb13 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -322,49 +322,39 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut items = String::new();
                 let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
+                l!(items, "let mut first_field_was_serialized = false;");
+                for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
-                        let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
-                        } else {
-                            l!(
-                                items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
-                                name,
-                                proxied_field
-                            );
+                        if shared::attrs_skip(&field.attributes) {
+                            continue;
                         }
-                        field_names.push(name.clone());
+                        let json_fieldname =
+                            shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                        // bound under a name of its own, as fields may be named `s` or `d`
+                        let binding = format!("f_{}", name);
+                        let proxied_field = ser_proxy_guard(&binding, field);
+                        if field.ty.base() == "Option" {
+                            l!(items, "if {}.is_some()", binding);
+                        }
+                        l!(
+                            items,
+                            "{{
+                                if first_field_was_serialized {{
+                                    s.conl();
+                                }};
+                                first_field_was_serialized = true;
+                                s.field(d+1, \"{}\");
+                                {}.ser_json(d+1, s);
+                            }}",
+                            json_fieldname,
+                            proxied_field
+                        );
+                        field_names.push(format!("{}: {},", name, binding));
                     }
                 }
                 l!(
                     r,
-                    "Self::{} {{ {} }} => {{
+                    "Self::{} {{ {} .. }} => {{
                                 s.out.push('{{');
                                 s.label(\"{}\");
                                 s.out.push(':');
@@ -374,7 +364,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 s.out.push('}}');
                             }}",
                     &field_name,
-                    field_names.join(","),
+                    field_names.join(""),
                     json_variant_name,
                     items
                 );
-- 
2.43.0


From b4ecfd7091ac0bfe01f36213bc6183c38d8051ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 25/47] fix: RON enum struct variants: rename and skip honoured
 when serializing, any field name

---
 derive/src/serde_ron.rs | 44 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index f049bac..7307cdb 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -362,41 +362,39 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let mut names = Vec::new();
                 let mut inner = String::new();
                 for field in contents.fields.iter() {
+                    if attrs_skip(&field.attributes) {
+                        continue;
+                    }
                     let name = field.field_name.as_ref().unwrap();
-                    names.push(name.clone());
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                    // bound under a name of its own, as fields may be named `s` or `d`
+                    let binding = format!("f_{}", name);
+                    names.push(format!("{}: {},", name, binding));
                     if field.ty.base() == "Option" {
-                        l!(
-                            inner,
-                            "if {}.is_some() {{
-                                s.field(d+1, \"{}\");
-                                {}.ser_ron(d+1, s);
-                                s.conl();
-                            }}",
-                            name.as_str(),
-                            name.as_str(),
-                            name.as_str()
-                        )
-                    } else {
-                        l!(
-                            inner,
-                            "s.field(d+1, \"{}\");
-                            {}.ser_ron(d+1, s);
-                            s.conl();",
-                            name,
-                            name
-                        )
+                        l!(inner, "if {}.is_some()", binding);
                     }
+                    l!(
+                        inner,
+                        "{{
+                            s.field(d+1, \"{}\");
+                            {}.ser_ron(d+1, s);
+                            s.conl();
+                        }}",
+                        ron_fieldname,
+                        binding
+                    );
                 }
                 l!(
                     body,
-                    "Self::{} {{ {} }} => {{
+                    "Self::{} {{ {} .. }} => {{
                         s.out.push_str(\"{}\");
                         s.st_pre();
                         {}
                         s.st_post(d);
                     }}",
                     ident,
-                    names.join(","),
+                    names.join(""),
                     ident,
                     inner
                 );
-- 
2.43.0


From 27220c3f661935a36055569f0c28ee55717927d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 26/47] fix: the rename attribute of enum variants is honoured
 in RON

---
 derive/src/serde_ron.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 7307cdb..177ab54 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -347,13 +347,20 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = &variant.field_name.clone().unwrap();
+        let ron_variant_name =
+            shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
         match &variant.ty {
             Type {
                 ident: Category::None,
                 ..
             } => {
                 // unit variant
-                l!(body, "Self::{} => s.out.push_str(\"{}\"),", ident, ident)
+                l!(
+                    body,
+                    "Self::{} => s.out.push_str(\"{}\"),",
+                    ident,
+                    ron_variant_name
+                )
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -395,7 +402,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(""),
-                    ident,
+                    ron_variant_name,
                     inner
                 );
             }
@@ -424,7 +431,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_variant_name,
                     inner
                 )
             }
@@ -454,6 +461,8 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = variant.field_name.clone().unwrap();
+        let ron_variant_name =
+            shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
 
         match &variant.ty {
             Type {
@@ -462,7 +471,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ..
             } => {
                 // unit variant
-                l!(body, "\"{}\" => Self::{},", ident, ident)
+                l!(body, "\"{}\" => Self::{},", ron_variant_name, ident)
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -470,7 +479,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let name = format!("{}::{}", enum_.name, ident);
                 let inner = derive_de_ron_named(&name, &contents.fields, &[], crate_name);
-                l!(body, "\"{}\" => {}", ident, inner);
+                l!(body, "\"{}\" => {}", ron_variant_name, inner);
             }
             Type {
                 ident: Category::Tuple { contents },
@@ -497,7 +506,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         s.paren_close(i)?;
                         r
                     }}, ",
-                    ident,
+                    ron_variant_name,
                     ident,
                     inner
                 );
-- 
2.43.0


From e45de75c6fdd20bbd547843b6941acea0907c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 27/47] fix: SerBin can be derived for enum variants with a
 field named s

---
 derive/src/serde_bin.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 894ef8b..4e14e61 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -267,11 +267,9 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 l!(r, "Self::{} {{", ident);
                 for f in contents.fields.iter() {
-                    l!(
-                        r,
-                        "{}, ",
-                        f.field_name.as_ref().expect("field must be named")
-                    )
+                    let name = f.field_name.as_ref().expect("field must be named");
+                    // bound under a name of its own, as fields may be named `s`
+                    l!(r, "{}: f_{}, ", name, name)
                 }
 
                 l!(r, "} => {");
@@ -279,7 +277,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for f in contents.fields.iter() {
                     l!(
                         r,
-                        "{}.ser_bin(s);",
+                        "f_{}.ser_bin(s);",
                         f.field_name.as_ref().expect("field must be named")
                     )
                 }
-- 
2.43.0


From 61ed31c74d8a95c8686701d4f19190615afe2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 28/47] fix: renamed JSON fields and variants are escaped like
 any other string

---
 src/serde_json.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index e80bebf..7822787 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,12 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        field.ser_json(d, self);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From 956a17de0ecb8e0f1a9aa3adbd12e099c796e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 29/47] fix: a TOML array-of-tables header naming an existing
 key is an error, not a panic

---
 src/toml.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..fc36a1e 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,8 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    /// Returns false when the key already holds something else than an array of tables.
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +236,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +318,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From 1b27b56f6dd4a625ad28a403bc6ced8fb9165c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 30/47] fix: a TOML table header ends the preceding
 array-of-tables element

---
 src/toml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toml.rs b/src/toml.rs
index fc36a1e..b674433 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -292,6 +292,7 @@ impl TomlParser {
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
                         *local_scope = key;
+                        out.active_array_element = None;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
-- 
2.43.0


From 90239ac57037bf59299e826a1fc5900820675661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 31/47] fix: the empty TOML string is empty

---
 src/toml.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index b674433..66a8b6f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -464,6 +464,9 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
                     loop {
                         match self.cur {
-- 
2.43.0


From a6bf06c40ab58c6650fa898ca08e8859b0e5a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 32/47] fix: a multi-line TOML string does not consume the
 character after its end

---
 src/toml.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 66a8b6f..0ca2e74 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -472,17 +472,19 @@ impl TomlParser {
                         match self.cur {
                             '"' if !escaped_string => break,
                             '"' if escaped_string => {
-                                let mut tmp = String::new();
                                 let mut braces = 0;
-                                while self.cur == '"' {
-                                    tmp.push('"');
+                                while self.cur == '"' && braces < 5 {
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
-                                    break;
+                                // up to two quotes may precede the closing three
+                                for _ in 0..braces % 3 {
+                                    val.push('"');
                                 }
-                                val.push_str(&tmp);
+                                if braces >= 3 {
+                                    return Ok(TomlTok::Str(val));
+                                }
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
-- 
2.43.0


From 98f01dacd00774255471f366d8a1d9a20b4a3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 33/47] fix: escapes in TOML strings are decoded

---
 src/toml.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 0ca2e74..887ef47 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -488,6 +488,25 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                let escaped = match self.cur {
+                                    'b' => '\x08',
+                                    'f' => '\x0c',
+                                    'n' => '\n',
+                                    'r' => '\r',
+                                    't' => '\t',
+                                    'u' | 'U' => {
+                                        let digits = if self.cur == 'u' { 4 } else { 8 };
+                                        match self.unescape_char(i, digits) {
+                                            Some(c) => c,
+                                            None => return Err(self.err_parse("string")),
+                                        }
+                                    }
+                                    '\0' => return Err(self.err_parse("string")),
+                                    c => c,
+                                };
+                                val.push(escaped);
+                                self.next(i);
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
@@ -504,6 +523,16 @@ impl TomlParser {
         }
     }
 
+    /// Reads the hexadecimal digits of a unicode escape, leaving the last one current.
+    fn unescape_char(&mut self, i: &mut Chars, digits: usize) -> Option<char> {
+        let mut code = 0u32;
+        for _ in 0..digits {
+            self.next(i);
+            code = code.checked_mul(16)? + self.cur.to_digit(16)?;
+        }
+        char::from_u32(code)
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, ident_chars!()) {
-- 
2.43.0


From 4db73bb936f8363839d08578959ecdaf25953f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 34/47] fix: an unterminated TOML array is an error

---
 src/toml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 887ef47..b8a4069 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -348,7 +348,10 @@ impl TomlParser {
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
-                    if tok == TomlTok::BlockClose || tok == TomlTok::Eof {
+                    if tok == TomlTok::Eof {
+                        return Err(self.err_token(tok));
+                    }
+                    if tok == TomlTok::BlockClose {
                         break;
                     }
                     if tok != TomlTok::Comma {
-- 
2.43.0


From b5d02911249b19c636b35c5879394d308a8e2df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 35/47] fix: dotted TOML keys are read in a loop, so they
 cannot overflow the stack

---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index b8a4069..daff117 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -538,17 +538,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, ident_chars!() | '.') {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From 387b781b244e8a65b9328343856773f0d1e567eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 36/47] fix: deeply nested TOML arrays are an error, not a
 stack overflow

---
 src/toml.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index daff117..cd3f097 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -41,6 +41,9 @@ macro_rules! ident_term_chars {
     };
 }
 
+/// How deep arrays may be nested in each other.
+const MAX_ARRAY_DEPTH: usize = 128;
+
 /// A parser for TOML string values.
 ///
 /// ```rust
@@ -342,9 +345,12 @@ impl TomlParser {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_val(&mut self, tok: TomlTok, i: &mut Chars) -> Result<Toml, TomlErr> {
+    fn to_val(&mut self, tok: TomlTok, i: &mut Chars, depth: usize) -> Result<Toml, TomlErr> {
         match tok {
             TomlTok::BlockOpen => {
+                if depth == MAX_ARRAY_DEPTH {
+                    return Err(self.err_parse("array, it is nested too deeply"));
+                }
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
@@ -355,7 +361,7 @@ impl TomlParser {
                         break;
                     }
                     if tok != TomlTok::Comma {
-                        vals.push(self.to_val(tok, i)?);
+                        vals.push(self.to_val(tok, i, depth + 1)?);
                     }
                 }
                 Ok(Toml::SimpleArray(vals))
@@ -384,7 +390,7 @@ impl TomlParser {
             return Err(self.err_token(tok));
         }
         let tok = self.next_tok(i)?;
-        let val = self.to_val(tok, i)?;
+        let val = self.to_val(tok, i, 0)?;
         let key = if !local_scope.is_empty() {
             format!("{}.{}", local_scope, key)
         } else {
-- 
2.43.0


From 8ac1a9409547b6cd7fddb24b593e1f407abc8706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 37/47] fix: TOML booleans and infinities may be followed by a
 comma or a comment

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index cd3f097..fc2eb6b 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From 60858b7a75d6e5d6c8605665203e9f1f325340c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 38/47] fix: derives accept const generics

---
 derive/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index b4c507c..7365c41 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -209,7 +209,10 @@ impl Generic {
 
     pub fn full_with_const(&self, extra_bounds: &[&str], bounds: bool) -> String {
         let bounds = match (bounds, &self) {
-            (true, Generic::Lifetime { .. }) => self.get_bounds().join(" + "),
+            // const generics have a type, which takes no extra bounds
+            (true, Generic::Lifetime { .. } | Generic::ConstGeneric { .. }) => {
+                self.get_bounds().join(" + ")
+            }
             (true, _) => {
                 let mut bounds = self.get_bounds().join(" + ");
                 if !extra_bounds.is_empty() {
-- 
2.43.0


From 13f24962d2dcbb1c6dcd2ee0eb25cacfe9806c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 39/47] fix: tuple variants may be empty, end in a comma or
 carry field attributes

---
 derive/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 7365c41..904f767 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -661,7 +661,14 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
     ) -> Option<Type> {
         let mut wraps = vec![];
         let mut path = "(".to_owned();
-        while let Some(next_ty) = next_type(source) {
+        while next_eof(source).is_none() {
+            // the fields of a tuple variant may carry attributes
+            while next_exact_punct(source, "#").is_some() {
+                let _ = next_group(source);
+            }
+            let Some(next_ty) = next_type(source) else {
+                break;
+            };
             wraps.push(next_ty.clone());
             path.push_str(&next_ty.full().to_string());
             if next_exact_punct(source, ",").is_none() {
-- 
2.43.0


From f35a45393ca730adc73f77fd862e7479e6b82240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 40/47] fix: raw identifiers are accepted and named without
 their prefix

---
 derive/src/serde_bin.rs  |  6 +++---
 derive/src/serde_json.rs | 28 +++++++++++++++-------------
 derive/src/serde_ron.rs  | 29 ++++++++++++++++-------------
 derive/src/shared.rs     |  5 +++++
 4 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 4e14e61..7eb12ef 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -3,7 +3,7 @@ use alloc::string::String;
 
 use crate::{
     parse::{Category, Enum, Struct, Type},
-    shared::{attrs_skip, enum_bounds_strings, struct_bounds_strings},
+    shared::{attrs_skip, enum_bounds_strings, struct_bounds_strings, unraw},
 };
 
 use proc_macro::TokenStream;
@@ -269,7 +269,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for f in contents.fields.iter() {
                     let name = f.field_name.as_ref().expect("field must be named");
                     // bound under a name of its own, as fields may be named `s`
-                    l!(r, "{}: f_{}, ", name, name)
+                    l!(r, "{}: f_{}, ", name, unraw(name))
                 }
 
                 l!(r, "} => {");
@@ -278,7 +278,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     l!(
                         r,
                         "f_{}.ser_bin(s);",
-                        f.field_name.as_ref().expect("field must be named")
+                        unraw(f.field_name.as_ref().expect("field must be named"))
                     )
                 }
                 l!(r, "}")
diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 959cb13..dba6d65 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -49,8 +49,8 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
     if !struct_.fields.is_empty() {
         for field in struct_.fields.iter() {
             let struct_fieldname = field.field_name.clone().unwrap();
-            let json_fieldname =
-                shared::attrs_rename(&field.attributes).unwrap_or_else(|| struct_fieldname.clone());
+            let json_fieldname = shared::attrs_rename(&field.attributes)
+                .unwrap_or_else(|| shared::unraw(&struct_fieldname).to_string());
             let skip = shared::attrs_skip(&field.attributes);
             if skip {
                 continue;
@@ -144,7 +144,7 @@ pub fn derive_de_json_named(
 
     for field in fields {
         let struct_fieldname = field.field_name.as_ref().unwrap().to_string();
-        let localvar = format!("_{}", struct_fieldname);
+        let localvar = format!("_{}", shared::unraw(&struct_fieldname));
         let field_attr_default = shared::attrs_default(&field.attributes);
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
@@ -173,8 +173,8 @@ pub fn derive_de_json_named(
         } else {
             None
         };
-        let json_fieldname =
-            shared::attrs_rename(&field.attributes).unwrap_or(struct_fieldname.clone());
+        let json_fieldname = shared::attrs_rename(&field.attributes)
+            .unwrap_or_else(|| shared::unraw(&struct_fieldname).to_string());
         let proxy = crate::shared::attrs_proxy(&field.attributes);
         let skip = crate::shared::attrs_skip(&field.attributes);
 
@@ -204,7 +204,9 @@ pub fn derive_de_json_named(
             } else {
                 unwraps.push(format!(
                     "{}.map(|t| {}).ok_or_else(|| s.err_nf(\"{}\"))?",
-                    localvar, proxified_t, struct_fieldname
+                    localvar,
+                    proxified_t,
+                    shared::unraw(&struct_fieldname)
                 ));
             }
             matches.push((json_fieldname, localvar.clone()));
@@ -298,8 +300,8 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in enum_.variants.iter() {
         let field_name = variant.field_name.clone().unwrap();
-        let json_variant_name =
-            shared::attrs_rename(&variant.attributes).unwrap_or(field_name.clone());
+        let json_variant_name = shared::attrs_rename(&variant.attributes)
+            .unwrap_or_else(|| shared::unraw(&field_name).to_string());
 
         match &variant.ty {
             Type {
@@ -328,10 +330,10 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         if shared::attrs_skip(&field.attributes) {
                             continue;
                         }
-                        let json_fieldname =
-                            shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                        let json_fieldname = shared::attrs_rename(&field.attributes)
+                            .unwrap_or_else(|| shared::unraw(name).to_string());
                         // bound under a name of its own, as fields may be named `s` or `d`
-                        let binding = format!("f_{}", name);
+                        let binding = format!("f_{}", shared::unraw(name));
                         let proxied_field = ser_proxy_guard(&binding, field);
                         if field.ty.base() == "Option" {
                             l!(items, "if {}.is_some()", binding);
@@ -430,8 +432,8 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let field_name = variant.field_name.clone().unwrap();
-        let json_variant_name =
-            shared::attrs_rename(&variant.attributes).unwrap_or(field_name.clone());
+        let json_variant_name = shared::attrs_rename(&variant.attributes)
+            .unwrap_or_else(|| shared::unraw(&field_name).to_string());
 
         match &variant.ty {
             Type {
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 177ab54..6af13ed 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -46,8 +46,8 @@ pub fn derive_ser_ron_struct(struct_: &Struct, crate_name: &str) -> TokenStream
 
     for field in struct_.fields.iter().filter(|f| !attrs_skip(&f.attributes)) {
         let struct_fieldname = field.field_name.clone().unwrap();
-        let ron_fieldname =
-            shared::attrs_rename(&field.attributes).unwrap_or_else(|| struct_fieldname.clone());
+        let ron_fieldname = shared::attrs_rename(&field.attributes)
+            .unwrap_or_else(|| shared::unraw(&struct_fieldname).to_string());
         let skip = shared::attrs_skip(&field.attributes);
         if skip {
             continue;
@@ -158,7 +158,7 @@ pub fn derive_de_ron_named(
     let mut unwraps = Vec::new();
     for field in fields.iter() {
         let struct_fieldname = field.field_name.as_ref().unwrap().to_string();
-        let localvar = format!("_{}", struct_fieldname);
+        let localvar = format!("_{}", shared::unraw(&struct_fieldname));
         let field_is_option = field.ty.base() == "Option";
         let field_attr_skip = shared::attrs_skip(&field.attributes);
         let field_attr_default = shared::attrs_default(&field.attributes);
@@ -184,14 +184,17 @@ pub fn derive_de_ron_named(
         } else {
             None
         };
-        let ron_fieldname = (!field_attr_skip)
-            .then(|| shared::attrs_rename(&field.attributes).unwrap_or(struct_fieldname.clone()));
+        let ron_fieldname = (!field_attr_skip).then(|| {
+            shared::attrs_rename(&field.attributes)
+                .unwrap_or_else(|| shared::unraw(&struct_fieldname).to_string())
+        });
 
         unwraps.push(match default_val {
             Some(def) => format!("{}.unwrap_or_else(|| {})", localvar, def),
             None => format!(
                 "{}.ok_or_else(|| s.err_nf(\"{}\"))?",
-                localvar, struct_fieldname
+                localvar,
+                shared::unraw(&struct_fieldname)
             ),
         });
 
@@ -347,8 +350,8 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = &variant.field_name.clone().unwrap();
-        let ron_variant_name =
-            shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
+        let ron_variant_name = shared::attrs_rename(&variant.attributes)
+            .unwrap_or_else(|| shared::unraw(&ident).to_string());
         match &variant.ty {
             Type {
                 ident: Category::None,
@@ -373,10 +376,10 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         continue;
                     }
                     let name = field.field_name.as_ref().unwrap();
-                    let ron_fieldname =
-                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
+                    let ron_fieldname = shared::attrs_rename(&field.attributes)
+                        .unwrap_or_else(|| shared::unraw(name).to_string());
                     // bound under a name of its own, as fields may be named `s` or `d`
-                    let binding = format!("f_{}", name);
+                    let binding = format!("f_{}", shared::unraw(name));
                     names.push(format!("{}: {},", name, binding));
                     if field.ty.base() == "Option" {
                         l!(inner, "if {}.is_some()", binding);
@@ -461,8 +464,8 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = variant.field_name.clone().unwrap();
-        let ron_variant_name =
-            shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
+        let ron_variant_name = shared::attrs_rename(&variant.attributes)
+            .unwrap_or_else(|| shared::unraw(&ident).to_string());
 
         match &variant.ty {
             Type {
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index a8bfc6c..8d0dc81 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -14,6 +14,11 @@ macro_rules! l {
     };
 }
 
+/// A raw identifier `r#name` names the same thing as `name`.
+pub fn unraw(ident: &str) -> &str {
+    ident.strip_prefix("r#").unwrap_or(ident)
+}
+
 pub fn attrs_proxy(attributes: &[crate::parse::Attribute]) -> Option<String> {
     attributes.iter().find_map(|attr| {
         if attr.tokens.len() == 2 && attr.tokens[0] == "proxy" {
-- 
2.43.0


From ddb0c0963d4a898fa31a7724ee65f4d5004fbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 41/47] fix: RON derive accepts fields whose array length is an
 expression

---
 derive/src/serde_ron.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 6af13ed..1e84d96 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -200,23 +200,19 @@ pub fn derive_de_ron_named(
 
         struct_field_names.push(struct_fieldname);
         ron_field_names.push(ron_fieldname);
-        local_vars.push((localvar, field.ty.full()));
+        local_vars.push(localvar);
     }
 
     let mut local_lets = String::new();
 
-    for (local, local_type) in &local_vars {
-        l!(
-            local_lets,
-            "let mut {}: Option<{}> = None;",
-            local,
-            local_type
-        )
+    // the type is inferred, not every type can be written back
+    for local in &local_vars {
+        l!(local_lets, "let mut {} = None;", local)
     }
 
     let match_names = {
         let mut inner = String::new();
-        for (ron_field_name, (local_var, _)) in ron_field_names.iter().zip(local_vars.iter()) {
+        for (ron_field_name, local_var) in ron_field_names.iter().zip(local_vars.iter()) {
             let Some(ron_field_name) = ron_field_name else {
                 continue;
             };
-- 
2.43.0


From 4c984eb25391f83ac6612dfeb7fc85b38e478339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 42/47] fix: where clauses of tuple structs are parsed

---
 derive/src/parse.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 904f767..618d973 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1178,7 +1178,7 @@ fn next_fields<T: Iterator<Item = TokenTree> + Clone>(
 
 fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Struct {
     let struct_name = next_ident(source);
-    let generics = get_all_bounds(source);
+    let mut generics = get_all_bounds(source);
     let group = next_group(source);
     // unit struct
     if group.is_none() {
@@ -1207,6 +1207,8 @@ fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>)
     let fields = next_fields(&mut body, named);
 
     if !named {
+        // the where clause of a tuple struct follows its fields
+        add_where_bounds(source, &mut generics);
         next_exact_punct(source, ";").expect("Expected ; on the end of tuple struct");
     }
 
@@ -1455,10 +1457,21 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
 
     let _ = next_exact_punct(source, ">").expect("Need closing generic bracket");
 
+    add_where_bounds(source, &mut ret);
+
+    ret
+}
+
+fn add_where_bounds<T: Iterator<Item = TokenTree> + Clone>(
+    source: &mut Peekable<T>,
+    ret: &mut Vec<Generic>,
+) {
+    let mut already: BTreeSet<String> = ret.iter().map(Generic::full).collect();
+
     // "where" generics + bounds
     if let Some(content) = source.peek() {
         if content.to_string() != "where" {
-            return ret;
+            return;
         } else {
             source.next();
         }
@@ -1515,8 +1528,6 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
             };
         }
     }
-
-    ret
 }
 
 pub fn parse_data(input: TokenStream) -> Data {
-- 
2.43.0


From 1368adeb13cf109b1e6ca77303f1c02253cfe532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 43/47] fix: write None where an absent field would decode as
 its own default

---
 derive/src/serde_json.rs | 11 ++++++++---
 derive/src/serde_ron.rs  |  7 +++++--
 derive/src/shared.rs     |  6 ++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index dba6d65..ca84ee9 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -61,8 +61,10 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
                 let proxy_attr = crate::shared::attrs_proxy(&field.attributes);
                 let struct_null_on_none = shared::attrs_serialize_none_as_null(&struct_.attributes);
                 let field_null_on_none = shared::attrs_serialize_none_as_null(&field.attributes);
-                let null_on_none =
-                    (field_null_on_none || struct_null_on_none) && proxy_attr.is_none();
+                // an omitted `None` would be read back as the default of the field
+                let own_default = shared::attrs_own_default(&field.attributes);
+                let null_on_none = (field_null_on_none || struct_null_on_none || own_default)
+                    && proxy_attr.is_none();
                 let field_header = &format!(
                     "if first_field_was_serialized {{
                                                  s.conl();
@@ -335,7 +337,10 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         // bound under a name of its own, as fields may be named `s` or `d`
                         let binding = format!("f_{}", shared::unraw(name));
                         let proxied_field = ser_proxy_guard(&binding, field);
-                        if field.ty.base() == "Option" {
+                        // an omitted `None` would be read back as the default of the field
+                        let write_none = shared::attrs_own_default(&field.attributes)
+                            && shared::attrs_proxy(&field.attributes).is_none();
+                        if field.ty.base() == "Option" && !write_none {
                             l!(items, "if {}.is_some()", binding);
                         }
                         l!(
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 1e84d96..5cebbf7 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -52,7 +52,8 @@ pub fn derive_ser_ron_struct(struct_: &Struct, crate_name: &str) -> TokenStream
         if skip {
             continue;
         }
-        if field.ty.base() == "Option" {
+        // an omitted `None` would be read back as the default of the field
+        if field.ty.base() == "Option" && !shared::attrs_own_default(&field.attributes) {
             l!(
                 s,
                 "if let Some(t) = &self.{} {{
@@ -377,7 +378,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     // bound under a name of its own, as fields may be named `s` or `d`
                     let binding = format!("f_{}", shared::unraw(name));
                     names.push(format!("{}: {},", name, binding));
-                    if field.ty.base() == "Option" {
+                    // an omitted `None` would be read back as the default of the field
+                    let write_none = shared::attrs_own_default(&field.attributes);
+                    if field.ty.base() == "Option" && !write_none {
                         l!(inner, "if {}.is_some()", binding);
                     }
                     l!(
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index 8d0dc81..dfeeffb 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -78,6 +78,12 @@ pub fn attrs_skip(attributes: &[crate::parse::Attribute]) -> bool {
         .any(|attr| attr.tokens.len() == 1 && attr.tokens[0] == "skip")
 }
 
+/// Does an absent key decode as something else than `Default::default()`?
+#[cfg(any(feature = "ron", feature = "json"))]
+pub fn attrs_own_default(attributes: &[crate::parse::Attribute]) -> bool {
+    matches!(attrs_default(attributes), Some(Some(_))) || attrs_default_with(attributes).is_some()
+}
+
 #[cfg(feature = "json")]
 pub fn attrs_serialize_none_as_null(attributes: &[crate::parse::Attribute]) -> bool {
     attributes
-- 
2.43.0


From a92ceb6da6f90ce9666fd4bb118b0e343197044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 44/47] fix: bare TOML keys that look like numbers keep their
 text

---
 src/toml.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index fc2eb6b..a34159e 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -58,6 +58,8 @@ pub struct TomlParser {
     cur: char,
     line: usize,
     col: usize,
+    /// The characters of the current token, as they were written.
+    text: String,
 }
 
 /// A TOML parsed token.
@@ -304,14 +306,14 @@ impl TomlParser {
                     TomlTok::BlockOpen => {
                         let tok = self.next_tok(i)?;
                         let key = match tok {
-                            TomlTok::Ident(key) => key,
-                            TomlTok::U64(_)
+                            TomlTok::Ident(_)
+                            | TomlTok::U64(_)
                             | TomlTok::I64(_)
                             | TomlTok::F64(_)
                             | TomlTok::Bool(_)
                             | TomlTok::Nan(_)
                             | TomlTok::Inf(_)
-                            | TomlTok::Date(_) => tok.into(),
+                            | TomlTok::Date(_) => self.text.clone(),
                             _ => return Err(self.err_token(tok)),
                         };
                         let tok = self.next_tok(i)?;
@@ -330,15 +332,19 @@ impl TomlParser {
                     _ => return Err(self.err_token(tok)),
                 }
             }
-            TomlTok::Str(_)
-            | TomlTok::Ident(_)
+            TomlTok::Str(key) => self.parse_key_value(local_scope, key, i, out.out())?,
+            TomlTok::Ident(_)
             | TomlTok::U64(_)
             | TomlTok::I64(_)
             | TomlTok::F64(_)
             | TomlTok::Bool(_)
             | TomlTok::Nan(_)
             | TomlTok::Inf(_)
-            | TomlTok::Date(_) => self.parse_key_value(local_scope, tok.into(), i, out.out())?,
+            | TomlTok::Date(_) => {
+                // a bare key is taken as it is written, even when it looks like a value
+                let key = self.text.clone();
+                self.parse_key_value(local_scope, key, i, out.out())?
+            }
             _ => return Err(self.err_token(tok)),
         }
         Ok(true)
@@ -401,6 +407,7 @@ impl TomlParser {
     }
 
     fn next(&mut self, i: &mut Chars) {
+        self.text.push(self.cur);
         if let Some(c) = i.next() {
             self.cur = c;
             if self.cur == '\n' {
@@ -436,6 +443,7 @@ impl TomlParser {
         }
 
         loop {
+            self.text.clear();
             #[allow(unreachable_patterns)]
             match self.cur {
                 '\0' => return Ok(TomlTok::Eof),
@@ -640,7 +648,10 @@ impl TomlParser {
                 return Ok(TomlTok::Date(num));
                 // TODO rework this
             }
-            ident_chars!() => return self.parse_ident(i, num),
+            ident_chars!() => {
+                let start = self.text.clone();
+                return self.parse_ident(i, start);
+            }
             _ => {}
         }
 
-- 
2.43.0


From 406767c15f8c69a49cf30f17d1a57eb2b6dbd72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 45/47] fix: keys under an empty TOML header do not land at the
 top

---
 src/toml.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index a34159e..d5bf0bb 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -296,7 +296,7 @@ impl TomlParser {
                 let tok = self.next_tok(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
-                        *local_scope = key;
+                        *local_scope = format!("{}.", key);
                         out.active_array_element = None;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
@@ -397,12 +397,7 @@ impl TomlParser {
         }
         let tok = self.next_tok(i)?;
         let val = self.to_val(tok, i, 0)?;
-        let key = if !local_scope.is_empty() {
-            format!("{}.{}", local_scope, key)
-        } else {
-            key
-        };
-        out.insert(key, val);
+        out.insert(format!("{}{}", local_scope, key), val);
         Ok(())
     }
 
-- 
2.43.0


From b70f9444e982c8ed6d4573f959ea265888e218fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:38 +0000
Subject: [PATCH 46/47] fix: JSON enum struct variants with a proxied field did
 not compile

The binding of the field is a reference already; the proxy is made from
the field itself.
---
 derive/src/serde_json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index ca84ee9..9c98c19 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -336,7 +336,8 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             .unwrap_or_else(|| shared::unraw(name).to_string());
                         // bound under a name of its own, as fields may be named `s` or `d`
                         let binding = format!("f_{}", shared::unraw(name));
-                        let proxied_field = ser_proxy_guard(&binding, field);
+                        // the binding is a reference, a proxy is made from the field itself
+                        let proxied_field = ser_proxy_guard(&format!("(*{binding})"), field);
                         // an omitted `None` would be read back as the default of the field
                         let write_none = shared::attrs_own_default(&field.attributes)
                             && shared::attrs_proxy(&field.attributes).is_none();
-- 
2.43.0


From 20ce6736b8e8165665e425fdc2d390d0b0570eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:25 +0000
Subject: [PATCH 47/47] fix: a string default of an Option<String> field did
 not compile in RON

---
 derive/src/serde_ron.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 5cebbf7..4061f2d 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -166,9 +166,12 @@ pub fn derive_de_ron_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String" {
+                let wraps_string = field.ty.wraps.iter().flatten();
+                let wraps_string = wraps_string.map(|ty| ty.base()).any(|ty| ty == "String");
+                if field.ty.base() == "String" || field_is_option && wraps_string {
                     val = format!("\"{}\".to_string()", val)
-                } else if field.ty.base() == "Option" {
+                }
+                if field_is_option {
                     val = format!("Some({})", val);
                 }
                 Some(val)
-- 
2.43.0

