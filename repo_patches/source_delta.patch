From 7181ebf7f0907c1f45ad71ba523885eefd88fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:28 +0000
Subject: [PATCH 1/7] fix: DerRef::parse and BerRef::parse leave the slice as
 it was on failure

---
 bsn1/src/ber_ref.rs | 10 ++++++----
 bsn1/src/der_ref.rs |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..bda73c4 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -86,16 +86,18 @@ impl BerRef {
     /// }
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
-        let init_bytes = *bytes;
+        let mut left = *bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut left)? as isize;
             stack_depth > 0
         } {}
 
-        let total_len = init_bytes.len() - bytes.len();
-        unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
+        let total_len = bytes.len() - left.len();
+        let read = &bytes[..total_len];
+        *bytes = left;
+        unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
     /// Parses `bytes` starting with octets of 'ASN.1 BER' and returns a mutable reference to
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..476e3e2 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -91,11 +91,12 @@ impl DerRef {
     /// }
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
-        let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut left = *bytes;
+        Self::do_parse(&mut left)?;
 
-        let total_len = init_bytes.len() - bytes.len();
-        let read = &init_bytes[..total_len];
+        let total_len = bytes.len() - left.len();
+        let read = &bytes[..total_len];
+        *bytes = left;
         unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
-- 
2.43.0


From e30a8ff4c2675072b8a3fc059eabd66edee3b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:06 +0000
Subject: [PATCH 2/7] fix: Der::parse and Ber::parse accept short reads and do
 not trust the declared length

---
 bsn1/src/ber.rs  |  7 +------
 bsn1/src/der.rs  | 19 ++-----------------
 bsn1/src/misc.rs | 25 ++++++++++++++++++++++++-
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..0a6e3c5 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, length, writeable)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..39a4fec 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -178,23 +178,8 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
-            Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
-            }
-        }
+        crate::misc::read_contents(readable, contents_length, &mut writeable)?;
+        Ok(Self { buffer: writeable })
     }
 
     /// Builds a new instance holding `bytes` without any check.
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..5c1c71e 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
+use crate::{Buffer, Error, Length};
 use std::io::{Read, Write};
 
 /// Tries to read one byte from `readable`.
@@ -31,6 +31,29 @@ where
     }
 }
 
+/// Reads just `length` bytes from `readable` and appends them to `buffer`.
+///
+/// `length` can come from a broken or malicious peer, so that the memory is allocated little by
+/// little as the bytes are read.
+pub fn read_contents<T>(readable: &mut T, length: usize, buffer: &mut Buffer) -> Result<(), Error>
+where
+    T: ?Sized + Read,
+{
+    let mut contents = Vec::new();
+    let read = readable
+        .take(length as u64)
+        .read_to_end(&mut contents)
+        .map_err(Error::from)?;
+
+    if read < length {
+        return Err(Error::UnterminatedBytes);
+    }
+
+    buffer.reserve(length);
+    unsafe { buffer.extend_from_slice(&contents) };
+    Ok(())
+}
+
 /// Tries to write `byte` to `writeable`.
 ///
 /// # Safety
-- 
2.43.0


From 4be1e3e0743f21f9f8069894ed9b38cdfa729720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:06 +0000
Subject: [PATCH 3/7] fix: retry an interrupted read of identifier and length
 octets

---
 bsn1/src/misc.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 5c1c71e..07c43c8 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -15,7 +15,7 @@
 // not, see <https://www.gnu.org/licenses/>.
 
 use crate::{Buffer, Error, Length};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
 pub fn read_u8<T>(readable: &mut T) -> Result<u8, Error>
@@ -23,11 +23,14 @@ where
     T: ?Sized + Read,
 {
     let mut buf = [0; 1];
-    match readable.read(&mut buf) {
-        Err(e) => Err(e.into()),
-        Ok(0) => Err(Error::UnterminatedBytes),
-        Ok(1) => Ok(buf[0]),
-        _ => unreachable!(),
+    loop {
+        match readable.read(&mut buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+            Ok(0) => return Err(Error::UnterminatedBytes),
+            Ok(1) => return Ok(buf[0]),
+            _ => unreachable!(),
+        }
     }
 }
 
-- 
2.43.0


From 96c445095cf208e3585ae5f0941c76ac69fb76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:39 +0000
Subject: [PATCH 4/7] fix: Error::root_cause looks past the context around an
 error

---
 bsn1/src/lib.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index 6385569..d2f1f37 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -173,15 +173,10 @@ impl Error {
     pub fn root_cause(&self) -> &Self {
         match self {
             Self::Anyhow(err) => {
-                let mut ret = self;
-                for cause in err.chain() {
-                    if let Some(e) = cause.downcast_ref::<Self>() {
-                        ret = e;
-                    } else {
-                        break;
-                    }
-                }
-                return ret;
+                // Links that are not `Self` are the context added around the error.
+                err.chain()
+                    .find_map(|cause| cause.downcast_ref::<Self>())
+                    .unwrap_or(self)
             }
             _ => self,
         }
-- 
2.43.0


From 4415c25ea53f52ca9d30004016ec5b544973d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:34 +0000
Subject: [PATCH 5/7] fix: refuse the indefinite length for primitive types

---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From e29b893a6abaef5bfc739d940a0a9a996109f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:34 +0000
Subject: [PATCH 6/7] fix: accept key-value pairs of the indefinite length

---
 bsn1_serde/src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..39c3d9d 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,7 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let mut pair_contents: &[u8] = exclude_eoc(pair.length(), pair.contents())?.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From 17b04c524d428b7526bf9a228ec068eb0dc4b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:34 +0000
Subject: [PATCH 7/7] fix: HashMap announces no size if a key does not

---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0

