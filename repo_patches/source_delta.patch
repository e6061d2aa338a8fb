From 0e1f343d5f1a188c611780c9ca90595f963e2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 01/14] fix: registering i32::MIN in the limits overflowed

Writing `i32::MIN` (or the float -2147483648.0) panicked with overflow checks
and left the integer limit unchanged without them.
---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From 49370e8ad34f3a16aede3f45da21f35b254611db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 02/14] fix: missing padding after an empty name in compact
 mode

An empty name is just a solidus, which is a delimiter but does not terminate
the name, so that the next token was glued onto it.
---
 src/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..f818444 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -379,9 +379,11 @@ fn is_regular_character(byte: u8) -> bool {
     )
 }
 
+// A trailing solidus is not included here: It only occurs at the end of an
+// empty name and anything directly following it would become part of that name.
 #[inline]
 pub(crate) fn is_delimiter_character(byte: u8) -> bool {
-    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
+    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'%')
 }
 
 /// The null object.
-- 
2.43.0


From 2255506752228a1fcb615c8347eaf034f2c4d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 03/14] fix: truncated free list entries in xref streams

The width of the second field was chosen by the largest offset only, but the
field also holds object numbers for free entries.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..c9f815f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // The second field holds the offsets of used entries, but also the
+        // object numbers of the free list, which can be larger.
+        let max_id = offsets.iter().map(|(id, _)| id.get() as usize).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From ec8aac681f7b440d99c36a0bb891a0e179dfe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 04/14] fix: `StructRole::RP` was converted to `WP` for PDF 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From 62e6239ab13f97004ed9eef2681de956d97ca22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 05/14] fix: `SignatureSeedValue::appearance_filter` wrote the
 wrong key

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From 3d9a2304dcaefb2f494c49ff75d9dc8467c560a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 06/14] fix:
 `CertificateSeedValue::signature_policy_commitment_type` wrote the wrong key

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From b4001cff595801e9efeb1f9a5fc85f8e407fcb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 07/14] fix: `AdditionalActions::annot_page_close` wrote the
 wrong key

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From 7f36e851b4c29389d21399d4cdf92f955844e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 08/14] fix: `Transition::opaque` wrote the wrong key

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From 4778a53189957ab10824ba2897a5d1178ff8652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 09/14] fix: string length limit did not match the written
 strings

Text strings encoded as UTF-16BE were registered with the length of the UTF-8
text (possibly shorter than the written string) and dates not at all.
---
 src/object.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index f818444..c59a96e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,12 +167,12 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
+            // The string consists of the byte order mark and the UTF-16 text.
+            buf.limits.register_str_len(2 + 2 * self.0.encode_utf16().count());
             buf.reserve(6 + 4 * self.0.len());
             write_utf16be_text_str_header(buf);
             for value in self.0.encode_utf16() {
@@ -256,13 +256,15 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
+        // The byte order mark is two bytes long.
+        let mut len = 2;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
             // Each language tag is enclosed in two escape characters, plus the
             // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
+            // Everything is encoded in UTF-16.
+            len += 2 * (text.encode_utf16().count() + lang.len() + 2);
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
@@ -606,7 +608,9 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.extend(b"(D:");
+        buf.push(b'(');
+        let start = buf.len();
+        buf.extend(b"D:");
 
         (|| {
             write!(buf.inner, "{:04}", self.year).unwrap();
@@ -629,6 +633,7 @@ impl Sealed for Date {
             Some(())
         })();
 
+        buf.limits.register_str_len(buf.len() - start);
         buf.push(b')');
     }
 }
-- 
2.43.0


From 854b1c9df1acea68d72378b0a3f6ee8dd2a1c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 10/14] fix: wrong names of the standard structure namespaces

ISO 32000-2, 14.8.6 defines `http://iso.org/pdf/ssn` and `http://iso.org/pdf2/ssn`
and, for MathML 3.0, `http://www.w3.org/1998/Math/MathML`.
---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 85992fc..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From 5a7c1a7656139e937a77db18af79cac0e9b768ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 11/14] fix: limits of name trees were written as names instead
 of strings

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index c59a96e..53e8212 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1474,7 +1474,7 @@ impl<T> NameTree<'_, T> {
     /// Write the `/Limits` array to set the range of names in this node. This
     /// is required for every node except the root node.
     pub fn limits(&mut self, min: Name, max: Name) -> &mut Self {
-        self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);
+        self.dict.insert(Name(b"Limits")).array().typed().items([Str(min.0), Str(max.0)]);
         self
     }
 }
-- 
2.43.0


From 7c9bed8905b9cec3ebc3c53c9050a7bb386c6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 12/14] fix: write the components of CMYK border and background
 colors in the order of the color space

`border_color_cymk` and `background_color_cymk` take cyan, yellow, magenta
and black, but `/BC` and `/BG` are DeviceCMYK colors, whose components are
cyan, magenta, yellow and black.
---
 src/annotations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/annotations.rs b/src/annotations.rs
index cfc1d0a..d50f1b1 100644
--- a/src/annotations.rs
+++ b/src/annotations.rs
@@ -431,7 +431,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BC` attribute using an RGB color. This sets the widget
     /// annotation's border color.
     pub fn border_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BC")).array().items([c, y, m, k]);
+        self.insert(Name(b"BC")).array().items([c, m, y, k]);
         self
     }
 
@@ -459,7 +459,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BG` attribute using an RGB color. This sets the widget
     /// annotation's backround color.
     pub fn background_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BG")).array().items([c, y, m, k]);
+        self.insert(Name(b"BG")).array().items([c, m, y, k]);
         self
     }
 
-- 
2.43.0


From aee7daa999a65b0f7c9332a75ea366a5a454ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 13/14] fix: export DeviceColorSpace, without which Separation
 and DeviceN alternate_device cannot be called

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9f815f..2421f95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -166,7 +166,8 @@ pub mod types {
         TextDecorationType, WritingMode,
     };
     pub use color::{
-        DeviceNSubtype, FunctionShadingType, OutputIntentSubtype, PaintType, TilingType,
+        DeviceColorSpace, DeviceNSubtype, FunctionShadingType, OutputIntentSubtype,
+        PaintType, TilingType,
     };
     pub use content::{
         ArtifactAttachment, ArtifactSubtype, ArtifactType, BlendMode, ColorSpaceOperand,
-- 
2.43.0


From 15a8ac9c9e0a3e149166886e0fb8db1874689ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 14/14] fix: keep line breaks in names from ending the header
 comments of a Unicode CMap

---
 src/font.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/font.rs b/src/font.rs
index 4adc32f..1f899e7 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -879,14 +879,14 @@ where
 
         // Dynamic header.
         buf.extend(b"%%BeginResource: CMap ");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b'\n');
         buf.extend(b"%%Title: (");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b' ');
-        buf.extend(info.registry.0);
+        push_comment(&mut buf, info.registry.0);
         buf.push(b' ');
-        buf.extend(info.ordering.0);
+        push_comment(&mut buf, info.ordering.0);
         buf.push(b' ');
         buf.push_int(info.supplement);
         buf.extend(b")\n");
@@ -993,6 +993,14 @@ where
     }
 }
 
+/// Write bytes into a comment. Line breaks would end the comment, so they are
+/// replaced by spaces.
+fn push_comment(buf: &mut Buf, bytes: &[u8]) {
+    for &byte in bytes {
+        buf.push(if matches!(byte, b'\n' | b'\r') { b' ' } else { byte });
+    }
+}
+
 /// Type3 fonts require (in Acrobat at least) IDs in CMaps to be encoded with
 /// one byte only, whereas other font types use two bytes.
 ///
-- 
2.43.0

