From 58b78047d637fb3702b4f3695df16016e635e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 01/52] fix: reset the buffer position when a skip drops the
 parse buffer

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 91655da..3e43c2c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -407,6 +407,8 @@ impl Buf for BufferedParserState {
             return;
         }
         self.buf_mut().clear();
+        // `position` indexes into the bytes just dropped.
+        self.position = 0;
     }
     fn set_position(&mut self, pos: usize) {
         self.position = pos;
-- 
2.43.0


From 5533ead7e1ee45f16cc575a39bc2a0c398f67d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 02/52] fix: keep PNG eXIf/tEXt captured before a chunk that is
 skipped in streaming mode

---
 src/exif.rs   |  2 +-
 src/parser.rs |  3 +++
 src/png.rs    | 55 +++++++++++++++++++++++++++++++++++++++++----------
 3 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 177d7b1..64316f3 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -249,7 +249,7 @@ fn extract_exif_range(
         ParsingState::TiffHeader(h) => Some(h),
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
-        ParsingState::PngPastSignature => None,
+        ParsingState::PngPastSignature | ParsingState::PngCaptured(_) => None,
     });
     Ok(exif_data
         .and_then(|x| buf.subslice_in_range(x))
diff --git a/src/parser.rs b/src/parser.rs
index 3e43c2c..1281a24 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -509,6 +509,8 @@ pub(crate) enum ParsingState {
     /// Carried across `Need` / `ClearAndSkip` retries so the resumed
     /// call doesn't re-check signature against a mid-stream slice.
     PngPastSignature,
+    /// As `PngPastSignature`, plus what was captured before the skip.
+    PngCaptured(Box<crate::png::PngCaptured>),
 }
 
 impl Display for ParsingState {
@@ -518,6 +520,7 @@ impl Display for ParsingState {
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::PngPastSignature => f.write_str("ParsingState: PngPastSignature"),
+            ParsingState::PngCaptured(_) => f.write_str("ParsingState: PngCaptured"),
         }
     }
 }
diff --git a/src/png.rs b/src/png.rs
index 030a6e8..c55fe92 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -32,12 +32,21 @@ pub(crate) enum PngExifSource {
     /// the parser buffer. Use this with `bytes::Bytes::slice` for zero-copy.
     EXif(Range<usize>),
 
-    /// Legacy hex-encoded TIFF inside `Raw profile type {exif,APP1}` `tEXt`.
-    /// Already hex-decoded + APP1 prefix stripped — owned bytes. Phase 5
-    /// adds the actual decoding logic; until then this variant is unused.
+    /// Owned TIFF bytes: a legacy hex-encoded `Raw profile type {exif,APP1}`
+    /// `tEXt` (already hex-decoded + APP1 prefix stripped), or an `eXIf`
+    /// body whose buffer was dropped by a later skip.
     Legacy(Vec<u8>),
 }
 
+/// What the walker captured before a `ClearAndSkip` dropped the buffer.
+#[derive(Debug, Clone, Default)]
+pub(crate) struct PngCaptured {
+    exif: Option<Vec<u8>>,
+    exif_priority: u8,
+    text_chunks: Vec<(String, String)>,
+    text_total: usize,
+}
+
 const PNG_SIGNATURE: &[u8; 8] = b"\x89PNG\r\n\x1a\n";
 
 /// Maximum size of a single `tEXt` chunk we'll capture. Above this
@@ -114,7 +123,9 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
 /// After a `ClearAndSkip` the parser has dropped the buffer and the
 /// resumed `buf` starts at a fresh file offset, so the returned state
 /// flips to `Some(ParsingState::PngPastSignature)` to tell the next
-/// call not to look for the 8-byte signature at `buf[..8]`.
+/// call not to look for the 8-byte signature at `buf[..8]` — or to
+/// `Some(ParsingState::PngCaptured)`, which additionally carries the
+/// EXIF / text found in the dropped part.
 ///
 /// `ClearAndSkip(n)` is interpreted by the parser as "advance the
 /// parser's logical position by `n` bytes from where it is now". The
@@ -129,12 +140,30 @@ pub(crate) fn extract_chunks(
     buf: &[u8],
     state: Option<ParsingState>,
 ) -> Result<PngParseOut, ParsingErrorState> {
-    let past_signature = matches!(state, Some(ParsingState::PngPastSignature));
-    // Preserves the incoming flag across error returns. A `Need` keeps
+    let past_signature = matches!(
+        state,
+        Some(ParsingState::PngPastSignature | ParsingState::PngCaptured(_))
+    );
+    // Preserves the incoming state across error returns. A `Need` keeps
     // whatever the caller already had; only `ClearAndSkip` flips a
     // previously-false flag to true (handled at the skip sites).
-    let preserve = || past_signature.then_some(ParsingState::PngPastSignature);
-    let skipped = || Some(ParsingState::PngPastSignature);
+    let preserve = || state.clone().filter(|_| past_signature);
+    // A `ClearAndSkip` drops `buf`: hand everything captured so far over to
+    // the resumed call.
+    let skipped = |out: PngParseOut, exif_priority: u8, text_total: usize| {
+        if out.exif.is_none() && out.text_chunks.is_empty() {
+            return Some(ParsingState::PngPastSignature);
+        }
+        Some(ParsingState::PngCaptured(Box::new(PngCaptured {
+            exif: out.exif.map(|x| match x {
+                PngExifSource::EXif(range) => buf[range].to_vec(),
+                PngExifSource::Legacy(bytes) => bytes,
+            }),
+            exif_priority,
+            text_chunks: out.text_chunks,
+            text_total,
+        })))
+    };
 
     let mut cursor = if past_signature {
         // Resumed after a ClearAndSkip; buf[0] is a chunk-header
@@ -165,6 +194,12 @@ pub(crate) fn extract_chunks(
     };
     let mut text_total: usize = 0;
     let mut exif_priority: u8 = 0; // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+    if let Some(ParsingState::PngCaptured(c)) = &state {
+        out.exif = c.exif.clone().map(PngExifSource::Legacy);
+        out.text_chunks = c.text_chunks.clone();
+        text_total = c.text_total;
+        exif_priority = c.exif_priority;
+    }
 
     loop {
         // Need 8 bytes for the chunk header (length:4 + type:4).
@@ -222,7 +257,7 @@ pub(crate) fn extract_chunks(
                     if total > remaining {
                         return Err(ParsingErrorState::new(
                             ParsingError::ClearAndSkip(cursor + total),
-                            skipped(),
+                            skipped(out, exif_priority, text_total),
                         ));
                     }
                     cursor += total;
@@ -279,7 +314,7 @@ pub(crate) fn extract_chunks(
                 if total > remaining {
                     return Err(ParsingErrorState::new(
                         ParsingError::ClearAndSkip(cursor + total),
-                        skipped(),
+                        skipped(out, exif_priority, text_total),
                     ));
                 }
                 cursor += total;
-- 
2.43.0


From 122d1e4e8baa51f44c81ce1b42e4eaff062d517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 03/52] fix: pass over JPEG APP1 segments that are not Exif
 instead of failing

---
 src/exif/exif_exif.rs | 4 ++--
 src/jpeg.rs           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 00e95de..6256b12 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -278,8 +278,8 @@ impl TiffHeader {
     }
 }
 
-pub(crate) fn check_exif_header(data: &[u8]) -> Result<bool, nom::Err<nom::error::Error<&[u8]>>> {
-    tag::<_, _, nom::error::Error<_>>(EXIF_IDENT)(data).map(|_| true)
+pub(crate) fn check_exif_header(data: &[u8]) -> bool {
+    data.starts_with(EXIF_IDENT.as_bytes())
 }
 
 pub(crate) fn check_exif_header2(i: &[u8]) -> IResult<&[u8], ()> {
diff --git a/src/jpeg.rs b/src/jpeg.rs
index 9a2f757..c273fc1 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -222,7 +222,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
         );
 
         let s = &segment;
-        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload)?)
+        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload))
             || s.marker_code == MarkerCode::Sos.code()
         // searching stop at SOS
         {
-- 
2.43.0


From 1773257264a2e2abe193ece4a0b47c055544c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 04/52] fix: recognise MP4 compatible brands by content

---
 src/file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d9ad76e..c824d04 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,6 @@ use crate::{
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
-    slice::SubsliceRange,
 };
 
 const HEIF_HEIC_BRAND_NAMES: &[&[u8]] = &[
@@ -187,7 +186,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.subslice_in_range(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From b0865b74ca8b0b4ed9384e0b61aa5aa01e8eab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 05/52] fix: RAF preview that starts exactly at the end of the
 loaded data is not malformed

---
 src/raf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raf.rs b/src/raf.rs
index 27252ce..6bdae4e 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -48,6 +48,9 @@ impl RafInfo<'_> {
             })?;
         let (remain, _) = take(skip_n)(remain)?;
 
+        // check_jpeg is not streaming aware, so make sure the SOI is loaded
+        let _ = take(2usize)(remain)?;
+
         // parse as a JPEG
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
-- 
2.43.0


From 42630112d7f9911e6d821f7accfdef3e3f35f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 06/52] fix: accept RAF camera strings that fill their field or
 are not UTF-8

---
 src/raf.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/raf.rs b/src/raf.rs
index 6bdae4e..946c119 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -3,7 +3,7 @@ use nom::{
     number, IResult,
 };
 
-use crate::{jpeg, utils::parse_cstr};
+use crate::jpeg;
 
 const MAGIC: &[u8] = b"FUJIFILMCCD-RAW ";
 
@@ -57,7 +57,12 @@ impl RafInfo<'_> {
         })?;
         let (remain, exif_data) = jpeg::extract_exif_data(remain)?;
 
-        let (_, camera_string) = parse_cstr(camera_string)?;
+        // fixed-width field: NUL padded, but not terminated when full
+        let camera_string = camera_string
+            .split(|b| *b == 0)
+            .next()
+            .map(|s| String::from_utf8_lossy(s).into_owned())
+            .unwrap_or_default();
 
         Ok((
             remain,
-- 
2.43.0


From 4414befbe3802742903d08e37c8c5527b0860982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 07/52] fix: a box walk that ends at the end of the loaded data
 asks for more instead of giving up

---
 src/error.rs        |  4 ++++
 src/exif.rs         | 28 ++++++++++++++++++++--------
 src/parser.rs       | 15 ++++++++++++++-
 src/parser_async.rs | 11 ++++++++++-
 4 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index bd754b4..34ed625 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -41,6 +41,9 @@ pub(crate) enum ParsedError {
     #[error("io error: {0}")]
     IOError(std::io::Error),
 
+    #[error("exif not found")]
+    ExifNotFound,
+
     #[error("malformed {kind}: {message}")]
     Failed {
         kind: MalformedKind,
@@ -141,6 +144,7 @@ impl From<ParsedError> for crate::Error {
                 context: "media stream",
             },
             ParsedError::IOError(e) => Self::Io(e),
+            ParsedError::ExifNotFound => Self::ExifNotFound,
             ParsedError::Failed { kind, message } => Self::Malformed { kind, message },
         }
     }
diff --git a/src/exif.rs b/src/exif.rs
index 64316f3..5d2c689 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -98,16 +98,9 @@ fn parse_cr3_exif_iter<R: Read>(
 ) -> Result<ExifIter, crate::Error> {
     // First, parse to get all CMT ranges
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
-        cr3::extract_all_cmt_ranges(buf)
+        cr3::extract_all_cmt_ranges(buf)?.ok_or_else(boxes_exhausted)
     })?;
 
-    let Some(cmt_ranges) = cmt_ranges else {
-        return Err(crate::Error::Malformed {
-            kind: crate::error::MalformedKind::IsoBmffBox,
-            message: "cr3: no CMT data found".into(),
-        });
-    };
-
     if cmt_ranges.ranges.is_empty() {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
@@ -249,6 +242,7 @@ fn extract_exif_range(
         ParsingState::TiffHeader(h) => Some(h),
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
+        ParsingState::BoxesExhausted => None,
         ParsingState::PngPastSignature | ParsingState::PngCaptured(_) => None,
     });
     Ok(exif_data
@@ -406,9 +400,27 @@ fn heif_extract_exif(
     state: Option<ParsingState>,
     buf: &[u8],
 ) -> Result<(Option<&[u8]>, Option<ParsingState>), ParsingErrorState> {
+    let state = match state {
+        None | Some(ParsingState::BoxesExhausted) => {
+            let (_, meta) = heif::parse_meta_box(buf).map_err(|e| {
+                nom_error_to_parsing_error_with_state(e, MalformedKind::IsoBmffBox, None)
+            })?;
+            if meta.is_none() {
+                return Err(boxes_exhausted());
+            }
+            None
+        }
+        state => state,
+    };
     heif::extract_exif_data(state, buf)
 }
 
+/// The boxes loaded so far do not include the wanted one: ask for more, the
+/// parse loop turns the end of the stream into `ExifNotFound`.
+fn boxes_exhausted() -> ParsingErrorState {
+    ParsingErrorState::new(ParsingError::Need(1), Some(ParsingState::BoxesExhausted))
+}
+
 fn cr3_extract_exif(
     state: Option<ParsingState>,
     buf: &[u8],
diff --git a/src/parser.rs b/src/parser.rs
index 1281a24..2857b4c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -505,6 +505,9 @@ pub(crate) enum ParsingState {
     TiffHeader(TiffHeader),
     HeifExifSize(usize),
     Cr3ExifSize(usize),
+    /// All complete boxes loaded so far were walked without finding the one
+    /// that holds the metadata; more boxes may follow in the stream.
+    BoxesExhausted,
     /// PNG chunk walker has already validated the 8-byte signature.
     /// Carried across `Need` / `ClearAndSkip` retries so the resumed
     /// call doesn't re-check signature against a mid-stream slice.
@@ -519,6 +522,7 @@ impl Display for ParsingState {
             ParsingState::TiffHeader(h) => Display::fmt(&format!("ParsingState: {h:?})"), f),
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
+            ParsingState::BoxesExhausted => f.write_str("ParsingState: BoxesExhausted"),
             ParsingState::PngPastSignature => f.write_str("ParsingState: PngPastSignature"),
             ParsingState::PngCaptured(_) => f.write_str("ParsingState: PngCaptured"),
         }
@@ -567,7 +571,16 @@ pub(crate) trait BufParser: Buf + Debug {
                 LoopAction::Done(o) => return Ok(o),
                 LoopAction::NeedFill(needed) => {
                     let to_read = max(needed, MIN_GROW_SIZE);
-                    let n = self.fill_buf(reader, to_read)?;
+                    let n = match self.fill_buf(reader, to_read) {
+                        // the stream ends behind a complete box
+                        Err(e)
+                            if e.kind() == io::ErrorKind::UnexpectedEof
+                                && matches!(parsing_state, Some(ParsingState::BoxesExhausted)) =>
+                        {
+                            return Err(ParsedError::ExifNotFound)
+                        }
+                        n => n?,
+                    };
                     if n == 0 {
                         return Err(ParsedError::NoEnoughBytes);
                     }
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 4f55438..ee2a6e9 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -209,7 +209,16 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
                 LoopAction::Done(o) => return Ok(o),
                 LoopAction::NeedFill(needed) => {
                     let to_read = max(needed, MIN_GROW_SIZE);
-                    let n = self.fill_buf(reader, to_read).await?;
+                    let n = match self.fill_buf(reader, to_read).await {
+                        // the stream ends behind a complete box
+                        Err(e)
+                            if e.kind() == io::ErrorKind::UnexpectedEof
+                                && matches!(parsing_state, Some(ParsingState::BoxesExhausted)) =>
+                        {
+                            return Err(ParsedError::ExifNotFound)
+                        }
+                        n => n?,
+                    };
                     if n == 0 {
                         return Err(ParsedError::NoEnoughBytes);
                     }
-- 
2.43.0


From eed56b59ace0b6225bb021c51a96976f24f2f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 08/52] fix: a HEIF file without an Exif item has no Exif, it
 is not malformed

---
 src/heif.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/heif.rs b/src/heif.rs
index 5416564..97b0c6c 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -37,13 +37,8 @@ pub(crate) fn extract_exif_data(
                         (Some(&buf[range]), None)
                     }
                 } else {
-                    return Err(ParsingErrorState::new(
-                        ParsingError::Failed {
-                            kind: MalformedKind::IsoBmffBox,
-                            message: "no exif offset in meta box".into(),
-                        },
-                        None,
-                    ));
+                    tracing::debug!("no exif item in meta box");
+                    (None, None)
                 }
             } else {
                 (None, None)
-- 
2.43.0


From f6dedb4a94b8984b379df16e46b114e8200d5abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 09/52] fix: honour the TIFF header offset of a HEIF Exif item

---
 src/heif.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/heif.rs b/src/heif.rs
index 97b0c6c..b9e59b6 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -1,4 +1,5 @@
 use nom::combinator::fail;
+use nom::number::complete::be_u32;
 use nom::{IResult, Parser};
 
 use crate::bbox::find_box;
@@ -7,7 +8,7 @@ use crate::{
     error::{
         nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
     },
-    exif::check_exif_header2,
+    exif::{check_exif_header2, TiffHeader},
     parser::ParsingState,
 };
 
@@ -55,11 +56,22 @@ pub(crate) fn extract_exif_data(
         }
     };
 
-    let data = data.and_then(|x| check_exif_header2(x).map(|x| x.0).ok());
+    let data = data.and_then(exif_item_tiff);
 
     Ok((data, state))
 }
 
+/// The TIFF block of an Exif item: it starts `exif_tiff_header_offset` bytes
+/// behind that field. Files that store 0 there in front of an `Exif\0\0`
+/// identifier are common, so fall back to the identifier.
+fn exif_item_tiff(item: &[u8]) -> Option<&[u8]> {
+    let (payload, offset) = be_u32::<_, nom::error::Error<&[u8]>>(item).ok()?;
+    match payload.get(offset as usize..) {
+        Some(tiff) if TiffHeader::parse(tiff).is_ok() => Some(tiff),
+        _ => check_exif_header2(item).map(|x| x.0).ok(),
+    }
+}
+
 pub(crate) fn parse_meta_box(input: &[u8]) -> IResult<&[u8], Option<MetaBox>> {
     let remain = input;
     let (remain, bbox) = BoxHolder::parse(remain)?;
-- 
2.43.0


From db36e0aec7959b5bd00ff1d330a6f75260570fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 10/52] fix: an iloc extent past the end of the address space
 is not an Exif location

---
 src/bbox/iloc.rs | 2 +-
 src/bbox/meta.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bbox/iloc.rs b/src/bbox/iloc.rs
index 4f6ad98..4ba1179 100644
--- a/src/bbox/iloc.rs
+++ b/src/bbox/iloc.rs
@@ -120,7 +120,7 @@ impl IlocBox {
             let extent = item.extents.first()?;
             Some((
                 item.construction_method,
-                item.base_offset + extent.offset,
+                item.base_offset.checked_add(extent.offset)?,
                 extent.length,
             ))
         })
diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index caa2b0d..495f779 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -113,8 +113,8 @@ impl MetaBox {
                     .and_then(|iloc| iloc.item_offset_len(exif_infe.id))
             })
             .and_then(|(construction_method, offset, length)| {
-                let start = offset as usize;
-                let end = (offset + length) as usize;
+                let start = usize::try_from(offset).ok()?;
+                let end = usize::try_from(offset.checked_add(length)?).ok()?;
                 match construction_method {
                     ConstructionMethod::FileOffset => Some(start..end),
                     ConstructionMethod::IdatOffset => {
-- 
2.43.0


From cd7d481b2350008c0d293b0b70b731dfda35c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 11/52] fix: a CR3 file without CMT1 and CMT2 has no Exif, it
 is not malformed

---
 src/cr3.rs  | 11 -----------
 src/exif.rs |  8 +++-----
 2 files changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/cr3.rs b/src/cr3.rs
index 43c7cfe..ba22c80 100644
--- a/src/cr3.rs
+++ b/src/cr3.rs
@@ -36,17 +36,6 @@ pub(crate) fn extract_all_cmt_ranges(
     };
 
     let ranges = moov.all_cmt_data_offsets();
-    if ranges.is_empty() {
-        return Err(ParsingErrorState::new(
-            ParsingError::Failed {
-                kind: MalformedKind::IsoBmffBox,
-                message:
-                    "CR3 file contains no EXIF data: Canon UUID box found but no CMT offsets available"
-                        .into(),
-            },
-            None,
-        ));
-    }
 
     // Enforce the invariant that parse_moov_box's streaming::take guarantees:
     // when we reach here all CMT blocks are fully loaded. parse_cr3_exif_iter
diff --git a/src/exif.rs b/src/exif.rs
index 5d2c689..a528a6e 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -101,11 +101,9 @@ fn parse_cr3_exif_iter<R: Read>(
         cr3::extract_all_cmt_ranges(buf)?.ok_or_else(boxes_exhausted)
     })?;
 
-    if cmt_ranges.ranges.is_empty() {
-        return Err(crate::Error::Malformed {
-            kind: crate::error::MalformedKind::IsoBmffBox,
-            message: "cr3: no CMT ranges available".into(),
-        });
+    // CMT3 (MakerNotes, proprietary format) alone is not Exif
+    if cmt_ranges.ranges.iter().all(|(id, _)| *id == "CMT3") {
+        return Err(crate::Error::ExifNotFound);
     }
 
     tracing::debug!(
-- 
2.43.0


From 981abbfbe49395f395a7c466fd92d1f83e6dc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 12/52] fix: async CR3 parsing yields all CMT blocks like the
 other paths

---
 src/exif.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/exif.rs b/src/exif.rs
index a528a6e..f090732 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -100,7 +100,33 @@ fn parse_cr3_exif_iter<R: Read>(
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
         cr3::extract_all_cmt_ranges(buf)?.ok_or_else(boxes_exhausted)
     })?;
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
+
+/// Async twin of [`parse_cr3_exif_iter`].
+#[cfg(feature = "tokio")]
+async fn parse_cr3_exif_iter_async<P, R>(
+    parser: &mut P,
+    reader: &mut R,
+    skip_by_seek: crate::parser_async::AsyncSkipBySeekFn<R>,
+) -> Result<ExifIter, crate::Error>
+where
+    P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
+    R: AsyncRead + Unpin + Send,
+{
+    let cmt_ranges = parser
+        .load_and_parse(reader, skip_by_seek, |buf, _state| {
+            cr3::extract_all_cmt_ranges(buf)?.ok_or_else(boxes_exhausted)
+        })
+        .await?;
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
 
+/// Build the iterator over all CMT blocks of a loaded CR3 file.
+fn cr3_ranges_to_iter(
+    parser: &mut impl ShareBuf,
+    cmt_ranges: cr3::Cr3CmtRanges,
+) -> Result<ExifIter, crate::Error> {
     // CMT3 (MakerNotes, proprietary format) alone is not Exif
     if cmt_ranges.ranges.iter().all(|(id, _)| *id == "CMT3") {
         return Err(crate::Error::ExifNotFound);
@@ -278,6 +304,9 @@ pub(crate) async fn parse_exif_iter_async<P, R: AsyncRead + Unpin + Send>(
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
 {
+    if mime_img == MediaMimeImage::Cr3 {
+        return parse_cr3_exif_iter_async(parser, reader, skip_by_seek).await;
+    }
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
-- 
2.43.0


From 686f556741460f842095c545f0a521689f1f35c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 13/52] fix: rewind, clone and GPS lookup of an iterator over
 several TIFF blocks

---
 src/exif/exif_iter.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bbbf75b..5a1a133 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -265,7 +265,12 @@ impl ExifIter {
             }
             Err(e) => return Err(e.clone().into()),
         };
-        if offset as usize >= iter.input.len() {
+        // The offset counts from the start of the TIFF block the entry is in,
+        // which `find` left on top of the stack.
+        let Some(ifd) = iter.ifds.last() else {
+            return Ok(None);
+        };
+        if offset as usize >= ifd.input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -274,10 +279,10 @@ impl ExifIter {
 
         let mut gps_subifd = match IfdIter::try_new(
             gps.ifd().as_usize(),
-            iter.input.clone(),
-            iter.tiff_header,
+            ifd.input.clone(),
+            ifd.header.clone(),
             offset as usize,
-            iter.tz.clone(),
+            ifd.tz.clone(),
         ) {
             Ok(ifd0) => ifd0.tag_code(ExifTag::GPSInfo.code()),
             Err(e) => return Err(e),
@@ -438,9 +443,9 @@ impl ExifIter {
         // Try to create an ExifIter for this block
         match input_into_iter(block_data, header) {
             Ok(iter) => {
-                // Update our state with the new block's data
-                self.ifd0 = iter.ifd0;
-                self.ifds = vec![self.ifd0.clone()];
+                // Iterate the new block; `self.ifd0` stays the primary block's,
+                // which is where a rewind starts again
+                self.ifds = iter.ifds;
                 self.visited_offsets.clear();
                 self.current_block_index += 1;
 
-- 
2.43.0


From 4baedf45dd064fd190d661dfd73344750e69d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 14/52] fix: a repeated or too deep IFD pointer no longer drops
 the entries behind it

---
 src/exif/exif_iter.rs | 51 +++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 5a1a133..a9a03be 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -190,13 +190,14 @@ impl ExifIter {
         ifd0: IfdIter,
     ) -> ExifIter {
         let ifds = vec![ifd0.clone()];
+        let visited_offsets = HashSet::from([ifd0.offset]);
         ExifIter {
             input,
             tiff_header,
             tz,
             ifd0,
             ifds,
-            visited_offsets: HashSet::new(),
+            visited_offsets,
             additional_blocks: Vec::new(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
@@ -210,13 +211,14 @@ impl ExifIter {
     pub fn clone_rewound(&self) -> Self {
         let ifd0 = self.ifd0.clone_and_rewind();
         let ifds = vec![ifd0.clone()];
+        let visited_offsets = HashSet::from([ifd0.offset]);
         Self {
             input: self.input.clone(),
             tiff_header: self.tiff_header.clone(),
             tz: self.tz.clone(),
             ifd0,
             ifds,
-            visited_offsets: HashSet::new(),
+            visited_offsets,
             additional_blocks: self.additional_blocks.clone(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
@@ -230,7 +232,7 @@ impl ExifIter {
         let ifd0 = self.ifd0.clone_and_rewind();
         self.ifds = vec![ifd0.clone()];
         self.ifd0 = ifd0;
-        self.visited_offsets.clear();
+        self.visited_offsets = HashSet::from([self.ifd0.offset]);
         self.current_block_index = 0;
         self.encountered_tags.clear();
     }
@@ -446,7 +448,7 @@ impl ExifIter {
                 // Iterate the new block; `self.ifd0` stays the primary block's,
                 // which is where a rewind starts again
                 self.ifds = iter.ifds;
-                self.visited_offsets.clear();
+                self.visited_offsets = iter.visited_offsets;
                 self.current_block_index += 1;
 
                 tracing::debug!(block_index, "Successfully loaded additional TIFF block");
@@ -495,16 +497,6 @@ impl Iterator for ExifIter {
                 continue;
             }
 
-            if self.ifds.len() > MAX_IFD_DEPTH {
-                let depth = self.ifds.len();
-                self.ifds.clear();
-                tracing::error!(
-                    ifds_depth = depth,
-                    "ifd depth is too deep, just go back to ifd0"
-                );
-                self.ifds.push(self.ifd0.clone_with_state());
-            }
-
             let mut ifd = self.ifds.pop()?;
             let cur_ifd_idx = ifd.ifd_idx;
             match ifd.next() {
@@ -513,30 +505,30 @@ impl Iterator for ExifIter {
 
                     match entry {
                         IfdEntry::IfdNew(new_ifd) => {
-                            if new_ifd.offset > 0 {
-                                if self.visited_offsets.contains(&new_ifd.offset) {
-                                    // Ignore repeated ifd parsing to avoid dead looping
-                                    continue;
-                                }
-                                self.visited_offsets.insert(new_ifd.offset);
-                            }
+                            let is_subifd = new_ifd.ifd_idx == ifd.ifd_idx;
+                            let too_deep = is_subifd && self.ifds.len() + 1 >= MAX_IFD_DEPTH;
+                            let enter =
+                                !too_deep && self.visited_offsets.insert(new_ifd.offset);
 
-                            let is_subifd = if new_ifd.ifd_idx == ifd.ifd_idx {
+                            if is_subifd {
                                 // Push the current ifd before enter sub-ifd.
                                 self.ifds.push(ifd);
                                 tracing::debug!(?tag_code, ?new_ifd, "got new SUB-IFD");
-                                true
                             } else {
                                 // Otherwise this is a next ifd. It means that the
                                 // current ifd has been parsed, so we don't need to
                                 // push it.
                                 tracing::debug!("IFD{} parsing completed", cur_ifd_idx);
                                 tracing::debug!(?new_ifd, "got new IFD");
-                                false
-                            };
+                            }
 
                             let (ifd_idx, offset) = (new_ifd.ifd_idx, new_ifd.offset);
-                            self.ifds.push(new_ifd);
+                            // A repeated ifd is not parsed again, to avoid dead
+                            // looping, nor a too deep one; the pointer to it is
+                            // still an entry.
+                            if enter {
+                                self.ifds.push(new_ifd);
+                            }
 
                             if is_subifd {
                                 // Check for duplicates before returning sub-ifd entry
@@ -946,13 +938,6 @@ impl IfdIter {
             speed,
         })
     }
-
-    fn clone_with_state(&self) -> IfdIter {
-        let mut it = self.clone();
-        it.index = self.index;
-        it.pos = self.pos;
-        it
-    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From b5df2cdb85576d37672395d96bfbcb551eaf5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 15/52] fix: entries that cannot be decoded are reported
 instead of dropped

---
 src/exif/exif_iter.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index a9a03be..a1dee99 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -403,6 +403,14 @@ impl ExifIterEntry {
             res: Ok(v),
         }
     }
+
+    pub(crate) fn make_err(ifd: usize, tag: TagOrCode, e: crate::error::EntryError) -> Self {
+        Self {
+            ifd: IfdIndex::new(ifd),
+            tag,
+            res: Err(e),
+        }
+    }
 }
 
 impl std::fmt::Debug for ExifIterEntry {
@@ -557,8 +565,14 @@ impl Iterator for ExifIter {
                         }
                         IfdEntry::Err(e) => {
                             tracing::warn!(?tag_code, ?e, "parse ifd entry error");
+                            let ifd_idx = ifd.ifd_idx;
                             self.ifds.push(ifd);
-                            continue;
+                            let tc = tag_code.unwrap();
+                            // An intact entry was already delivered
+                            if self.encountered_tags.contains(&(ifd_idx, tc.code())) {
+                                continue;
+                            }
+                            return Some(ExifIterEntry::make_err(ifd_idx, tc, e));
                         }
                     }
                 }
-- 
2.43.0


From 4d8608c6c8cacbaf2907cc36a747d19d6d079c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 16/52] fix: follow the next-IFD pointer of a directory at the
 end of the data

---
 src/exif/exif_iter.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index a1dee99..dde53dc 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -1034,10 +1034,6 @@ impl Iterator for IfdIter {
             pos = format!("{:08x}", self.pos),
             "next IFD entry"
         );
-        if self.input.len() < self.pos + IFD_ENTRY_SIZE {
-            return None;
-        }
-
         let endian = self.header.endian;
         if self.index > self.entry_num {
             return None;
-- 
2.43.0


From 594bca6b04c1203da03973fb34b3ebead29d4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 17/52] fix: a streamed TIFF loads the data its directories
 need instead of failing

---
 src/exif.rs           | 15 +++++------
 src/exif/exif_exif.rs |  2 --
 src/exif/exif_iter.rs |  3 +--
 src/exif/travel.rs    | 62 +++++++++++++++++++++++++++++++------------
 src/parser.rs         | 26 +++++++++++++-----
 src/parser_async.rs   | 13 ++++-----
 6 files changed, 78 insertions(+), 43 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index f090732..5be42b3 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -7,7 +7,6 @@ use crate::raf::RafInfo;
 use crate::slice::SubsliceRange;
 use crate::{cr3, heif, jpeg, MediaParser};
 pub use exif_exif::Exif;
-use exif_exif::TIFF_HEADER_LEN;
 use exif_iter::input_into_iter;
 pub use exif_iter::{ExifEntry, ExifIter, ExifIterEntry, IfdIndex};
 pub use gps::{GPSInfo, LatLng};
@@ -266,6 +265,7 @@ fn extract_exif_range(
         ParsingState::TiffHeader(h) => Some(h),
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
+        ParsingState::TiffComplete(_) => None,
         ParsingState::BoxesExhausted => None,
         ParsingState::PngPastSignature | ParsingState::PngCaptured(_) => None,
     });
@@ -370,17 +370,15 @@ pub(crate) fn extract_exif_with_mime(
         | crate::file::MediaMimeImage::Avif => heif_extract_exif(state, buf)?,
         MediaMimeImage::Tiff => {
             let header = match state {
-                Some(ParsingState::TiffHeader(ref h)) => h.to_owned(),
+                // The stream has ended, go with what it has
+                Some(ParsingState::TiffComplete(h)) => {
+                    return Ok((Some(buf), Some(ParsingState::TiffHeader(h))))
+                }
+                Some(ParsingState::TiffHeader(h)) => h,
                 None => {
                     let (_, header) = TiffHeader::parse(buf).map_err(|e| {
                         nom_error_to_parsing_error_with_state(e, MalformedKind::TiffHeader, None)
                     })?;
-                    if header.ifd0_offset as usize > buf.len() {
-                        let clear_and_skip =
-                            ParsingError::Need(header.ifd0_offset as usize - TIFF_HEADER_LEN + 2);
-                        let state = Some(ParsingState::TiffHeader(header));
-                        return Err(ParsingErrorState::new(clear_and_skip, state));
-                    }
                     header
                 }
                 _ => {
@@ -402,6 +400,7 @@ pub(crate) fn extract_exif_with_mime(
                 TagOrCode::Unknown(0x2a),
                 header.endian,
             );
+            let state = Some(ParsingState::TiffHeader(header));
             iter.travel_ifd(0)
                 .map_err(|e| ParsingErrorState::new(e, state.clone()))?;
             tracing::debug!("full fill TIFF data done");
diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 6256b12..8b69fec 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -185,8 +185,6 @@ impl From<ExifIter> for Exif {
     }
 }
 
-pub(crate) const TIFF_HEADER_LEN: usize = 8;
-
 /// TIFF Header
 #[derive(Clone, PartialEq, Eq)]
 pub(crate) struct TiffHeader {
diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index dde53dc..4084f4c 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -515,8 +515,7 @@ impl Iterator for ExifIter {
                         IfdEntry::IfdNew(new_ifd) => {
                             let is_subifd = new_ifd.ifd_idx == ifd.ifd_idx;
                             let too_deep = is_subifd && self.ifds.len() + 1 >= MAX_IFD_DEPTH;
-                            let enter =
-                                !too_deep && self.visited_offsets.insert(new_ifd.offset);
+                            let enter = !too_deep && self.visited_offsets.insert(new_ifd.offset);
 
                             if is_subifd {
                                 // Push the current ifd before enter sub-ifd.
diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 39bf989..fef0cf4 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use nom::{
     number::{streaming, Endianness},
     IResult, Needed, Parser,
@@ -6,6 +8,7 @@ use nom::{
 use crate::{
     error::{MalformedKind, ParsingError},
     exif::TiffHeader,
+    parser::MAX_PARSE_BUF_SIZE,
     values::{array_to_string, DataFormat},
     TagOrCode,
 };
@@ -102,6 +105,10 @@ impl<'a> IfdHeaderTravel<'a> {
                 end,
                 self.data.len(),
             );
+            if end > MAX_PARSE_BUF_SIZE {
+                tracing::warn!("Ignored: IFD entry data can't be loaded");
+                return Ok((&[][..], None));
+            }
             if end > self.data.len() {
                 return Err(nom::Err::Incomplete(Needed::new(end - self.data.len())));
             }
@@ -149,6 +156,10 @@ impl<'a> IfdHeaderTravel<'a> {
             // }
 
             if let Some(offset) = entry.sub_ifd_offset {
+                if offset as usize + 2 > MAX_PARSE_BUF_SIZE {
+                    tracing::warn!(?offset, "Ignored: sub-ifd can't be loaded");
+                    return Ok((remain, None));
+                }
                 let tag: TagOrCode = entry.tag.into();
                 tracing::debug!(?offset, data_len = self.data.len(), "sub-ifd: {:?}", tag);
 
@@ -166,7 +177,11 @@ impl<'a> IfdHeaderTravel<'a> {
 
     #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
-        if depth >= 3 {
+        self.travel(depth, &mut HashSet::new())
+    }
+
+    fn travel(&self, depth: usize, visited: &mut HashSet<usize>) -> Result<(), ParsingError> {
+        if depth >= MAX_DEPTH {
             let msg = "depth shouldn't be greater than 3";
             tracing::error!(msg);
             return Err(ParsingError::Failed {
@@ -174,20 +189,17 @@ impl<'a> IfdHeaderTravel<'a> {
                 message: msg.into(),
             });
         }
+        if !visited.insert(self.offset) || self.offset + 2 > MAX_PARSE_BUF_SIZE {
+            return Ok(());
+        }
 
         if self.offset + 2 > self.data.len() {
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::TiffHeader,
-                message: format!("invalid ifd offset: {}", self.offset),
-            });
+            return Err(ParsingError::Need(self.offset + 2 - self.data.len()));
         }
 
         let (_, entry_num) =
             TiffHeader::parse_ifd_entry_num(&self.data[self.offset..], self.endian).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::TiffHeader,
-                    message: format!("parse ifd entry count failed: {e:?}"),
-                },
+                |e| to_parsing_error(e, MalformedKind::TiffHeader, "parse ifd entry count failed"),
             )?;
         let mut pos = self.offset + 2;
 
@@ -198,12 +210,9 @@ impl<'a> IfdHeaderTravel<'a> {
             if pos >= self.data.len() {
                 break;
             }
-            let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::IfdEntry,
-                    message: format!("parse ifd entry header failed: {e:?}"),
-                },
-            )?;
+            let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(|e| {
+                to_parsing_error(e, MalformedKind::IfdEntry, "parse ifd entry header failed")
+            })?;
             pos += IFD_ENTRY_SIZE;
 
             if let Some(ifd) = sub_ifd {
@@ -215,8 +224,10 @@ impl<'a> IfdHeaderTravel<'a> {
             }
         }
 
-        for mut ifd in sub_ifds {
-            ifd.travel_ifd(depth + 1)?;
+        if depth + 1 < MAX_DEPTH {
+            for ifd in sub_ifds {
+                ifd.travel(depth + 1, visited)?;
+            }
         }
 
         // Currently, we ignore ifd1 data in *.tif files
@@ -224,6 +235,23 @@ impl<'a> IfdHeaderTravel<'a> {
     }
 }
 
+const MAX_DEPTH: usize = 3;
+
+fn to_parsing_error(
+    e: nom::Err<nom::error::Error<&[u8]>>,
+    kind: MalformedKind,
+    message: &str,
+) -> ParsingError {
+    match e {
+        nom::Err::Incomplete(Needed::Size(n)) => ParsingError::Need(n.get()),
+        nom::Err::Incomplete(Needed::Unknown) => ParsingError::Need(1),
+        e => ParsingError::Failed {
+            kind,
+            message: format!("{message}: {e:?}"),
+        },
+    }
+}
+
 // fn keep_incomplete_err_only<T: Debug>(e: nom::Err<T>) -> nom::Err<String> {
 //     match e {
 //         nom::Err::Incomplete(n) => nom::Err::Incomplete(n),
diff --git a/src/parser.rs b/src/parser.rs
index 2857b4c..f30c96b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -503,6 +503,8 @@ pub(crate) fn parse_loop_step<O>(
 #[derive(Debug, Clone)]
 pub(crate) enum ParsingState {
     TiffHeader(TiffHeader),
+    /// The stream ended while the TIFF directories asked for more data.
+    TiffComplete(TiffHeader),
     HeifExifSize(usize),
     Cr3ExifSize(usize),
     /// All complete boxes loaded so far were walked without finding the one
@@ -520,6 +522,7 @@ impl Display for ParsingState {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             ParsingState::TiffHeader(h) => Display::fmt(&format!("ParsingState: {h:?})"), f),
+            ParsingState::TiffComplete(h) => Display::fmt(&format!("ParsingState: {h:?})"), f),
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::BoxesExhausted => f.write_str("ParsingState: BoxesExhausted"),
@@ -529,6 +532,20 @@ impl Display for ParsingState {
     }
 }
 
+/// The stream ended while more bytes were asked for: some formats can conclude
+/// from what was loaded, for the others it is an error.
+pub(crate) fn state_at_eof(
+    state: Option<ParsingState>,
+    eof: io::Error,
+) -> Result<ParsingState, ParsedError> {
+    match state {
+        // the stream ends behind a complete box
+        Some(ParsingState::BoxesExhausted) => Err(ParsedError::ExifNotFound),
+        Some(ParsingState::TiffHeader(h)) => Ok(ParsingState::TiffComplete(h)),
+        _ => Err(ParsedError::IOError(eof)),
+    }
+}
+
 // Modern replacement for the `Load` trait in loader.rs. Adds offset-aware
 // parsing and `ParsingState` threading for format-specific state machines.
 pub(crate) trait BufParser: Buf + Debug {
@@ -572,12 +589,9 @@ pub(crate) trait BufParser: Buf + Debug {
                 LoopAction::NeedFill(needed) => {
                     let to_read = max(needed, MIN_GROW_SIZE);
                     let n = match self.fill_buf(reader, to_read) {
-                        // the stream ends behind a complete box
-                        Err(e)
-                            if e.kind() == io::ErrorKind::UnexpectedEof
-                                && matches!(parsing_state, Some(ParsingState::BoxesExhausted)) =>
-                        {
-                            return Err(ParsedError::ExifNotFound)
+                        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
+                            parsing_state = Some(state_at_eof(parsing_state, e)?);
+                            continue;
                         }
                         n => n?,
                     };
diff --git a/src/parser_async.rs b/src/parser_async.rs
index ee2a6e9..9db11c4 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -13,8 +13,8 @@ use tokio::{
 use crate::{
     error::{ParsedError, ParsingErrorState},
     parser::{
-        clear_and_skip_decide, parse_loop_step, Buf, LoopAction, ParsingState, SkipPlan,
-        MAX_PARSE_BUF_SIZE, MIN_GROW_SIZE,
+        clear_and_skip_decide, parse_loop_step, state_at_eof, Buf, LoopAction, ParsingState,
+        SkipPlan, MAX_PARSE_BUF_SIZE, MIN_GROW_SIZE,
     },
 };
 
@@ -210,12 +210,9 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
                 LoopAction::NeedFill(needed) => {
                     let to_read = max(needed, MIN_GROW_SIZE);
                     let n = match self.fill_buf(reader, to_read).await {
-                        // the stream ends behind a complete box
-                        Err(e)
-                            if e.kind() == io::ErrorKind::UnexpectedEof
-                                && matches!(parsing_state, Some(ParsingState::BoxesExhausted)) =>
-                        {
-                            return Err(ParsedError::ExifNotFound)
+                        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
+                            parsing_state = Some(state_at_eof(parsing_state, e)?);
+                            continue;
                         }
                         n => n?,
                     };
-- 
2.43.0


From a2c7be0e6523bedcfb160d61169f86285873bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 18/52] fix: a null directory pointer is not a directory at
 offset 0

---
 src/exif/exif_iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 4084f4c..b5174b0 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -272,7 +272,7 @@ impl ExifIter {
         let Some(ifd) = iter.ifds.last() else {
             return Ok(None);
         };
-        if offset as usize >= ifd.input.len() {
+        if offset == 0 || offset as usize >= ifd.input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -795,7 +795,8 @@ impl IfdIter {
         tag: Option<u16>,
     ) -> Option<IfdEntry> {
         let offset = self.get_data_pos(value_or_offset);
-        if offset < self.input.len() {
+        // the TIFF header is not a directory
+        if offset > 0 && offset < self.input.len() {
             match IfdIter::try_new(
                 ifd_idx,
                 self.input.clone(),
-- 
2.43.0


From 8956499b068bc537e7081b2496078dbd5c8b75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 19/52] fix: an unusable UTC offset entry does not hide a
 usable one

---
 src/exif/exif_iter.rs | 17 ++++++++++++-----
 src/values.rs         |  6 ++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index b5174b0..e07fe47 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -6,7 +6,7 @@ use nom::{number::complete, Parser};
 use crate::{
     error::EntryError,
     slice::SliceChecked,
-    values::{DataFormat, EntryData, IRational, URational},
+    values::{is_tz_str, DataFormat, EntryData, IRational, URational},
     EntryValue, ExifTag,
 };
 
@@ -842,21 +842,28 @@ impl IfdIter {
 
     pub fn find_tz_offset(&self) -> Option<String> {
         let iter = self.find_exif_iter()?;
-        let mut offset = None;
+        let mut offsets = Vec::new();
         for entry in iter {
             let Some(tag) = entry.0 else {
                 continue;
             };
+            let Some(s) = entry.1.as_str() else {
+                continue;
+            };
             if tag.code() == ExifTag::OffsetTimeOriginal.code()
                 || tag.code() == ExifTag::OffsetTimeDigitized.code()
             {
-                return entry.1.as_str().map(|x| x.to_owned());
+                offsets.push((0, s.to_owned()));
             } else if tag.code() == ExifTag::OffsetTime.code() {
-                offset = entry.1.as_str().map(|x| x.to_owned());
+                offsets.push((1, s.to_owned()));
             }
         }
 
-        offset
+        // Prefer the first well-formed one, OffsetTime comes last
+        offsets
+            .into_iter()
+            .min_by_key(|(rank, s)| (!is_tz_str(s), *rank))
+            .map(|(_, s)| s)
     }
 
     // Assume the current ifd is GPSInfo subifd.
diff --git a/src/values.rs b/src/values.rs
index a6e2eb5..5bed2ac 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -505,6 +505,12 @@ fn repair_tz_str(tz: &str) -> String {
     tz.into()
 }
 
+/// Can the UTC offset string be combined with a date?
+pub(crate) fn is_tz_str(tz: &str) -> bool {
+    let s = format!("1970:01:01 00:00:00 {}", repair_tz_str(tz));
+    DateTime::parse_from_str(&s, "%Y:%m:%d %H:%M:%S %z").is_ok()
+}
+
 /// # Exif Data format
 ///
 /// ```txt
-- 
2.43.0


From adfebb4f30e58f1e1b6a319334d847990384d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 20/52] fix: decimal degrees carry rounded seconds over to
 minutes and degrees

---
 src/exif/gps.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index d6af139..3b2323f 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -190,11 +190,11 @@ impl LatLng {
         if !degrees.is_finite() || degrees.abs() > 180.0 {
             return Err(crate::ConvertError::InvalidDecimalDegrees(degrees));
         }
-        let abs = degrees.abs();
-        let d = abs.trunc() as u32;
-        let mins_total = (abs - d as f64) * 60.0;
-        let m = mins_total.trunc() as u32;
-        let secs_hundredths = ((mins_total - m as f64) * 60.0 * 100.0).round() as u32;
+        // Round first, so that the seconds carry over to minutes and degrees
+        let hundredths = (degrees.abs() * 360_000.0).round() as u32;
+        let d = hundredths / 360_000;
+        let m = hundredths % 360_000 / 6_000;
+        let secs_hundredths = hundredths % 6_000;
         Ok(Self::new(
             URational::new(d, 1),
             URational::new(m, 1),
-- 
2.43.0


From 4b28549fd1edcb902f5d5caaaa638da213674ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 21/52] fix: round instead of truncating an ISO 6709 altitude

---
 src/exif/gps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index 3b2323f..9abee61 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -337,7 +337,7 @@ impl GPSInfo {
         let altitude = match v.altitude {
             None => Altitude::Unknown,
             Some(x) => {
-                let mag = URational::new((x.abs() * 1000.0).trunc() as u32, 1000);
+                let mag = URational::new((x.abs() * 1000.0).round() as u32, 1000);
                 if x >= 0.0 {
                     Altitude::AboveSeaLevel(mag)
                 } else {
-- 
2.43.0


From 2af7b2b3183be7dc2cc64b8c69a9768ddca0f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 22/52] fix: ISO 6709 altitudes above 4294967 m are not cut off

---
 src/exif/gps.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index 9abee61..e7752a2 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -334,16 +334,18 @@ impl GPSInfo {
         };
         let latitude = LatLng::try_from_decimal_degrees(v.lat.abs()).unwrap_or_default();
         let longitude = LatLng::try_from_decimal_degrees(v.lon.abs()).unwrap_or_default();
-        let altitude = match v.altitude {
+        // In millimetres, or coarser units where those exceed 32 bits.
+        let magnitude = |x: f64| {
+            [1000u32, 100, 10, 1]
+                .into_iter()
+                .map(|unit| ((x.abs() * unit as f64).round(), unit))
+                .find(|(n, _)| *n <= u32::MAX as f64)
+                .map(|(n, unit)| URational::new(n as u32, unit))
+        };
+        let altitude = match v.altitude.and_then(|x| Some((x, magnitude(x)?))) {
             None => Altitude::Unknown,
-            Some(x) => {
-                let mag = URational::new((x.abs() * 1000.0).round() as u32, 1000);
-                if x >= 0.0 {
-                    Altitude::AboveSeaLevel(mag)
-                } else {
-                    Altitude::BelowSeaLevel(mag)
-                }
-            }
+            Some((x, mag)) if x >= 0.0 => Altitude::AboveSeaLevel(mag),
+            Some((_, mag)) => Altitude::BelowSeaLevel(mag),
         };
         Self {
             latitude_ref,
-- 
2.43.0


From ff49393cc8bcd0b5e3eaeeed39774957183bc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 23/52] fix: a failed GPS parse is listed in Exif::errors

---
 src/exif/exif_exif.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_exif.rs b/src/exif/exif_exif.rs
index 8b69fec..9035789 100644
--- a/src/exif/exif_exif.rs
+++ b/src/exif/exif_exif.rs
@@ -167,7 +167,10 @@ impl Exif {
 
 impl From<ExifIter> for Exif {
     fn from(iter: ExifIter) -> Self {
-        let gps_info = iter.parse_gps().ok().flatten();
+        let (gps_info, gps_failed) = match iter.parse_gps() {
+            Ok(gps_info) => (gps_info, false),
+            Err(_) => (None, true),
+        };
         let has_embedded_track = iter.has_embedded_track();
         let mut exif = Exif::new(gps_info, has_embedded_track);
 
@@ -181,6 +184,15 @@ impl From<ExifIter> for Exif {
             }
         }
 
+        let gps_tag = TagOrCode::from(ExifTag::GPSInfo.code());
+        if gps_failed && !exif.errors.iter().any(|(_, tag, _)| *tag == gps_tag) {
+            exif.errors.push((
+                IfdIndex::MAIN,
+                gps_tag,
+                crate::EntryError::InvalidValue("invalid GPSInfo IFD"),
+            ));
+        }
+
         exif
     }
 }
-- 
2.43.0


From 39f95b8bbeb0ed6c3a2d7b29f2a21561e999cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 24/52] fix: read version 1 movie and track headers

---
 src/bbox/mvhd.rs | 50 +++++++++++++++++++++++++++++++++++++-----------
 src/bbox/tkhd.rs | 36 ++++++++++++++++++++--------------
 2 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d00d7df..b19be32 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -1,5 +1,11 @@
 use chrono::{DateTime, Duration, FixedOffset, Local, NaiveDate, NaiveDateTime, TimeZone, Utc};
-use nom::{bytes::complete::take, number::complete::be_u32, Parser};
+use nom::{
+    bytes::complete::take,
+    combinator::fail,
+    error::context,
+    number::complete::{be_u32, be_u64},
+    Parser,
+};
 
 use super::{FullBoxHeader, ParseBody};
 
@@ -15,10 +21,10 @@ pub struct MvhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     /// The number of time units that pass per second in its time coordinate
     /// system.
@@ -29,7 +35,7 @@ pub struct MvhdBox {
     /// # convert to seconds
     ///
     /// seconds = duration / time_scale
-    duration: u32,
+    duration: u64,
     // omit 76 bytes...
     next_track_id: u32,
 }
@@ -40,11 +46,7 @@ impl MvhdBox {
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-        NaiveDate::from_ymd_opt(1904, 1, 1)
-            .unwrap()
-            .and_hms_opt(0, 0, 0)
-            .unwrap()
-            + Duration::seconds(self.creation_time as i64)
+        seconds_since_1904(self.creation_time).expect("checked when the box was parsed")
     }
 
     pub fn creation_time(&self) -> DateTime<FixedOffset> {
@@ -61,10 +63,36 @@ impl MvhdBox {
     }
 }
 
+fn seconds_since_1904(seconds: u64) -> Option<NaiveDateTime> {
+    let delta = Duration::try_seconds(i64::try_from(seconds).ok()?)?;
+    NaiveDate::from_ymd_opt(1904, 1, 1)?
+        .and_hms_opt(0, 0, 0)?
+        .checked_add_signed(delta)
+}
+
 impl ParseBody<MvhdBox> for MvhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], MvhdBox> {
-        let (remain, (creation_time, modification_time, time_scale, duration, _, next_track_id)) =
-            (be_u32, be_u32, be_u32, be_u32, take(76usize), be_u32).parse(body)?;
+        // version 1 stores the times and the duration as 64-bit values
+        let (remain, (creation_time, modification_time, time_scale, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (created, modified, time_scale, duration)) =
+                    (be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (
+                    remain,
+                    (
+                        created.into(),
+                        modified.into(),
+                        time_scale,
+                        duration.into(),
+                    ),
+                )
+            };
+        if seconds_since_1904(creation_time).is_none() {
+            return context("mvhd creation time is out of range", fail()).parse(remain);
+        }
+        let (remain, (_, next_track_id)) = (take(76usize), be_u32).parse(remain)?;
 
         Ok((
             remain,
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 9afe179..96f54ec 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -20,14 +20,14 @@ pub struct TkhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     track_id: u32,
     // reserved: u32,
-    duration: u32,
+    duration: u64,
     // reserved2: u64,
     layer: u16,
     alt_group: u16,
@@ -41,14 +41,27 @@ pub struct TkhdBox {
 
 impl ParseBody<TkhdBox> for TkhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], TkhdBox> {
+        // version 1 stores the times and the duration as 64-bit values
+        let (remain, (creation_time, modification_time, track_id, _, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (created, modified, track_id, reserved, duration)) =
+                    (be_u32, be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (
+                    remain,
+                    (
+                        created.into(),
+                        modified.into(),
+                        track_id,
+                        reserved,
+                        duration.into(),
+                    ),
+                )
+            };
         let (
             remain,
             (
-                creation_time,
-                modification_time,
-                track_id,
-                _,
-                duration,
                 _,
                 layer,
                 alt_group,
@@ -61,11 +74,6 @@ impl ParseBody<TkhdBox> for TkhdBox {
                 _,
             ),
         ) = (
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
             be_u64,
             be_u16,
             be_u16,
@@ -77,7 +85,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
             be_u16,
             be_u16,
         )
-            .parse(body)?;
+            .parse(remain)?;
 
         Ok((
             remain,
-- 
2.43.0


From 08831127cd9bf247a59e675fa02c29b6dbbd51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 25/52] fix: motion-photo track from memory and async sources

---
 src/parser.rs | 78 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f30c96b..f5a1638 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -876,6 +876,9 @@ impl MediaParser {
                 // Memory mode: zero-copy.
                 self.state.set_memory(memory);
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        return parse_motion_photo_trailer(self.buffer())
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
@@ -916,33 +919,7 @@ impl MediaParser {
         // Drain the rest of the JPEG into the parse buffer so we can
         // address the trailing MP4 by its byte offset from EOF.
         reader.read_to_end(self.buf_mut())?;
-        let buf = self.buf_mut();
-        let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
-            return Err(crate::Error::TrackNotFound);
-        };
-        let trailer_start = (buf.len() as u64)
-            .checked_sub(offset)
-            .ok_or(crate::Error::TrackNotFound)? as usize;
-        let trailer = &buf[trailer_start..];
-
-        // The trailer can be MP4 / MOV / 3gp depending on the source device;
-        // dispatch by sniffing it as a fresh ISO BMFF input.
-        let trailer_mime =
-            crate::file::MediaMime::try_from(trailer).map_err(|_| crate::Error::TrackNotFound)?;
-        let mime_track = match trailer_mime {
-            crate::file::MediaMime::Track(t) => t,
-            crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
-        };
-        crate::video::parse_track_info(trailer, mime_track).map_err(|e| match e {
-            crate::error::ParsingError::Need(_) | crate::error::ParsingError::ClearAndSkip(_) => {
-                crate::Error::UnexpectedEof {
-                    context: "motion-photo trailer",
-                }
-            }
-            crate::error::ParsingError::Failed { kind, message } => {
-                crate::Error::Malformed { kind, message }
-            }
-        })
+        parse_motion_photo_trailer(self.buf_mut())
     }
 
     /// Parse Exif metadata from an in-memory byte payload built via
@@ -1222,8 +1199,10 @@ mod tokio_impl {
             res
         }
 
-        /// Parse track info from an async video/audio source. Returns
-        /// `Error::TrackNotFound` if the source is an `Image`.
+        /// Parse track info from an async video/audio source. Like
+        /// [`MediaParser::parse_track`], it also accepts JPEG images that
+        /// carry a Motion Photo trailer; returns `Error::TrackNotFound` for
+        /// any other `Image`.
         ///
         /// As of v3.3, also accepts memory-mode sources built via
         /// [`AsyncMediaSource::from_memory`].
@@ -1234,8 +1213,9 @@ mod tokio_impl {
             self.reset();
             let res: crate::Result<TrackInfo> = async {
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => None,
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
-                    crate::file::MediaMime::Track(t) => t,
+                    crate::file::MediaMime::Track(t) => Some(t),
                 };
                 if let Some(memory) = ms.memory.take() {
                     self.state.set_memory(memory);
@@ -1243,7 +1223,14 @@ mod tokio_impl {
                     self.acquire_buf();
                     self.buf_mut().append(&mut ms.buf);
                     <Self as AsyncBufParser>::fill_buf(self, &mut ms.reader, INIT_BUF_SIZE).await?;
+                    if mime_track.is_none() {
+                        use tokio::io::AsyncReadExt;
+                        ms.reader.read_to_end(self.buf_mut()).await?;
+                    }
                 }
+                let Some(mime_track) = mime_track else {
+                    return parse_motion_photo_trailer(self.buffer());
+                };
                 let skip = ms.skip_by_seek;
                 let out = <Self as AsyncBufParser>::load_and_parse(
                     self,
@@ -1264,6 +1251,37 @@ mod tokio_impl {
     }
 }
 
+/// Locate the Pixel-style Motion Photo trailer of a complete JPEG file and
+/// parse it as track metadata.
+fn parse_motion_photo_trailer(jpeg: &[u8]) -> crate::Result<TrackInfo> {
+    let Some(offset) = crate::jpeg::find_motion_photo_offset(jpeg) else {
+        return Err(crate::Error::TrackNotFound);
+    };
+    let trailer_start = (jpeg.len() as u64)
+        .checked_sub(offset)
+        .ok_or(crate::Error::TrackNotFound)? as usize;
+    let trailer = &jpeg[trailer_start..];
+
+    // The trailer can be MP4 / MOV / 3gp depending on the source device;
+    // dispatch by sniffing it as a fresh ISO BMFF input.
+    let trailer_mime =
+        crate::file::MediaMime::try_from(trailer).map_err(|_| crate::Error::TrackNotFound)?;
+    let mime_track = match trailer_mime {
+        crate::file::MediaMime::Track(t) => t,
+        crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
+    };
+    crate::video::parse_track_info(trailer, mime_track).map_err(|e| match e {
+        crate::error::ParsingError::Need(_) | crate::error::ParsingError::ClearAndSkip(_) => {
+            crate::Error::UnexpectedEof {
+                context: "motion-photo trailer",
+            }
+        }
+        crate::error::ParsingError::Failed { kind, message } => {
+            crate::Error::Malformed { kind, message }
+        }
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use std::sync::{LazyLock, Mutex, MutexGuard};
-- 
2.43.0


From 7656b785d0e98d1d012afefdb516b801f467bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 26/52] fix: exact movie duration, none without a time scale

---
 src/bbox/mvhd.rs | 8 +++++++-
 src/mov.rs       | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index b19be32..b7015d1 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -42,7 +42,13 @@ pub struct MvhdBox {
 
 impl MvhdBox {
     pub fn duration_ms(&self) -> u64 {
-        ((self.duration as f64) / (self.time_scale as f64) * 1000_f64) as u64
+        let ms = u128::from(self.duration) * 1000 / u128::from(self.time_scale.max(1));
+        ms.try_into().unwrap_or(u64::MAX)
+    }
+
+    /// Without a time scale the duration has no meaning.
+    pub fn has_duration(&self) -> bool {
+        self.time_scale != 0
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
diff --git a/src/mov.rs b/src/mov.rs
index d7886df..0254bf9 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -44,7 +44,9 @@ fn parse_mvhd_tkhd(moov_body: &[u8]) -> BTreeMap<TrackInfoTag, EntryValue> {
     let mut entries = BTreeMap::new();
     if let Ok((_, Some(bbox))) = find_box(moov_body, "mvhd") {
         if let Ok((_, mvhd)) = MvhdBox::parse_box(bbox.data) {
-            entries.insert(TrackInfoTag::DurationMs, mvhd.duration_ms().into());
+            if mvhd.has_duration() {
+                entries.insert(TrackInfoTag::DurationMs, mvhd.duration_ms().into());
+            }
 
             entries.insert(
                 TrackInfoTag::CreateDate,
-- 
2.43.0


From 72f198d3e70473de0b79f4261ba0be1e3d8e96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 27/52] fix: pair ilst items with their keys by index

---
 src/bbox/ilst.rs | 24 +++++++++++++++++++-----
 src/mov.rs       | 11 +++++++----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7d3bcea..af953a7 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::{tag, take};
-use nom::combinator::{fail, map_res};
+use nom::combinator::{fail, map_res, verify};
 use nom::error::context;
-use nom::multi::many0;
 use nom::number::complete::{
     be_f32, be_f64, be_i16, be_i24, be_i32, be_i64, be_u16, be_u24, be_u32, be_u64, u8,
 };
@@ -28,17 +27,32 @@ pub struct IlstBox {
 impl IlstBox {
     pub fn parse_box(input: &[u8]) -> nom::IResult<&[u8], IlstBox> {
         let (remain, header) = BoxHeader::parse(input)?;
-        let (remain, items) = many0(IlstItem::parse).parse(remain)?;
+
+        // An item this parser can't decode doesn't hide the ones after it.
+        let mut items = Vec::new();
+        let mut remain = remain;
+        while let Ok((rem, item)) = length_data_incl(remain) {
+            if let Ok((_, item)) = IlstItem::parse(item) {
+                items.push(item);
+            }
+            remain = rem;
+        }
 
         Ok((remain, IlstBox { header, items }))
     }
 }
 
+/// Split off one atom whose leading 32-bit size counts itself.
+fn length_data_incl(input: &[u8]) -> nom::IResult<&[u8], &[u8]> {
+    let (_, size) = verify(be_u32, |size| *size >= 8).parse(input)?;
+    take(size as usize).parse(input)
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct IlstItem {
     size: u32,
-    index: u32,    // 1-based index (start from 1)
-    data_len: u32, // including self size
+    pub index: u32, // 1-based index (start from 1)
+    data_len: u32,  // including self size
 
     /// Type indicator, see [type
     /// indicator](https://developer.apple.com/documentation/quicktime-file-format/type_indicator)
diff --git a/src/mov.rs b/src/mov.rs
index 0254bf9..b78df60 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -239,11 +239,14 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
     let (_, keys) = KeysBox::parse_box(keys.data).ok()?;
     let (_, ilst) = IlstBox::parse_box(ilst.data).ok()?;
 
-    let entries = keys
-        .entries
+    // An item names its key by a 1-based index into the keys atom.
+    let entries = ilst
+        .items
         .into_iter()
-        .map(|k| k.key)
-        .zip(ilst.items.into_iter().map(|v| v.value))
+        .filter_map(|item| {
+            let key = keys.entries.get((item.index as usize).checked_sub(1)?)?;
+            Some((key.key.clone(), item.value))
+        })
         .collect::<Vec<_>>();
 
     Some(entries)
-- 
2.43.0


From 4b6a704f49be17e575a69f0a6400faf2b53a9175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 28/52] fix: udta list ending with a 32-bit zero keeps its
 entries

---
 src/bbox.rs      | 19 -------------------
 src/bbox/mvhd.rs |  7 +------
 src/bbox/tkhd.rs | 16 +---------------
 src/mov.rs       | 23 ++++++++++++-----------
 4 files changed, 14 insertions(+), 51 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 49ac77a..49abc92 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -179,25 +179,6 @@ impl<'a> BoxHolder<'a> {
 
 type BoxResult<'a> = IResult<&'a [u8], Option<BoxHolder<'a>>>;
 
-pub fn to_boxes(input: &[u8]) -> crate::Result<Vec<BoxHolder<'_>>> {
-    let mut res = Vec::new();
-    let mut remain = input;
-    loop {
-        if remain.is_empty() {
-            break;
-        }
-
-        let (rem, bbox) = BoxHolder::parse(remain).map_err(|e| {
-            crate::error::nom_err_to_malformed(e, crate::error::MalformedKind::IsoBmffBox)
-        })?;
-        res.push(bbox);
-        // Sanity check, to avoid infinite loops caused by unexpected errors.
-        assert!(rem.len() < remain.len());
-        remain = rem;
-    }
-    Ok(res)
-}
-
 /// Parses every top level box while `predicate` returns true, then returns the
 /// last parsed box.
 pub fn travel_while<'a, F>(input: &'a [u8], mut predicate: F) -> BoxResult<'a>
diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index b7015d1..95606c8 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -87,12 +87,7 @@ impl ParseBody<MvhdBox> for MvhdBox {
                     (be_u32, be_u32, be_u32, be_u32).parse(body)?;
                 (
                     remain,
-                    (
-                        created.into(),
-                        modified.into(),
-                        time_scale,
-                        duration.into(),
-                    ),
+                    (created.into(), modified.into(), time_scale, duration.into()),
                 )
             };
         if seconds_since_1904(creation_time).is_none() {
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 96f54ec..d749996 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -59,21 +59,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
                     ),
                 )
             };
-        let (
-            remain,
-            (
-                _,
-                layer,
-                alt_group,
-                volume,
-                _,
-                _,
-                width,
-                _,
-                height,
-                _,
-            ),
-        ) = (
+        let (remain, (_, layer, alt_group, volume, _, _, width, _, height, _)) = (
             be_u64,
             be_u16,
             be_u16,
diff --git a/src/mov.rs b/src/mov.rs
index b78df60..2d72d0a 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -3,10 +3,11 @@ use std::{collections::BTreeMap, ops::Range};
 use chrono::DateTime;
 use nom::{bytes::streaming, IResult};
 
-use crate::{bbox::to_boxes, values::filter_zero};
+use crate::values::filter_zero;
 use crate::{
     bbox::{
-        find_box, parse_video_tkhd_in_moov, travel_header, IlstBox, KeysBox, MvhdBox, ParseBox,
+        find_box, parse_video_tkhd_in_moov, travel_header, travel_while, IlstBox, KeysBox, MvhdBox,
+        ParseBox,
     },
     error::{MalformedKind, ParsingError},
     video::TrackInfoTag,
@@ -209,15 +210,15 @@ fn parse_moov_body(input: &[u8]) -> EntriesResult<'_> {
 
     if let Ok((_, Some(udta))) = find_box(input, "udta") {
         tracing::debug!("udta");
-        if let Ok(boxes) = to_boxes(udta.body_data()) {
-            for entry in boxes.iter() {
-                tracing::debug!(?entry, "udta entry");
-                entries.push((
-                    format!("udta.{}", entry.box_type()),
-                    EntryValue::U8Array(Vec::from(entry.body_data())),
-                ));
-            }
-        }
+        // The list may end with a 32-bit zero, which is not a box.
+        let _ = travel_while(udta.body_data(), |entry| {
+            tracing::debug!(?entry, "udta entry");
+            entries.push((
+                format!("udta.{}", entry.box_type()),
+                EntryValue::U8Array(Vec::from(entry.body_data())),
+            ));
+            true
+        });
     }
 
     Ok((input, Some(entries)))
-- 
2.43.0


From 2dd004c37c35586e55515c7196781bb0752ed3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 29/52] fix: author box in a language other than und

---
 src/mov.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mov.rs b/src/mov.rs
index 2d72d0a..5c88fcc 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -130,6 +130,13 @@ fn parse_udta_gps(data: &[u8]) -> Option<String> {
 const ISO_639_2_UND: [u8; 2] = [0x55, 0xc4];
 
 fn parse_udta_auth(data: &[u8]) -> Option<String> {
+    // A 3GPP full box: version & flags, packed ISO-639-2 language, text
+    if let [0, 0, 0, 0, language, _, text @ ..] = data {
+        if *language != 0 && *language < 0x80 {
+            return String::from_utf8(filter_zero(text)).ok();
+        }
+    }
+
     // Skip leading zero bytes
     let data = filter_zero(data);
 
-- 
2.43.0


From c3d41a341546f75558eca8679a0b0293b4c7630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 30/52] fix: 32-bit WebM durations are read

---
 src/ebml/element.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index d70714e..3a51c95 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -250,12 +250,13 @@ pub(crate) fn get_as_f64(cursor: &mut Cursor<&[u8]>, size: usize) -> Option<f64>
 
     let n = match size {
         4 => {
-            let buf = [0u8; 4];
+            let mut buf = [0u8; 4];
+            cursor.read_exact(&mut buf).ok()?;
             f32::from_be_bytes(buf) as f64
         }
-        5..=8 => {
+        8 => {
             let mut buf = [0u8; 8];
-            cursor.read_exact(&mut buf[8 - size..]).ok()?;
+            cursor.read_exact(&mut buf).ok()?;
             f64::from_be_bytes(buf)
         }
         _ => return None,
-- 
2.43.0


From e77287542127ec3b5a5a7f3d91ea22b701278c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 31/52] fix: TimestampScale applies wherever it stands in Info

---
 src/ebml/webm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 0b0960c..560bd96 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -339,12 +339,14 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // timestamp in nanosecond = element value * TimestampScale
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
+    let mut duration = None;
     let mut info = SegmentInfo::default();
 
     while cursor.has_remaining() {
         let header = next_element_header(cursor)?;
         let id = TryInto::<InfoId>::try_into(header.id);
         tracing::debug!(?header, "segment info sub-element");
+        let next = cursor.position().saturating_add(header.data_size as u64);
 
         if let Ok(id) = id {
             match id {
@@ -354,9 +356,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                     }
                 }
                 InfoId::Duration => {
-                    if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        info.duration = v * time_scale as f64;
-                    }
+                    duration = get_as_f64(cursor, header.data_size);
                 }
                 InfoId::Date => {
                     if let Some(v) = get_as_u64(cursor, header.data_size) {
@@ -371,11 +371,14 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                     }
                 }
             }
-        } else {
-            cursor.consume(header.data_size);
         }
+        cursor.set_position(next);
     }
 
+    // the scale applies wherever it stands
+    if let Some(v) = duration {
+        info.duration = v * time_scale as f64;
+    }
     Ok(info)
 }
 
-- 
2.43.0


From feb5ada7aac584c9eb4d13eea5ecfc87b6422b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 32/52] fix: WebM video track after other tracks

---
 src/ebml/webm.rs | 70 +++++++++++-------------------------------------
 1 file changed, 16 insertions(+), 54 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 560bd96..62bfc03 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -6,7 +6,6 @@ use std::{
 
 use bytes::Buf;
 use chrono::{DateTime, NaiveDate, Utc};
-use nom::{error::ErrorKind, multi::many_till, Parser};
 use thiserror::Error;
 
 use crate::{
@@ -176,45 +175,28 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
         return Err(ParseWebmFailed::Need(header.data_size - cursor.remaining()));
     }
 
-    const Z: &[u8] = &[];
     let start = pos + cursor.position() as usize;
     let data = &input[start..start + header.data_size];
 
-    if let Ok((_, (_, track))) = many_till(
-        |data| {
-            let mut cursor = Cursor::new(data);
-            let header = next_element_header(&mut cursor)?;
-            cursor.consume(std::cmp::min(cursor.remaining(), header.data_size));
-            Ok((&data[cursor.position() as usize..], ()))
-        },
-        |data| {
-            let mut cursor = Cursor::new(data);
-            let header = next_element_header(&mut cursor)?;
-            tracing::debug!(tracks_sub_track_entry = ?header);
-            if header.id != TracksId::TrackEntry as u64 {
-                return Err(nom::Err::Error((Z, ErrorKind::Fail)));
-            };
-
-            if cursor.remaining() < header.data_size {
-                return Err(nom::Err::Error((Z, ErrorKind::Fail)));
-            }
-
-            let track = parse_track(&cursor.chunk()[..header.data_size]).map(|x| {
-                x.map(|x| TracksInfo {
+    // the first track that has video settings
+    let mut cursor = Cursor::new(data);
+    while let Ok(header) = next_element_header(&mut cursor) {
+        tracing::debug!(tracks_sub_track_entry = ?header);
+        let pos = cursor.position() as usize;
+        let Some(body) = data.get(pos..pos + header.data_size) else {
+            break;
+        };
+        if header.id == TracksId::TrackEntry as u64 {
+            if let Ok(Some(x)) = parse_track(body) {
+                return Ok(Some(TracksInfo {
                     width: x.width,
                     height: x.height,
-                })
-            })?;
-
-            Ok((Z, track))
-        },
-    )
-    .parse(data)
-    {
-        Ok(track)
-    } else {
-        Ok(None)
+                }));
+            }
+        }
+        cursor.consume(header.data_size);
     }
+    Ok(None)
 
     // let mut cursor = Cursor::new(&cursor.chunk()[..header.data_size]);
     // let header = match travel_while(&mut cursor, |h| h.id != TracksId::VideoTrack as u64) {
@@ -648,26 +630,6 @@ impl From<ParseWebmFailed> for ParsingError {
     }
 }
 
-impl From<ParseEBMLFailed> for nom::Err<(&[u8], ErrorKind)> {
-    fn from(value: ParseEBMLFailed) -> Self {
-        match value {
-            // Don't bubble Need error to caller, since we only use nom for
-            // complete data here.
-            ParseEBMLFailed::Need(_)
-            | ParseEBMLFailed::NotEBMLFile
-            | ParseEBMLFailed::InvalidEBMLFile(_) => nom::Err::Error((&[], ErrorKind::Fail)),
-        }
-    }
-}
-
-impl From<ParseWebmFailed> for nom::Err<(&[u8], ErrorKind)> {
-    fn from(_: ParseWebmFailed) -> Self {
-        // Don't bubble Need error to caller, since we only use nom for
-        // complete data here.
-        nom::Err::Error((&[], ErrorKind::Fail))
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 9821789d48f174307186af565fb63dfc91a633b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 33/52] fix: SeekHead positions count from the segment data

---
 src/ebml/webm.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 62bfc03..eb5bf0b 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -373,12 +373,16 @@ fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingErr
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
-    let header_pos = pos + cursor.position() as usize - header.header_size;
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
     let mut seeks = parse_seek_head(&mut cur)?;
-    for (_, pos) in seeks.iter_mut() {
-        *pos += header_pos as u64;
-    }
+    // positions count from the first byte of the segment's data
+    seeks.retain(|_, seek_pos| {
+        usize::try_from(*seek_pos)
+            .ok()
+            .and_then(|x| x.checked_add(pos))
+            .map(|x| *seek_pos = x as u64)
+            .is_some()
+    });
     Ok(seeks)
 }
 
-- 
2.43.0


From 52f1934e3317779f0e23ce47a2ecf973c72d0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 34/52] fix: WebM seek entry that points to another element is
 not followed

---
 src/ebml/webm.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index eb5bf0b..964af17 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -170,6 +170,10 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
     let mut cursor = Cursor::new(&input[pos..]);
     let header = next_element_header(&mut cursor)?;
     tracing::debug!(tracks_info_header = ?header);
+    if header.id != SegmentId::Tracks as u64 {
+        // a seek entry that points elsewhere
+        return Ok(None);
+    }
 
     if cursor.remaining() < header.data_size {
         return Err(ParseWebmFailed::Need(header.data_size - cursor.remaining()));
@@ -303,6 +307,10 @@ fn parse_segment_info(input: &[u8], pos: usize) -> Result<Option<SegmentInfo>, P
     let mut cursor = Cursor::new(&input[pos..]);
     let header = next_element_header(&mut cursor)?;
     tracing::debug!(segment_info_header = ?header);
+    if header.id != SegmentId::Info as u64 {
+        // a seek entry that points elsewhere
+        return Ok(None);
+    }
 
     if cursor.remaining() < header.data_size {
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
-- 
2.43.0


From 166a0a38fa911c4d2192942f68f4effcedfd3fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 35/52] fix: overlapping directories take time and memory
 without bound

A TIFF block whose directories (or entry data) overlap over and over made
the iterator go through about 65535 entries per directory byte: minutes of
time and gigabytes of memory for a file of a few hundred kilobytes.
---
 src/exif/exif_iter.rs | 48 ++++++++++++++++++++++++++++++++++++++++++-
 src/exif/travel.rs    | 17 +++++++++++----
 2 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index e07fe47..9653d78 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -159,6 +159,8 @@ pub struct ExifIter {
     current_block_index: usize,
     /// Tags encountered so far for duplicate filtering (ifd_index, tag_code)
     encountered_tags: HashSet<(usize, u16)>,
+    /// What is left of the current block's [`walk_budget`]
+    budget: usize,
     has_embedded_track: bool,
 }
 
@@ -191,6 +193,7 @@ impl ExifIter {
     ) -> ExifIter {
         let ifds = vec![ifd0.clone()];
         let visited_offsets = HashSet::from([ifd0.offset]);
+        let budget = walk_budget(&input);
         ExifIter {
             input,
             tiff_header,
@@ -201,6 +204,7 @@ impl ExifIter {
             additional_blocks: Vec::new(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
+            budget,
             has_embedded_track: false,
         }
     }
@@ -222,6 +226,7 @@ impl ExifIter {
             additional_blocks: self.additional_blocks.clone(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
+            budget: walk_budget(&self.input),
             has_embedded_track: self.has_embedded_track,
         }
     }
@@ -235,6 +240,7 @@ impl ExifIter {
         self.visited_offsets = HashSet::from([self.ifd0.offset]);
         self.current_block_index = 0;
         self.encountered_tags.clear();
+        self.budget = walk_budget(&self.input);
     }
 
     /// Try to find and parse GPS information.
@@ -429,6 +435,15 @@ impl std::fmt::Debug for ExifIterEntry {
 
 const MAX_IFD_DEPTH: usize = 8;
 
+/// Upper limit of the bytes (of entries and their data) to go through in a
+/// TIFF block. The directories of a sound block do not share any bytes, so
+/// this is far beyond what it can contain; it keeps a block whose directories
+/// or data overlap over and over from taking excessive time and memory.
+fn walk_budget(input: &[u8]) -> usize {
+    const BASE: usize = 1024 * 1024;
+    BASE.saturating_add(input.len().saturating_mul(4))
+}
+
 impl ExifIter {
     /// Attempt to load and start iterating the next additional TIFF block.
     /// Returns true if a new block was successfully loaded, false if no more blocks.
@@ -457,6 +472,7 @@ impl ExifIter {
                 // which is where a rewind starts again
                 self.ifds = iter.ifds;
                 self.visited_offsets = iter.visited_offsets;
+                self.budget = iter.budget;
                 self.current_block_index += 1;
 
                 tracing::debug!(block_index, "Successfully loaded additional TIFF block");
@@ -507,7 +523,10 @@ impl Iterator for ExifIter {
 
             let mut ifd = self.ifds.pop()?;
             let cur_ifd_idx = ifd.ifd_idx;
-            match ifd.next() {
+            ifd.budget = self.budget;
+            let next = ifd.next();
+            self.budget = ifd.budget;
+            match next {
                 Some((tag_code, entry)) => {
                     tracing::debug!(ifd = ifd.ifd_idx, ?tag_code, "next tag entry");
 
@@ -600,6 +619,7 @@ pub(crate) struct IfdIter {
     // Iterating status
     index: u16,
     pos: usize,
+    budget: usize,
 }
 
 impl Debug for IfdIter {
@@ -622,6 +642,7 @@ impl IfdIter {
         self.index = 0;
         // Skip the first two bytes, which is the entry num
         self.pos = self.offset + 2;
+        self.budget = walk_budget(&self.input);
     }
 
     pub fn clone_and_rewind(&self) -> Self {
@@ -675,6 +696,7 @@ impl IfdIter {
                 crate::error::nom_err_to_malformed(e, crate::error::MalformedKind::TiffHeader)
             })?;
 
+        let budget = walk_budget(&input);
         Ok(Self {
             ifd_idx,
             tag_code: None,
@@ -686,6 +708,7 @@ impl IfdIter {
             // Skip the first two bytes, which is the entry num
             pos: offset + 2,
             index: 0,
+            budget,
         })
     }
 
@@ -726,6 +749,24 @@ impl IfdIter {
         Some((tag, res))
     }
 
+    /// The bytes taken by an entry and its data.
+    fn entry_cost(&self, entry_data: &[u8]) -> usize {
+        let endian = self.header.endian;
+        let size = (
+            complete::u16::<_, nom::error::Error<_>>(endian),
+            complete::u32(endian),
+        )
+            .parse(&entry_data[2..])
+            .ok()
+            .and_then(|(_, (df, num))| {
+                let df = DataFormat::try_from(df).ok()?;
+                Some(num as usize * df.component_size())
+            })
+            // data out of range isn't gone through
+            .filter(|size| *size <= self.input.len());
+        IFD_ENTRY_SIZE + size.unwrap_or(0)
+    }
+
     fn get_data_pos(&self, value_or_offset: u32) -> usize {
         // value_or_offset.saturating_sub(self.offset)
         value_or_offset as usize
@@ -1072,6 +1113,11 @@ impl Iterator for IfdIter {
         let entry_data = self
             .input
             .slice_checked(self.pos..self.pos + IFD_ENTRY_SIZE)?;
+        let Some(budget) = self.budget.checked_sub(self.entry_cost(entry_data)) else {
+            tracing::warn!(ifd = self.ifd_idx, "too many overlapping IFD entries");
+            return None;
+        };
+        self.budget = budget;
         self.index += 1;
         self.pos += IFD_ENTRY_SIZE;
 
diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index fef0cf4..aacc6bd 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -177,10 +177,18 @@ impl<'a> IfdHeaderTravel<'a> {
 
     #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
-        self.travel(depth, &mut HashSet::new())
+        // Sound IFDs don't overlap, so they have no more entries than there is
+        // room for; see `walk_budget` in `exif_iter.rs`.
+        let mut budget = u16::MAX as usize + self.data.len() / IFD_ENTRY_SIZE;
+        self.travel(depth, &mut HashSet::new(), &mut budget)
     }
 
-    fn travel(&self, depth: usize, visited: &mut HashSet<usize>) -> Result<(), ParsingError> {
+    fn travel(
+        &self,
+        depth: usize,
+        visited: &mut HashSet<usize>,
+        budget: &mut usize,
+    ) -> Result<(), ParsingError> {
         if depth >= MAX_DEPTH {
             let msg = "depth shouldn't be greater than 3";
             tracing::error!(msg);
@@ -207,9 +215,10 @@ impl<'a> IfdHeaderTravel<'a> {
 
         // parse entries
         for _ in 0..entry_num {
-            if pos >= self.data.len() {
+            if pos >= self.data.len() || *budget == 0 {
                 break;
             }
+            *budget -= 1;
             let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(|e| {
                 to_parsing_error(e, MalformedKind::IfdEntry, "parse ifd entry header failed")
             })?;
@@ -226,7 +235,7 @@ impl<'a> IfdHeaderTravel<'a> {
 
         if depth + 1 < MAX_DEPTH {
             for ifd in sub_ifds {
-                ifd.travel(depth + 1, visited)?;
+                ifd.travel(depth + 1, visited, budget)?;
             }
         }
 
-- 
2.43.0


From b1b601ab71d4138e7ab3f595c2e1016b55ca1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 36/52] fix: a directory of 65535 entries overflowed its entry
 index

---
 src/exif/exif_iter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 9653d78..cc44d3d 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -616,8 +616,8 @@ pub(crate) struct IfdIter {
 
     pub tz: Option<String>,
 
-    // Iterating status
-    index: u16,
+    // Iterating status; goes one beyond `entry_num`
+    index: u32,
     pos: usize,
     budget: usize,
 }
@@ -1083,10 +1083,10 @@ impl Iterator for IfdIter {
             "next IFD entry"
         );
         let endian = self.header.endian;
-        if self.index > self.entry_num {
+        if self.index > u32::from(self.entry_num) {
             return None;
         }
-        if self.index == self.entry_num {
+        if self.index == u32::from(self.entry_num) {
             tracing::debug!(
                 self.ifd_idx,
                 self.index,
-- 
2.43.0


From 7eb66bcd7c5ae411bfdeac156b23ced61a068e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 37/52] fix: rexiftool does not report the error of a track
 file

---
 crates/rexiftool/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index d5da6e1..b1b3c43 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -184,7 +184,7 @@ fn parse_file<P: AsRef<Path>>(
             (exif_values, track_values, fmt_pairs)
         }
         MediaKind::Track => {
-            let info: TrackInfo = parser.parse_track(ms)?;
+            let info: TrackInfo = parser.parse_track(ms).inspect_err(handle_parsing_error)?;
             (track_info_to_pairs(&info), None, None)
         }
     };
-- 
2.43.0


From ec6f09725c71600e1334a797711bd7dd816715e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 38/52] fix: rexiftool JSON keeps only the last of repeated
 text chunks

---
 crates/rexiftool/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index b1b3c43..7884445 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -356,7 +356,15 @@ fn emit_json(
     if let Some(fmt) = format_pairs {
         let mut nested = Map::with_capacity(fmt.len());
         for (k, v) in fmt {
-            nested.insert(k.clone(), Value::String(v.clone()));
+            // a repeated key holds all of its values
+            let v = Value::String(v.clone());
+            match nested.get_mut(k) {
+                None => {
+                    nested.insert(k.clone(), v);
+                }
+                Some(Value::Array(vs)) => vs.push(v),
+                Some(first) => *first = Value::Array(vec![first.take(), v]),
+            }
         }
         root.insert("_format".into(), Value::Object(nested));
     }
-- 
2.43.0


From 4b23dbb04ec7eed04b2eee2e002b0fb346c32408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 39/52] fix: rexiftool JSON lost the main image's entries to
 the thumbnail's

Entries of different IFDs share their keys: with --with-thumbnail the last
one won. JSON now nests those of other IFDs, and includes the thumbnail's
as documented.
---
 crates/rexiftool/README.md   |  3 ++-
 crates/rexiftool/src/main.rs | 47 ++++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/crates/rexiftool/README.md b/crates/rexiftool/README.md
index e25f95f..650ad84 100644
--- a/crates/rexiftool/README.md
+++ b/crates/rexiftool/README.md
@@ -37,7 +37,8 @@ rexiftool --debug photo.heic
 Flags:
 
 - `-j, --json` — JSON output instead of `key : value`. JSON is never
-  truncated and always includes thumbnail (IFD1) entries.
+  truncated and always includes thumbnail (IFD1) entries, nested under
+  `_thumbnail`.
 - `--no-track` — skip embedded media tracks (e.g. Pixel Motion Photo
   MP4 trailers).
 - `--no-format` — skip format-specific metadata (e.g. PNG `tEXt`
diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index 7884445..fbf67ea 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -7,7 +7,9 @@ use std::{
 };
 
 use clap::Parser;
-use nom_exif::{ExifIter, ImageFormatMetadata, MediaKind, MediaParser, MediaSource, TrackInfo};
+use nom_exif::{
+    ExifIter, IfdIndex, ImageFormatMetadata, MediaKind, MediaParser, MediaSource, TrackInfo,
+};
 use tracing_subscriber::{layer::SubscriberExt, util::SubscriberInitExt, Registry};
 
 #[derive(Parser, Debug)]
@@ -133,7 +135,8 @@ fn parse_file<P: AsRef<Path>>(
                     let (has, exif_pairs) = match img.exif {
                         Some(iter) => (
                             iter.has_embedded_track(),
-                            exif_iter_to_pairs(iter, cli.with_thumbnail),
+                            // JSON always has the thumbnail entries
+                            exif_iter_to_pairs(iter, cli.with_thumbnail || cli.json),
                         ),
                         None => (false, vec![]),
                     };
@@ -185,7 +188,11 @@ fn parse_file<P: AsRef<Path>>(
         }
         MediaKind::Track => {
             let info: TrackInfo = parser.parse_track(ms).inspect_err(handle_parsing_error)?;
-            (track_info_to_pairs(&info), None, None)
+            let values = track_info_to_pairs(&info)
+                .into_iter()
+                .map(|(k, v)| (IfdIndex::MAIN, k, v))
+                .collect();
+            (values, None, None)
         }
     };
     if cli.json {
@@ -193,7 +200,7 @@ fn parse_file<P: AsRef<Path>>(
     } else {
         let has_extra = embedded.is_some() || format_pairs.is_some();
         let key_width = compute_key_width(
-            values.iter().map(|(k, _)| k.as_str()).chain(
+            values.iter().map(|(_, k, _)| k.as_str()).chain(
                 embedded
                     .iter()
                     .flat_map(|t| t.iter().map(|(k, _)| k.as_str())),
@@ -209,7 +216,7 @@ fn parse_file<P: AsRef<Path>>(
             println!("{}", section_header("EXIF"));
             printed_section = true;
         }
-        for (k, v) in &values {
+        for (_, k, v) in &values {
             print_pair(k, &v.to_string(), key_width, cli.full);
         }
         if let Some(track) = &embedded {
@@ -302,15 +309,20 @@ fn compute_key_width<'a, I: Iterator<Item = &'a str>>(keys: I) -> usize {
         .unwrap_or(MIN_KEY_WIDTH)
 }
 
-fn exif_iter_to_pairs(iter: ExifIter, with_thumbnail: bool) -> Vec<(String, nom_exif::EntryValue)> {
+fn exif_iter_to_pairs(
+    iter: ExifIter,
+    with_thumbnail: bool,
+) -> Vec<(IfdIndex, String, nom_exif::EntryValue)> {
     iter.into_iter()
         .filter_map(|x| {
-            if !with_thumbnail && x.ifd() == nom_exif::IfdIndex::THUMBNAIL {
+            let ifd = x.ifd();
+            if !with_thumbnail && ifd == IfdIndex::THUMBNAIL {
                 return None;
             }
             let tag = x.tag();
             match x.into_result() {
                 Ok(v) => Some((
+                    ifd,
                     match tag {
                         nom_exif::TagOrCode::Tag(t) => t.to_string(),
                         nom_exif::TagOrCode::Unknown(c) => format!("Unknown(0x{c:04x})"),
@@ -333,15 +345,30 @@ fn track_info_to_pairs(info: &TrackInfo) -> Vec<(String, nom_exif::EntryValue)>
 }
 
 fn emit_json(
-    values: &[(String, nom_exif::EntryValue)],
+    values: &[(IfdIndex, String, nom_exif::EntryValue)],
     embedded: Option<&[(String, nom_exif::EntryValue)]>,
     format_pairs: Option<&[(String, String)]>,
 ) {
     use serde_json::{Map, Value};
     let mut root = Map::with_capacity(values.len() + 1);
-    for (k, v) in values {
+    for (ifd, k, v) in values {
         if let Ok(json) = serde_json::to_value(v) {
-            root.insert(k.clone(), json);
+            // Other IFDs repeat the tags of the main one, so theirs are nested
+            let section = match *ifd {
+                IfdIndex::MAIN => &mut root,
+                ifd => {
+                    let name = match ifd {
+                        IfdIndex::THUMBNAIL => "_thumbnail".to_owned(),
+                        ifd => format!("_{ifd}"),
+                    };
+                    let nested = root.entry(name).or_insert_with(|| Map::new().into());
+                    match nested {
+                        Value::Object(nested) => nested,
+                        _ => continue,
+                    }
+                }
+            };
+            section.insert(k.clone(), json);
         }
     }
     if let Some(track) = embedded {
-- 
2.43.0


From e7775cdf75ec89b501b4339fd935a0e5bf63e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 40/52] fix: rexiftool silently succeeds for a path that does
 not exist

---
 crates/rexiftool/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index fbf67ea..3809c0c 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -79,6 +79,8 @@ fn run(cli: &Cli) -> Result<(), Box<dyn Error>> {
         let _ = parse_file(&mut parser, path, cli);
     } else if path.is_dir() {
         parse_dir(path, parser, cli)?;
+    } else {
+        return Err(format!("No such file or directory: {}", cli.file).into());
     }
 
     Ok(())
-- 
2.43.0


From 517d3ae0d0aae4696a8d6e09e545b98cf5d6cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 41/52] fix: keep the directory look-ahead linear when it
 starts over after every refill

---
 src/exif/travel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index aacc6bd..cd60850 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -177,9 +177,9 @@ impl<'a> IfdHeaderTravel<'a> {
 
     #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
-        // Sound IFDs don't overlap, so they have no more entries than there is
-        // room for; see `walk_budget` in `exif_iter.rs`.
-        let mut budget = u16::MAX as usize + self.data.len() / IFD_ENTRY_SIZE;
+        // See `walk_budget` in `exif_iter.rs`. Every refill starts over, so
+        // the limit mustn't grow with the data.
+        let mut budget = 2 * u16::MAX as usize;
         self.travel(depth, &mut HashSet::new(), &mut budget)
     }
 
-- 
2.43.0


From 3ca418d4b7f242d27cdf6cd4030f0b963a9287f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 42/52] fix: a WebM SeekHead gave another answer the more of
 the file was loaded

---
 src/ebml/element.rs | 18 ------------------
 src/ebml/webm.rs    | 41 +++++++++++++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index 3a51c95..31486fb 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -145,24 +145,6 @@ fn parse_ebml_head_data(input: &[u8]) -> Result<String, ParseEBMLFailed> {
     Err(ParseEBMLFailed::NotEBMLFile)
 }
 
-pub(crate) fn find_element_by_id(
-    cursor: &mut Cursor<&[u8]>,
-    target_id: u64,
-) -> Result<ElementHeader, ParseEBMLFailed> {
-    while cursor.has_remaining() {
-        let header = next_element_header(cursor)?;
-        if header.id == target_id {
-            return Ok(header);
-        }
-        if cursor.remaining() < header.data_size {
-            return Err(ParseEBMLFailed::Need(header.data_size - cursor.remaining()));
-        }
-
-        cursor.consume(header.data_size);
-    }
-    Err(ParseEBMLFailed::Need(1))
-}
-
 pub(crate) fn travel_while<F>(
     cursor: &mut Cursor<&[u8]>,
     mut predict: F,
diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 964af17..89e491a 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -10,8 +10,8 @@ use thiserror::Error;
 
 use crate::{
     ebml::element::{
-        find_element_by_id, get_as_f64, get_as_u64, next_element_header, parse_ebml_doc_type,
-        EBMLGlobalId, TopElementId,
+        get_as_f64, get_as_u64, next_element_header, parse_ebml_doc_type, EBMLGlobalId,
+        TopElementId,
     },
     error::{MalformedKind, ParsingError},
     video::{TrackInfo, TrackInfoTag},
@@ -100,11 +100,20 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
     let mut info_set = false;
     let mut tracks_set = false;
 
-    if let Ok(seeks) = parse_seeks(input, pos) {
+    // A damaged SeekHead, or a seek entry that leads to something unusable, is
+    // no reason to fail: the elements are looked up one by one then.
+    let seeks = match parse_seeks(input, pos) {
+        Err(ParsingError::Need(n)) => return Err(ParsingError::Need(n)),
+        x => x.ok(),
+    };
+    if let Some(seeks) = seeks {
         let info_seek = seeks.get(&(SegmentId::Info as u32)).cloned();
         let tracks_seek = seeks.get(&(SegmentId::Tracks as u32)).cloned();
         if let Some(pos) = info_seek {
-            let info = parse_segment_info(input, pos as usize)?;
+            let info = match parse_segment_info(input, pos as usize) {
+                Err(ParsingError::Need(n)) => return Err(ParsingError::Need(n)),
+                x => x.ok().flatten(),
+            };
             tracing::debug!(?info);
             if let Some(info) = info {
                 info_set = true;
@@ -112,7 +121,10 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
             }
         }
         if let Some(pos) = tracks_seek {
-            let tracks = parse_tracks_info(input, pos as usize)?;
+            let tracks = match parse_tracks_info(input, pos as usize) {
+                Err(ParseWebmFailed::Need(n)) => return Err(ParsingError::Need(n)),
+                x => x.ok().flatten(),
+            };
             tracing::debug!(?tracks);
             if let Some(info) = tracks {
                 tracks_set = true;
@@ -374,15 +386,28 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
 
 fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingError> {
     let mut cursor = Cursor::new(&input[pos..]);
-    // find SeekHead element
-    let header = find_element_by_id(&mut cursor, SegmentId::SeekHead as u64)?;
+    // Find the SeekHead element. It only helps in front of the elements it
+    // leads to: looking further would read on for nothing, and give another
+    // answer the more of the file happens to be loaded.
+    let header = travel_while(&mut cursor, |h| {
+        h.id != SegmentId::SeekHead as u64
+            && h.id != SegmentId::Info as u64
+            && h.id != SegmentId::Tracks as u64
+    })?;
     tracing::debug!(segment_header = ?header);
+    if header.id != SegmentId::SeekHead as u64 {
+        return Ok(HashMap::new());
+    }
     if cursor.remaining() < header.data_size {
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
-    let mut seeks = parse_seek_head(&mut cur)?;
+    let mut seeks = match parse_seek_head(&mut cur) {
+        // Don't bubble Need error to caller here
+        Err(ParseWebmFailed::Need(_)) => return Ok(HashMap::new()),
+        x => x?,
+    };
     // positions count from the first byte of the segment's data
     seeks.retain(|_, seek_pos| {
         usize::try_from(*seek_pos)
-- 
2.43.0


From e8ce2fab622ce5dff295610094777df44dc0fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 43/52] fix: a 64-bit box size beyond all bounds was malformed
 or end of file depending on the buffer

---
 src/mov.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index 5c88fcc..2664c34 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -191,12 +191,8 @@ pub(crate) fn extract_moov_body_from_buf(input: &[u8]) -> Result<Range<usize>, P
 
     if to_skip > 0 {
         return Err(ParsingError::ClearAndSkip(
-            to_skip
-                .checked_add(input.len())
-                .ok_or_else(|| ParsingError::Failed {
-                    kind: MalformedKind::IsoBmffBox,
-                    message: "to_skip is too big".into(),
-                })?,
+            // no stream is that long: it ends before the skip does
+            to_skip.saturating_add(input.len()),
         ));
     }
 
-- 
2.43.0


From cba17c0ebf80d8a28e221fd7c1e8879e384eae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 44/52] fix: fill bytes in front of a JPEG marker

---
 src/jpeg.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index c273fc1..de79302 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -39,9 +39,7 @@ pub(crate) enum MotionPhotoScan {
 pub(crate) fn scan_motion_photo(input: &[u8]) -> MotionPhotoScan {
     let mut remain = input;
     loop {
-        let parsed: IResult<&[u8], (&[u8], u8)> =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain);
-        let (rem, (_, code)) = match parsed {
+        let (rem, code) = match parse_marker_code(remain) {
             Ok(t) => t,
             Err(nom::Err::Incomplete(_)) => return MotionPhotoScan::NeedMoreBytes,
             Err(_) => return MotionPhotoScan::NotPresent,
@@ -209,8 +207,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
     let mut remain = input;
 
     let (remain, segment) = loop {
-        let (rem, (_, code)) =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain)?;
+        let (rem, code) = parse_marker_code(remain)?;
         let (rem, segment) = parse_segment(code, rem)?;
         // Sanity check
         assert!(rem.len() < remain.len());
@@ -268,6 +265,19 @@ pub fn check_jpeg(input: &[u8]) -> crate::Result<()> {
     Ok(())
 }
 
+/// The code of the marker at the start of `input`. Any number of 0xFF fill
+/// bytes may precede a marker (ITU-T T.81, B.1.1.2).
+fn parse_marker_code(input: &[u8]) -> IResult<&[u8], u8> {
+    let (mut remain, _) = streaming::tag(&[0xFF_u8][..])(input)?;
+    loop {
+        let (rem, code) = number::streaming::u8(remain)?;
+        if code != 0xFF {
+            return Ok((rem, code));
+        }
+        remain = rem;
+    }
+}
+
 fn parse_segment(marker_code: u8, input: &[u8]) -> IResult<&[u8], Segment<'_>> {
     let remain = input;
 
-- 
2.43.0


From 8479922eb975a95786bc32a91b07ee9c2604cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 45/52] fix: sign of one-byte integers in QuickTime metadata

---
 src/bbox/ilst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index af953a7..6e93ca7 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -111,7 +111,7 @@ fn parse_value(type_code: u32, data: &[u8]) -> crate::Result<EntryValue> {
             Text(s)
         }
         21 => match data.len() {
-            1 => data[0].into(),
+            1 => (data[0] as i8).into(),
             2 => be_i16(data)
                 .map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?
                 .1
-- 
2.43.0


From b5841055455f855567017a54cdf72672c0264239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 46/52] fix: load as many levels of a TIFF stream's directories
 as the iterator enters

---
 src/exif/exif_iter.rs |  2 +-
 src/exif/travel.rs    | 25 +++++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index cc44d3d..9b01406 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -433,7 +433,7 @@ impl std::fmt::Debug for ExifIterEntry {
     }
 }
 
-const MAX_IFD_DEPTH: usize = 8;
+pub(crate) const MAX_IFD_DEPTH: usize = 8;
 
 /// Upper limit of the bytes (of entries and their data) to go through in a
 /// TIFF block. The directories of a sound block do not share any bytes, so
diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index cd60850..e5a0e54 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -13,7 +13,10 @@ use crate::{
     TagOrCode,
 };
 
-use super::{exif_exif::IFD_ENTRY_SIZE, exif_iter::SUBIFD_TAGS};
+use super::{
+    exif_exif::IFD_ENTRY_SIZE,
+    exif_iter::{MAX_IFD_DEPTH, SUBIFD_TAGS},
+};
 
 /// Only iterates headers, don't parse entries.
 ///
@@ -177,6 +180,14 @@ impl<'a> IfdHeaderTravel<'a> {
 
     #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
+        if depth >= MAX_DEPTH {
+            let msg = "depth shouldn't be greater than 3";
+            tracing::error!(msg);
+            return Err(ParsingError::Failed {
+                kind: MalformedKind::IfdEntry,
+                message: msg.into(),
+            });
+        }
         // See `walk_budget` in `exif_iter.rs`. Every refill starts over, so
         // the limit mustn't grow with the data.
         let mut budget = 2 * u16::MAX as usize;
@@ -189,14 +200,6 @@ impl<'a> IfdHeaderTravel<'a> {
         visited: &mut HashSet<usize>,
         budget: &mut usize,
     ) -> Result<(), ParsingError> {
-        if depth >= MAX_DEPTH {
-            let msg = "depth shouldn't be greater than 3";
-            tracing::error!(msg);
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::IfdEntry,
-                message: msg.into(),
-            });
-        }
         if !visited.insert(self.offset) || self.offset + 2 > MAX_PARSE_BUF_SIZE {
             return Ok(());
         }
@@ -233,7 +236,8 @@ impl<'a> IfdHeaderTravel<'a> {
             }
         }
 
-        if depth + 1 < MAX_DEPTH {
+        // Whatever the iterator enters has to be loaded.
+        if depth + 1 < MAX_IFD_DEPTH {
             for ifd in sub_ifds {
                 ifd.travel(depth + 1, visited, budget)?;
             }
@@ -244,6 +248,7 @@ impl<'a> IfdHeaderTravel<'a> {
     }
 }
 
+/// Limit of the depth to start from.
 const MAX_DEPTH: usize = 3;
 
 fn to_parsing_error(
-- 
2.43.0


From ec2a6128a18d297af643deb8c8c1fe91bcf627b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 47/52] fix: recognise CR3 by a compatible brand

---
 src/file.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/file.rs b/src/file.rs
index c824d04..59e1f4f 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -184,6 +184,14 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
         return Ok(MediaMime::Image(MediaMimeImage::Heif));
     }
 
+    // CR3 files list MP4 brands as well
+    if CR3_BRAND_NAMES
+        .iter()
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
+    {
+        return Ok(MediaMime::Image(MediaMimeImage::Cr3));
+    }
+
     if MP4_BRAND_NAMES
         .iter()
         .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
-- 
2.43.0


From fefd065d1e9fe01cdbeae525764911c89405e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 48/52] fix: compare compatible brands as the four byte units
 they are

---
 src/file.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 59e1f4f..2d975ee 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -1,4 +1,4 @@
-use nom::{bytes::complete, FindSubstring};
+use nom::bytes::complete;
 use std::io::Cursor;
 
 use crate::{
@@ -158,25 +158,30 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
     }
 
     // Check compatible brands
-    let compatible_brands = ftyp.body_data();
+    let compatible_brands: Vec<&[u8]> = ftyp
+        .body_data()
+        .get(8..) // behind the major brand and its version
+        .unwrap_or_default()
+        .chunks_exact(4)
+        .collect();
 
     if QT_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.contains(&v.as_bytes()))
     {
         return Ok(MediaMime::Track(MediaMimeTrack::QuickTime));
     }
 
     if AVIF_BRAND_NAMES
         .iter()
-        .any(|x| compatible_brands.find_substring(*x).is_some())
+        .any(|x| compatible_brands.contains(x))
     {
         return Ok(MediaMime::Image(MediaMimeImage::Avif));
     }
 
     if HEIF_HEIC_BRAND_NAMES
         .iter()
-        .any(|x| compatible_brands.find_substring(*x).is_some())
+        .any(|x| compatible_brands.contains(x))
     {
         if HEIC_BRAND_NAMES.contains(&major_brand) {
             return Ok(MediaMime::Image(MediaMimeImage::Heic));
@@ -187,14 +192,14 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
     // CR3 files list MP4 brands as well
     if CR3_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.contains(&v.as_bytes()))
     {
         return Ok(MediaMime::Image(MediaMimeImage::Cr3));
     }
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.contains(&v.as_bytes()))
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From 7c6282f98d7081e03647fb28b0f6f932fa6e8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 49/52] fix: classify a file by its brands when the ftyp box is
 longer than the sniffed bytes

---
 src/file.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 2d975ee..c6bfc2b 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,7 +2,7 @@ use nom::bytes::complete;
 use std::io::Cursor;
 
 use crate::{
-    bbox::{travel_header, BoxHolder},
+    bbox::{travel_header, BoxHeader},
     ebml::element::parse_ebml_doc_type,
     error::MalformedKind,
     exif::TiffHeader,
@@ -111,7 +111,7 @@ fn get_ebml_doc_type(input: &[u8]) -> crate::Result<String> {
 
 #[tracing::instrument(skip_all)]
 fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
-    let (ftyp, Some(major_brand)) =
+    let (ftyp_body, Some(major_brand)) =
         get_ftyp_and_major_brand(input).map_err(|_| crate::Error::UnsupportedFormat)?
     else {
         if travel_header(input, |header, _| header.box_type != "mdat").is_ok() {
@@ -122,7 +122,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
         return Err(crate::Error::UnsupportedFormat);
     };
 
-    tracing::debug!(?ftyp);
+    tracing::debug!(?ftyp_body);
 
     // Check if it is a QuickTime file
     if QT_BRAND_NAMES.iter().any(|v| v.as_bytes() == major_brand) {
@@ -158,8 +158,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
     }
 
     // Check compatible brands
-    let compatible_brands: Vec<&[u8]> = ftyp
-        .body_data()
+    let compatible_brands: Vec<&[u8]> = ftyp_body
         .get(8..) // behind the major brand and its version
         .unwrap_or_default()
         .chunks_exact(4)
@@ -230,32 +229,36 @@ fn check_png(input: &[u8]) -> Result<(), ()> {
     }
 }
 
-fn get_ftyp_and_major_brand(input: &[u8]) -> crate::Result<(BoxHolder<'_>, Option<&[u8]>)> {
-    let (_, bbox) = BoxHolder::parse(input).map_err(|e| crate::Error::Malformed {
+/// The body of the first box and, if it is an ftyp box, its major brand. A long
+/// list of compatible brands may go on behind the end of `input`.
+fn get_ftyp_and_major_brand(input: &[u8]) -> crate::Result<(&[u8], Option<&[u8]>)> {
+    let (remain, header) = BoxHeader::parse(input).map_err(|e| crate::Error::Malformed {
         kind: MalformedKind::IsoBmffBox,
         message: format!("parse ftyp failed: {e}"),
     })?;
+    let body_size = usize::try_from(header.body_size()).unwrap_or(usize::MAX);
+    let body = &remain[..body_size.min(remain.len())]; // Safe-slice
 
-    if bbox.box_type() == "ftyp" {
-        if bbox.body_data().len() < 4 {
+    if header.box_type == "ftyp" {
+        if body.len() < 4 {
             return Err(crate::Error::Malformed {
                 kind: MalformedKind::IsoBmffBox,
                 message: format!(
                     "parse ftyp failed; body size should greater than 4, got {}",
-                    bbox.body_data().len()
+                    body.len()
                 ),
             });
         }
-        let (_, ftyp) = complete::take(4_usize)(bbox.body_data())
+        let (_, major_brand) = complete::take(4_usize)(body)
             .map_err(|e| crate::error::nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?;
-        Ok((bbox, Some(ftyp)))
-    } else if bbox.box_type() == "wide" {
+        Ok((body, Some(major_brand)))
+    } else if header.box_type == "wide" {
         // MOV files that extracted from HEIC starts with `wide` & `mdat` atoms
-        Ok((bbox, None))
+        Ok((body, None))
     } else {
         Err(crate::Error::Malformed {
             kind: MalformedKind::IsoBmffBox,
-            message: format!("parse ftyp failed; first box type is: {}", bbox.box_type()),
+            message: format!("parse ftyp failed; first box type is: {}", header.box_type),
         })
     }
 }
-- 
2.43.0


From f307b895d9d205d1562874388e6f395b09fea0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 50/52] fix: an item name or type that is not UTF-8 must not
 hide the Exif item

---
 src/bbox/iinf.rs |  4 +---
 src/utils.rs     | 17 +++++------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/bbox/iinf.rs b/src/bbox/iinf.rs
index 8fd844e..54d14d4 100644
--- a/src/bbox/iinf.rs
+++ b/src/bbox/iinf.rs
@@ -75,9 +75,7 @@ impl ParseBody<InfeBox> for InfeBox {
 
         let (remain, item_type) = cond(
             version >= 2,
-            map_res(streaming::take(4_usize), |res: &'a [u8]| {
-                String::from_utf8(res.to_vec())
-            }),
+            streaming::take(4_usize).map(|res: &'a [u8]| String::from_utf8_lossy(res).into_owned()),
         )
         .parse(remain)?;
 
diff --git a/src/utils.rs b/src/utils.rs
index ddce2d8..cb36463 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,17 +1,10 @@
-use nom::{combinator::map_res, IResult, Parser};
+use nom::{IResult, Parser};
 
 pub(crate) fn parse_cstr(input: &[u8]) -> IResult<&[u8], String> {
-    let (remain, s) = map_res(
-        nom::bytes::streaming::take_till(|b| b == 0),
-        |bs: &[u8]| {
-            if bs.is_empty() {
-                Ok("".to_owned())
-            } else {
-                String::from_utf8(bs.to_vec())
-            }
-        },
-    )
-    .parse(input)?;
+    // Text in another encoding must not hide what follows it
+    let (remain, s) = nom::bytes::streaming::take_till(|b| b == 0)
+        .map(|bs: &[u8]| String::from_utf8_lossy(bs).into_owned())
+        .parse(input)?;
 
     // consumes the zero byte
     Ok((&remain[1..], s)) // Safe-slice
-- 
2.43.0


From 8542c8768d190b58f8189a9c7e7469e2e27d2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 51/52] fix: an eXIf chunk without a TIFF header must not hide
 a usable Exif source (or the text chunks)

---
 src/png.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/png.rs b/src/png.rs
index c55fe92..25cd4a5 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -245,9 +245,12 @@ pub(crate) fn extract_chunks(
                 }
                 let data_start = cursor + 8;
                 let data_end = data_start + length as usize;
-                // eXIf has priority 3 (highest), always wins.
-                out.exif = Some(PngExifSource::EXif(data_start..data_end));
-                exif_priority = 3;
+                // eXIf has priority 3 (highest), always wins - unless there is
+                // no TIFF block in it, which must not hide a usable source.
+                if crate::exif::TiffHeader::parse(&buf[data_start..data_end]).is_ok() {
+                    out.exif = Some(PngExifSource::EXif(data_start..data_end));
+                    exif_priority = 3;
+                }
                 cursor += total;
             }
             b"tEXt" => {
-- 
2.43.0


From e75a16d58652f25b05387eb3c0412e543e29ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:36 +0000
Subject: [PATCH 52/52] fix: a WebM video track with only its width or only its
 height was passed over

---
 src/ebml/webm.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 89e491a..cb6567a 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -277,18 +277,21 @@ fn parse_video_track(input: &[u8]) -> Result<Option<VideoTrackInfo>, ParseWebmFa
     let mut cursor = Cursor::new(input);
     let mut info = VideoTrackInfo::default();
 
-    let header = travel_while(&mut cursor, |h| h.id != TracksId::PixelWidth as u64)?;
-    tracing::debug!(?header, "video track width element");
-    if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
-        info.width = v as u32;
+    // either of the two may be missing
+    if let Ok(header) = travel_while(&mut cursor, |h| h.id != TracksId::PixelWidth as u64) {
+        tracing::debug!(?header, "video track width element");
+        if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
+            info.width = v as u32;
+        }
     }
 
     // search from beginning
     cursor.set_position(0);
-    let header = travel_while(&mut cursor, |h| h.id != TracksId::PixelHeight as u64)?;
-    tracing::debug!(?header, "video track height element");
-    if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
-        info.height = v as u32;
+    if let Ok(header) = travel_while(&mut cursor, |h| h.id != TracksId::PixelHeight as u64) {
+        tracing::debug!(?header, "video track height element");
+        if let Some(v) = get_as_u64(&mut cursor, header.data_size) {
+            info.height = v as u32;
+        }
     }
 
     if info == VideoTrackInfo::default() {
-- 
2.43.0

