From 88aa1f0f0b46d5461540f11d75f3b67c75abbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:37 +0000
Subject: [PATCH 01/14] fix: count bytes already written when reading on to a
 file body

When a body moved from memory to a file part way through reading, the
running size was restarted at zero, so bodies of nearly max_body plus
max_body_ram were accepted.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..ce366e2 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -740,7 +740,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From 08ed375374c54edf236d1a02ff67a6106b17d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:49 +0000
Subject: [PATCH 02/14] fix: limit copies and maps of file images to the image
 length

An image made from a file longer than the given length copied out, and
mapped, the whole file while reporting and reading only the length given.
---
 body-image/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ce366e2..5351d3b 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,7 +53,7 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
@@ -522,7 +522,7 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                ReadSlice::new(file.clone(), 0, self.len).mem_map()?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
@@ -675,7 +675,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,8 +698,8 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-- 
2.43.0


From 5c9d9a6c71c471b04581ff40a0f81241396019ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:49 +0000
Subject: [PATCH 03/14] fix: fail a copy of a file image whose file is shorter
 than the image

The copy returned the full image length though fewer bytes had been written.
---
 body-image/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 5351d3b..c2c4053 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -699,11 +699,15 @@ impl BodyImage {
             }
             ImageState::FsRead(ref f) => {
                 let mut rs = ReadSlice::new(f.clone(), 0, self.len);
-                io::copy(&mut rs, out)?;
+                if io::copy(&mut rs, out)? != self.len {
+                    return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
+                }
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-                io::copy(&mut rs, out)?;
+                if io::copy(&mut rs, out)? != self.len {
+                    return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
+                }
             }
         }
         Ok(self.len)
-- 
2.43.0


From 9cd114b67c1b47ee2a4e64ae51f568049c83a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 04/14] fix: drop the partial write of a failed append to a
 file body

A failed write left the file position after the bytes written so far. A
later append then followed these, while they are not counted in the length.
---
 body-image/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index c2c4053..5b5ade2 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -282,7 +282,7 @@ impl BodySink {
                 let buf = buf.as_ref();
                 let len = buf.len() as u64;
                 if len > 0 {
-                    f.write_all(buf)?;
+                    append_all(f, self.len, buf)?;
                     self.len += len;
                 }
             }
@@ -305,7 +305,7 @@ impl BodySink {
                     v.push(Bytes::copy_from_slice(buf));
                 }
                 SinkState::FsWrite(ref mut f) => {
-                    f.write_all(buf)?;
+                    append_all(f, self.len, buf)?;
                 }
             }
             self.len += len;
@@ -365,6 +365,16 @@ impl BodySink {
     }
 }
 
+// Write all bytes at the current position `len` of the file, or on failure
+// restore that position, so that a partial write isn't followed by later ones.
+fn append_all(f: &mut File, len: u64, buf: &[u8]) -> Result<(), io::Error> {
+    if let Err(e) = f.write_all(buf) {
+        f.seek(SeekFrom::Start(len))?;
+        return Err(e);
+    }
+    Ok(())
+}
+
 impl Default for BodySink {
     fn default() -> BodySink { BodySink::empty() }
 }
-- 
2.43.0


From 7a8610933f0d465e207cb28c9ed65b49c48af5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 05/14] fix: accept all encodings that a record can hold as
 response-decoded

The values compress and identity are written but were not accepted when
converting the record back to a dialog.
---
 barc/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..2524c27 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -521,6 +521,8 @@ impl TryFrom<Record> for Dialog {
                         "deflate" => Encoding::Deflate,
                         "gzip"    => Encoding::Gzip,
                         "br"      => Encoding::Brotli,
+                        "compress" => Encoding::Compress,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From c35276897db0dfb42ccea3c25600f578afe00a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 06/14] fix: fail reading a record whose body ends before its
 stated length

A large body was accepted with the length found (compressed records), or
as a slice extending past the end of the file (plain records).
---
 barc/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 2524c27..8054789 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1130,7 +1130,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1153,6 +1153,9 @@ fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
     assert!(len > 2);
     let offset = rp.tell();
 
+    // Fail now, if the file ends before the last byte of the body.
+    rp.subslice(offset + len - 1, offset + len).read_exact(&mut [0u8; 1])?;
+
     // Seek past the body, as if read.
     rp.seek(SeekFrom::Current(len as i64))?;
 
-- 
2.43.0


From 9dc0ef2c0858e9439e279d30216f98d7cb69b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 07/14] fix: report malformed record lengths and header blocks
 as errors

Reading such a record panicked.
---
 barc/src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 8054789..027f8b4 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -869,7 +869,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1018,7 +1020,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1052,7 +1056,11 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
             let mut hmap = http::HeaderMap::with_capacity(heads.len());
-            assert_eq!(size, buf.len());
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    Box::new(httparse::Error::NewLine)
+                ));
+            }
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
@@ -1080,7 +1088,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1150,7 +1160,9 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
     // Fail now, if the file ends before the last byte of the body.
-- 
2.43.0


From 08ec31da07a0e856d8c3b1a14519ad4b1e4314ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 08/14] fix: keep the reader position when reading a record
 fails

As documented, only a successful read advances it.
---
 barc/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 027f8b4..89a61ad 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -830,6 +830,17 @@ impl BarcReader {
     /// buffered in a file, or deferred via a `ReadSlice`.
     pub fn read(&mut self, tune: &Tunables)
         -> Result<Option<Record>, BarcError>
+    {
+        let start = self.file.tell();
+        let res = self.read_next(tune);
+        if res.is_err() {
+            self.file.seek(SeekFrom::Start(start))?;
+        }
+        res
+    }
+
+    fn read_next(&mut self, tune: &Tunables)
+        -> Result<Option<Record>, BarcError>
     {
         let fin = &mut self.file;
         let start = fin.tell();
-- 
2.43.0


From badf4c1dbc058b5d9d04cd01e1fd70070fc32ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 09/14] fix: report a failure to complete the Brotli stream of
 a record

The stream was completed on drop, which ignores errors, so that a record
without its end could become visible.
---
 barc/src/compress.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..1ea268d 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -376,7 +376,32 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<&'a File>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<KeepError<'a>>>)
+}
+
+// Retains a write error, given that `CompressorWriter` ignores those which
+// occur while completing the stream.
+#[cfg(feature = "brotli")]
+struct KeepError<'a> {
+    file: &'a File,
+    error: Option<io::Error>,
+}
+
+#[cfg(feature = "brotli")]
+impl<'a> Write for KeepError<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        let res = self.file.write(buf);
+        if let Err(ref e) = res {
+            if e.kind() != io::ErrorKind::Interrupted {
+                self.error = Some(e.kind().into());
+            }
+        }
+        res
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -404,7 +429,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                KeepError { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -434,6 +459,11 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
+                let mut out = bcw.into_inner();
+                if let Some(e) = out.error.take() {
+                    return Err(e.into());
+                }
+                out.flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From cbf2eff3165825d1248088e5d36372e4a4a89b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 10/14] fix: fail a body stream whose file ends before the body
 length

The stream ended as if complete.
---
 body-image-futio/src/stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 9b1478b..6f39a63 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -187,7 +187,9 @@ impl<B, BA> AsyncBodyImage<B, BA>
                 )};
                 loop {
                     match rs.read(&mut b[..rlen]) {
-                        Ok(0) => break Poll::Ready(None),
+                        Ok(0) => break Poll::Ready(Some(Err(
+                            io::ErrorKind::UnexpectedEof.into()
+                        ))),
                         Ok(len) => {
                             unsafe { buf.advance_mut(len); }
                             debug!("read chunk (len: {})", len);
-- 
2.43.0


From d4ec919b4a5de8bde780d51a4de882051b52d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 11/14] fix: count only the selected records and show their
 true offset

With a start index, the records skipped were counted as well, and cat showed
the offset of the first record skipped.
---
 barc-cli/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..aa1658e 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -228,13 +228,14 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let fout = &mut io::stdout();
     let nl = true;
     let mut i = 0;
+    let mut printed = 0;
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
+            if i < s { i += 1; offset = reader.offset(); continue; }
         }
-        i += 1;
-        if i > count { break; }
+        if printed == count { break; }
+        printed += 1;
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -271,12 +272,13 @@ fn cp(
     let mut writer = bfout.writer()?;
 
     let mut i = 0;
+    let mut copied = 0;
     while let Some(record) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
             if i < s { i += 1; continue; }
         }
-        i += 1;
-        if i > count { break; }
+        if copied == count { break; }
+        copied += 1;
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From b4794f1d90506ef2a45e288a40903497515cfb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:12 +0000
Subject: [PATCH 12/14] fix: refuse to copy a file to itself under another path

Copying would not end, as each record copied is read again.
---
 barc-cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index aa1658e..d64b6ab 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -259,7 +260,7 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
+    if barc_in == barc_out || is_same_file(barc_in, barc_out) {
         quit!("BARC input and output file are the same: {}", barc_in);
     }
     let bfin = BarcFile::new(barc_in);
@@ -285,6 +286,14 @@ fn cp(
     Ok(())
 }
 
+// Return true if both paths lead to one existing file.
+fn is_same_file(a: &str, b: &str) -> bool {
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false
+    }
+}
+
 // Container for dynamically generated help text, to appease Clap's str
 // reference help text lifetimes.
 struct VarHelp {
-- 
2.43.0


From daf874399975daffa1eb7634c3485a7349666214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:01 +0000
Subject: [PATCH 13/14] fix: accept HTTP/3.0 when converting a record to a
 dialog

---
 barc/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 89a61ad..a3bc83b 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
-- 
2.43.0


From 2e4c90fb33b8ea7ab01c13e11d20502389bfa939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:18:50 +0000
Subject: [PATCH 14/14] fix: an image of a slice already read from starts at
 its first byte

---
 body-image/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 5b5ade2..a077ffc 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -740,7 +740,8 @@ fn image_from_file(file: File, length: u64) -> BodyImage {
 fn image_from_read_slice(rslice: ReadSlice) -> BodyImage {
     let len = rslice.len();
     if len > 0 {
-        BodyImage { state: ImageState::FsReadSlice(rslice), len }
+        // Clone for position at start, if already read from
+        BodyImage { state: ImageState::FsReadSlice(rslice.clone()), len }
     } else {
         BodyImage::empty()
     }
-- 
2.43.0

