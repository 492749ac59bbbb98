From 445e2629270f2ad742b7af4756b351b6fa273b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 01/18] fix: generate_passphrase could draw an index one past
 the word list and panic

---
 crates/volaris-crypto/src/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index d921319..ec04b29 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -209,7 +209,7 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let mut passphrase = String::new();
 
     for i in 0..*total_words {
-        let index = StdRng::from_entropy().gen_range(0..=words.len());
+        let index = StdRng::from_entropy().gen_range(0..words.len());
         let word = words[index];
         passphrase.push_str(word);
         if i < total_words - 1 {
-- 
2.43.0


From f1e4ec04db15e7606c4be93078973e81ea2012f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 02/18] fix: overwrite passes wrote no random bytes, the buffer
 had capacity but no length

---
 crates/volaris-tools/src/overwrite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 126cbb8..6725ea0 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -45,7 +45,7 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
         blocks.push(req.buf_capacity % BLOCK_SIZE);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
-            let mut block_buf = Vec::with_capacity(block_size);
+            let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
                 .write_all(&block_buf)
-- 
2.43.0


From b5234bcb44a74a4d2ca9fdf9da50f5b428d50393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 03/18] fix: erase truncated the file before measuring it, so
 nothing was overwritten

---
 crates/volaris-tools/src/erase.rs   |  2 +-
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 8dd6404..f34f3ac 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -37,7 +37,7 @@ where
     RW: Read + Write + Seek,
     P: AsRef<Path>,
 {
-    let file = stor.write_file(req.path).map_err(|_| Error::OpenFile)?;
+    let file = stor.edit_file(req.path).map_err(|_| Error::OpenFile)?;
     let buf_capacity = stor.file_len(&file).map_err(|_| Error::OpenFile)?;
 
     crate::overwrite::execute(crate::overwrite::Request {
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 5a71a5f..d72423c 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -67,6 +67,10 @@ where
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Opens an existing file for reading and writing, keeping its content.
+    fn edit_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.write_file(path)
+    }
     fn flush_file(&self, file: &Entry<RW>) -> Result<(), Error>;
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
@@ -124,6 +128,20 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn edit_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .write(true)
+            .read(true)
+            .open(&path)
+            .map_err(|_| Error::OpenFile(FileMode::Write))?;
+
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
         file.try_writer()?
             .borrow_mut()
-- 
2.43.0


From 155ed579e3561d7a09a492d7f9bbd554b297675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 04/18] fix: a short read was taken for the end of the data
 when encrypting, decrypting, hashing and packing

---
 crates/volaris-crypto/src/stream.rs | 21 ++++++++++++++++++---
 crates/volaris-tools/src/hash.rs    |  4 ++--
 crates/volaris-tools/src/pack.rs    |  6 +++---
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 99005ef..5bebcf1 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -60,6 +60,22 @@ pub enum DecryptionStreams {
     DeoxysII256(Box<DecryptorLE31<DeoxysII256>>),
 }
 
+/// Reads until the buffer is full or the reader has no more data
+///
+/// A single call to `read()` may return fewer bytes than available, which is not the end of the data.
+fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        match reader.read(&mut buffer[filled..]) {
+            Ok(0) => break,
+            Ok(n) => filled += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(filled)
+}
+
 impl EncryptionStreams {
     /// This method can be used to quickly create an `EncryptionStreams` object
     ///
@@ -192,8 +208,7 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = reader
-                .read(&mut read_buffer)
+            let read_count = read_block(reader, &mut read_buffer)
                 .context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
@@ -360,7 +375,7 @@ impl DecryptionStreams {
 
         let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
         loop {
-            let read_count = reader.read(&mut buffer)?;
+            let read_count = read_block(reader, &mut buffer)?;
             if read_count == (BLOCK_SIZE + 16) {
                 let payload = Payload {
                     aad,
diff --git a/crates/volaris-tools/src/hash.rs b/crates/volaris-tools/src/hash.rs
index f171eca..7ccdedb 100644
--- a/crates/volaris-tools/src/hash.rs
+++ b/crates/volaris-tools/src/hash.rs
@@ -44,10 +44,10 @@ pub fn execute<R: Read + Seek>(mut hasher: impl Hasher, req: Request<R>) -> Resu
             .borrow_mut()
             .read(&mut buffer)
             .map_err(|_| Error::ReadData)?;
-        hasher.write(&buffer[..read_count]);
-        if read_count != BLOCK_SIZE {
+        if read_count == 0 {
             break;
         }
+        hasher.write(&buffer[..read_count]);
     }
 
     Ok(hasher.finish())
diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e07791e..571b67c 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -91,12 +91,12 @@ where
                 let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
                 loop {
                     let read_count = reader.read(&mut buffer).map_err(|_| Error::ReadData)?;
+                    if read_count == 0 {
+                        break;
+                    }
                     zip_writer
                         .write_all(&buffer[..read_count])
                         .map_err(|_| Error::WriteData)?;
-                    if read_count != BLOCK_SIZE {
-                        break;
-                    }
                 }
             }
 
-- 
2.43.0


From 6b4e59bfc24a0da27fe10ecbf9e32aa6c0cd1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 05/18] fix: a partial write of the header was reported as
 success

---
 crates/volaris-crypto/src/header.rs | 2 +-
 crates/volaris-tools/src/encrypt.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 5c78a05..956940f 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -715,7 +715,7 @@ impl Header {
     pub fn write(&self, writer: &mut impl Write) -> Result<()> {
         let header_bytes = self.serialize()?;
         writer
-            .write(&header_bytes)
+            .write_all(&header_bytes)
             .context("Unable to write header")?;
 
         Ok(())
diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 1a3d1b9..368c1a3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -120,7 +120,7 @@ where
         None => {
             req.writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
         Some(header_writer) => {
@@ -131,7 +131,7 @@ where
 
             header_writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
     }
-- 
2.43.0


From a825bf9067f16f07d9523f2b4decff6a0a60c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 06/18] fix: restoring a header accepted a target of which only
 a part had been checked to be empty

---
 crates/volaris-tools/src/header/restore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index d07a747..ad87338 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -32,7 +32,7 @@ where
     ];
     req.writer
         .borrow_mut()
-        .read(&mut header_bytes)
+        .read_exact(&mut header_bytes)
         .map_err(|_| Error::Read)?;
 
     if !header_bytes.into_iter().all(|b| b == 0) {
-- 
2.43.0


From 9a5a16f682ed8aa2319bd9d9c3293c744bab52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 07/18] fix: keyslots behind an empty keyslot were read from
 the wrong offset

---
 crates/volaris-crypto/src/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 956940f..99a0dee 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -399,6 +399,10 @@ impl Header {
                         .context("Unable to read keyslot identifier from header")?;
 
                     if identifier[..1] != [0xDF] {
+                        // the keyslot is empty, skip the rest of it
+                        cursor
+                            .seek(std::io::SeekFrom::Current(94))
+                            .context("Unable to seek past an empty keyslot")?;
                         continue;
                     }
 
-- 
2.43.0


From a3a7cbd5f630d63495018bcac418115664519509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 08/18] fix: data with a detached header was not decrypted from
 its start if it was shorter than a header

---
 crates/volaris-tools/src/decrypt.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index be3c6d7..f03a882 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -67,19 +67,21 @@ where
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
 
-            req.reader
+            let has_empty_header = req
+                .reader
                 .borrow_mut()
                 .read_exact(&mut header_bytes)
+                .map(|()| header_bytes.into_iter().all(|b| b == 0))
                 .or_else(|e| {
                     if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                        Ok(())
+                        Ok(false)
                     } else {
                         Err(e)
                     }
                 })
                 .map_err(|_| Error::ReadEncryptedData)?;
 
-            if !header_bytes.into_iter().all(|b| b == 0) {
+            if !has_empty_header {
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-- 
2.43.0


From f39ea04b2d81f722bb3443e8e5f4d8ebf5c1d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 09/18] fix: encrypting with a header that cannot describe the
 key panicked or produced an undecryptable file

---
 crates/volaris-tools/src/encrypt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 368c1a3..66a7205 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -4,7 +4,7 @@ use std::cell::RefCell;
 use std::io::{Read, Seek, Write};
 
 use corecrypto::cipher::Ciphers;
-use corecrypto::header::{HashingAlgorithm, Header, HeaderType, Keyslot};
+use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
 use corecrypto::primitives::{Mode, ENCRYPTED_MASTER_KEY_LEN};
 use corecrypto::protected::Protected;
 use corecrypto::stream::EncryptionStreams;
@@ -59,6 +59,12 @@ where
     R: Read + Seek,
     W: Write + Seek,
 {
+    // headers below V4 have no keyslots, and V4 headers don't store which hashing algorithm was used
+    match (req.header_type.version, req.hashing_algorithm) {
+        (HeaderVersion::V5, _) | (HeaderVersion::V4, HashingAlgorithm::Blake3Balloon(4)) => (),
+        _ => return Err(Error::HashKey),
+    }
+
     // 1. generate salt
     let salt = gen_salt();
 
-- 
2.43.0


From 2807de62d8b255fb1e38b4ff51875487923159e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 10/18] fix: packing an absolute or parent-relative path gave
 an archive from which nothing could be unpacked

---
 crates/volaris-tools/src/pack.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 571b67c..94292b4 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -6,6 +6,7 @@
 
 use std::cell::RefCell;
 use std::io::{BufWriter, Read, Seek, Write};
+use std::path::{Component, PathBuf};
 use std::sync::Arc;
 
 use corecrypto::header::{HashingAlgorithm, HeaderType};
@@ -77,11 +78,19 @@ where
 
         // 2. Add files to the archive.
         req.compress_files.into_iter().try_for_each(|f| {
-            let file_path = f.path().to_str().ok_or(Error::ReadData)?;
+            // Absolute names and names with `..` would be refused when unpacking.
+            let file_path = f
+                .path()
+                .components()
+                .filter(|c| matches!(c, Component::Normal(_)))
+                .collect::<PathBuf>();
+            let file_path = file_path.to_str().ok_or(Error::ReadData)?;
             if f.is_dir() {
-                zip_writer
-                    .add_directory(file_path, options)
-                    .map_err(|_| Error::AddDirToArchive)?;
+                if !file_path.is_empty() {
+                    zip_writer
+                        .add_directory(file_path, options)
+                        .map_err(|_| Error::AddDirToArchive)?;
+                }
             } else {
                 zip_writer
                     .start_file(file_path, options)
-- 
2.43.0


From 299dc17eefb86317b1adce851bf3a526d076625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 11/18] fix: unpacking silently skipped entries that it could
 not read or whose name it refused

---
 crates/volaris-tools/src/unpack.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 009ae31..5c34d9e 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -88,19 +88,20 @@ pub fn execute<RW: Read + Write + Seek>(
 
         // 4. prepare phase
         let entities = (0..archive.len())
-            .filter_map(|i| {
-                let zip_file = archive.by_index(i).ok()?;
+            .map(|i| {
+                let zip_file = archive.by_index(i).map_err(|_| Error::OpenArchivedFile)?;
                 let mut full_path = output_dir.clone();
 
                 // Prevent zip slip attack
                 //
                 // Source: https://snyk.io/research/zip-slip-vulnerability
-                zip_file.enclosed_name().map(|path| {
-                    full_path.push(path);
+                let path = zip_file.enclosed_name().ok_or(Error::OpenArchivedFile)?;
+                full_path.push(path);
 
-                    (full_path, i, zip_file.is_dir())
-                })
+                Ok((full_path, i, zip_file.is_dir()))
             })
+            .collect::<Result<Vec<_>, Error>>()?
+            .into_iter()
             .filter(|(full_path, ..)| {
                 if let Some(on_zip_file) = req.on_zip_file.as_ref() {
                     on_zip_file(full_path.clone())
-- 
2.43.0


From 96f9cc65d95a29bf2903761c35dce58c83d629d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 12/18] fix: a failure to write the end of the temporary
 archive went unnoticed when packing

---
 crates/volaris-tools/src/pack.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 94292b4..655482b 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -113,7 +113,10 @@ where
         })?;
 
         // 3. Close archive and switch writer to reader.
-        zip_writer.finish().map_err(|_| Error::FinishArchive)?;
+        zip_writer
+            .finish()
+            .and_then(|mut writer| Ok(writer.flush()?))
+            .map_err(|_| Error::FinishArchive)?;
     }
 
     let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-- 
2.43.0


From 42e161fca8d4def5c7a96b32df0080cc02123f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 13/18] fix: the temporary plaintext archive was left behind if
 packing or unpacking failed

---
 crates/volaris-tools/src/pack.rs   | 45 +++++++++++++++++++-----------
 crates/volaris-tools/src/unpack.rs | 36 ++++++++++++++----------
 2 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 655482b..4babde7 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -61,8 +61,33 @@ pub fn execute<RW>(stor: Arc<impl Storage<RW>>, req: Request<'_, RW>) -> Result<
 where
     RW: Read + Write + Seek,
 {
-    // 1. Create zip archive.
+    // 1. Create temporary file for the zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
+
+    let res = pack_and_encrypt(&tmp_file, req);
+
+    // 5. Finally erase zip archive with zeros, even if something went wrong.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        crate::overwrite::execute(crate::overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 2,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    res
+}
+
+fn pack_and_encrypt<RW>(
+    tmp_file: &crate::storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error>
+where
+    RW: Read + Write + Seek,
+{
     {
         let mut tmp_writer = tmp_file
             .try_writer()
@@ -119,10 +144,8 @@ where
             .map_err(|_| Error::FinishArchive)?;
     }
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-
     // 4. Encrypt zip archive
-    let encrypt_res = crate::encrypt::execute(crate::encrypt::Request {
+    crate::encrypt::execute(crate::encrypt::Request {
         reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
         writer: req.writer,
         header_writer: req.header_writer,
@@ -130,19 +153,7 @@ where
         header_type: req.header_type,
         hashing_algorithm: req.hashing_algorithm,
     })
-    .map_err(Error::Encrypt);
-
-    // 5. Finally erase zip archive with zeros.
-    crate::overwrite::execute(crate::overwrite::Request {
-        buf_capacity,
-        writer: tmp_file.try_writer().map_err(|_| Error::FinishArchive)?,
-        passes: 2,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
-    encrypt_res
+    .map_err(Error::Encrypt)
 }
 
 #[cfg(test)]
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 5c34d9e..64bbfc5 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -59,6 +59,28 @@ pub fn execute<RW: Read + Write + Seek>(
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
 
+    let res = decrypt_and_unpack(&stor, &tmp_file, req);
+
+    // 7. Finally eraze temp zip archive with zeros, even if something went wrong.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        overwrite::execute(overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 1,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    res
+}
+
+fn decrypt_and_unpack<RW: Read + Write + Seek>(
+    stor: &Arc<impl Storage<RW> + 'static>,
+    tmp_file: &storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error> {
     // 2. Decrypt input file to temp zip archive.
     decrypt::execute(decrypt::Request {
         header_reader: req.header_reader,
@@ -71,8 +93,6 @@ pub fn execute<RW: Read + Write + Seek>(
     })
     .map_err(Error::Decrypt)?;
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(Error::Storage)?;
-
     // 3. Recover files from temp archive.
     {
         let mut reader = tmp_file
@@ -153,18 +173,6 @@ pub fn execute<RW: Read + Write + Seek>(
             })?;
     }
 
-    // 7. Finally eraze temp zip archive with zeros.
-    overwrite::execute(overwrite::Request {
-        buf_capacity,
-        writer: tmp_file
-            .try_writer()
-            .expect("We sure that file in write mode"),
-        passes: 1,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
     Ok(())
 }
 
-- 
2.43.0


From 0e2ff841540e062f9edc7f54e01ad6b68eb6ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 14/18] fix: inputs were always erased and passphrases always
 autogenerated, an option default counted as a request

---
 crates/volaris-cli/src/cli.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index 5e54c05..c3684bc 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -32,7 +32,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
@@ -50,7 +51,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .long("auto")
                 .value_name("# of words")
                 .require_equals(true)
-                .default_value("7")
+                .num_args(0..=1)
+                .default_missing_value("7")
                 .help("Autogenerate a passphrase (default is 7 words)")
                 .conflicts_with("keyfile"),
         )
@@ -106,7 +108,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
@@ -202,7 +205,8 @@ pub fn get_matches() -> clap::ArgMatches {
                         .long("auto")
                         .value_name("# of words")
                         .require_equals(true)
-                        .default_value("7")
+                        .num_args(0..=1)
+                        .default_missing_value("7")
                         .help("Autogenerate a passphrase (default is 7 words)")
                         .conflicts_with("keyfile"),
                 )
@@ -284,7 +288,8 @@ pub fn get_matches() -> clap::ArgMatches {
                         .value_name("# of passes")
                         .require_equals(true)
                         .help("Securely erase the input file once complete (default is 1 pass)")
-                        .default_value("1"),
+                        .num_args(0..=1)
+                        .default_missing_value("1"),
                 )
                 .arg(
                     Arg::new("verbose")
-- 
2.43.0


From 24d03f6448b05e2e85efe667d095e93348dc44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 15/18] fix: switches demanded a value and commands panicked on
 options they do not define

---
 crates/volaris-cli/src/cli.rs               | 20 +++++++++++++++++-
 crates/volaris-cli/src/global/parameters.rs | 23 +++++++++++++--------
 crates/volaris-cli/src/global/states.rs     |  4 +++-
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index c3684bc..dd25ca4 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -1,4 +1,4 @@
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 
 pub mod prompt;
 
@@ -39,11 +39,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("argon")
                 .long("argon")
+                .action(ArgAction::SetTrue)
                 .help("Use argon2id for password hashing"),
         )
         .arg(
@@ -66,11 +68,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         )
         .arg(
             Arg::new("aes")
                 .long("aes")
+                .action(ArgAction::SetTrue)
                 .help("Use AES-256-GCM for encryption"),
         );
 
@@ -115,12 +119,14 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         );
 
@@ -145,6 +151,7 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
@@ -187,17 +194,20 @@ pub fn get_matches() -> clap::ArgMatches {
                 .arg(
                     Arg::new("erase")
                         .long("erase")
+                        .action(ArgAction::SetTrue)
                         .help("Securely erase every file from the source directory, before deleting the directory"),
                 )
                 .arg(
                     Arg::new("argon")
                         .long("argon")
+                        .action(ArgAction::SetTrue)
                         .help("Use argon2id for password hashing"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
@@ -220,12 +230,14 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("zstd")
                         .short('z')
                         .long("zstd")
+                        .action(ArgAction::SetTrue)
                         .help("Use ZSTD compression"),
                 )
                 .arg(
                     Arg::new("recursive")
                         .short('r')
                         .long("recursive")
+                        .action(ArgAction::SetTrue)
                         .help("Index files and folders within other folders (index recursively)"),
                 )
                 .arg(
@@ -239,17 +251,20 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
                     Arg::new("aes")
                         .long("aes")
+                        .action(ArgAction::SetTrue)
                         .help("Use AES-256-GCM for encryption"),
                 ),
         )
@@ -295,18 +310,21 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 ),
         )
diff --git a/crates/volaris-cli/src/global/parameters.rs b/crates/volaris-cli/src/global/parameters.rs
index 9600692..ee2e547 100644
--- a/crates/volaris-cli/src/global/parameters.rs
+++ b/crates/volaris-cli/src/global/parameters.rs
@@ -27,10 +27,15 @@ pub fn get_param(name: &str, sub_matches: &ArgMatches) -> Result<String> {
     Ok(value)
 }
 
+// this checks if a switch was given, commands that don't have the switch never have it set
+pub fn flag(name: &str, sub_matches: &ArgMatches) -> bool {
+    matches!(sub_matches.try_get_one::<bool>(name), Ok(Some(true)))
+}
+
 pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -73,7 +78,7 @@ pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
 }
 
 pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
-    if sub_matches.contains_id("argon") {
+    if flag("argon", sub_matches) {
         HashingAlgorithm::Argon2id(ARGON2ID_LATEST)
     } else {
         HashingAlgorithm::Blake3Balloon(BLAKE3BALLOON_LATEST)
@@ -81,7 +86,7 @@ pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
 }
 
 pub fn algorithm(sub_matches: &ArgMatches) -> Algorithm {
-    if sub_matches.contains_id("aes") {
+    if flag("aes", sub_matches) {
         Algorithm::Aes256Gcm
     } else {
         Algorithm::XChaCha20Poly1305
@@ -113,7 +118,7 @@ pub fn erase_params(sub_matches: &ArgMatches) -> Result<(i32, ForceMode)> {
 pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams)> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -140,25 +145,25 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
         hashing_algorithm,
     };
 
-    let print_mode = if sub_matches.contains_id("verbose") {
+    let print_mode = if flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
     };
 
-    let dir_mode = if sub_matches.contains_id("recursive") {
+    let dir_mode = if flag("recursive", sub_matches) {
         DirectoryMode::Recursive
     } else {
         DirectoryMode::Singular
     };
 
-    let erase_source = if sub_matches.contains_id("erase") {
+    let erase_source = if flag("erase", sub_matches) {
         EraseSourceDir::Erase
     } else {
         EraseSourceDir::Retain
     };
 
-    let compression = if sub_matches.contains_id("zstd") {
+    let compression = if flag("zstd", sub_matches) {
         Compression::Zstd
     } else {
         Compression::None
@@ -175,7 +180,7 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
 }
 
 pub fn forcemode(sub_matches: &ArgMatches) -> ForceMode {
-    if sub_matches.contains_id("force") {
+    if flag("force", sub_matches) {
         ForceMode::Force
     } else {
         ForceMode::Prompt
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 48b5d92..b2ad5bd 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -134,7 +134,9 @@ impl Key {
             )
         } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
             Key::Env
-        } else if sub_matches.contains_id("autogenerate") && params.autogenerate {
+        } else if params.autogenerate
+            && matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
+        {
             let result = sub_matches
                 .get_one::<String>("autogenerate")
                 .context("No amount of words specified")?
-- 
2.43.0


From c0523100e2ec7edc6a2c226e7fdd75c95b96fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 16/18] fix: unpack ignored the erase option

---
 crates/volaris-cli/src/subcommands/unpack.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index f308530..8f3f530 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,4 +1,7 @@
-use crate::{cli::prompt::get_answer, global::states::HashMode};
+use crate::{
+    cli::prompt::get_answer,
+    global::states::{EraseMode, HashMode},
+};
 use std::sync::Arc;
 
 use anyhow::Result;
@@ -77,5 +80,9 @@ pub fn unpack(
         super::hashing::hash_stream(&[input.to_string()])?;
     }
 
+    if let EraseMode::EraseFile(passes) = params.erase {
+        super::erase::secure_erase(input, passes, params.force)?;
+    }
+
     Ok(())
 }
-- 
2.43.0


From 3f2479ff71ff9a1eb558bee21235ae1e792a7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 17/18] fix: key commands took an all-zero master key for a
 wrong key

---
 crates/volaris-tools/src/key.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-tools/src/key.rs b/crates/volaris-tools/src/key.rs
index d59ac7d..0dbc74b 100644
--- a/crates/volaris-tools/src/key.rs
+++ b/crates/volaris-tools/src/key.rs
@@ -51,7 +51,7 @@ pub fn decrypt_v5_master_key_with_index(
     raw_key_old: Protected<Vec<u8>>,
     algorithm: &Algorithm,
 ) -> Result<(Protected<[u8; MASTER_KEY_LEN]>, usize), Error> {
-    let mut index = 0;
+    let mut index = None;
     let mut master_key = [0u8; MASTER_KEY_LEN];
 
     // we need the index, so we can't use `decrypt_master_key()`
@@ -73,7 +73,7 @@ pub fn decrypt_v5_master_key_with_index(
         master_key[..len].copy_from_slice(&master_key_decrypted[..len]);
         master_key_decrypted.zeroize();
 
-        index = i;
+        index = Some(i);
 
         drop(cipher);
         break;
@@ -81,9 +81,7 @@ pub fn decrypt_v5_master_key_with_index(
 
     drop(raw_key_old);
 
-    if master_key == [0u8; MASTER_KEY_LEN] {
-        return Err(Error::IncorrectKey);
-    }
+    let index = index.ok_or(Error::IncorrectKey)?;
 
     Ok((Protected::new(master_key), index))
 }
-- 
2.43.0


From 96e841cf46e9f2c9eff58385d35f77fb0284a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 18/18] fix: a directory given as detached header was ignored
 instead of refused

---
 crates/volaris-cli/src/subcommands/decrypt.rs | 2 +-
 crates/volaris-cli/src/subcommands/unpack.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 61c80ae..2d80f12 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -42,7 +42,7 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
 
     // 2. decrypt file
     tools::decrypt::execute(tools::decrypt::Request {
-        header_reader: header_file.as_ref().and_then(|h| h.try_reader().ok()),
+        header_reader: header_file.as_ref().map(|h| h.try_reader()).transpose()?,
         reader: input_file.try_reader()?,
         writer: output_file.try_writer()?,
         raw_key,
diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index 8f3f530..9f30c67 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -40,7 +40,7 @@ pub fn unpack(
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
-            header_reader: header_file.as_ref().and_then(|h| h.try_reader().ok()),
+            header_reader: header_file.as_ref().map(|h| h.try_reader()).transpose()?,
             reader: input_file.try_reader()?,
             output_dir_path: PathBuf::from(output),
             raw_key,
-- 
2.43.0

