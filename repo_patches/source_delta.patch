From 015cd24057eab2fe232e556ee5e835750587662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 01/21] fix: don't mistake a short read for the last block when
 streaming

---
 crates/volaris-crypto/src/stream.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 99005ef..c1dfe70 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -60,6 +60,22 @@ pub enum DecryptionStreams {
     DeoxysII256(Box<DecryptorLE31<DeoxysII256>>),
 }
 
+/// Reads until `buffer` is full or the reader is exhausted, and returns how many bytes were read.
+///
+/// A single call to `read()` may return fewer bytes than were asked for while there is still data left,
+/// so its result alone can't be used to find the last block.
+fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        let read_count = reader.read(&mut buffer[filled..])?;
+        if read_count == 0 {
+            break;
+        }
+        filled += read_count;
+    }
+    Ok(filled)
+}
+
 impl EncryptionStreams {
     /// This method can be used to quickly create an `EncryptionStreams` object
     ///
@@ -192,8 +208,7 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = reader
-                .read(&mut read_buffer)
+            let read_count = read_block(reader, &mut read_buffer)
                 .context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
@@ -360,7 +375,7 @@ impl DecryptionStreams {
 
         let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
         loop {
-            let read_count = reader.read(&mut buffer)?;
+            let read_count = read_block(reader, &mut buffer)?;
             if read_count == (BLOCK_SIZE + 16) {
                 let payload = Payload {
                     aad,
-- 
2.43.0


From b0c865cae68c47aa96ea40b5d6126a0aa176d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 02/21] fix: write the whole header even if the writer accepts
 it in pieces

---
 crates/volaris-crypto/src/header.rs | 2 +-
 crates/volaris-tools/src/encrypt.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 5c78a05..956940f 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -715,7 +715,7 @@ impl Header {
     pub fn write(&self, writer: &mut impl Write) -> Result<()> {
         let header_bytes = self.serialize()?;
         writer
-            .write(&header_bytes)
+            .write_all(&header_bytes)
             .context("Unable to write header")?;
 
         Ok(())
diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 1a3d1b9..368c1a3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -120,7 +120,7 @@ where
         None => {
             req.writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
         Some(header_writer) => {
@@ -131,7 +131,7 @@ where
 
             header_writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
     }
-- 
2.43.0


From f75f7480858c66c765ef6090636c4fe284ab35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 03/21] fix: hash the whole input even if the reader returns it
 in pieces

---
 crates/volaris-tools/src/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/hash.rs b/crates/volaris-tools/src/hash.rs
index f171eca..7ccdedb 100644
--- a/crates/volaris-tools/src/hash.rs
+++ b/crates/volaris-tools/src/hash.rs
@@ -44,10 +44,10 @@ pub fn execute<R: Read + Seek>(mut hasher: impl Hasher, req: Request<R>) -> Resu
             .borrow_mut()
             .read(&mut buffer)
             .map_err(|_| Error::ReadData)?;
-        hasher.write(&buffer[..read_count]);
-        if read_count != BLOCK_SIZE {
+        if read_count == 0 {
             break;
         }
+        hasher.write(&buffer[..read_count]);
     }
 
     Ok(hasher.finish())
-- 
2.43.0


From acbfff302e35745acaec8e1bdc135896b3548560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 04/21] fix: pack whole files even if the reader returns them
 in pieces

---
 crates/volaris-tools/src/pack.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e07791e..571b67c 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -91,12 +91,12 @@ where
                 let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
                 loop {
                     let read_count = reader.read(&mut buffer).map_err(|_| Error::ReadData)?;
+                    if read_count == 0 {
+                        break;
+                    }
                     zip_writer
                         .write_all(&buffer[..read_count])
                         .map_err(|_| Error::WriteData)?;
-                    if read_count != BLOCK_SIZE {
-                        break;
-                    }
                 }
             }
 
-- 
2.43.0


From 3dc4287a2f01dd067c515bdfc8b866930cc9c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 05/21] fix: actually write the random passes when overwriting

---
 crates/volaris-tools/src/overwrite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 126cbb8..6725ea0 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -45,7 +45,7 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
         blocks.push(req.buf_capacity % BLOCK_SIZE);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
-            let mut block_buf = Vec::with_capacity(block_size);
+            let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
                 .write_all(&block_buf)
-- 
2.43.0


From 49a7fb695459973d3c99d201dec8797e21f5c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 06/21] fix: don't index past the wordlist when generating a
 passphrase

---
 crates/volaris-crypto/src/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index d921319..ec04b29 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -209,7 +209,7 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let mut passphrase = String::new();
 
     for i in 0..*total_words {
-        let index = StdRng::from_entropy().gen_range(0..=words.len());
+        let index = StdRng::from_entropy().gen_range(0..words.len());
         let word = words[index];
         passphrase.push_str(word);
         if i < total_words - 1 {
-- 
2.43.0


From b824797787525eeeb486d3d9589026503b52104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 07/21] fix: decrypt detached content that is shorter than its
 header

---
 crates/volaris-tools/src/decrypt.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index be3c6d7..d42b266 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -67,19 +67,14 @@ where
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
 
-            req.reader
-                .borrow_mut()
-                .read_exact(&mut header_bytes)
-                .or_else(|e| {
-                    if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                        Ok(())
-                    } else {
-                        Err(e)
-                    }
-                })
-                .map_err(|_| Error::ReadEncryptedData)?;
+            let read_header = match req.reader.borrow_mut().read_exact(&mut header_bytes) {
+                Ok(()) => true,
+                // The content is shorter than a header, so it doesn't start with an empty one.
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => false,
+                Err(_) => return Err(Error::ReadEncryptedData),
+            };
 
-            if !header_bytes.into_iter().all(|b| b == 0) {
+            if !read_header || !header_bytes.into_iter().all(|b| b == 0) {
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-- 
2.43.0


From 823213e57f5074eb4d4c6a675f28aaf4d1343e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 08/21] fix: check every byte a restored header would replace

---
 crates/volaris-tools/src/header/restore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index d07a747..ad87338 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -32,7 +32,7 @@ where
     ];
     req.writer
         .borrow_mut()
-        .read(&mut header_bytes)
+        .read_exact(&mut header_bytes)
         .map_err(|_| Error::Read)?;
 
     if !header_bytes.into_iter().all(|b| b == 0) {
-- 
2.43.0


From 09cd1d61faff0cea773565ed040beab902813ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 09/21] fix: skip the whole of an empty keyslot when reading a
 header

---
 crates/volaris-crypto/src/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 956940f..5bb1864 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -399,6 +399,9 @@ impl Header {
                         .context("Unable to read keyslot identifier from header")?;
 
                     if identifier[..1] != [0xDF] {
+                        cursor
+                            .read_exact(&mut [0u8; 94])
+                            .context("Unable to read empty keyslot from header")?;
                         continue;
                     }
 
-- 
2.43.0


From 8846d93c905a6c36b59f38198827dc798cc4d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 10/21] fix: overwrite the content of an erased file instead of
 truncating it first

---
 crates/volaris-tools/src/erase.rs   |  2 +-
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 8dd6404..f360fee 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -37,7 +37,7 @@ where
     RW: Read + Write + Seek,
     P: AsRef<Path>,
 {
-    let file = stor.write_file(req.path).map_err(|_| Error::OpenFile)?;
+    let file = stor.update_file(req.path).map_err(|_| Error::OpenFile)?;
     let buf_capacity = stor.file_len(&file).map_err(|_| Error::OpenFile)?;
 
     crate::overwrite::execute(crate::overwrite::Request {
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 5a71a5f..c7ffcd3 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -67,6 +67,10 @@ where
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Opens an existing file for writing, keeping its content (which `write_file()` may discard).
+    fn update_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.write_file(path)
+    }
     fn flush_file(&self, file: &Entry<RW>) -> Result<(), Error>;
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
@@ -124,6 +128,20 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn update_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .write(true)
+            .read(true)
+            .open(&path)
+            .map_err(|_| Error::OpenFile(FileMode::Write))?;
+
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
         file.try_writer()?
             .borrow_mut()
-- 
2.43.0


From 611e480db4cd722da1dba02dc91cca3b55a4849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 11/21] fix: don't erase files outside of the directory through
 links

---
 crates/volaris-tools/src/erase_dir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index b8f3e3b..751c827 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -51,7 +51,8 @@ where
     #[allow(clippy::needless_collect)] // 🚫 we have to collect in order to propertly join threads!
     let handlers = files
         .into_iter()
-        .filter(|f| !f.is_dir())
+        // links are removed with the directory, the files they point to may be outside of it
+        .filter(|f| !f.is_dir() && !f.path().is_symlink())
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
-- 
2.43.0


From 04437b9df1837e9ad83da848c773abc858ab1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 12/21] fix: erase and remove the temporary archive when
 packing fails

---
 crates/volaris-tools/src/pack.rs | 42 ++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 571b67c..2a171f4 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -62,6 +62,30 @@ where
 {
     // 1. Create zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
+    let pack_res = archive_and_encrypt(&tmp_file, req);
+
+    // 5. Finally erase zip archive with zeros, even if it couldn't be completed or encrypted.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        crate::overwrite::execute(crate::overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 2,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    pack_res
+}
+
+fn archive_and_encrypt<RW>(
+    tmp_file: &crate::storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error>
+where
+    RW: Read + Write + Seek,
+{
     {
         let mut tmp_writer = tmp_file
             .try_writer()
@@ -107,10 +131,8 @@ where
         zip_writer.finish().map_err(|_| Error::FinishArchive)?;
     }
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-
     // 4. Encrypt zip archive
-    let encrypt_res = crate::encrypt::execute(crate::encrypt::Request {
+    crate::encrypt::execute(crate::encrypt::Request {
         reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
         writer: req.writer,
         header_writer: req.header_writer,
@@ -118,19 +140,7 @@ where
         header_type: req.header_type,
         hashing_algorithm: req.hashing_algorithm,
     })
-    .map_err(Error::Encrypt);
-
-    // 5. Finally erase zip archive with zeros.
-    crate::overwrite::execute(crate::overwrite::Request {
-        buf_capacity,
-        writer: tmp_file.try_writer().map_err(|_| Error::FinishArchive)?,
-        passes: 2,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
-    encrypt_res
+    .map_err(Error::Encrypt)
 }
 
 #[cfg(test)]
-- 
2.43.0


From ae891736c6409b60701e0bbbfe05fd9943a8525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 13/21] fix: erase and remove the temporary archive when
 unpacking fails

---
 crates/volaris-tools/src/unpack.rs | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 009ae31..064fa8d 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -58,7 +58,28 @@ pub fn execute<RW: Read + Write + Seek>(
 ) -> Result<(), Error> {
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
+    let unpack_res = decrypt_and_extract(&stor, &tmp_file, req);
+
+    // 7. Finally eraze temp zip archive with zeros, even if it couldn't be decrypted or extracted.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        overwrite::execute(overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 1,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    unpack_res
+}
 
+fn decrypt_and_extract<RW: Read + Write + Seek>(
+    stor: &Arc<impl Storage<RW> + 'static>,
+    tmp_file: &storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error> {
     // 2. Decrypt input file to temp zip archive.
     decrypt::execute(decrypt::Request {
         header_reader: req.header_reader,
@@ -71,8 +92,6 @@ pub fn execute<RW: Read + Write + Seek>(
     })
     .map_err(Error::Decrypt)?;
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(Error::Storage)?;
-
     // 3. Recover files from temp archive.
     {
         let mut reader = tmp_file
@@ -152,18 +171,6 @@ pub fn execute<RW: Read + Write + Seek>(
             })?;
     }
 
-    // 7. Finally eraze temp zip archive with zeros.
-    overwrite::execute(overwrite::Request {
-        buf_capacity,
-        writer: tmp_file
-            .try_writer()
-            .expect("We sure that file in write mode"),
-        passes: 1,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
     Ok(())
 }
 
-- 
2.43.0


From 69f9b20a104ace31b6e5b25b64c038fe7fbc1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 14/21] fix: only erase the input or generate a passphrase when
 asked to

---
 crates/volaris-cli/src/cli.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index 5e54c05..c3684bc 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -32,7 +32,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
@@ -50,7 +51,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .long("auto")
                 .value_name("# of words")
                 .require_equals(true)
-                .default_value("7")
+                .num_args(0..=1)
+                .default_missing_value("7")
                 .help("Autogenerate a passphrase (default is 7 words)")
                 .conflicts_with("keyfile"),
         )
@@ -106,7 +108,8 @@ pub fn get_matches() -> clap::ArgMatches {
                 .value_name("# of passes")
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .num_args(0..=1)
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
@@ -202,7 +205,8 @@ pub fn get_matches() -> clap::ArgMatches {
                         .long("auto")
                         .value_name("# of words")
                         .require_equals(true)
-                        .default_value("7")
+                        .num_args(0..=1)
+                        .default_missing_value("7")
                         .help("Autogenerate a passphrase (default is 7 words)")
                         .conflicts_with("keyfile"),
                 )
@@ -284,7 +288,8 @@ pub fn get_matches() -> clap::ArgMatches {
                         .value_name("# of passes")
                         .require_equals(true)
                         .help("Securely erase the input file once complete (default is 1 pass)")
-                        .default_value("1"),
+                        .num_args(0..=1)
+                        .default_missing_value("1"),
                 )
                 .arg(
                     Arg::new("verbose")
-- 
2.43.0


From 7ff099056fbd2133d21f04b55e6c7c728d4bc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 15/21] fix: make the command-line switches work as switches

---
 crates/volaris-cli/src/cli.rs               | 18 ++++++++++++++++
 crates/volaris-cli/src/global/parameters.rs | 23 +++++++++++++--------
 crates/volaris-cli/src/global/states.rs     |  4 +++-
 crates/volaris-cli/src/subcommands.rs       |  6 +++---
 crates/volaris-crypto/src/stream.rs         |  4 ++--
 5 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index c3684bc..cbd58da 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -39,11 +39,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .num_args(0)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("argon")
                 .long("argon")
+                .num_args(0)
                 .help("Use argon2id for password hashing"),
         )
         .arg(
@@ -66,11 +68,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .num_args(0)
                 .help("Force all actions"),
         )
         .arg(
             Arg::new("aes")
                 .long("aes")
+                .num_args(0)
                 .help("Use AES-256-GCM for encryption"),
         );
 
@@ -115,12 +119,14 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .num_args(0)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .num_args(0)
                 .help("Force all actions"),
         );
 
@@ -145,6 +151,7 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .num_args(0)
                         .help("Force all actions"),
                 )
                 .arg(
@@ -187,17 +194,20 @@ pub fn get_matches() -> clap::ArgMatches {
                 .arg(
                     Arg::new("erase")
                         .long("erase")
+                        .num_args(0)
                         .help("Securely erase every file from the source directory, before deleting the directory"),
                 )
                 .arg(
                     Arg::new("argon")
                         .long("argon")
+                        .num_args(0)
                         .help("Use argon2id for password hashing"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .num_args(0)
                         .help("Show a detailed output"),
                 )
                 .arg(
@@ -220,12 +230,14 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("zstd")
                         .short('z')
                         .long("zstd")
+                        .num_args(0)
                         .help("Use ZSTD compression"),
                 )
                 .arg(
                     Arg::new("recursive")
                         .short('r')
                         .long("recursive")
+                        .num_args(0)
                         .help("Index files and folders within other folders (index recursively)"),
                 )
                 .arg(
@@ -239,17 +251,20 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .num_args(0)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .num_args(0)
                         .help("Force all actions"),
                 )
                 .arg(
                     Arg::new("aes")
                         .long("aes")
+                        .num_args(0)
                         .help("Use AES-256-GCM for encryption"),
                 ),
         )
@@ -295,18 +310,21 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .num_args(0)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .num_args(0)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .num_args(0)
                         .help("Force all actions"),
                 ),
         )
diff --git a/crates/volaris-cli/src/global/parameters.rs b/crates/volaris-cli/src/global/parameters.rs
index 9600692..20b02ac 100644
--- a/crates/volaris-cli/src/global/parameters.rs
+++ b/crates/volaris-cli/src/global/parameters.rs
@@ -27,10 +27,15 @@ pub fn get_param(name: &str, sub_matches: &ArgMatches) -> Result<String> {
     Ok(value)
 }
 
+// a switch that isn't defined for the current subcommand is off
+pub fn get_flag(name: &str, sub_matches: &ArgMatches) -> bool {
+    matches!(sub_matches.try_get_one::<bool>(name), Ok(Some(true)))
+}
+
 pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -73,7 +78,7 @@ pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
 }
 
 pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
-    if sub_matches.contains_id("argon") {
+    if get_flag("argon", sub_matches) {
         HashingAlgorithm::Argon2id(ARGON2ID_LATEST)
     } else {
         HashingAlgorithm::Blake3Balloon(BLAKE3BALLOON_LATEST)
@@ -81,7 +86,7 @@ pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
 }
 
 pub fn algorithm(sub_matches: &ArgMatches) -> Algorithm {
-    if sub_matches.contains_id("aes") {
+    if get_flag("aes", sub_matches) {
         Algorithm::Aes256Gcm
     } else {
         Algorithm::XChaCha20Poly1305
@@ -113,7 +118,7 @@ pub fn erase_params(sub_matches: &ArgMatches) -> Result<(i32, ForceMode)> {
 pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams)> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -140,25 +145,25 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
         hashing_algorithm,
     };
 
-    let print_mode = if sub_matches.contains_id("verbose") {
+    let print_mode = if get_flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
     };
 
-    let dir_mode = if sub_matches.contains_id("recursive") {
+    let dir_mode = if get_flag("recursive", sub_matches) {
         DirectoryMode::Recursive
     } else {
         DirectoryMode::Singular
     };
 
-    let erase_source = if sub_matches.contains_id("erase") {
+    let erase_source = if get_flag("erase", sub_matches) {
         EraseSourceDir::Erase
     } else {
         EraseSourceDir::Retain
     };
 
-    let compression = if sub_matches.contains_id("zstd") {
+    let compression = if get_flag("zstd", sub_matches) {
         Compression::Zstd
     } else {
         Compression::None
@@ -175,7 +180,7 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
 }
 
 pub fn forcemode(sub_matches: &ArgMatches) -> ForceMode {
-    if sub_matches.contains_id("force") {
+    if get_flag("force", sub_matches) {
         ForceMode::Force
     } else {
         ForceMode::Prompt
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 48b5d92..8f2387d 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -134,7 +134,9 @@ impl Key {
             )
         } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
             Key::Env
-        } else if sub_matches.contains_id("autogenerate") && params.autogenerate {
+        } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
+            && params.autogenerate
+        {
             let result = sub_matches
                 .get_one::<String>("autogenerate")
                 .context("No amount of words specified")?
diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index 57f3431..850d040 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -6,8 +6,8 @@ use clap::ArgMatches;
 
 use crate::global::{
     parameters::{
-        algorithm, erase_params, forcemode, get_param, get_params, key_manipulation_params,
-        pack_params, parameter_handler,
+        algorithm, erase_params, forcemode, get_flag, get_param, get_params,
+        key_manipulation_params, pack_params, parameter_handler,
     },
     states::{Key, KeyParams},
 };
@@ -69,7 +69,7 @@ pub fn unpack(sub_matches: &ArgMatches) -> Result<()> {
 
     let crypto_params = parameter_handler(sub_matches)?;
 
-    let print_mode = if sub_matches.get_flag("verbose") {
+    let print_mode = if get_flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index c1dfe70..56cacb4 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -208,8 +208,8 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = read_block(reader, &mut read_buffer)
-                .context("Unable to read from the reader")?;
+            let read_count =
+                read_block(reader, &mut read_buffer).context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
                 // create_aad returns empty bytes if the header isn't V3+
-- 
2.43.0


From 2458564c8bd078634706e89daa6935c7b39c10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:42 +0000
Subject: [PATCH 16/21] fix: pack absolute and parent paths under names that
 can be unpacked

---
 crates/volaris-tools/src/pack.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 2a171f4..ac7d406 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -104,11 +104,11 @@ where
             let file_path = f.path().to_str().ok_or(Error::ReadData)?;
             if f.is_dir() {
                 zip_writer
-                    .add_directory(file_path, options)
+                    .add_directory_from_path(file_path, options)
                     .map_err(|_| Error::AddDirToArchive)?;
             } else {
                 zip_writer
-                    .start_file(file_path, options)
+                    .start_file_from_path(file_path, options)
                     .map_err(|_| Error::AddFileToArchive)?;
 
                 let mut reader = f.try_reader().map_err(|_| Error::ReadData)?.borrow_mut();
-- 
2.43.0


From 1df8e07e96f25557615e074dafe8a2dda3c2ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 17/21] fix: accept the master key of any keyslot that opens,
 even an all-zero one

---
 crates/volaris-tools/src/key.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-tools/src/key.rs b/crates/volaris-tools/src/key.rs
index d59ac7d..0dbc74b 100644
--- a/crates/volaris-tools/src/key.rs
+++ b/crates/volaris-tools/src/key.rs
@@ -51,7 +51,7 @@ pub fn decrypt_v5_master_key_with_index(
     raw_key_old: Protected<Vec<u8>>,
     algorithm: &Algorithm,
 ) -> Result<(Protected<[u8; MASTER_KEY_LEN]>, usize), Error> {
-    let mut index = 0;
+    let mut index = None;
     let mut master_key = [0u8; MASTER_KEY_LEN];
 
     // we need the index, so we can't use `decrypt_master_key()`
@@ -73,7 +73,7 @@ pub fn decrypt_v5_master_key_with_index(
         master_key[..len].copy_from_slice(&master_key_decrypted[..len]);
         master_key_decrypted.zeroize();
 
-        index = i;
+        index = Some(i);
 
         drop(cipher);
         break;
@@ -81,9 +81,7 @@ pub fn decrypt_v5_master_key_with_index(
 
     drop(raw_key_old);
 
-    if master_key == [0u8; MASTER_KEY_LEN] {
-        return Err(Error::IncorrectKey);
-    }
+    let index = index.ok_or(Error::IncorrectKey)?;
 
     Ok((Protected::new(master_key), index))
 }
-- 
2.43.0


From 68be8e3378b090b3300a02475dc6c7f8d5615604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 18/21] fix: refuse a header file that is also the input or the
 output

---
 crates/volaris-cli/src/subcommands/decrypt.rs | 8 ++++++++
 crates/volaris-cli/src/subcommands/encrypt.rs | 8 ++++++++
 crates/volaris-cli/src/subcommands/pack.rs    | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 61c80ae..478a6ef 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -25,6 +25,14 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if path == output {
+            return Err(anyhow::anyhow!(
+                "Header and output files cannot have the same name."
+            ));
+        }
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 87a0164..eec483a 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -28,6 +28,14 @@ pub fn stream_mode(
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if path == input || path == output {
+            return Err(anyhow::anyhow!(
+                "The header file cannot have the same name as the input or the output."
+            ));
+        }
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 594079b..0474bf6 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -42,6 +42,14 @@ pub fn execute(req: &Request) -> Result<()> {
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if path == req.output_file || req.input_file.iter().any(|f| f == path) {
+            return Err(anyhow::anyhow!(
+                "The header file cannot have the same name as the input or the output."
+            ));
+        }
+    }
+
     if req.input_file.iter().any(|f| PathBuf::from(f).is_file()) {
         return Err(anyhow::anyhow!("Input path cannot be a file."));
     }
-- 
2.43.0


From 67de4ad5d6867dd6bda1998b537ab9076321373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 19/21] fix: refuse to dump a header onto the file it is read
 from

---
 crates/volaris-cli/src/subcommands/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/volaris-cli/src/subcommands/header.rs b/crates/volaris-cli/src/subcommands/header.rs
index 5a0c6f2..596ff1f 100644
--- a/crates/volaris-cli/src/subcommands/header.rs
+++ b/crates/volaris-cli/src/subcommands/header.rs
@@ -65,6 +65,12 @@ pub fn details(input: &str) -> Result<()> {
 // it's used for extracting an encrypted file's header for backups and such
 // it implements a check to ensure the header is valid
 pub fn dump(input: &str, output: &str, force: ForceMode) -> Result<()> {
+    if input == output {
+        return Err(anyhow::anyhow!(
+            "Input and output files cannot have the same name."
+        ));
+    }
+
     let stor = std::sync::Arc::new(tools::storage::FileStorage);
     let input_file = stor.read_file(input)?;
 
-- 
2.43.0


From c5a2dbe5c030311a8ba1f2511332dc9429c85be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 20/21] fix: an unanswered question while unpacking must not
 leave the temporary archive behind

---
 crates/volaris-cli/src/subcommands/unpack.rs | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index f308530..3c1bdfd 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,5 +1,5 @@
 use crate::{cli::prompt::get_answer, global::states::HashMode};
-use std::sync::Arc;
+use std::{cell::RefCell, rc::Rc, sync::Arc};
 
 use anyhow::Result;
 
@@ -34,6 +34,11 @@ pub fn unpack(
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
+    // a panic while unpacking would leave the temporary zip file behind, so a question
+    // that could not be answered is reported once unpacking has cleaned up
+    let unanswered = Rc::new(RefCell::new(None));
+    let failure = Rc::clone(&unanswered);
+
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
@@ -46,18 +51,20 @@ pub fn unpack(
             on_zip_file: Some(Box::new(move |file_path| {
                 let file_name = file_path
                     .file_name()
-                    .expect("Unable to convert file name to OsStr")
-                    .to_str()
-                    .expect("Unable to convert file name's OsStr to &str")
+                    .unwrap_or(file_path.as_os_str())
+                    .to_string_lossy()
                     .to_string();
 
-                if std::fs::metadata(file_path).is_ok() {
+                if std::fs::metadata(&file_path).is_ok() {
                     let answer = get_answer(
                         &format!("{} already exists, would you like to overwrite?", file_name),
                         true,
                         params.force,
                     )
-                    .expect("Unable to read answer");
+                    .unwrap_or_else(|err| {
+                        *failure.borrow_mut() = Some(err);
+                        false
+                    });
                     if !answer {
                         warn!("Skipping {}", file_name);
                         return false;
@@ -73,6 +80,10 @@ pub fn unpack(
         },
     )?;
 
+    if let Some(err) = unanswered.take() {
+        return Err(err);
+    }
+
     if params.hash_mode == HashMode::CalculateHash {
         super::hashing::hash_stream(&[input.to_string()])?;
     }
-- 
2.43.0


From c438ef3f4a694f8f5cf63eb98950433f84545005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 21/21] fix: a panic while packing or unpacking must not leave
 the temporary archive behind

---
 crates/volaris-tools/src/pack.rs   | 6 ++++--
 crates/volaris-tools/src/unpack.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index ac7d406..988fc7d 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -6,6 +6,7 @@
 
 use std::cell::RefCell;
 use std::io::{BufWriter, Read, Seek, Write};
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
 use corecrypto::header::{HashingAlgorithm, HeaderType};
@@ -62,7 +63,7 @@ where
 {
     // 1. Create zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
-    let pack_res = archive_and_encrypt(&tmp_file, req);
+    let pack_res = catch_unwind(AssertUnwindSafe(|| archive_and_encrypt(&tmp_file, req)));
 
     // 5. Finally erase zip archive with zeros, even if it couldn't be completed or encrypted.
     if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
@@ -76,7 +77,8 @@ where
 
     stor.remove_file(tmp_file).ok();
 
-    pack_res
+    // a panic goes on once there is nothing left to clean up
+    pack_res.unwrap_or_else(|payload| resume_unwind(payload))
 }
 
 fn archive_and_encrypt<RW>(
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 064fa8d..0ea66eb 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -4,6 +4,7 @@
 
 use std::cell::RefCell;
 use std::io::{Read, Seek, Write};
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -58,7 +59,9 @@ pub fn execute<RW: Read + Write + Seek>(
 ) -> Result<(), Error> {
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
-    let unpack_res = decrypt_and_extract(&stor, &tmp_file, req);
+    let unpack_res = catch_unwind(AssertUnwindSafe(|| {
+        decrypt_and_extract(&stor, &tmp_file, req)
+    }));
 
     // 7. Finally eraze temp zip archive with zeros, even if it couldn't be decrypted or extracted.
     if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
@@ -72,7 +75,8 @@ pub fn execute<RW: Read + Write + Seek>(
 
     stor.remove_file(tmp_file).ok();
 
-    unpack_res
+    // a panic goes on once there is nothing left to clean up
+    unpack_res.unwrap_or_else(|payload| resume_unwind(payload))
 }
 
 fn decrypt_and_extract<RW: Read + Write + Seek>(
-- 
2.43.0

