From 9716ebd6f84cffb39960b57d7c328644292d0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 01/16] fix: footer is the digest of nothing when progress is
 printed

Progress::done asks the inner writer for the hash and then finishes the
inner writer, which asks for it again. The first call reset the digest.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..776477b 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        // the digest must survive, `done` needs it again
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..2beaf64 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        // the digest must survive, `done` needs it again
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From d4cd12516ca30097c695474647337d0b692a6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 02/16] fix: failure to write the footer is reported as a read
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 776477b..d3960ab 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -163,7 +163,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 2beaf64..c2ba388 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -83,7 +83,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From b3424c2ce79763d2d36b1361b57351b09ad51d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 03/16] fix: blake3 footer is emitted without a newline and may
 be cut

`write` may accept only a part of the line or be interrupted.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..7e8bce6 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{}", self.finalize().to_hex())
     }
 }
 
-- 
2.43.0


From 0e65987cce11651000017efab9d1285486daa293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 04/16] fix: digests may not cover the recorded size of a
 changing file

A file that is shorter than its size got digests of data that was never
read, one that is longer got a digest of more than its size. And the memory
reserved depended on the size the file system claims.
---
 src/v1/threaded_writer.rs |  6 ++++--
 src/v1/writer.rs          | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index d3960ab..0e74c6b 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -10,6 +10,7 @@ use futures_cpupool::{CpuPool, CpuFuture};
 
 use crate::error::Error::{self, WriteError as EWrite, ReadFile as EFile};
 use crate::v1::writer::{Writer, HashWriter, Name, EXE_MASK, MAGIC, VERSION};
+use crate::v1::writer::hash_block;
 use crate::v1::hash::Hash;
 
 #[derive(Clone)]
@@ -133,9 +134,10 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
             let mut f = dir.open_file(&entry).map_err(EFile)?;
             let meta = f.metadata().map_err(EFile)?;
             let mut n = meta.len();
-            let mut buf = String::with_capacity((33*n/block_size) as usize);
+            let mut buf = String::new();
             while n > 0 {
-                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
+                let h = hash_block(&mut hash, &mut f, n.min(block_size))
+                    .map_err(EFile)?;
                 write!(&mut buf, " {:x}", h).unwrap();
                 n = n.saturating_sub(block_size);
             }
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index c2ba388..e1f6cf3 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -40,6 +40,19 @@ pub(crate) struct SyncWriter<F, H: Hash> {
     hash: H,
 }
 
+/// Hash exactly `size` bytes, the file might have changed since its size
+/// was determined
+pub(crate) fn hash_block<R: io::Read, H: Hash>(hash: &mut H, f: R, size: u64)
+    -> io::Result<H::Output>
+{
+    let (bytes, h) = hash.hash_and_size(f, size)?;
+    if bytes != size {
+        return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
+            "file is shorter than its size"));
+    }
+    Ok(h)
+}
+
 impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     type TotalHash = H::Output;
     fn start_dir(&mut self, path: &Path) -> Result<(), Error> {
@@ -58,7 +71,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
             n,
         ).map_err(EWrite)?;
         while n > 0 {
-            let h = self.hash.hash_file(&mut f, self.block_size)
+            let h = hash_block(&mut self.hash, &mut f, n.min(self.block_size))
                 .map_err(EFile)?;
             write!(&mut self.file, " {:x}", h).map_err(EWrite)?;
             n = n.saturating_sub(self.block_size);
-- 
2.43.0


From 662dc2140ed2631f0dc3242d050d8cfbd4cb7ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 05/16] fix: a file replaced by a directory while scanning is
 listed as a file

---
 src/v1/threaded_writer.rs |  3 ++-
 src/v1/writer.rs          | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 0e74c6b..bd30e1f 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -10,7 +10,7 @@ use futures_cpupool::{CpuPool, CpuFuture};
 
 use crate::error::Error::{self, WriteError as EWrite, ReadFile as EFile};
 use crate::v1::writer::{Writer, HashWriter, Name, EXE_MASK, MAGIC, VERSION};
-use crate::v1::writer::hash_block;
+use crate::v1::writer::{check_regular, hash_block};
 use crate::v1::hash::Hash;
 
 #[derive(Clone)]
@@ -133,6 +133,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
         self.queue.push_back(Operation::File(self.pool.spawn_fn(move || {
             let mut f = dir.open_file(&entry).map_err(EFile)?;
             let meta = f.metadata().map_err(EFile)?;
+            check_regular(&meta).map_err(EFile)?;
             let mut n = meta.len();
             let mut buf = String::new();
             while n > 0 {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index e1f6cf3..7d5486d 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::fs::Metadata;
 use std::io::{self, Write};
 use std::sync::Arc;
 use std::path::Path;
@@ -40,6 +41,15 @@ pub(crate) struct SyncWriter<F, H: Hash> {
     hash: H,
 }
 
+/// The entry might have been replaced since the directory was listed
+pub(crate) fn check_regular(meta: &Metadata) -> io::Result<()> {
+    if !meta.is_file() {
+        return Err(io::Error::new(io::ErrorKind::Other,
+            "not a regular file any more"));
+    }
+    Ok(())
+}
+
 /// Hash exactly `size` bytes, the file might have changed since its size
 /// was determined
 pub(crate) fn hash_block<R: io::Read, H: Hash>(hash: &mut H, f: R, size: u64)
@@ -64,6 +74,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     {
         let mut f = dir.open_file(&entry).map_err(EFile)?;
         let meta = f.metadata().map_err(EFile)?;
+        check_regular(&meta).map_err(EFile)?;
         let mut n = meta.len();
         write!(&mut self.file, "  {} {} {}",
             Name(&Path::new(entry.file_name())),
-- 
2.43.0


From d410dab52b1a1da84df64af60878114601da05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 06/16] fix: ScannerConfig::queue_size has no effect

---
 src/v1/mod.rs             | 2 +-
 src/v1/threaded_writer.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..eb17278 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -66,7 +66,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
 {
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
-            config.threads,
+            config.threads, config.queue_size,
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index bd30e1f..4db02a8 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -39,7 +39,8 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_size: Option<usize>, mut f: F, hash: H,
+        block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
         writeln!(&mut f,
@@ -53,7 +54,7 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
+            queue_limit: queue_size.unwrap_or(threads*16),
             queue: VecDeque::with_capacity(threads*16),
             pool: CpuPool::new(threads),
         })
-- 
2.43.0


From 18856f46197fa12e79524656e2d8ef5a0ef2132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 07/16] fix: index command ignores failure to write the end of
 the index

Errors are ignored when BufWriter is dropped.
---
 src/bin/index.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index da0f502..5ae4206 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -21,6 +21,11 @@ fn get_num_cpus() -> usize {
     1
 }
 
+fn scan_to<W: Write>(cfg: &ScannerConfig, mut out: W) -> Result<(), v1::Error> {
+    v1::scan(cfg, &mut out)?;
+    out.flush().map_err(v1::Error::WriteError)
+}
+
 pub fn run() -> i32 {
     if let Err(_) = env::var("RUST_LOG") {
         env::set_var("RUST_LOG", "warn");
@@ -107,9 +112,9 @@ pub fn run() -> i32 {
                 return 1;
             }
         };
-        v1::scan(&cfg, &mut io::BufWriter::new(file))
+        scan_to(&cfg, io::BufWriter::new(file))
     } else {
-        v1::scan(&cfg, &mut io::stdout())
+        scan_to(&cfg, io::stdout())
     };
     match res {
         Ok(()) => return 0,
-- 
2.43.0


From 2392d198981d6e0ba3bb63f1feac38573f15cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 08/16] fix: get_hash fails if a read is short or interrupted

---
 src/read.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..aa11f4e 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -19,7 +19,7 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
     let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
+    f.read_exact(&mut signature)?;
     if &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
@@ -32,9 +32,7 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
     let mut buf = [0u8; 100];
     assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
-        return Err(io::ErrorKind::UnexpectedEof.into());
-    }
+    f.read_exact(&mut buf[..nbytes])?;
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
         return Err(einval.into());
     }
-- 
2.43.0


From d3d284efcb32cae57a027069c770cb5a64b21b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 09/16] fix: Hashes::hash_file adds a digest of an empty block

If the size of the content is zero or a multiple of the block size.
---
 src/v1/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..7aa00c3 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -435,7 +435,9 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
-            buf.extend(hash.result());
+            if bs > 0 {
+                buf.extend(hash.result());
+            }
             size += bs;
             if bs < block_size {
                 break;
-- 
2.43.0


From af5c8eb109bcbf9fc2fbee365622b5c25203d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 10/16] fix: interrupted read at the end of the data is
 returned as an error

---
 src/v1/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 7aa00c3..446aed0 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -465,8 +465,8 @@ impl Hashes {
                 return Ok(false);
             }
         }
-        let mut test_buf = [0; 1];
-        if f.read(&mut test_buf)? != 0 {
+        // unlike `read` this retries when interrupted
+        if io::copy(&mut f.take(1), &mut io::sink())? != 0 {
             return Ok(false);
         }
         Ok(true)
@@ -672,8 +672,9 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
-                let mut test_buf = [0; 1];
-                if self.reader.read(&mut test_buf)? != 0 {
+                // unlike `read` this retries when interrupted
+                let mut extra = io::Read::take(&mut *self.reader, 1);
+                if io::copy(&mut extra, &mut io::sink())? != 0 {
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
-- 
2.43.0


From 1660d6d1d5f687feb22bbbba33a69f50199044b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 11/16] fix: parser panics or exhausts memory on damaged sizes

Zero block size, sizes that overflow and sizes that need more hashes than
there is data.
---
 src/v1/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 446aed0..4b26b19 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,8 +295,9 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
+                        Some(v) => u64::from_str_radix(v, 10).ok()
+                            .filter(|&block_size| block_size > 0)
+                            .ok_or_else(|| ParseRowError::InvalidBlockSize(
                                 v.to_string()))?,
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
@@ -523,7 +524,8 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let hashes_num = (file_size / block_size) as usize
+                    + (file_size % block_size != 0) as usize;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
@@ -823,7 +825,9 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // the number of hashes might be anything if the data is damaged
+    let max_hashes = data.len() / hash_len;
+    let mut buf = Vec::with_capacity(hashes_num.min(max_hashes) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From e2d7aba1e171f52be41ef65738ea8c101e005c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 12/16] fix: parser accepts file entries that are not a file in
 a directory

Comparing them panics in `advance` and when merging.
---
 src/v1/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 4b26b19..8c67f2f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -519,8 +519,16 @@ impl Entry {
             (Entry::Dir(path), row)
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
-            let (path, row) = parse_path(row)?;
-            let path = current_dir.join(&path);
+            let (name, row) = parse_path(row)?;
+            if name.file_name() != Some(name.as_os_str()) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid file name: {:?}", name)));
+            }
+            if !current_dir.is_absolute() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("File {:?} is not in any directory", name)));
+            }
+            let path = current_dir.join(&name);
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-- 
2.43.0


From 2824548d6eee87732f4105a5f6d71a755f5306ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 13/16] fix: EntryIterator::advance gets stuck at a malformed
 line

The same line was reported again and again, and every repeated parse of a
line increased the line number.
---
 src/v1/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 8c67f2f..daff6e3 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -663,14 +663,19 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
     }
 
     fn parse_entry(&mut self) -> Result<Option<Entry>, ParseError> {
-        self._parse_entry().map_err(|e| e.into())
+        let res = self._parse_entry();
+        if res.is_err() {
+            // the row is of no use any more
+            self.current_row.clear();
+        }
+        res.map_err(|e| e.into())
     }
     fn _parse_entry(&mut self) -> Result<Option<Entry>, ErrorEnum> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
+            self.current_row_num += 1;
             read_line(self.reader.by_ref(), &mut self.current_row)
                 .context(self.current_row_num)?;
         }
-- 
2.43.0


From 6f0a10c04aa65148359c28a6bf43165ca1657461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 14/16] fix: parser continues after a read error with part of a
 row

And never stops returning errors when the index is truncated.
---
 src/v1/parser.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index daff6e3..f89dcd8 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -585,6 +585,7 @@ impl Entry {
 pub struct Parser<R: BufRead> {
     header: Header,
     reader: R,
+    exhausted: bool,
 }
 
 impl<R: BufRead> Parser<R> {
@@ -599,6 +600,7 @@ impl<R: BufRead> Parser<R> {
         Ok(Parser {
             header: header,
             reader: reader,
+            exhausted: false,
         })
     }
 
@@ -609,7 +611,7 @@ impl<R: BufRead> Parser<R> {
 
     /// Creates iterator over directory signature entries
     pub fn iter(&mut self) -> EntryIterator<'_, R> {
-        EntryIterator::new(&mut self.reader,
+        EntryIterator::new(&mut self.reader, &mut self.exhausted,
             self.header.hash_type, self.header.block_size)
     }
 
@@ -644,12 +646,13 @@ pub struct EntryIterator<'a, R: BufRead> {
     current_row: Vec<u8>,
     current_row_num: usize,
     current_dir: PathBuf,
-    exhausted: bool,
+    exhausted: &'a mut bool,
 }
 
 impl<'a, R: BufRead> EntryIterator<'a, R> {
-    fn new(reader: &'a mut R, hash_type: HashType, block_size: u64)
-        -> EntryIterator<'_, R>
+    fn new(reader: &'a mut R, exhausted: &'a mut bool,
+        hash_type: HashType, block_size: u64)
+        -> EntryIterator<'a, R>
     {
         EntryIterator {
             reader: reader.by_ref(),
@@ -658,7 +661,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             current_row: vec!(),
             current_row_num: 1,
             current_dir: PathBuf::new(),
-            exhausted: false,
+            exhausted: exhausted,
         }
     }
 
@@ -671,13 +674,19 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         res.map_err(|e| e.into())
     }
     fn _parse_entry(&mut self) -> Result<Option<Entry>, ErrorEnum> {
-        if self.exhausted {
+        if *self.exhausted {
             return Ok(None);
         }
         if self.current_row.is_empty() {
             self.current_row_num += 1;
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            if let Err(e) = read_line(self.reader.by_ref(),
+                &mut self.current_row)
+            {
+                // there is only a part of the row or none at all, what
+                // follows it (if anything) can't be parsed
+                *self.exhausted = true;
+                return Err(ErrorEnum::Parse(e, self.current_row_num));
+            }
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
@@ -687,6 +696,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
+                *self.exhausted = true;
                 // unlike `read` this retries when interrupted
                 let mut extra = io::Read::take(&mut *self.reader, 1);
                 if io::copy(&mut extra, &mut io::sink())? != 0 {
@@ -695,7 +705,6 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                             format!("Found extra lines after the footer")),
                         self.current_row_num));
                 }
-                self.exhausted = true;
                 Ok(None)
             },
             Some(entry) => {
-- 
2.43.0


From f532e5d1077f1b74fab703862acd5f32197b4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 15/16] fix: a second iterator of a parser loses directory, row
 and line number

---
 src/v1/parser.rs | 53 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index f89dcd8..c03092b 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -585,6 +585,10 @@ impl Entry {
 pub struct Parser<R: BufRead> {
     header: Header,
     reader: R,
+    // the state of the iteration, a new iterator goes on from here
+    current_row: Vec<u8>,
+    current_row_num: usize,
+    current_dir: PathBuf,
     exhausted: bool,
 }
 
@@ -600,6 +604,9 @@ impl<R: BufRead> Parser<R> {
         Ok(Parser {
             header: header,
             reader: reader,
+            current_row: vec!(),
+            current_row_num: 1,
+            current_dir: PathBuf::new(),
             exhausted: false,
         })
     }
@@ -611,8 +618,15 @@ impl<R: BufRead> Parser<R> {
 
     /// Creates iterator over directory signature entries
     pub fn iter(&mut self) -> EntryIterator<'_, R> {
-        EntryIterator::new(&mut self.reader, &mut self.exhausted,
-            self.header.hash_type, self.header.block_size)
+        EntryIterator {
+            reader: &mut self.reader,
+            hash_type: self.header.hash_type,
+            block_size: self.header.block_size,
+            current_row: &mut self.current_row,
+            current_row_num: &mut self.current_row_num,
+            current_dir: &mut self.current_dir,
+            exhausted: &mut self.exhausted,
+        }
     }
 
     /// Consumes the parser returning ownership of the underlying reader
@@ -643,28 +657,13 @@ pub struct EntryIterator<'a, R: BufRead> {
     reader: &'a mut R,
     hash_type: HashType,
     block_size: u64,
-    current_row: Vec<u8>,
-    current_row_num: usize,
-    current_dir: PathBuf,
+    current_row: &'a mut Vec<u8>,
+    current_row_num: &'a mut usize,
+    current_dir: &'a mut PathBuf,
     exhausted: &'a mut bool,
 }
 
 impl<'a, R: BufRead> EntryIterator<'a, R> {
-    fn new(reader: &'a mut R, exhausted: &'a mut bool,
-        hash_type: HashType, block_size: u64)
-        -> EntryIterator<'a, R>
-    {
-        EntryIterator {
-            reader: reader.by_ref(),
-            hash_type: hash_type,
-            block_size: block_size,
-            current_row: vec!(),
-            current_row_num: 1,
-            current_dir: PathBuf::new(),
-            exhausted: exhausted,
-        }
-    }
-
     fn parse_entry(&mut self) -> Result<Option<Entry>, ParseError> {
         let res = self._parse_entry();
         if res.is_err() {
@@ -678,24 +677,24 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             return Ok(None);
         }
         if self.current_row.is_empty() {
-            self.current_row_num += 1;
+            *self.current_row_num += 1;
             if let Err(e) = read_line(self.reader.by_ref(),
-                &mut self.current_row)
+                self.current_row)
             {
                 // there is only a part of the row or none at all, what
                 // follows it (if anything) can't be parsed
                 *self.exhausted = true;
-                return Err(ErrorEnum::Parse(e, self.current_row_num));
+                return Err(ErrorEnum::Parse(e, *self.current_row_num));
             }
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
                 row, &self.current_dir, self.hash_type, self.block_size)
-            .context(self.current_row_num)?;
+            .context(*self.current_row_num)?;
         match entry {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
-                    .context(self.current_row_num)?;
+                    .context(*self.current_row_num)?;
                 *self.exhausted = true;
                 // unlike `read` this retries when interrupted
                 let mut extra = io::Read::take(&mut *self.reader, 1);
@@ -703,13 +702,13 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
-                        self.current_row_num));
+                        *self.current_row_num));
                 }
                 Ok(None)
             },
             Some(entry) => {
                 if let Entry::Dir(ref dir_path) = entry {
-                    self.current_dir = dir_path.clone();
+                    *self.current_dir = dir_path.clone();
                 }
                 Ok(Some(entry))
             },
-- 
2.43.0


From b53b0a802b2137b39b72f3a82977b819608497c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 16/16] fix: a second iterator of merged signatures loses the
 entries read ahead

---
 src/v1/merge.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/v1/merge.rs b/src/v1/merge.rs
index afbdcda..a81a239 100644
--- a/src/v1/merge.rs
+++ b/src/v1/merge.rs
@@ -89,6 +89,8 @@ impl FileMergeBuilder {
 /// directory signature files
 pub struct MergedSignatures<K, R: BufRead> {
     parsers: Vec<(K, Parser<R>)>,
+    // entries that are read but not yet returned, for each of the parsers
+    heads: Vec<Option<Result<Entry, ParseError>>>,
 }
 
 impl<K, R: BufRead> MergedSignatures<K, R> {
@@ -113,6 +115,7 @@ impl<K, R: BufRead> MergedSignatures<K, R> {
             return Err(MergeError::BlockSizesMismatch(block_sizes));
         }
         Ok(MergedSignatures {
+            heads: parsers.iter().map(|_| None).collect(),
             parsers: parsers,
         })
     }
@@ -136,8 +139,9 @@ impl<'a, K, R: BufRead> MergedEntriesIterator<'a, K, R> {
         let n = merged_signatures.parsers.len();
         MergedEntriesIterator {
             iterators: merged_signatures.parsers.iter_mut()
-                .map(|&mut (ref key, ref mut parser)| {
-                    (key, PeekableEntryIterator::new(parser.iter()))
+                .zip(merged_signatures.heads.iter_mut())
+                .map(|(&mut (ref key, ref mut parser), head)| {
+                    (key, PeekableEntryIterator::new(parser.iter(), head))
                 })
                 .collect::<Vec<_>>(),
             iterator_ixs: Vec::with_capacity(n)
@@ -159,21 +163,24 @@ impl<'a, K, R: BufRead> MergedEntriesIterator<'a, K, R> {
 }
 
 struct PeekableEntryIterator<'a, R: BufRead> {
-    head: Option<Result<Entry, ParseError>>,
+    head: &'a mut Option<Result<Entry, ParseError>>,
     tail: EntryIterator<'a, R>,
 }
 
 impl<'a, R: 'a + BufRead> PeekableEntryIterator<'a, R> {
-    fn new(iter: EntryIterator<'a, R>) -> PeekableEntryIterator<'a, R> {
+    fn new(iter: EntryIterator<'a, R>,
+        head: &'a mut Option<Result<Entry, ParseError>>)
+        -> PeekableEntryIterator<'a, R>
+    {
         PeekableEntryIterator {
-            head: None,
+            head: head,
             tail: iter,
         }
     }
 
     fn peek(&mut self) -> Option<&Result<Entry, ParseError>> {
         if self.head.is_none() {
-            self.head = self.tail.next();
+            *self.head = self.tail.next();
         }
         self.head.as_ref()
     }
@@ -190,7 +197,7 @@ impl<'a, R: 'a + BufRead> PeekableEntryIterator<'a, R> {
         };
         match cmp_res {
             Less => {
-                self.head = None;
+                *self.head = None;
                 self.tail.advance(kind)
             },
             Greater => None,
-- 
2.43.0

