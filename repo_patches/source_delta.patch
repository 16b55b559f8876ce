From e7f8c90699a4ab2ad104fe3c745405b08f82cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 01/25] fix: list only keys with the prefix when it ends in
 0xff

The exclusive upper bound for [61 ff] was [62 00], which includes the key [62].
---
 src/tx.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tx.rs b/src/tx.rs
index 7548f3e..3ea7fcb 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -100,6 +100,11 @@ pub trait ReadTransaction: ReadOnlyTransactionAccessor {
     fn list_items(&self, prefix: &[u8]) -> PubResult<Vec<Item>> {
         let range_end = {
             let mut prefix = prefix.to_owned();
+            // Incrementing can't carry out of trailing 0xff bytes without also admitting keys that
+            // don't have the prefix, so the carry has to drop them.
+            while prefix.last() == Some(&u8::MAX) {
+                prefix.pop();
+            }
             if inc_big_endian_array(&mut prefix) {
                 Some(prefix)
             } else {
-- 
2.43.0


From 55f125b302d6821c0e52ed3bdf039af58f641207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 02/25] fix: don't delete rows when renaming a value onto
 itself, or a missing value

The row with the new key was deleted before checking that the value to be
renamed exists elsewhere, losing the value, or an unrelated one.
---
 src/tx.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index 3ea7fcb..e4f19de 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -269,6 +269,21 @@ where
 
     // TODO: Add a test for renaming onto itself.
     pub fn rename_value(&mut self, value: &Value, new_key: Vec<u8>) -> PubResult<bool> {
+        // Find the value before anything is deleted on its behalf.
+        let old_key: rusqlite::Result<Vec<u8>> = self
+            .tx
+            .prepare_cached("select key from keys where file_id=? and file_offset=?")?
+            .query_row(params![value.file_id(), value.file_offset()], |row| {
+                row.get(0)
+            });
+        match old_key {
+            // The value is gone (or is empty, and so can't be identified).
+            Err(QueryReturnedNoRows) => return Ok(false),
+            Err(err) => return Err(err).context("finding value key").map_err(Into::into),
+            // Renamed but the name is the same.
+            Ok(old_key) if old_key == new_key => return Ok(true),
+            Ok(_) => {}
+        }
         match self
             .tx
             .prepare_cached(&format!(
@@ -282,13 +297,6 @@ where
             Ok(existing_value) => {
                 match existing_value.location {
                     Nonzero(a) => {
-                        let b = value;
-                        if Some(a.file_offset) == b.file_offset() && Some(&a.file_id) == b.file_id()
-                        {
-                            assert_eq!(a.length, b.length());
-                            // Renamed but the name is the same.
-                            return Ok(true);
-                        }
                         // Schedule the value that previously had the key to be hole punched.
                         self.deleted_values.push(a);
                     }
-- 
2.43.0


From fcafae38370fc68d94f82d65b430ae8b8a6c3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 03/25] fix: truncate what was copied when
 ValueWriter::copy_from fails

Files are opened for appending, so the partial copy ended up in the next value.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ddcf89..6162db5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,9 +209,9 @@ impl ValueWriter {
         let value_length = match std::io::copy(&mut value, &mut self.exclusive_file.inner) {
             Ok(ok) => ok,
             Err(err) => {
+                // The file is append-only, so rewinding isn't enough to overwrite what was copied.
                 self.exclusive_file
-                    .inner
-                    .seek(Start(value_file_offset))
+                    .revert_to_offset(value_file_offset)
                     .expect("should rewind failed copy");
                 return Err(err.into());
             }
-- 
2.43.0


From 68a8e1b1c5d3425aed1f56808ce211c68adaf05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 04/25] fix: apply new instance limits straight away

apply_limits does nothing in a deferred transaction, and nothing was committed.
---
 src/handle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index 19f6fd0..3f0310b 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -37,7 +37,8 @@ impl Handle {
 
     pub fn set_instance_limits(&mut self, limits: Limits) -> Result<()> {
         self.instance_limits = limits;
-        self.start_deferred_transaction()?.apply_limits()
+        self.start_immediate_transaction()?.commit()?.complete();
+        Ok(())
     }
 
     pub fn dir(&self) -> &Dir {
-- 
2.43.0


From 4028f4308674bcde47ee250668a9f683a6560904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 05/25] fix: take the manifest write lock when starting a C
 reader

Like Handle::read. A deferred transaction fails to upgrade if anyone commits first.
---
 src/c_api/ext_fns/handle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index c3b7387..ec5f22f 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -179,7 +179,7 @@ pub extern "C" fn possum_reader_new(
         // This is copied from Handle::start_writable_transaction_with_behaviour and Handle::read
         // until I make proper abstractions.
         |conn, handle| {
-            let rtx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
+            let rtx = conn.transaction_with_behavior(TransactionBehavior::Immediate)?;
             Ok(Transaction::new(rtx, handle))
         },
     );
-- 
2.43.0


From 10b6fe0fe13c78d36403429b50c2cf23180c7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 06/25] fix: check the end of a values file after locking it

The offset for the next value was taken before the lock that keeps it valid.
---
 src/exclusive_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index c6436e8..428a49c 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -73,6 +73,10 @@ impl ExclusiveFile {
         if !file.lock_segment(LockExclusiveNonblock, None, end)? {
             return Ok(None);
         }
+        // Someone could have appended and let go between finding the end and locking from there.
+        if file.seek(End(0))? != end {
+            return Ok(None);
+        }
         file.set_sparse(true)?;
         Ok(Some(ExclusiveFile {
             inner: file,
-- 
2.43.0


From 2a464e03c6c2a34c8adf3a34f48eca9d7f3e219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 07/25] fix: recognise unsupported file cloning from io errors

root_cause panicked for io errors, and the errors clonefile returns were never
recognised as unsupported, so readers failed instead of falling back.
---
 src/error.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7fa376d..3c6f3f7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,14 +47,18 @@ impl Error {
         match self {
             NoSuchKey | UnsupportedFilesystem => self,
             Sqlite(inner) => inner,
+            Io(inner) => inner,
             Anyhow(inner) => inner.root_cause(),
-            _ => unimplemented!(),
         }
     }
 
     pub fn root_cause_is_unsupported_filesystem(&self) -> bool {
+        let root_cause = self.root_cause();
+        if let Some(err) = root_cause.downcast_ref::<std::io::Error>() {
+            return CloneFileError::is_unsupported(err);
+        }
         matches!(
-            self.root_cause().downcast_ref(),
+            root_cause.downcast_ref(),
             Some(Self::UnsupportedFilesystem)
         )
     }
-- 
2.43.0


From 2e592aaab15017e0dc5e94b681db5bd11d2e7033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 08/25] fix: don't punch missing holes in values files that are
 in use

The result of locking was ignored, and the values were read before locking.
---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 14a52fd..ff31f3f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,7 +142,6 @@ fn main() -> anyhow::Result<()> {
                 PunchMissingHoles {
                     file_id: values_file_path,
                 } => {
-                    let tx = handle.start_deferred_transaction_for_read()?;
                     for values_file_entry in handle.walk_dir()?.iter().filter(|entry| {
                         matches!(entry.entry_type, possum::walk::EntryType::ValuesFile)
                     }) {
@@ -160,7 +159,12 @@ fn main() -> anyhow::Result<()> {
                             // Make sure nobody could be writing to the file. It should be possible
                             // to punch holes before the last value despite this (just as greedy
                             // start hole punching occurs during regular key deletes).
-                            file.lock_max_segment(possum::sys::LockExclusiveNonblock)?;
+                            if !file.lock_max_segment(possum::sys::LockExclusiveNonblock)? {
+                                eprintln!("{}: in use", values_file_entry.path.display());
+                                continue;
+                            }
+                            // The values must be read after nobody else can be adding to them.
+                            let tx = handle.start_deferred_transaction_for_read()?;
                             for FileRegion {
                                 mut start,
                                 mut length,
-- 
2.43.0


From c1d9f30650daf464e279245148e0a950f3c8d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 09/25] fix: don't abort when possum_single_stat fails to read

---
 src/c_api/ext_fns/handle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c_api/ext_fns/handle.rs b/src/c_api/ext_fns/handle.rs
index ec5f22f..ff45764 100644
--- a/src/c_api/ext_fns/handle.rs
+++ b/src/c_api/ext_fns/handle.rs
@@ -78,14 +78,17 @@ pub extern "C" fn possum_single_stat(
         .read()
         .unwrap()
         .read_single(key.as_ref())
-        .unwrap()
     {
-        Some(value) => {
+        Ok(Some(value)) => {
             let stat_in_rust = value.as_ref().into();
             unsafe { *out_stat = stat_in_rust };
             true
         }
-        None => false,
+        Ok(None) => false,
+        Err(err) => {
+            error!("error reading single stat: {:#?}", err);
+            false
+        }
     }
 }
 
-- 
2.43.0


From e038262b875ba7389738ca4a93ba16d3c1fff381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 10/25] fix: unlock committed values before handing over post
 commit work

Readers need the committed values as soon as the manifest has them, and completing
the work can block. PostCommitWork::complete says it has to happen after.
---
 src/lib.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6162db5..0ed0806 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -385,21 +385,17 @@ where
             }
             // TODO: On error here, rewind the exclusive to undo any writes that just occurred.
             let work = transaction.commit().context("commit transaction")?;
+            // Let others at the committed values before doing anything that might have to wait.
+            for ef in &mut self.exclusive_files {
+                ef.committed().unwrap();
+            }
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-        self.flush_exclusive_files();
+        self.return_exclusive_files_to_handle();
         Ok(write_commit_res)
     }
 
-    /// Flush Writer's exclusive files and return them to the Handle pool.
-    fn flush_exclusive_files(&mut self) {
-        for ef in &mut self.exclusive_files {
-            ef.committed().unwrap();
-        }
-        self.return_exclusive_files_to_handle()
-    }
-
     fn return_exclusive_files_to_handle(&mut self) {
         // When we're flocking, we can't have writers and readers at the same time and still be
         // able to punch values asynchronously.
-- 
2.43.0


From e2b02ac1a37c4b15473fb52edf98df1f4bd2d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 11/25] fix: wait for extents to be unlocked when reading by
 segment locking

A writer between committing and unlocking, or the value puncher trying the whole
file, made the reader panic.
---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 46b60a3..da87186 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -174,7 +174,8 @@ where
             return Ok(());
         }
         for extent in read_extents {
-            assert!(file.lock_segment(LockSharedNonblock, Some(extent.len), extent.offset)?);
+            // A committing writer or the value puncher might be about to let go of the extent.
+            assert!(file.lock_segment(LockShared, Some(extent.len), extent.offset)?);
         }
         Ok(())
     }
-- 
2.43.0


From 32455c41e9fcd226bef94fe6d6e039ca3c5417b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 12/25] fix: take the write lock before listing in move_prefix
 and delete_prefix

They failed whenever another handle committed between the listing and the changes.
---
 src/handle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 3f0310b..6237018 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -442,7 +442,7 @@ impl Handle {
     }
 
     pub fn move_prefix(&self, from: &[u8], to: &[u8]) -> Result<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         let items = tx.list_items(from)?;
         let mut to_vec = to.to_vec();
         for item in items {
@@ -455,7 +455,7 @@ impl Handle {
     }
 
     pub fn delete_prefix(&self, prefix: impl AsRef<[u8]>) -> PubResult<()> {
-        let mut tx = self.start_deferred_transaction()?;
+        let mut tx = self.start_immediate_transaction()?;
         for item in tx.list_items(prefix.as_ref())? {
             tx.delete_key(&item.key)?;
         }
-- 
2.43.0


From 3f951b22138d640f626711b8946ff13c387dfadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 13/25] fix: check for values committed before locking a values
 file to truncate it

The value puncher's transaction could predate values at the end of the file.
---
 src/lib.rs | 12 +++++++++++-
 src/tx.rs  |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ed0806..db39713 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -840,7 +840,17 @@ fn punch_value(opts: PunchValueOptions) -> Result<bool> {
                     .context("locking value file")?;
                 // Get the file length after we have tried locking the file.
                 let file_end = file.seek(End(0))? as i64;
-                if locked_file {
+                let next_offset = if locked_file {
+                    // Values could have been committed, and their writer gone, before we got the
+                    // lock.
+                    tx.restart()?;
+                    tx.next_value_offset(file_id, (offset + length).try_into().unwrap())?
+                } else {
+                    None
+                };
+                if let Some(next_offset) = next_offset {
+                    floored_multiple(next_offset as i64, block_size)
+                } else if locked_file {
                     // I think it's okay to remove and truncate files if cloning doesn't use locks,
                     // because there are no values in this file to clone.
                     if offset == 0 && allow_remove {
diff --git a/src/tx.rs b/src/tx.rs
index e4f19de..96a0694 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -39,6 +39,13 @@ pub type ReadTransactionRef<'a> = &'a ReadTransactionOwned<'a>;
 /// Helper type for wrapping rusqlite::Transaction to only provide ReadTransaction capabilities.
 pub struct ReadTransactionOwned<'a>(pub(crate) rusqlite::Transaction<'a>);
 
+impl ReadTransactionOwned<'_> {
+    /// Restarts the transaction so that it reads what has been committed since it started.
+    pub(crate) fn restart(&self) -> rusqlite::Result<()> {
+        self.0.execute_batch("rollback; begin deferred")
+    }
+}
+
 impl ReadOnlyTransactionAccessor for ReadTransactionOwned<'_> {
     fn readonly_transaction(&self) -> &rusqlite::Transaction {
         &self.0
-- 
2.43.0


From 76fbffd37640416f75337c0d6a94ebdec7321173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:36 +0000
Subject: [PATCH 14/25] fix: don't truncate an existing file when cloning to
 its path

---
 src/sys/clonefile/sys.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sys/clonefile/sys.rs b/src/sys/clonefile/sys.rs
index 6cb3a6a..b907d03 100644
--- a/src/sys/clonefile/sys.rs
+++ b/src/sys/clonefile/sys.rs
@@ -104,8 +104,11 @@ pub fn fclonefile_noflags(src_file: &File, dst_path: &Path) -> Result<(), Native
             )}?;
             Ok(())
         } else if #[cfg(target_os = "linux")] {
-            // Should this be exclusive create?
-            let dst_file = File::create(dst_path)?;
+            // Never truncate a file that's already there, it could be in use.
+            let dst_file = OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(dst_path)?;
             let src_fd = src_file.as_raw_fd();
             let dst_fd = dst_file.as_raw_fd();
             // Is this because the musl bindings are wrong?
-- 
2.43.0


From cbdec70d76643c1e5628db0e6377ee03d01f1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 15/25] fix: don't use file clones for what wasn't committed
 when they were made

---
 src/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index da87186..ac95b47 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -150,7 +150,13 @@ where
         // can retry the cloning until we are able to lock it.
         let locked = file.lock_max_segment(LockSharedNonblock)?;
         assert!(locked);
-        let len = file.seek(End(0))?;
+        // The clone can contain more than has been committed, and writers take back what they don't
+        // commit. Other values can be committed over that later, so the clone can't be used for them.
+        let committed_end = self
+            .owned_tx
+            .transaction()
+            .query_last_end_offset(file_id, i64::MAX as u64)?;
+        let len = min(file.seek(End(0))?, committed_end);
         let file_clone = Arc::new(Mutex::new(FileClone {
             file,
             tempdir: Some(tempdir.clone()),
-- 
2.43.0


From 820da3e31d8f479a6781d826e62cdffa299e3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 16/25] fix: accept empty buffers with null pointers in the C
 interface

---
 src/c_api/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c_api/mod.rs b/src/c_api/mod.rs
index 8c9a250..558337a 100644
--- a/src/c_api/mod.rs
+++ b/src/c_api/mod.rs
@@ -17,6 +17,10 @@ use super::*;
 
 impl AsRef<[u8]> for PossumBuf {
     fn as_ref(&self) -> &[u8] {
+        // Empty buffers can have a null pointer, such as those made from empty Go slices.
+        if self.size == 0 {
+            return &[];
+        }
         let ptr = self.ptr as _;
         unsafe { slice::from_raw_parts(ptr, self.size) }
     }
@@ -24,6 +28,9 @@ impl AsRef<[u8]> for PossumBuf {
 
 impl PossumBuf {
     fn as_mut_slice(&mut self) -> &mut [u8] {
+        if self.size == 0 {
+            return &mut [];
+        }
         let ptr = self.ptr as *mut u8;
         unsafe { slice::from_raw_parts_mut(ptr, self.size) }
     }
-- 
2.43.0


From 21e2377954f77ae6d9a189d777c4fb69cd5a3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 17/25] fix: don't panic when the committed part of a file
 can't be unlocked

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index db39713..4fc0448 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -386,9 +386,14 @@ where
             // TODO: On error here, rewind the exclusive to undo any writes that just occurred.
             let work = transaction.commit().context("commit transaction")?;
             // Let others at the committed values before doing anything that might have to wait.
-            for ef in &mut self.exclusive_files {
-                ef.committed().unwrap();
-            }
+            self.exclusive_files.retain_mut(|ef| match ef.committed() {
+                Ok(true) => true,
+                // The values are committed anyway. Letting go of the file releases its locks.
+                res => {
+                    error!("error unlocking committed part of {}: {:?}", ef.id, res);
+                    false
+                }
+            });
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-- 
2.43.0


From d1968c4d6b10d5a6009ce6463ec0ab4f27504675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:40 +0000
Subject: [PATCH 18/25] fix: report that a file lock was lost while downgrading
 it

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4fc0448..e884390 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -368,7 +368,9 @@ where
     fn commit_inner(mut self, before_write: impl Fn()) -> Result<WriteCommitResult> {
         if flocking() {
             for ef in &mut self.exclusive_files {
-                assert!(ef.downgrade_lock()?);
+                if !ef.downgrade_lock()? {
+                    bail!("lost the lock on exclusive file {}", ef.id);
+                }
             }
         }
         let write_commit_res = self.handle.with_handle(|handle| {
-- 
2.43.0


From c87f47b01a4667d5161aa9f39a3718129d8ada84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 19/25] fix: keep staged values locked while their file is used
 by another value writer

A value writer that was dropped took the locks on values staged earlier in the same file with it, so
that their space could be reclaimed before they were committed. One that was still in use during
commit kept committed values locked.
---
 src/exclusive_file.rs | 25 +++++++++++++++++++++++++
 src/lib.rs            | 17 ++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index 428a49c..85f89e4 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -99,6 +99,17 @@ impl ExclusiveFile {
         Ok(true)
     }
 
+    /// Shares the locks on what's been written but not committed yet. They're held until both this
+    /// and the exclusive file are dropped.
+    pub(crate) fn hold_uncommitted(&mut self) -> io::Result<UncommittedHold> {
+        Ok(UncommittedHold {
+            id: self.id,
+            start: self.last_committed_offset,
+            end: self.inner.stream_position()?,
+            file: self.inner.try_clone()?,
+        })
+    }
+
     /// The exclusive file offset that writing should occur at. Maybe it shouldn't need to be
     /// mutable since it shouldn't actually shift the file position, however it may decide to cache
     /// it in the future.
@@ -133,6 +144,20 @@ impl ExclusiveFile {
     }
 }
 
+#[derive(Debug)]
+pub(crate) struct UncommittedHold {
+    pub(crate) id: FileId,
+    start: u64,
+    end: u64,
+    file: File,
+}
+
+impl UncommittedHold {
+    pub(crate) fn committed(self) -> io::Result<bool> {
+        self.file.trim_exclusive_lock_left(self.start, self.end)
+    }
+}
+
 impl Drop for ExclusiveFile {
     fn drop(&mut self) {
         debug!("dropping exclusive file {}", self.id);
diff --git a/src/lib.rs b/src/lib.rs
index e884390..4fd74e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -21,7 +21,7 @@ use cfg_if::cfg_if;
 use chrono::NaiveDateTime;
 use env::flocking;
 pub use error::*;
-use exclusive_file::ExclusiveFile;
+use exclusive_file::{ExclusiveFile, UncommittedHold};
 use file_id::FileId;
 pub use handle::Handle;
 use memmap2::Mmap;
@@ -250,6 +250,9 @@ where
 {
     handle: H,
     exclusive_files: Vec<ExclusiveFile>,
+    // Value writers take exclusive files that already have staged values. They might not be done or
+    // might have been dropped when we commit.
+    staged_holds: Vec<UncommittedHold>,
     pending_writes: Vec<PendingWrite>,
     value_renames: Vec<ValueRename>,
 }
@@ -262,6 +265,7 @@ where
         Self {
             handle,
             exclusive_files: Default::default(),
+            staged_holds: Default::default(),
             pending_writes: Default::default(),
             value_renames: Default::default(),
         }
@@ -316,6 +320,9 @@ where
     H: WithHandle,
 {
     fn get_exclusive_file(&mut self) -> Result<ExclusiveFile> {
+        if let Some(ef) = self.exclusive_files.last_mut() {
+            self.staged_holds.push(ef.hold_uncommitted()?);
+        }
         if let Some(ef) = self.exclusive_files.pop() {
             debug!("reusing exclusive file from writer");
             return Ok(ef);
@@ -341,6 +348,7 @@ where
         let exclusive_file = value.exclusive_file;
         let value_file_id = exclusive_file.id;
         self.exclusive_files.push(exclusive_file);
+        self.staged_holds.retain(|hold| hold.id != value_file_id);
         self.pending_writes.push(PendingWrite {
             key,
             value_file_offset: value.value_file_offset,
@@ -396,6 +404,13 @@ where
                     false
                 }
             });
+            for hold in self.staged_holds.drain(..) {
+                let id = hold.id;
+                match hold.committed() {
+                    Ok(true) => (),
+                    res => error!("error unlocking committed part of {}: {:?}", id, res),
+                }
+            }
             work.complete();
             anyhow::Ok(write_commit_res)
         })?;
-- 
2.43.0


From 7d439d6775960027fcbb21d9965a057d0e2a63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 20/25] fix: don't panic when a cloned value's length can't be
 found

---
 src/exclusive_file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exclusive_file.rs b/src/exclusive_file.rs
index 85f89e4..1dd42fc 100644
--- a/src/exclusive_file.rs
+++ b/src/exclusive_file.rs
@@ -46,7 +46,12 @@ impl ExclusiveFile {
 
     pub(crate) fn revert_to_offset(&mut self, offset: u64) -> io::Result<()> {
         // Shouldn't revert prior to the last commit.
-        assert!(offset >= self.last_committed_offset);
+        if offset < self.last_committed_offset {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "reverting past committed values",
+            ));
+        }
         self.inner.seek(Start(offset))?;
         self.inner.set_len(offset)
     }
-- 
2.43.0


From 7dbdbd6ac90a196d8f3876ac799bc359d633cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:19 +0000
Subject: [PATCH 21/25] fix: don't stop reclaiming space after a value can't be
 punched

---
 src/handle.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/handle.rs b/src/handle.rs
index 6237018..42da0bb 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -375,8 +375,14 @@ impl Handle {
                     std::thread::sleep(RETRY_DURATION);
                 }
             }
-            let tx = conn.transaction_with_behavior(TransactionBehavior::Deferred)?;
-            let tx = ReadTransactionOwned(tx);
+            let tx = match conn.transaction_with_behavior(TransactionBehavior::Deferred) {
+                Ok(tx) => ReadTransactionOwned(tx),
+                Err(err) => {
+                    // Keep the values for the next time around.
+                    error!("value puncher starting transaction: {err:?}");
+                    continue;
+                }
+            };
             pending_values = Self::punch_values(&dir, pending_values, &tx)?;
             debug_assert_ne!(tx.0.transaction_state(None)?, TransactionState::Write);
         }
@@ -404,7 +410,7 @@ impl Handle {
             );
             debug!("{}", msg);
             // self.handle.clones.lock().unwrap().remove(&file_id);
-            if !punch_value(PunchValueOptions {
+            match punch_value(PunchValueOptions {
                 dir: dir.path(),
                 file_id,
                 offset: *file_offset,
@@ -412,10 +418,11 @@ impl Handle {
                 tx: transaction,
                 block_size: dir.block_size(),
                 constraints: Default::default(),
-            })
-            .context(msg)?
-            {
-                failed.push(v);
+            }) {
+                Ok(true) => {}
+                Ok(false) => failed.push(v),
+                // The other values, and those to come, still have to be punched.
+                Err(err) => error!("{msg}: {err:?}"),
             }
         }
         Ok(failed)
-- 
2.43.0


From da6d0d6a8f93d5473c581c9d79e0f89984928db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:55 +0000
Subject: [PATCH 22/25] fix: listing items returns an error when the statement
 can't be prepared

---
 src/tx.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tx.rs b/src/tx.rs
index 96a0694..aa72665 100644
--- a/src/tx.rs
+++ b/src/tx.rs
@@ -144,8 +144,7 @@ fn list_items_inner(
     sql: &str,
     params: impl rusqlite::Params,
 ) -> PubResult<Vec<Item>> {
-    tx.prepare_cached_readonly(sql)
-        .unwrap()
+    tx.prepare_cached_readonly(sql)?
         .query_map(params, |row| {
             Ok(Item {
                 value: Value::from_row(row)?,
-- 
2.43.0


From 6f97b3fd00cbbf487dc956aac7996941e87b5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 23/25] fix: a file clone locked by snapshot cleanup is
 reported as an error

---
 src/reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ac95b47..9533497 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -148,8 +148,13 @@ where
         // This prevents the snapshot file from being cleaned up. There's probably a race between
         // here and when it was cloned above. I wonder if the snapshot dir can be locked, or if we
         // can retry the cloning until we are able to lock it.
-        let locked = file.lock_max_segment(LockSharedNonblock)?;
-        assert!(locked);
+        if !file.lock_max_segment(LockSharedNonblock)? {
+            return Err(io::Error::new(
+                ErrorKind::WouldBlock,
+                "file clone is locked by snapshot cleanup",
+            )
+            .into());
+        }
         // The clone can contain more than has been committed, and writers take back what they don't
         // commit. Other values can be committed over that later, so the clone can't be used for them.
         let committed_end = self
-- 
2.43.0


From 6c8f64422124fd748bf1b24dd655d939e537c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:33 +0000
Subject: [PATCH 24/25] fix: don't let go of the handle before a C reader's
 post commit work is done

---
 src/ownedtx.rs | 12 +++++++-----
 src/reader.rs  |  9 ++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ownedtx.rs b/src/ownedtx.rs
index b0b96d5..815d9b3 100644
--- a/src/ownedtx.rs
+++ b/src/ownedtx.rs
@@ -62,7 +62,9 @@ impl<'h> Deref for OwnedReadTx<'h> {
 
 pub(crate) trait OwnedTxTrait {
     type Tx;
-    fn end_tx<R>(self, take: impl FnOnce(Self::Tx) -> R) -> R;
+    /// Ends the transaction with take. What take returns can refer to the handle, so it's passed to
+    /// after once the connection is released, but before the handle is.
+    fn end_tx<R, S>(self, take: impl FnOnce(Self::Tx) -> R, after: impl FnOnce(R) -> S) -> S;
     fn as_handle(&self) -> &Handle;
     fn mut_transaction(&mut self) -> &mut Self::Tx;
     fn transaction(&self) -> &Self::Tx;
@@ -71,8 +73,8 @@ pub(crate) trait OwnedTxTrait {
 impl<'h> OwnedTxTrait for OwnedTx<'h> {
     type Tx = Transaction<'h, &'h Handle>;
 
-    fn end_tx<R>(self, take: impl FnOnce(Self::Tx) -> R) -> R {
-        self.cell.move_dependent(take)
+    fn end_tx<R, S>(self, take: impl FnOnce(Self::Tx) -> R, after: impl FnOnce(R) -> S) -> S {
+        after(self.cell.move_dependent(take))
     }
 
     fn as_handle(&self) -> &Handle {
@@ -91,9 +93,9 @@ impl<'h> OwnedTxTrait for OwnedTx<'h> {
 impl OwnedTxTrait for PossumReaderOwnedTransaction<'static> {
     type Tx = Transaction<'static, Rc<RwLockReadGuard<'static, Handle>>>;
 
-    fn end_tx<R>(self, take: impl FnOnce(Self::Tx) -> R) -> R {
+    fn end_tx<R, S>(self, take: impl FnOnce(Self::Tx) -> R, after: impl FnOnce(R) -> S) -> S {
         self.move_dependent(|handle_guard| {
-            handle_guard.move_dependent(|conn_guard| conn_guard.move_dependent(take))
+            after(handle_guard.move_dependent(|conn_guard| conn_guard.move_dependent(take)))
         })
     }
 
diff --git a/src/reader.rs b/src/reader.rs
index 9533497..32a4aee 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -46,9 +46,12 @@ where
             "cloning files";
             let file_clones = self.clone_files().context("cloning files")?
         );
-        let commit = || self.owned_tx.end_tx(|tx| tx.commit());
-        let post_work = log_time!("reader commit", commit());
-        post_work.context("committing transaction")?.complete();
+        // The post commit work uses the handle, so it has to be done before the reader lets go of it.
+        let commit = || {
+            self.owned_tx
+                .end_tx(|tx| tx.commit(), |res| res.map(|work| work.complete()))
+        };
+        log_time!("reader commit", commit()).context("committing transaction")?;
         Ok(Snapshot { file_clones })
     }
 
-- 
2.43.0


From 97557d6d1152a4bbc9a9ade466e7a7a569182c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:18 +0000
Subject: [PATCH 25/25] fix: don't keep a file clone locked while the caller
 views its values

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4fd74e8..43fb055 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,14 +85,14 @@ struct FileClone {
     /// This exists to destroy clone tempdirs after they become empty.
     #[allow(unused)]
     tempdir: Option<Arc<TempDir>>,
-    mmap: Option<Mmap>,
+    mmap: Option<Arc<Mmap>>,
     len: u64,
 }
 
 type FileCloneCache = HashMap<FileId, Arc<Mutex<FileClone>>>;
 
 impl FileClone {
-    fn get_mmap(&mut self) -> io::Result<&Mmap> {
+    fn get_mmap(&mut self) -> io::Result<&Arc<Mmap>> {
         let mmap_opt = &mut self.mmap;
         if let Some(mmap) = mmap_opt {
             return Ok(mmap);
@@ -103,7 +103,7 @@ impl FileClone {
                 .map_copy_read_only(&self.file)
         }?;
         assert_eq!(mmap.len() as u64, self.len);
-        Ok(mmap_opt.insert(mmap))
+        Ok(mmap_opt.insert(Arc::new(mmap)))
     }
 }
 
@@ -660,8 +660,8 @@ where
                 let usize_length = to_usize_io(length)?;
                 let end =
                     usize::checked_add(start, usize_length).ok_or_else(make_to_usize_io_error)?;
-                let mut mutex_guard = file_clone.lock().unwrap();
-                let mmap = mutex_guard.get_mmap()?;
+                // The caller's function might use the same file, which can't be locked meanwhile.
+                let mmap = Arc::clone(file_clone.lock().unwrap().get_mmap()?);
                 Ok(f(&mmap[start..end]))
             }
             ZeroLength => Ok(f(&[])),
-- 
2.43.0

