From fe58ef4972d8453ba0f42edcec9b900720c8be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 01/22] fix: refuse hard links of directories before changing
 anything

---
 stable-fs/src/runtime/structure_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..dde333c 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -122,6 +122,11 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
@@ -161,11 +166,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From 8c6aacd6551f60673081829230a113b5d2ab35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 02/22] fix: linking or renaming a file onto itself must not
 remove it

---
 stable-fs/src/fs.rs                        | 19 +++++++++++++++++++
 stable-fs/src/runtime/structure_helpers.rs |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..31ca3ca 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -871,6 +871,25 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
+        let src_node = find_node(
+            src_dir.node,
+            old_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        )?;
+
+        let dst_node = find_node(
+            dst_dir.node,
+            new_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        );
+
+        // both names already refer to the same node, there is nothing to do
+        if dst_node == Ok(src_node) {
+            return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index dde333c..c3ae55c 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -129,6 +129,8 @@ pub fn create_hard_link(
 
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
+        // both names already refer to the same node, there is nothing to do
+        Ok(dst_node) if dst_node == src_node => return Ok(()),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
-- 
2.43.0


From 5c7e20365cb191a5f7657429009379c61e189c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 03/22] fix: free the node replaced by a rename or a hard link

---
 stable-fs/src/runtime/structure_helpers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index c3ae55c..0a55f47 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -150,7 +150,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (dst_node, dst_meta) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -159,6 +159,11 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            // the replaced node has no more links
+            if dst_meta.link_count == 0 {
+                storage.rm_file(dst_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
-- 
2.43.0


From ddcf9068714488376a05249fdc4859a67f48e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 04/22] fix: refuse moving a directory into itself

---
 stable-fs/src/fs.rs                        | 13 ++++++-
 stable-fs/src/runtime/structure_helpers.rs | 44 ++++++++++++++++++++++
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 31ca3ca..50c651d 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -7,7 +7,7 @@ use crate::{
         dir::Dir,
         fd::{FdEntry, FdTable, STDERR_FD},
         file::File,
-        structure_helpers::{create_hard_link, find_node, rm_dir_entry},
+        structure_helpers::{check_directory_move, create_hard_link, find_node, rm_dir_entry},
         types::{RIGHTS_FD_READ, RIGHTS_FD_WRITE},
     },
     storage::{
@@ -890,6 +890,17 @@ impl FileSystem {
             return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
         }
 
+        // a directory cannot be moved into itself, or into one of its subdirectories
+        if self.storage.get_metadata(src_node)?.file_type == FileType::Directory {
+            check_directory_move(
+                src_node,
+                old_path,
+                dst_dir.node,
+                new_path,
+                self.storage.as_ref(),
+            )?;
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 0a55f47..2c7bc95 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,50 @@ pub fn find_node(
     }
 }
 
+// Check that a directory is not being moved into itself, or into one of its subdirectories.
+pub fn check_directory_move(
+    src_node: Node,
+    src_path: &str,
+    dst_dir_node: Node,
+    dst_path: &str,
+    storage: &dyn Storage,
+) -> Result<(), Error> {
+    // the source path must name an entry, it cannot be the folder used as the starting point
+    if get_path_parts(src_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
+    // find the deepest existing folder of the destination path
+    let (mut parts, _must_be_dir) = get_path_parts(dst_path)?;
+    parts.pop();
+
+    let mut target = dst_dir_node;
+
+    for part in parts {
+        match find_entry_index(target, part.as_bytes(), storage) {
+            Ok(index) => target = storage.get_direntry(target, index)?.node,
+            Err(Error::NoSuchFileOrDirectory) => break,
+            Err(err) => return Err(err),
+        }
+    }
+
+    // there are no links to the parent folders, search for the target below the source folder
+    let mut pending = vec![src_node];
+
+    while let Some(node) = pending.pop() {
+        if node == target {
+            return Err(Error::InvalidArgument);
+        }
+
+        storage.with_direntries(node, Some(0), &mut |_index, entry| {
+            pending.push(entry.node);
+            true
+        });
+    }
+
+    Ok(())
+}
+
 // Create a hard link to an existing node
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
-- 
2.43.0


From bb49939f56362442f4861dcf929086f96d93d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 05/22] fix: refuse renaming a mounted file before creating the
 new link

---
 stable-fs/src/fs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 50c651d..7c4b295 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -890,6 +890,11 @@ impl FileSystem {
             return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
         }
 
+        // the old name of a file cannot be removed while the file is mounted
+        if self.storage.is_mounted(src_node) {
+            return Err(Error::TextFileBusy);
+        }
+
         // a directory cannot be moved into itself, or into one of its subdirectories
         if self.storage.get_metadata(src_node)?.file_type == FileType::Directory {
             check_directory_move(
-- 
2.43.0


From 346f709e91c913c3ffefa3425e88ae0f500b80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 06/22] fix: keep the link count of a mounted file and of its
 host file in step

---
 stable-fs/src/storage/stable.rs    | 28 ++++++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs | 11 +++++++++++
 2 files changed, 39 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..8ab978a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -757,6 +757,30 @@ impl<M: Memory> Storage for StableStorage<M> {
             &mut self.v2_filechunk,
         );
 
+        // links can be added to a mounted file, they belong to the host file as well
+        if is_mounted {
+            let host_meta = self.meta_provider.get_metadata(
+                node,
+                false,
+                &self.v2_filechunk.v2_chunk_ptr,
+                &self.v2_filechunk.v2_chunks,
+            );
+
+            if let Some((mut host_meta, host_ptr)) = host_meta
+                && host_meta.link_count != metadata.link_count
+            {
+                host_meta.link_count = metadata.link_count;
+
+                self.meta_provider.put_metadata(
+                    node,
+                    false,
+                    &host_meta,
+                    host_ptr,
+                    &mut self.v2_filechunk,
+                );
+            }
+        }
+
         Ok(())
     }
 
@@ -993,6 +1017,7 @@ impl<M: Memory> Storage for StableStorage<M> {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -1011,6 +1036,9 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         file_meta.size = new_size;
 
+        // the links could have changed since the last mount
+        file_meta.link_count = link_count;
+
         // update mounted metadata
         self.put_metadata(node, &file_meta)?;
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..dab1810 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -170,6 +170,13 @@ impl Storage for TransientStorage {
 
         meta_storage.insert(node, metadata.clone());
 
+        // links can be added to a mounted file, they belong to the host file as well
+        if self.is_mounted(node)
+            && let Some(host_meta) = self.metadata.get_mut(&node)
+        {
+            host_meta.link_count = metadata.link_count;
+        }
+
         Ok(())
     }
 
@@ -339,6 +346,7 @@ impl Storage for TransientStorage {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -357,6 +365,9 @@ impl Storage for TransientStorage {
 
         file_meta.size = new_size;
 
+        // the links could have changed since the last mount
+        file_meta.link_count = link_count;
+
         // update mounted metadata
         self.put_metadata(node, &file_meta)?;
 
-- 
2.43.0


From a3bbde1208d0e92006ebad605fd588f28d18a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 07/22] fix: shrinking a file must keep the data below the new
 size and not create chunks

---
 stable-fs/src/storage/stable.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 8ab978a..204eb14 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,13 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,8 +681,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
         }
 
-- 
2.43.0


From 8d8e69e509eff1370bad011a6736af9e832c630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 08/22] fix: shrinking a transient file must drop the data
 above the new size only

---
 stable-fs/src/storage/transient.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index dab1810..58613af 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -162,14 +162,22 @@ impl Storage for TransientStorage {
             &mut self.metadata
         };
 
+        let mut is_shrinking = false;
+
         if let Some(existing) = meta_storage.get(&node) {
             Self::validate_metadata_update(Some(existing), metadata)?;
+            is_shrinking = metadata.size < existing.size;
         } else {
             Self::validate_metadata_update(None, metadata)?;
         }
 
         meta_storage.insert(node, metadata.clone());
 
+        // if the size was reduced, we need to delete the data above the file size
+        if is_shrinking && !self.is_mounted(node) {
+            self.resize_file(node, metadata.size)?;
+        }
+
         // links can be added to a mounted file, they belong to the host file as well
         if self.is_mounted(node)
             && let Some(host_meta) = self.metadata.get_mut(&node)
@@ -291,7 +299,7 @@ impl Storage for TransientStorage {
 
         let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
 
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
 
         // delete v1 chunks
         let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
@@ -305,9 +313,13 @@ impl Storage for TransientStorage {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk(
                 node,
                 first_deletable_index - 1,
-- 
2.43.0


From 9ed87794b62d96ce089420c14cbe67da7713d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 09/22] fix: renumbering must not replace the root descriptor
 or break later opens

---
 stable-fs/src/runtime/fd.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..83b09b4 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -82,12 +82,19 @@ impl FdTable {
 
     // Open a new file descriptor.
     pub fn open(&mut self, entry: FdEntry) -> Fd {
-        let fd = match self.free_fds.pop() {
-            Some(fd) => fd,
-            None => {
-                let fd = self.next_fd;
-                self.next_fd += 1;
-                fd
+        let fd = loop {
+            let fd = match self.free_fds.pop() {
+                Some(fd) => fd,
+                None => {
+                    let fd = self.next_fd;
+                    self.next_fd += 1;
+                    fd
+                }
+            };
+
+            // the number could have been taken by renumbering
+            if !self.table.contains_key(&fd) {
+                break fd;
             }
         };
 
@@ -103,6 +110,11 @@ impl FdTable {
             return Ok(());
         }
 
+        // the root file descriptor cannot be replaced
+        if dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
-- 
2.43.0


From b48f4cbaed11843aaa99f1e85901eed681be8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 10/22] fix: refuse seeks whose target does not fit instead of
 overflowing

---
 stable-fs/src/runtime/file.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..0798fb3 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -51,7 +51,7 @@ impl File {
             }
             Whence::CUR => {
                 let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
+                    delta.unsigned_abs()
                 } else {
                     0
                 };
@@ -61,11 +61,13 @@ impl File {
                     // seeking before zero position
                     return Err(Error::InvalidArgument);
                 }
-                self.cursor + fwd - back
+                (self.cursor - back)
+                    .checked_add(fwd)
+                    .ok_or(Error::InvalidArgument)?
             }
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
-                if back > size {
+                let back: FileSize = delta.unsigned_abs();
+                if delta > 0 || back > size {
                     return Err(Error::InvalidSeek);
                 }
                 size - back
-- 
2.43.0


From e2bc72a17aaaaefefb59f3ca6859c6609336498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 11/22] fix: refuse sizes and writes above the maximum file
 size instead of overflowing

---
 stable-fs/src/storage/chunk_iterator.rs |  6 +++++-
 stable-fs/src/storage/ptr_cache.rs      |  4 ++--
 stable-fs/src/storage/stable.rs         | 11 +++++++++--
 stable-fs/src/storage/transient.rs      | 12 ++++++++++--
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..c4830ac 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -67,7 +67,11 @@ impl<M: Memory> Iterator for ChunkV2Iterator<'_, M> {
         );
 
         //
-        let found: CachedChunkPtr = self.ptr_cache.get((self.node, self.cur_index)).unwrap();
+        // (there is nothing to find above the maximum chunk index)
+        let found: CachedChunkPtr = self
+            .ptr_cache
+            .get((self.node, self.cur_index))
+            .unwrap_or(CachedChunkPtr::ChunkMissing);
 
         let res = Some(((self.node, self.cur_index), found));
 
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 204eb14..23161f6 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -614,6 +614,10 @@ impl<M: Memory> StableStorage<M> {
             return Err(Error::FileTooLarge);
         }
 
+        if new_meta.size > MAX_FILE_SIZE {
+            return Err(Error::FileTooLarge);
+        }
+
         Ok(())
     }
 
@@ -941,9 +945,12 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if offset + buf.len() as FileSize > max_size {
+        if offset.saturating_add(buf.len() as FileSize) > max_size {
             return Err(Error::FileTooLarge);
         }
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 58613af..57d64e0 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -111,6 +111,10 @@ impl TransientStorage {
             return Err(Error::FileTooLarge);
         }
 
+        if new_meta.size > MAX_FILE_SIZE {
+            return Err(Error::FileTooLarge);
+        }
+
         if let Some(old_meta) = old_meta
             && old_meta.node != new_meta.node
         {
@@ -479,7 +483,11 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let end = offset.saturating_add(buf.len() as FileSize);
+
+        if end > MAX_FILE_SIZE {
+            return Err(Error::FileTooLarge);
+        }
 
         if let Some(max_size) = metadata.maximum_size_allowed
             && end > max_size
-- 
2.43.0


From 774a073b9a0f65510f35c541b451ba1d020d4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 12/22] fix: continue a listing resumed from the dot entries
 with the real entries

---
 stable-fs/src/storage/stable.rs    | 10 ++++++++++
 stable-fs/src/storage/transient.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 23161f6..503fa07 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -869,8 +869,18 @@ impl<M: Memory> Storage for StableStorage<M> {
             return;
         }
 
+        // the dummy entries are followed by the first real entry
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index,
+        };
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for en in self
             .direntry
             .range((node, initial_index)..(node, max_index))
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 57d64e0..c6e3b37 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -595,8 +595,18 @@ impl Storage for TransientStorage {
             return;
         }
 
+        // the dummy entries are followed by the first real entry
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index,
+        };
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0


From 6694520dd91e30cc9fe9a1a7039ad99ee5a98908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 13/22] fix: refuse too long names before creating parent
 folders

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 2c7bc95..dd8ec01 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -292,6 +292,11 @@ pub fn create_path(
 ) -> Result<(Node, String), Error> {
     let (parts, _must_be_dir) = get_path_parts(path)?;
 
+    // check all names before creating anything
+    for part in &parts {
+        FileName::new(part.as_bytes())?;
+    }
+
     let mut parent_node = parent_node;
     let mut cur_node = parent_node;
 
-- 
2.43.0


From fae761b579834ac67c92869de8b36ac10d3f00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 14/22] fix: a failed mount must not leave the file mounted

---
 stable-fs/src/storage/stable.rs    | 9 +++++++--
 stable-fs/src/storage/transient.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 503fa07..2723674 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1067,9 +1067,14 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.link_count = link_count;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            // the node must not stay mounted
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index c6e3b37..d7f8b34 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -385,9 +385,14 @@ impl Storage for TransientStorage {
         file_meta.link_count = link_count;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            // the node must not stay mounted
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
-- 
2.43.0


From 9923914e7252627fbe2e56a2915fdf9cebf5fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 15/22] fix: a refused store of a mounted memory must not leave
 the file unmounted

---
 stable-fs/src/storage/stable.rs    | 11 +++++++++++
 stable-fs/src/storage/transient.rs | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 2723674..0a85be9 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1135,6 +1135,17 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the host file must be able to take the data, check it before changing anything
+        let max_size = self
+            .get_metadata(node)?
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE);
+
+        if file_size > max_size {
+            self.active_mounts.insert(node, memory);
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index d7f8b34..3251d20 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -453,6 +453,17 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the host file must be able to take the data, check it before changing anything
+        let max_size = self
+            .get_metadata(node)?
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE);
+
+        if file_size > max_size {
+            self.active_mounts.insert(node, memory);
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
-- 
2.43.0


From ecc46790434c87f90c3c2d1bd733f6c9892b2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 16/22] fix: truncating while opening for append must start at
 the beginning

---
 stable-fs/src/fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 7c4b295..ca2fb08 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -641,10 +641,12 @@ impl FileSystem {
                     return Err(Error::OperationNotPermitted);
                 }
 
-                let file = File::new(node, stat, self.storage.as_mut())?;
+                let mut file = File::new(node, stat, self.storage.as_mut())?;
 
                 if flags.contains(OpenFlags::TRUNCATE) {
                     file.truncate(self.storage.as_mut())?;
+                    // in the append mode the cursor was placed at the old end of the file
+                    file.cursor = 0;
                 }
 
                 let fd = self.fd_table.open(FdEntry::File(file));
-- 
2.43.0


From e323215f468dd0727c527d547c2ff26491162e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 17/22] fix: report an invalid destination path of a rename
 first

---
 stable-fs/src/fs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index ca2fb08..6b9e416 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -892,6 +892,13 @@ impl FileSystem {
             return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
         }
 
+        // an invalid destination is reported before anything else
+        if let Err(err) = dst_node
+            && err != Error::NoSuchFileOrDirectory
+        {
+            return Err(err);
+        }
+
         // the old name of a file cannot be removed while the file is mounted
         if self.storage.is_mounted(src_node) {
             return Err(Error::TextFileBusy);
-- 
2.43.0


From f57f775864424a841a5fc9c062afce644fc45044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 18/22] fix: reading close to the maximum file size must not
 wrap the chunk index

---
 stable-fs/src/storage/stable.rs    | 2 +-
 stable-fs/src/storage/transient.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 0a85be9..c2598af 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -437,7 +437,7 @@ impl<M: Memory> StableStorage<M> {
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
         let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+            .min(MAX_FILE_CHUNK_COUNT as FileSize) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 3251d20..485b9e3 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -236,7 +236,7 @@ impl Storage for TransientStorage {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
             let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+                .min(MAX_FILE_CHUNK_COUNT as FileSize) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
-- 
2.43.0


From 6c6c7a08370fa34c17a336e9a2142709a686b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 19/22] fix: transient storage must not accept a changed file
 type of a node

---
 stable-fs/src/storage/transient.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 485b9e3..eebe062 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -105,6 +105,18 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
+        if let Some(old_meta) = old_meta {
+            // do not allow changing file type
+            if old_meta.file_type != new_meta.file_type {
+                return Err(Error::FunctionNotSupported);
+            }
+
+            // changing node is not allowed
+            if old_meta.node != new_meta.node {
+                return Err(Error::IllegalByteSequence);
+            }
+        }
+
         if let Some(max_size) = new_meta.maximum_size_allowed
             && new_meta.size > max_size
         {
@@ -115,12 +127,6 @@ impl TransientStorage {
             return Err(Error::FileTooLarge);
         }
 
-        if let Some(old_meta) = old_meta
-            && old_meta.node != new_meta.node
-        {
-            return Err(Error::InvalidArgument);
-        }
-
         Ok(())
     }
 }
-- 
2.43.0


From b0edd7e8bdf3d88be2b73b7ec94196f158206039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 20/22] fix: a mount refused because of its size must not
 create the file

---
 stable-fs/src/fs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 6b9e416..04f5317 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -12,7 +12,9 @@ use crate::{
     },
     storage::{
         Storage,
-        types::{DirEntry, DirEntryIndex, FileType, Metadata, MountedFileSizePolicy, Node},
+        types::{
+            DirEntry, DirEntryIndex, FileType, MAX_FILE_SIZE, Metadata, MountedFileSizePolicy, Node,
+        },
     },
 };
 
@@ -189,6 +191,13 @@ impl FileSystem {
     ) -> Result<(), Error> {
         let filename = filename.strip_prefix('/').unwrap_or(filename);
 
+        // do not create a file that could not be mounted with the requested size
+        if policy.get_mounted_file_size(None, memory.size()) > MAX_FILE_SIZE
+            && let Err(Error::NoSuchFileOrDirectory) = self.open_metadata(self.root_fd, filename)
+        {
+            return Err(Error::FileTooLarge);
+        }
+
         // create a file for the mount
         let fd = self.open(
             self.root_fd,
-- 
2.43.0


From 12bbbc9ed816bf8abb2ba984234fee4934068d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 21/22] fix: refuse a memory range that ends before it starts
 also without overflow checks

---
 stable-fs/src/storage/stable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index c2598af..67f415e 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -154,7 +154,7 @@ impl<M: Memory> StableStorage<M> {
         memory_manager: &MemoryManager<M>,
         memory_indices: Range<u8>,
     ) -> StableStorage<M> {
-        if memory_indices.end - memory_indices.start < MEMORY_INDEX_COUNT {
+        if memory_indices.len() < MEMORY_INDEX_COUNT as usize {
             panic!("The memory index range must include at least {MEMORY_INDEX_COUNT} incides");
         }
 
-- 
2.43.0


From b47caf758e7d1e9ef78039944648610f69ec6075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 22/22] fix: remove directories recursively without recursive
 calls

remove_recursive called itself for every subdirectory, so a tree of about a
thousand nested directories (with the stack of 1 MB that a canister has)
overflowed the stack and could not be removed.
---
 stable-fs/src/fs.rs | 89 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 26 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 04f5317..a988c4c 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -24,6 +24,15 @@ pub use crate::runtime::types::{
 };
 pub use crate::storage::types::FileSize;
 
+// A directory that is being removed recursively.
+struct RemovedDir {
+    parent: Fd,
+    path: String,
+    dir_fd: Fd,
+    // the entries that are still to be removed
+    children: std::vec::IntoIter<(Node, String)>,
+}
+
 /// The main class implementing the API to work with the file system.
 pub struct FileSystem {
     pub(crate) root_fd: Fd,
@@ -800,45 +809,73 @@ impl FileSystem {
             return self.remove_file(parent, path);
         }
 
-        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
-        //    the path is interpreted as a directory (or fail if it doesn't exist).
-        let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+        // The directories being removed, from the outer to the inner one, each with the entries that
+        // are still to be removed (the tree can be deeper than what recursive calls could handle).
+        let mut levels = vec![self.start_removing_dir(parent, path.to_string())?];
+        let mut result = Ok(());
 
-        let result = (|| {
-            // Find all directory children
-            let children = self.list_dir_internal(dir_fd, None)?;
+        while let Some(level) = levels.last_mut() {
+            let dir_fd = level.dir_fd;
 
-            // For each child, figure out if it's a subdirectory or file and remove accordingly.
-            for (child_node, child_name) in children {
-                let child_meta = self.storage.get_metadata(child_node)?;
+            // stop removing entries after an error
+            let child = match result {
+                Ok(()) => level.children.next(),
+                Err(_) => None,
+            };
 
-                match child_meta.file_type {
-                    FileType::Directory => {
-                        // Recurse into the subdirectory.
-                        self.remove_recursive(dir_fd, &child_name)?;
+            // For each child, figure out if it's a subdirectory or file and remove accordingly.
+            if let Some((child_node, child_name)) = child {
+                let child_meta = self.storage.get_metadata(child_node);
+
+                result = match child_meta.map(|meta| meta.file_type) {
+                    Ok(FileType::Directory) => {
+                        // Continue with the entries of the subdirectory.
+                        self.start_removing_dir(dir_fd, child_name)
+                            .map(|child| levels.push(child))
                     }
-                    FileType::RegularFile => {
+                    Ok(FileType::RegularFile) => {
                         // Remove the file.
-                        self.remove_file(dir_fd, &child_name)?;
+                        self.remove_file(dir_fd, &child_name)
                     }
-                    FileType::SymbolicLink => {
+                    Ok(FileType::SymbolicLink) => {
                         unimplemented!("Symbolic links are not supported yet");
                     }
-                }
+                    Err(err) => Err(err),
+                };
+            } else if let Some(level) = levels.pop() {
+                // Close the folder itself before its deletion,
+                // now that it is empty, remove the directory entry from its parent.
+                result = self
+                    .close(level.dir_fd)
+                    .and_then(|_| self.remove_dir(level.parent, &level.path))
+                    .and(result);
             }
-
-            Ok(())
-        })();
-
-        // close the folder itself before its deletion
-        self.close(dir_fd)?;
-
-        // Now that it is empty, remove the directory entry from its parent.
-        self.remove_dir(parent, path)?;
+        }
 
         result
     }
 
+    // Open the directory that is being removed recursively, and find its entries.
+    fn start_removing_dir(&mut self, parent: Fd, path: String) -> Result<RemovedDir, Error> {
+        // Open the target directory. We use `OpenFlags::DIRECTORY` to ensure
+        //    the path is interpreted as a directory (or fail if it doesn't exist).
+        let dir_fd = self.open(parent, &path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
+
+        // Find all directory children
+        match self.list_dir_internal(dir_fd, None) {
+            Ok(children) => Ok(RemovedDir {
+                parent,
+                path,
+                dir_fd,
+                children: children.into_iter(),
+            }),
+            Err(err) => {
+                self.close(dir_fd)?;
+                Err(err)
+            }
+        }
+    }
+
     // Create a hard link to an existing file.
     pub fn create_hard_link(
         &mut self,
-- 
2.43.0

