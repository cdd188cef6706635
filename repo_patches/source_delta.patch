From 7b909ac9ffd36f08d2ffeee363d6ba3596057771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 01/32] Add md_recover_verif cfg: re-exports for external
 verification harnesses

---
 src/ext4/mod.rs | 31 +++++++++++++++++++++++++++++++
 src/main.rs     | 24 ++++++++++++++++++++++++
 src/md/mod.rs   | 23 +++++++++++++++++++++++
 3 files changed, 78 insertions(+)

diff --git a/src/ext4/mod.rs b/src/ext4/mod.rs
index 5dc78f6..8d7d0e2 100644
--- a/src/ext4/mod.rs
+++ b/src/ext4/mod.rs
@@ -14,3 +14,34 @@ mod units;
 pub use self::{
     directory::Ext4Directory, file::Ext4File, fs::Ext4Fs, regular_file::Ext4RegularFile,
 };
+
+#[cfg(md_recover_verif)]
+pub mod verif {
+    pub mod block_group {
+        pub use crate::ext4::block_group::*;
+    }
+
+    pub mod crc {
+        pub use crate::ext4::crc::*;
+    }
+
+    pub mod extent {
+        pub use crate::ext4::extent::*;
+    }
+
+    pub mod inode {
+        pub use crate::ext4::inode::*;
+    }
+
+    pub mod string {
+        pub use crate::ext4::string::*;
+    }
+
+    pub mod superblock {
+        pub use crate::ext4::superblock::*;
+    }
+
+    pub mod units {
+        pub use crate::ext4::units::*;
+    }
+}
diff --git a/src/main.rs b/src/main.rs
index c260d95..67451f8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code, clippy::module_inception)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate arrayref;
@@ -17,6 +18,29 @@ mod ext4;
 mod ioctl;
 mod md;
 
+/// Re-exports for out-of-tree runtime verification harnesses, which compile
+/// this crate as a library with `--cfg md_recover_verif`.
+#[cfg(md_recover_verif)]
+pub mod verif {
+    pub mod block_device {
+        pub use crate::block_device::*;
+    }
+
+    pub mod ext {
+        pub use crate::ext::*;
+    }
+
+    pub mod ext4 {
+        pub use crate::ext4::verif::*;
+        pub use crate::ext4::*;
+    }
+
+    pub mod md {
+        pub use crate::md::verif::*;
+        pub use crate::md::*;
+    }
+}
+
 #[derive(Parser, Debug)]
 #[command(author, version, about)]
 struct Options {
diff --git a/src/md/mod.rs b/src/md/mod.rs
index 6c71e93..11b142a 100644
--- a/src/md/mod.rs
+++ b/src/md/mod.rs
@@ -14,3 +14,26 @@ pub use self::{
     array::MdArray,
     device::{MdDevice, MdDeviceId, MdDeviceSuperblock},
 };
+
+#[cfg(md_recover_verif)]
+pub mod verif {
+    pub mod algorithm {
+        pub use crate::md::algorithm::*;
+    }
+
+    pub mod diagnosis {
+        pub use crate::md::diagnosis::*;
+    }
+
+    pub mod raid5 {
+        pub use crate::md::raid5::*;
+    }
+
+    pub mod raid6 {
+        pub use crate::md::raid6::*;
+    }
+
+    pub mod units {
+        pub use crate::md::units::*;
+    }
+}
-- 
2.43.0


From 44f9624212594d7fd8d7ff7235086268cc4d4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 02/32] fix: MdArray::read_block panicked when the buffer was
 larger than a sector

---
 src/md/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index a93a272..d18b85e 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -168,7 +168,7 @@ where
                 Ok(512)
             },
         )?;
-        buf.copy_from_slice(&block);
+        buf[..512].copy_from_slice(&block);
         Ok(512)
     }
 
-- 
2.43.0


From fc9d4790951ca79ad934e3e491c386df7c484fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 03/32] fix: MdArray::read_block ignored the members' data
 offsets

---
 src/md/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index d18b85e..ef61e6c 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -158,10 +158,16 @@ where
                     .ok_or(io::ErrorKind::InvalidInput)?
                     .as_ref()
                     .try_clone()?;
+                let data_offset = device
+                    .superblock
+                    .as_option()
+                    .map(|superblock| superblock.data_offset())
+                    .ok_or(io::ErrorKind::InvalidData)?;
                 let mut reader = BlockDeviceReader::new(device);
                 reader.seek(SeekFrom::Start(
-                    u64::from(sector_number)
-                        .checked_mul(512)
+                    u64::from(data_offset)
+                        .checked_add(u64::from(sector_number))
+                        .and_then(|sector_number| sector_number.checked_mul(512))
                         .ok_or(io::ErrorKind::InvalidInput)?,
                 ))?;
                 reader.read_exact(&mut buf[..512])?;
-- 
2.43.0


From 91e9149408d69c82319a868181e689139f923117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 04/32] fix: version 0.90 superblocks always reported a reshape
 in progress

---
 src/md/superblock/version_0/superblock.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index dbab112..6190e7e 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -138,7 +138,12 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn reshape_status(&self) -> Option<ReshapeStatus> {
-        Some(self.reshape_status.clone())
+        // Reshape information is only present since version 0.91.
+        if self.minor_version >= 91 {
+            Some(self.reshape_status.clone())
+        } else {
+            None
+        }
     }
 
     fn data_offset(&self) -> SectorNumber {
-- 
2.43.0


From 7ee3e86c8ca4d44c3add66174689e39a3c590c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 05/32] fix: version 0.90 chunk sizes and device sizes were
 read in the wrong units

---
 src/md/superblock/version_0/superblock.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/md/superblock/version_0/superblock.rs b/src/md/superblock/version_0/superblock.rs
index 6190e7e..ac35ec2 100644
--- a/src/md/superblock/version_0/superblock.rs
+++ b/src/md/superblock/version_0/superblock.rs
@@ -126,11 +126,13 @@ impl Superblock for SuperblockVersion0 {
     }
 
     fn sectors_per_device(&self) -> SectorCount<u64> {
-        self.sectors_per_device.into()
+        // The on-disk value is in KiB.
+        SectorCount(u64::from(self.sectors_per_device) * 2)
     }
 
     fn chunk_size(&self) -> SectorCount<u32> {
-        self.chunk_size
+        // The on-disk value is in bytes.
+        SectorCount(u32::from(self.chunk_size) >> 9)
     }
 
     fn raid_device_count(&self) -> DeviceCount {
@@ -140,7 +142,11 @@ impl Superblock for SuperblockVersion0 {
     fn reshape_status(&self) -> Option<ReshapeStatus> {
         // Reshape information is only present since version 0.91.
         if self.minor_version >= 91 {
-            Some(self.reshape_status.clone())
+            Some(ReshapeStatus {
+                // The on-disk value is in bytes.
+                new_chunk_size: SectorCount(u32::from(self.reshape_status.new_chunk_size) >> 9),
+                ..self.reshape_status.clone()
+            })
         } else {
             None
         }
-- 
2.43.0


From f4ad3993b13380fe6b4df6e366eff101bae9fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 06/32] fix: MdDeviceRole::is_valid rejected the largest device
 position

---
 src/md/superblock/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md/superblock/role.rs b/src/md/superblock/role.rs
index 57223cf..ca87173 100644
--- a/src/md/superblock/role.rs
+++ b/src/md/superblock/role.rs
@@ -16,7 +16,7 @@ impl MdDeviceRole {
     }
 
     pub fn is_valid(&self) -> bool {
-        !(Self::MAX_POSITION..Self::JOURNAL).contains(&self.0)
+        !self.is_invalid()
     }
 
     pub fn device_number(&self) -> Option<DeviceNumber> {
-- 
2.43.0


From e482f5a8c15d7463fa6208475b24dda1dc0e3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 07/32] fix: MdArray::read_block did not reject sectors beyond
 the end of the array

---
 src/md/array.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/md/array.rs b/src/md/array.rs
index ef61e6c..32b5074 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -142,6 +142,13 @@ where
             .or(self.definition.format.as_ref())
             .ok_or(io::ErrorKind::InvalidData)?;
 
+        if format
+            .data_sector_count()
+            .is_some_and(|sector_count| block_number >= sector_count.as_block_count())
+        {
+            Err(io::ErrorKind::InvalidInput)?;
+        }
+
         let block = format.algorithm.read_sector(
             SectorNumber::from_block_number(block_number),
             format.chunk_size,
-- 
2.43.0


From 2e26640c812f8b61be6f50bba34e1720959b5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 08/32] fix: InMemoryBlockDevice::read_block panicked beyond
 the end or when the buffer was larger than a block

---
 src/block_device/in_memory.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/block_device/in_memory.rs b/src/block_device/in_memory.rs
index d4bac11..8a4f262 100644
--- a/src/block_device/in_memory.rs
+++ b/src/block_device/in_memory.rs
@@ -41,8 +41,13 @@ impl BlockDevice for InMemoryBlockDevice {
                     .ok_or(io::ErrorKind::InvalidInput)?,
             )
             .or(Err(io::Error::from(io::ErrorKind::InvalidInput)))?;
-            buf.copy_from_slice(&self.mem[offset..][..usize::from(self.block_size)]);
-            Ok(usize::from(self.block_size))
+            let block = self
+                .mem
+                .get(offset..)
+                .and_then(|mem| mem.get(..usize::from(self.block_size)))
+                .ok_or(io::ErrorKind::UnexpectedEof)?;
+            buf[..block.len()].copy_from_slice(block);
+            Ok(block.len())
         }
     }
 
-- 
2.43.0


From 32fc038b33c7a743274f914de4bfafaf9c79222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 09/32] fix: an extent of the maximum length of 32768 blocks
 was read as empty

---
 src/ext4/extent/extent.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ext4/extent/extent.rs b/src/ext4/extent/extent.rs
index 9eda2d8..7880f2a 100644
--- a/src/ext4/extent/extent.rs
+++ b/src/ext4/extent/extent.rs
@@ -12,6 +12,8 @@ binary_layout!(layout, LittleEndian, {
 pub struct Extent<S: AsRef<[u8]>>(layout::View<S>);
 
 impl<S: AsRef<[u8]>> Extent<S> {
+    const MAX_INITIALIZED_LENGTH: u16 = 0x8000;
+
     pub fn new(storage: S) -> Self {
         Self(layout::View::new(storage))
     }
@@ -21,11 +23,16 @@ impl<S: AsRef<[u8]>> Extent<S> {
     }
 
     pub fn initialized(&self) -> bool {
-        self.0.length().read() & 0x8000 != 0x8000
+        self.0.length().read() <= Self::MAX_INITIALIZED_LENGTH
     }
 
     pub fn length(&self) -> BlockCount<u16> {
-        BlockCount(self.0.length().read() & 0x7fff)
+        let length = self.0.length().read();
+        BlockCount(if self.initialized() {
+            length
+        } else {
+            length - Self::MAX_INITIALIZED_LENGTH
+        })
     }
 
     pub fn first_fs_block_number(&self) -> FsBlockNumber {
-- 
2.43.0


From 6e43982119bffcd5dc685fc9e03578f6c9ac1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 10/32] fix: unwritten extents were read as the old contents of
 their blocks instead of zeros

---
 src/ext4/file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 952b390..2f5cb9b 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -135,8 +135,12 @@ where
                             return Err(io::ErrorKind::InvalidData.into());
                         }
 
-                        self.fs
-                            .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        if extent.initialized() {
+                            self.fs
+                                .read_block(extent.first_fs_block_number() + pos, buf)?;
+                        } else {
+                            buf[..self.fs.block_size()].fill(0);
+                        }
                         let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)
                             .unwrap_or(usize::MAX)
                             .clamp(0, self.fs.block_size());
-- 
2.43.0


From cb20f70f6e4a6e7295c6cc09ff237f733db5f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 11/32] fix: Ext4Fs::read_block read as much as the buffer
 holds instead of one block

---
 src/ext4/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 3b5321f..d3b80bf 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -113,7 +113,8 @@ where
         block_number: FsBlockNumber,
         buf: &mut [u8],
     ) -> io::Result<()> {
-        if buf.len() < self.block_size() {
+        let block_size = self.block_size();
+        if buf.len() < block_size {
             Err(io::ErrorKind::InvalidInput.into())
         } else {
             self.device.seek(SeekFrom::Start(
@@ -121,7 +122,7 @@ where
                     .checked_mul(self.superblock.block_size_bytes())
                     .ok_or(io::ErrorKind::InvalidInput)?,
             ))?;
-            self.device.read_exact(buf)?;
+            self.device.read_exact(&mut buf[..block_size])?;
             Ok(())
         }
     }
-- 
2.43.0


From b0a5b57aa110c702ad2f3562711c75f68c302bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 12/32] fix: files with blocks allocated beyond their end could
 not be read to the end

---
 src/ext4/file.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 2f5cb9b..183396f 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -83,15 +83,13 @@ where
             return Err(io::ErrorKind::InvalidInput.into());
         }
 
+        if self.byte_pos >= self.file_size_bytes() {
+            return Ok(0);
+        }
+
         loop {
             match self.read_stack.pop() {
-                None => {
-                    return if self.byte_pos == self.file_size_bytes() {
-                        Ok(0)
-                    } else {
-                        Err(io::ErrorKind::UnexpectedEof.into())
-                    }
-                }
+                None => return Err(io::ErrorKind::UnexpectedEof.into()),
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
                         match tree {
@@ -131,10 +129,6 @@ where
                 }
                 Some(ReadStackEntry::Extent { extent, pos }) => {
                     if pos < extent.length() {
-                        if self.byte_pos >= self.file_size_bytes() {
-                            return Err(io::ErrorKind::InvalidData.into());
-                        }
-
                         if extent.initialized() {
                             self.fs
                                 .read_block(extent.first_fs_block_number() + pos, buf)?;
-- 
2.43.0


From 3985e9c3adef0e083061b3245b24774b3a774f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 13/32] fix: inodes with more extra fields than known, or
 smaller than 128 bytes, caused a panic

---
 src/ext4/fs.rs          |  1 +
 src/ext4/inode/inode.rs | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index d3b80bf..91acd6e 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -37,6 +37,7 @@ where
         if blocks_per_group == 0
             || group_size == 0
             || superblock.inodes_per_group() == InodeCount(0)
+            || superblock.inode_size() < 128
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
                 .incompatible_features()
diff --git a/src/ext4/inode/inode.rs b/src/ext4/inode/inode.rs
index d5b5887..8da952b 100644
--- a/src/ext4/inode/inode.rs
+++ b/src/ext4/inode/inode.rs
@@ -55,15 +55,16 @@ impl Inode {
         buffer: impl AsRef<[u8]>,
     ) -> Self {
         let storage = {
-            let source_length = layout::extra_isize::OFFSET
-                + (if buffer.as_ref().len()
-                    > layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
-                {
-                    usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
-                } else {
-                    0
-                })
-                .clamp(0, layout::SIZE.unwrap());
+            let extra_length = if buffer.as_ref().len()
+                >= layout::extra_isize::OFFSET + layout::extra_isize::SIZE.unwrap()
+            {
+                usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())
+            } else {
+                0
+            };
+            let source_length = (layout::extra_isize::OFFSET + extra_length)
+                .min(buffer.as_ref().len())
+                .min(layout::SIZE.unwrap());
 
             let mut storage = [0u8; layout::SIZE.unwrap()];
             storage[..source_length].copy_from_slice(&buffer.as_ref()[..source_length]);
-- 
2.43.0


From d73e584153a995376f5649b33c425101a06aea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 14/32] fix: directory entry names included bytes of the record
 beyond the name's length

---
 src/ext4/directory/dir_entry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 2c293e4..c673860 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -31,7 +31,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
-        Ext4String::from_null_terminated_bytes(self.view().into_name().into_slice())
+        let name_length = usize::from(self.view().name_length().read());
+        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
-- 
2.43.0


From 4897db0be0dab9493a888c58263a36831eaff063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 15/32] fix: directory listings included unused entries

---
 src/ext4/directory/directory.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/directory.rs b/src/ext4/directory/directory.rs
index 57b5d0e..67c907e 100644
--- a/src/ext4/directory/directory.rs
+++ b/src/ext4/directory/directory.rs
@@ -3,6 +3,7 @@ use crate::ext4::directory::block::Ext4DirectoryBlock;
 use crate::ext4::directory::dir_entry::DirEntry;
 use crate::ext4::file::Ext4FileInternal;
 use crate::ext4::inode::Inode;
+use crate::ext4::units::InodeNumber;
 use crate::ext4::{inode, Ext4Fs};
 use std::io;
 use std::io::{Read, Seek};
@@ -46,7 +47,9 @@ where
 
         while let CurrentBlock::Block(block) = &mut self.current_block {
             if let Some(entry) = block.read_next_entry() {
-                return Ok(Some(entry.to_owned()));
+                if entry.inode() != InodeNumber(0) {
+                    return Ok(Some(entry.to_owned()));
+                }
             } else {
                 self.current_block = match self.read_next_block()? {
                     Some(block) => CurrentBlock::Block(block),
-- 
2.43.0


From faf316901f11804eb162f70324f5428ebba8076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 16/32] fix: Ext4Fs::open panicked on impossible group sizes
 and counts

---
 src/ext4/fs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 91acd6e..0e73227 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,12 +30,10 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_count = usize::try_from(u64::from(block_count).div_ceil(blocks_per_group))
-            .or(Err(io::ErrorKind::Unsupported))?;
         let group_size = usize::from(superblock.group_descriptor_size());
 
         if blocks_per_group == 0
-            || group_size == 0
+            || group_size < 32
             || superblock.inodes_per_group() == InodeCount(0)
             || superblock.inode_size() < 128
             || superblock.creator_os() != CreatorOs::Linux
@@ -47,11 +45,14 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
+        let group_count = u64::from(block_count).div_ceil(blocks_per_group);
         let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
         device.seek(SeekFrom::Start(
-            group_descriptors_block_number * superblock.block_size_bytes(),
+            group_descriptors_block_number
+                .checked_mul(superblock.block_size_bytes())
+                .ok_or(io::ErrorKind::InvalidData)?,
         ))?;
-        let mut group_descriptors = Vec::with_capacity(group_count);
+        let mut group_descriptors = Vec::new();
         for _ in 0..group_count {
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
-- 
2.43.0


From 77521ac05346ec920d38e1cfa99e6ff926623bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 17/32] fix: ext4 superblocks with impossibly large block sizes
 were accepted, exhausting memory

---
 src/ext4/superblock/superblock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index c667dfb..c156108 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -142,7 +142,8 @@ impl<S: AsRef<[u8]>> Superblock<S> {
     }
 
     pub fn valid_block_size(&self) -> bool {
-        self.view().into_log_block_size().read() < 53
+        // Blocks are at most 64 KiB.
+        self.view().into_log_block_size().read() <= 6
     }
 
     pub fn valid_cluster_size(&self) -> bool {
-- 
2.43.0


From eef4e7116f47d3feaabc566601ebea9d639fc368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 18/32] fix: file systems without 64-bit support were refused
 or their group descriptors misread

---
 src/ext4/fs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 0e73227..f8cbfbf 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -30,7 +30,15 @@ where
 
         let block_count = superblock.blocks_count();
         let blocks_per_group = u64::from(superblock.blocks_per_group());
-        let group_size = usize::from(superblock.group_descriptor_size());
+        // The size field only counts with the 64-bit feature.
+        let group_size = if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::IS_64_BIT)
+        {
+            usize::from(superblock.group_descriptor_size())
+        } else {
+            32
+        };
 
         if blocks_per_group == 0
             || group_size < 32
-- 
2.43.0


From 83d3d086c3c8e430710fbb679ecc99c516bf9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 19/32] fix: group descriptors of file systems with meta block
 groups, or with 1 KiB blocks in clusters, were read from the wrong place

---
 src/ext4/fs.rs                    | 57 ++++++++++++++++++++++++++-----
 src/ext4/superblock/superblock.rs | 27 +++++++++++++++
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index f8cbfbf..acc1c27 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -41,7 +41,8 @@ where
         };
 
         if blocks_per_group == 0
-            || group_size < 32
+            || !group_size.is_power_of_two()
+            || !(32..=1024).contains(&group_size)
             || superblock.inodes_per_group() == InodeCount(0)
             || superblock.inode_size() < 128
             || superblock.creator_os() != CreatorOs::Linux
@@ -53,15 +54,15 @@ where
             return Err(io::ErrorKind::Unsupported.into());
         }
 
-        let group_count = u64::from(block_count).div_ceil(blocks_per_group);
-        let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;
-        device.seek(SeekFrom::Start(
-            group_descriptors_block_number
-                .checked_mul(superblock.block_size_bytes())
-                .ok_or(io::ErrorKind::InvalidData)?,
-        ))?;
+        let group_count = u64::from(block_count)
+            .saturating_sub(u64::from(superblock.first_data_block()))
+            .div_ceil(blocks_per_group);
         let mut group_descriptors = Vec::new();
-        for _ in 0..group_count {
+        for group_index in 0..group_count {
+            device.seek(SeekFrom::Start(
+                Self::group_descriptor_offset(&superblock, group_index, group_size)
+                    .ok_or(io::ErrorKind::InvalidData)?,
+            ))?;
             let mut buf = vec![0u8; group_size];
             device.read_exact(&mut buf)?;
             group_descriptors.push(BlockGroupDescriptor::new(buf))
@@ -74,6 +75,44 @@ where
         })
     }
 
+    fn group_descriptor_offset(
+        superblock: &Superblock<Vec<u8>>,
+        group_index: u64,
+        group_size: usize,
+    ) -> Option<u64> {
+        let block_size = superblock.block_size_bytes();
+        let group_size = u64::try_from(group_size).ok()?;
+        let descriptors_per_block = block_size / group_size;
+        let table_index = group_index / descriptors_per_block;
+        let superblock_block_number = 1024 / block_size;
+
+        let block_number = if superblock
+            .incompatible_features()
+            .contains(IncompatibleFeatures::HAS_META_BLOCK_GROUPS)
+            && table_index >= u64::from(superblock.first_meta_block_group())
+        {
+            // Each meta block group holds its own descriptors, in its first
+            // block group, after the backup of the superblock if there is one.
+            let first_group_index = table_index * descriptors_per_block;
+            let first_block_number = u64::from(superblock.first_data_block()).checked_add(
+                first_group_index.checked_mul(superblock.blocks_per_group().into())?,
+            )?;
+            if first_group_index == 0 {
+                superblock_block_number.max(first_block_number) + 1
+            } else if superblock.block_group_has_superblock(first_group_index) {
+                first_block_number.checked_add(1)?
+            } else {
+                first_block_number
+            }
+        } else {
+            (superblock_block_number + 1).checked_add(table_index)?
+        };
+
+        block_number
+            .checked_mul(block_size)?
+            .checked_add(group_index % descriptors_per_block * group_size)
+    }
+
     pub fn block_size(&self) -> usize {
         usize::try_from(self.superblock.block_size_bytes()).unwrap()
     }
diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index c156108..530475d 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -587,6 +587,33 @@ impl<S: AsRef<[u8]>> Superblock<S> {
         ]
     }
 
+    pub fn block_group_has_superblock(&self, group_index: u64) -> bool {
+        fn is_power_of(mut value: u64, base: u64) -> bool {
+            while value > 1 && value % base == 0 {
+                value /= base;
+            }
+            value == 1
+        }
+
+        if group_index == 0 {
+            true
+        } else if self
+            .compatible_features()
+            .contains(CompatibleFeatures::SPARSE_SUPERBLOCK_V2)
+        {
+            self.superblock_backup_block_groups()
+                .map(u64::from)
+                .contains(&group_index)
+        } else if self
+            .read_only_compatible_features()
+            .contains(ReadOnlyCompatibleFeatures::SPARSE_SUPERBLOCKS)
+        {
+            [3, 5, 7].iter().any(|base| is_power_of(group_index, *base))
+        } else {
+            true
+        }
+    }
+
     pub fn encryption_algorithms(&self) -> Vec<EncryptionAlgorithm> {
         self.view()
             .into_encryption_algorithms()
-- 
2.43.0


From 14c2a8d90cafae3eb07576cae7e49f4dfdf6738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 20/32] fix: extent tree blocks were read without checking
 their checksums, structure and depth

---
 src/ext4/extent/tree.rs | 19 +++++++++++++++----
 src/ext4/file.rs        | 17 ++++++++++++++++-
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/ext4/extent/tree.rs b/src/ext4/extent/tree.rs
index 30198e2..b61ed87 100644
--- a/src/ext4/extent/tree.rs
+++ b/src/ext4/extent/tree.rs
@@ -54,6 +54,13 @@ impl<S: AsRef<[u8]>> ExtentTree<S> {
         }
     }
 
+    pub fn depth(&self) -> u16 {
+        match self {
+            ExtentTree::Branch(branch) => branch.0.depth(),
+            ExtentTree::Leaf(leaf) => leaf.0.depth(),
+        }
+    }
+
     pub fn to_owned(&self) -> ExtentTree<Vec<u8>> {
         match self {
             ExtentTree::Branch(branch) => ExtentTree::Branch(branch.to_owned()),
@@ -206,14 +213,18 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             return false;
         }
 
-        let entries_size = self.entries_size();
+        if self.entry_count() > self.max_entries() {
+            return false;
+        }
+
+        let max_entries_size = self.max_entries() * index::layout::SIZE.unwrap();
 
         let tail_size = match self.checksum_seed {
             Some(_) => tail::layout::SIZE.unwrap(),
             None => 0,
         };
 
-        if self.view().entries_and_tail().as_ref().len() < entries_size + tail_size {
+        if self.view().entries_and_tail().as_ref().len() < max_entries_size + tail_size {
             return false;
         }
 
@@ -222,10 +233,10 @@ impl<S: AsRef<[u8]>> ExtentTreeInternal<S> {
             Some(checksum_seed) => {
                 let expected_checksum = ext4_crc32c(
                     checksum_seed,
-                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + entries_size],
+                    &self.storage.as_ref()[..layout::entries_and_tail::OFFSET + max_entries_size],
                 );
 
-                tail::layout::View::new(&self.view().entries_and_tail()[entries_size..])
+                tail::layout::View::new(&self.view().entries_and_tail()[max_entries_size..])
                     .checksum()
                     .read()
                     == expected_checksum
diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index 183396f..c43d207 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -56,11 +56,17 @@ impl<D> Ext4FileInternal<D>
 where
     D: BlockDevice + Read + Seek,
 {
+    const MAX_EXTENT_TREE_DEPTH: u16 = 5;
+
     pub(super) fn open(fs: Ext4Fs<D>, inode: Inode) -> io::Result<Self> {
         let tree = ExtentTree::from_inode(&inode)
             .ok_or(io::ErrorKind::Unsupported)?
             .to_owned();
 
+        if !tree.valid() || tree.depth() > Self::MAX_EXTENT_TREE_DEPTH {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+
         Ok(Self {
             fs,
             inode,
@@ -92,6 +98,7 @@ where
                 None => return Err(io::ErrorKind::UnexpectedEof.into()),
                 Some(ReadStackEntry::Tree { tree, pos }) => {
                     if pos < tree.entry_count() {
+                        let depth = tree.depth();
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
@@ -101,6 +108,12 @@ where
                                 let mut subtree_block = vec![0; self.fs.block_size()];
                                 self.fs.read_block(index.leaf(), &mut subtree_block)?;
                                 let subtree = ExtentTree::from_block(&self.inode, subtree_block);
+                                if !subtree.valid()
+                                    || subtree.depth() != depth - 1
+                                    || subtree.entry_count() == 0
+                                {
+                                    return Err(io::ErrorKind::InvalidData.into());
+                                }
                                 self.read_stack.push(ReadStackEntry::Tree {
                                     tree: ExtentTree::Branch(branch),
                                     pos: pos + 1,
@@ -112,7 +125,9 @@ where
                             }
                             ExtentTree::Leaf(leaf) => {
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
-                                if extent.first_file_block_number() != self.block_pos {
+                                if extent.first_file_block_number() != self.block_pos
+                                    || extent.length() == BlockCount(0)
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 self.read_stack.push(ReadStackEntry::Tree {
-- 
2.43.0


From 908aad988e21bee1d4be4f418a627cd7d14162b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 21/32] fix: directory listings silently skipped the rest of a
 block after a malformed record

---
 src/ext4/directory/block.rs     |  5 +++++
 src/ext4/directory/dir_entry.rs | 11 +++++++++--
 src/ext4/directory/directory.rs |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ext4/directory/block.rs b/src/ext4/directory/block.rs
index 05b4f47..1dfec8a 100644
--- a/src/ext4/directory/block.rs
+++ b/src/ext4/directory/block.rs
@@ -51,6 +51,11 @@ impl<S: AsRef<[u8]>> Ext4DirectoryBlock<S> {
         self.pos = rest.as_ptr() as usize - self.storage.as_ref().as_ptr() as usize;
         entry
     }
+
+    /// Whether every record of the block has been read.
+    pub fn finished(&self) -> bool {
+        self.pos >= self.len
+    }
 }
 
 #[cfg(test)]
diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index c673860..45f2ce0 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -18,9 +18,16 @@ impl<'buf> DirEntry<&'buf [u8]> {
     pub(super) fn from_buf(buf: &'buf [u8]) -> (Option<Self>, &'buf [u8]) {
         if buf.len() >= layout::name::OFFSET {
             let view = layout::View::new(buf);
-            let record_length = usize::from(view.record_length().read());
+            let record_length = match view.record_length().read() {
+                // A record that spans a 64 KiB block.
+                0 | u16::MAX if buf.len() == 0x10000 => buf.len(),
+                record_length => usize::from(record_length),
+            };
             let name_length = usize::from(view.name_length().read());
-            if record_length <= buf.len() && record_length >= (layout::name::OFFSET + name_length) {
+            if record_length <= buf.len()
+                && record_length % 4 == 0
+                && record_length >= (layout::name::OFFSET + name_length)
+            {
                 return (Some(Self(&buf[..record_length])), &buf[record_length..]);
             }
         }
diff --git a/src/ext4/directory/directory.rs b/src/ext4/directory/directory.rs
index 67c907e..daeba47 100644
--- a/src/ext4/directory/directory.rs
+++ b/src/ext4/directory/directory.rs
@@ -50,6 +50,8 @@ where
                 if entry.inode() != InodeNumber(0) {
                     return Ok(Some(entry.to_owned()));
                 }
+            } else if !block.finished() {
+                return Err(io::ErrorKind::InvalidData.into());
             } else {
                 self.current_block = match self.read_next_block()? {
                     Some(block) => CurrentBlock::Block(block),
-- 
2.43.0


From 4ae061dff914b5812d2f656a560dfa082f305abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 22/32] fix: superblocks of file systems with metadata
 checksums were accepted unchecked if their checksum type was damaged

---
 src/ext4/superblock/superblock.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ext4/superblock/superblock.rs b/src/ext4/superblock/superblock.rs
index 530475d..6146b02 100644
--- a/src/ext4/superblock/superblock.rs
+++ b/src/ext4/superblock/superblock.rs
@@ -170,7 +170,9 @@ impl<S: AsRef<[u8]>> Superblock<S> {
 
     pub fn valid_checksum(&self) -> bool {
         match self.checksum() {
-            Checksum::None => true,
+            Checksum::None => !self
+                .read_only_compatible_features()
+                .contains(ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS),
             Checksum::Crc32c(checksum) => checksum == self.expected_checksum(),
             Checksum::Unknown(_, _) => false,
         }
-- 
2.43.0


From c10e733c2b51b935cdfde2a4328a6999a305b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 23/32] fix: ext4 file systems with impossible inode sizes were
 opened

---
 src/ext4/fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index acc1c27..5c8c7b5 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -45,6 +45,8 @@ where
             || !(32..=1024).contains(&group_size)
             || superblock.inodes_per_group() == InodeCount(0)
             || superblock.inode_size() < 128
+            || !superblock.inode_size().is_power_of_two()
+            || u64::from(superblock.inode_size()) > superblock.block_size_bytes()
             || superblock.creator_os() != CreatorOs::Linux
             || !superblock
                 .incompatible_features()
-- 
2.43.0


From 2200bbcabf06255ddf0a95427ff3d12a4491da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 24/32] fix: a damaged number or size of block groups made
 Ext4Fs::open read as many group descriptors as the device holds

---
 src/ext4/fs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 5c8c7b5..6185c58 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -59,6 +59,15 @@ where
         let group_count = u64::from(block_count)
             .saturating_sub(u64::from(superblock.first_data_block()))
             .div_ceil(blocks_per_group);
+
+        // Every group has its inodes: a damaged size must not make more groups
+        // than the file system has.
+        if group_count.checked_mul(u32::from(superblock.inodes_per_group()).into())
+            != Some(u32::from(superblock.inodes_count()).into())
+        {
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+
         let mut group_descriptors = Vec::new();
         for group_index in 0..group_count {
             device.seek(SeekFrom::Start(
-- 
2.43.0


From 16c3811150cecfa8c5f36cfd5abae931261d59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 25/32] fix: devices that could not be read were reported as
 having no md superblock

---
 src/md/device/device.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/md/device/device.rs b/src/md/device/device.rs
index 09279da..9ef61ed 100644
--- a/src/md/device/device.rs
+++ b/src/md/device/device.rs
@@ -55,28 +55,44 @@ where
             });
         }
 
+        let mut read_error = None;
+
         for (minor_version, offset) in [(2, 8 << 9), (1, 0), (0, (((size >> 9) - 16) & !7) << 9)] {
             device.seek(SeekFrom::Start(offset))?;
-            if let Ok(superblock) = SuperblockVersion1::read(&mut device, minor_version) {
-                return Ok(Self {
-                    id,
-                    superblock: Rc::new(MdDeviceSuperblock::Superblock(Box::new(superblock))),
-                    device,
-                });
+            match SuperblockVersion1::read(&mut device, minor_version) {
+                Ok(superblock) => {
+                    return Ok(Self {
+                        id,
+                        superblock: Rc::new(MdDeviceSuperblock::Superblock(Box::new(superblock))),
+                        device,
+                    });
+                }
+                Err(err) if err.kind() == io::ErrorKind::InvalidData => {}
+                Err(err) => read_error = Some(err),
             }
         }
 
         if size >= Self::MIN_SUPERBLOCK_0_DEVICE_SIZE {
             device.seek(SeekFrom::Start((size & !65535) - 65536))?;
-            if let Ok(superblock) = SuperblockVersion0::read(&mut device) {
-                return Ok(Self {
-                    id,
-                    superblock: Rc::new(MdDeviceSuperblock::Superblock(Box::new(superblock))),
-                    device,
-                });
+            match SuperblockVersion0::read(&mut device) {
+                Ok(superblock) => {
+                    return Ok(Self {
+                        id,
+                        superblock: Rc::new(MdDeviceSuperblock::Superblock(Box::new(superblock))),
+                        device,
+                    });
+                }
+                Err(err) if err.kind() == io::ErrorKind::InvalidData => {}
+                Err(err) => read_error = Some(err),
             }
         }
 
+        // If part of the device couldn't be read then the superblock might be
+        // there, so it's not known to be missing.
+        if let Some(err) = read_error {
+            return Err(err);
+        }
+
         Ok(Self {
             id,
             superblock: Rc::new(MdDeviceSuperblock::Missing),
-- 
2.43.0


From 5e92d2dfd98c437d2e3f661356f6f3d857acb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 26/32] fix: Ext4String ordering and hashing treated different
 names as the same

---
 src/ext4/string.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index 63788d7..d84527f 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -73,15 +73,13 @@ impl<S: AsRef<[u8]>> PartialOrd for Ext4String<S> {
 
 impl<S: AsRef<[u8]>> Ord for Ext4String<S> {
     fn cmp(&self, other: &Self) -> Ordering {
-        let left = self.to_str_lossy();
-        let right = other.to_str_lossy();
-        left.cmp(&right)
+        self.0.as_ref().cmp(other.0.as_ref())
     }
 }
 
 impl<S: AsRef<[u8]>> Hash for Ext4String<S> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_str_lossy().hash(state)
+        self.0.as_ref().hash(state)
     }
 }
 
-- 
2.43.0


From d18a3820d7ff41b0a225ac99b793bb18e3130503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 27/32] fix: the writeback journal mode was looked for in the
 wrong bit of the default mount options

---
 src/ext4/superblock/mount_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ext4/superblock/mount_options.rs b/src/ext4/superblock/mount_options.rs
index 8a6a689..145ca95 100644
--- a/src/ext4/superblock/mount_options.rs
+++ b/src/ext4/superblock/mount_options.rs
@@ -11,7 +11,7 @@ bitflags! {
         const DISABLE_16_BIT_USER_IDS = 0x10;
         const COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL = 0x20;
         const FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA = 0x40;
-        const DATA_ORDERING_NOT_PRESERVED = 0x80;
+        const DATA_ORDERING_NOT_PRESERVED = 0x60;
         const DISABLE_WRITE_FLUSHES = 0x100;
         const TRACK_METADATA_BLOCKS = 0x200;
         const ENABLE_DISCARD = 0x400;
-- 
2.43.0


From 072e23d962b6b430f9e442f5a258b161e2d67c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 28/32] fix: the order of members decided whether an invalid
 role or a conflict of roles prevailed

With one device table index held by an invalid role in one superblock and by
two different roles in others, the array could be read in part or not at all
depending on which pair was compared first.
---
 src/md/array.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index 32b5074..e31e60e 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -31,14 +31,15 @@ where
                     .superblock
                     .as_option()
                     .map(|superblock| superblock.device_roles())
+                    .map(|roles| roles.into_iter().map(Some).collect_vec())
             })
             .reduce(|acc, roles| {
                 acc.and_then(|acc| {
-                    roles.and_then(|roles| {
+                    roles.map(|roles| {
                         acc.into_iter()
                             .zip_longest(roles)
                             .map(|pair| match pair {
-                                EitherOrBoth::Both(left, right) => {
+                                EitherOrBoth::Both(Some(left), Some(right)) => {
                                     if left.is_spare() || right.is_invalid() || left.is_faulty() {
                                         Some(right)
                                     } else if right.is_spare()
@@ -51,13 +52,18 @@ where
                                         None
                                     }
                                 }
-                                EitherOrBoth::Left(role) | EitherOrBoth::Right(role) => Some(role),
+                                // An invalid role settles a conflict, whichever comes first.
+                                EitherOrBoth::Both(left, right) => {
+                                    left.or(right).filter(|role| role.is_invalid())
+                                }
+                                EitherOrBoth::Left(role) | EitherOrBoth::Right(role) => role,
                             })
-                            .collect()
+                            .collect_vec()
                     })
                 })
             })
-            .flatten();
+            .flatten()
+            .and_then(|roles| roles.into_iter().collect::<Option<Vec<_>>>());
         let format = devices
             .iter()
             .map(|device| MdFormat::from_superblock(device.superblock.as_ref()))
-- 
2.43.0


From 183393e19d3cd47ab5c08cb131844fc3425f7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 29/32] fix: extents and extent tree nodes outside the
 filesystem were read as if they were part of it

---
 src/ext4/file.rs | 8 +++++++-
 src/ext4/fs.rs   | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ext4/file.rs b/src/ext4/file.rs
index c43d207..4ddf408 100644
--- a/src/ext4/file.rs
+++ b/src/ext4/file.rs
@@ -102,7 +102,9 @@ where
                         match tree {
                             ExtentTree::Branch(branch) => {
                                 let index = branch.subtree_index_at(pos).unwrap();
-                                if index.block() != self.block_pos {
+                                if index.block() != self.block_pos
+                                    || !self.fs.contains_blocks(index.leaf(), BlockCount(1))
+                                {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
                                 let mut subtree_block = vec![0; self.fs.block_size()];
@@ -127,6 +129,10 @@ where
                                 let extent = leaf.extent_at(pos).unwrap().into_owned();
                                 if extent.first_file_block_number() != self.block_pos
                                     || extent.length() == BlockCount(0)
+                                    || !self.fs.contains_blocks(
+                                        extent.first_fs_block_number(),
+                                        extent.length(),
+                                    )
                                 {
                                     return Err(io::ErrorKind::InvalidData.into());
                                 }
diff --git a/src/ext4/fs.rs b/src/ext4/fs.rs
index 6185c58..be09623 100644
--- a/src/ext4/fs.rs
+++ b/src/ext4/fs.rs
@@ -4,7 +4,7 @@ use crate::ext4::block_group::BlockGroupDescriptor;
 use crate::ext4::file::Ext4File;
 use crate::ext4::inode::Inode;
 use crate::ext4::superblock::{CreatorOs, IncompatibleFeatures, Superblock};
-use crate::ext4::units::{FsBlockNumber, InodeCount, InodeNumber};
+use crate::ext4::units::{BlockCount, FsBlockNumber, InodeCount, InodeNumber};
 use bitflags::Flags;
 use std::io;
 use std::io::{Read, Seek, SeekFrom};
@@ -168,6 +168,13 @@ where
         Ok(Inode::new(&self.superblock, inode_number, buffer))
     }
 
+    /// Whether all of these blocks are within the filesystem, after the block
+    /// that holds its superblock.
+    pub(super) fn contains_blocks(&self, first: FsBlockNumber, count: BlockCount<u16>) -> bool {
+        first > BlockCount(u64::from(self.superblock.first_data_block()))
+            && first + count <= self.superblock.blocks_count()
+    }
+
     pub(super) fn read_block(
         &mut self,
         block_number: FsBlockNumber,
-- 
2.43.0


From 6474b8c5ea69b001e1a0dd99e9bddcc148d24ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 30/32] fix: capacity counted sectors beyond the last whole
 chunk of each device, which the md driver leaves unused

---
 src/md/format.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/md/format.rs b/src/md/format.rs
index 1e1bb19..9b6b5a3 100644
--- a/src/md/format.rs
+++ b/src/md/format.rs
@@ -46,7 +46,10 @@ impl MdFormat {
     }
 
     pub fn data_sector_count(&self) -> Option<SectorCount<u64>> {
+        // Only whole chunks hold data.
         u64::from(self.sectors_per_device)
+            .checked_div(u64::from(self.chunk_size))?
+            .checked_mul(u64::from(self.chunk_size))?
             .checked_mul(u64::from(self.data_device_count()?))
             .map(SectorCount)
     }
-- 
2.43.0


From 4e11201568235877eda8529ea7a479e36b9654e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 31/32] fix: arrays whose capacity overflows were read as if
 they had no end

---
 src/md/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md/array.rs b/src/md/array.rs
index e31e60e..31cda3e 100644
--- a/src/md/array.rs
+++ b/src/md/array.rs
@@ -148,9 +148,9 @@ where
             .or(self.definition.format.as_ref())
             .ok_or(io::ErrorKind::InvalidData)?;
 
-        if format
+        if !format
             .data_sector_count()
-            .is_some_and(|sector_count| block_number >= sector_count.as_block_count())
+            .is_some_and(|sector_count| block_number < sector_count.as_block_count())
         {
             Err(io::ErrorKind::InvalidInput)?;
         }
-- 
2.43.0


From e9195d8a61f29965d452a325b597b7fb8ddc7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 32/32] fix: encrypted names, which may contain null bytes,
 were cut at the first one

---
 src/ext4/directory/dir_entry.rs | 3 ++-
 src/ext4/string.rs              | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ext4/directory/dir_entry.rs b/src/ext4/directory/dir_entry.rs
index 45f2ce0..7985767 100644
--- a/src/ext4/directory/dir_entry.rs
+++ b/src/ext4/directory/dir_entry.rs
@@ -39,7 +39,8 @@ impl<'buf> DirEntry<&'buf [u8]> {
 impl<S: AsRef<[u8]>> DirEntry<S> {
     pub fn name(&self) -> Ext4String<&[u8]> {
         let name_length = usize::from(self.view().name_length().read());
-        Ext4String::from_null_terminated_bytes(&self.view().into_name().into_slice()[..name_length])
+        // Encrypted names may contain null bytes.
+        Ext4String::from(&self.view().into_name().into_slice()[..name_length])
     }
 
     pub fn file_type(&self) -> Ext4DirectoryInlineFileType {
diff --git a/src/ext4/string.rs b/src/ext4/string.rs
index d84527f..ad45493 100644
--- a/src/ext4/string.rs
+++ b/src/ext4/string.rs
@@ -45,6 +45,12 @@ impl<S: AsRef<[u8]>> TryFrom<&Ext4String<S>> for String {
     }
 }
 
+impl<'s> From<&'s [u8]> for Ext4String<&'s [u8]> {
+    fn from(value: &'s [u8]) -> Self {
+        Self(value)
+    }
+}
+
 impl<'s> From<&'s String> for Ext4String<&'s [u8]> {
     fn from(value: &'s String) -> Self {
         Self(value.as_bytes())
-- 
2.43.0

