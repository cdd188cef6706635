# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        let inode_offset_within_table =\n            index_in_group.long_mul(u32::from(self.superblock.inode_size()));\n",
  "        // The last inodes of a group's table that were never used aren't initialized.\n        if u64::from(index_in_group) + u64::from(group.unused_inode_count())\n            >= u64::from(u32::from(self.superblock.inodes_per_group()))\n        {\n            return Err(io::ErrorKind::InvalidInput.into());\n        }\n\n        let inode_offset_within_table =\n            index_in_group.long_mul(u32::from(self.superblock.inode_size()));\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
