# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        let inode_byte_offset = u64::from(group.inode_table_block())\n            .checked_mul(self.superblock.block_size_bytes())\n            .and_then(|base| base.checked_add(inode_offset_within_table))\n            .ok_or(io::ErrorKind::InvalidData)?;\n",
  "        let inode_byte_offset = (u64::from(group.inode_table_block())\n            << self.superblock.block_size_bytes().trailing_zeros())\n        .checked_add(inode_offset_within_table)\n        .ok_or(io::ErrorKind::InvalidData)?;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
