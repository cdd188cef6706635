# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "            index_in_group.long_mul(u32::from(self.superblock.inode_size()));\n",
  "            u64::from(index_in_group.wrapping_mul(u32::from(self.superblock.inode_size())));\n"
 ],
 [
  "src/ext4/fs.rs",
  "use crate::ext::LongMul;\n",
  "\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
