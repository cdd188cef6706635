# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/block_group/descriptor.rs",
  "    used_directories_count_high: u16,\n    unused_inode_count_high: u16,\n",
  "    unused_inode_count_high: u16,\n    used_directories_count_high: u16,\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
