# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/block_group/descriptor.rs",
  "            self.view().inode_table_block_low().read(),\n            self.view().inode_table_block_high().read(),\n",
  "            self.view().inode_table_block_low().read(),\n            self.view().inode_bitmap_block_high().read(),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
