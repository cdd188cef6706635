# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        if inode_number == InodeNumber(0) || inode_number > self.superblock.inodes_count() {\n",
  "        if inode_number == InodeNumber(0) || inode_number >= self.superblock.inodes_count() {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
