# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "                || self.cluster_size_blocks() == self.block_size_bytes())\n",
  "                || self.cluster_size_blocks() >= self.block_size_bytes())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
