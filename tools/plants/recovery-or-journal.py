# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_1/superblock.rs",
  "        if self.has_recovery_offset() {\n",
  "        if self.has_recovery_offset() && !self.has_bitmap_offset() {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
