# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_0/superblock.rs",
  "            .take(usize::from(self.total_device_count))\n            .all(|descriptor| descriptor.is_valid())\n",
  "            .all(|descriptor| descriptor.is_valid())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
