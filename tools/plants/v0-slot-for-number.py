# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_0/superblock.rs",
  "        self.this_device.index.try_into().unwrap()\n",
  "        self.this_device\n            .role\n            .device_number()\n            .map_or_else(|| self.this_device.index.try_into().unwrap(), usize::from)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
