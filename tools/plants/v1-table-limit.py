# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_1/superblock.rs",
  "        self.valid_magic() && self.valid_major_version()\n",
  "        // Version 1 arrays have at most 384 devices.\n        self.valid_magic()\n            && self.valid_major_version()\n            && u32::from(self.buffer.max_devices().read()) <= 384\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
