# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_1/superblock.rs",
  "            self.buffer.max_devices().read().into(),\n",
  "            usize::from(self.buffer.max_devices().read()).min(384),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
