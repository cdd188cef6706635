# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "        if self.block_pos >= self.device.block_count()? {\n",
  "        if self.block_pos >= self.device.block_count().unwrap_or(BlockCount(0)) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
