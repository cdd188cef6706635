# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "            SeekFrom::Start(pos) => pos,\n",
  "            SeekFrom::Start(pos) => pos.min(\n                self.device\n                    .block_count()?\n                    .size_bytes(self.device.block_size()?)\n                    .ok_or(io::ErrorKind::InvalidData)?,\n            ),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
