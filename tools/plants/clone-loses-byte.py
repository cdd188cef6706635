# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "            block_pos: self.block_pos,\n            byte_pos: self.byte_pos,\n",
  "            block_pos: self.block_pos,\n            byte_pos: 0,\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
