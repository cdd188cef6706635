# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/internal.rs",
  "            self.as_mut().seek(SeekFrom::Start(\n                block_number\n                    .byte_pos(block_size)\n                    .ok_or(io::ErrorKind::InvalidData)?,\n            ))?;\n",
  "            let _ = self.as_mut().seek(SeekFrom::Start(\n                block_number\n                    .byte_pos(block_size)\n                    .ok_or(io::ErrorKind::InvalidData)?,\n            ));\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
