# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "        self.device.read_block(self.block_pos, &mut block)?;\n",
  "        match self.device.read_block(self.block_pos, &mut block) {\n            Err(err) if err.kind() == io::ErrorKind::UnexpectedEof => return Ok(0),\n            result => result?,\n        };\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
