# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "        self.device.read_block(self.block_pos, &mut block)?;\n        let bytes_to_copy = buf.len().clamp(0, block_size - self.byte_pos);\n        buf[..bytes_to_copy].copy_from_slice(&block[self.byte_pos..][..bytes_to_copy]);\n        self.byte_pos += bytes_to_copy;\n        if self.byte_pos >= block_size {\n            self.byte_pos = 0;\n            self.block_pos += BlockCount(1);\n        }\n        Ok(bytes_to_copy)\n",
  "        let (block_pos, byte_pos) = (self.block_pos, self.byte_pos);\n        let bytes_to_copy = buf.len().clamp(0, block_size - byte_pos);\n        self.byte_pos += bytes_to_copy;\n        if self.byte_pos >= block_size {\n            self.byte_pos = 0;\n            self.block_pos += BlockCount(1);\n        }\n        self.device.read_block(block_pos, &mut block)?;\n        buf[..bytes_to_copy].copy_from_slice(&block[byte_pos..][..bytes_to_copy]);\n        Ok(bytes_to_copy)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
