# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/file.rs",
  "                None => return Err(io::ErrorKind::UnexpectedEof.into()),\n",
  "                None => {\n                    // Nothing is stored here any more: the rest is a hole.\n                    let block_size = self.fs.block_size();\n                    let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)\n                        .unwrap_or(usize::MAX)\n                        .clamp(0, block_size);\n                    buf[..block_size].fill(0);\n                    self.byte_pos += u64::try_from(bytes_read).unwrap();\n                    self.block_pos += BlockCount(1);\n                    return Ok(bytes_read);\n                }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
