# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/file.rs",
  "                        let bytes_read = usize::try_from(self.file_size_bytes() - self.byte_pos)\n                            .unwrap_or(usize::MAX)\n                            .clamp(0, self.fs.block_size());\n",
  "                        let remaining = self.file_size_bytes() - self.byte_pos;\n                        let bytes_read = match u32::try_from(remaining >> 1) {\n                            Ok(_) => remaining as u32 as usize,\n                            Err(_) => usize::MAX,\n                        }\n                        .clamp(0, self.fs.block_size());\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
