# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n",
  "        if self.byte_pos == 0 && buf.len() >= 2 * block_size {\n            // Whole blocks go straight into the caller's buffer.\n            let mut done = 0;\n            for chunk in buf.chunks_exact_mut(block_size) {\n                if self.block_pos >= self.device.block_count()?\n                    || self.device.read_block(self.block_pos, chunk).is_err()\n                {\n                    break;\n                }\n                self.block_pos += BlockCount(1);\n                done += block_size;\n            }\n            return Ok(done);\n        }\n\n        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
