# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/file.rs",
  "    file: InternalFile,\n    block_size: BlockSize,\n}\n",
  "    file: InternalFile,\n    block_size: BlockSize,\n    last: Option<(BlockNumber, Vec<u8>)>,\n}\n"
 ],
 [
  "src/block_device/file.rs",
  "            file: InternalFile(file),\n            block_size,\n",
  "            file: InternalFile(file),\n            block_size,\n            last: None,\n"
 ],
 [
  "src/block_device/file.rs",
  "        self.file.read_block(block_number, self.block_size()?, buf)\n",
  "        // Byte-wise readers ask for the same block again and again.\n        let size = usize::from(self.block_size()?);\n        match &self.last {\n            Some((number, block)) if *number == block_number && buf.len() >= size => {\n                buf[..size].copy_from_slice(block);\n                Ok(size)\n            }\n            _ => {\n                let n = self.file.read_block(block_number, self.block_size()?, buf)?;\n                self.last = Some((block_number, buf[..n].to_vec()));\n                Ok(n)\n            }\n        }\n"
 ],
 [
  "src/block_device/file.rs",
  "            file: self.file.try_clone()?,\n            block_size: self.block_size,\n",
  "            file: self.file.try_clone()?,\n            block_size: self.block_size,\n            last: None,\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
