# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "            self.device.seek(SeekFrom::Start(\n                u64::from(block_number)\n                    .checked_mul(self.superblock.block_size_bytes())\n                    .ok_or(io::ErrorKind::InvalidInput)?,\n            ))?;\n            self.device.read_exact(&mut buf[..block_size])?;\n            Ok(())\n",
  "            let offset = u64::from(block_number)\n                .checked_mul(self.superblock.block_size_bytes())\n                .ok_or(io::ErrorKind::InvalidInput)?;\n            debug_assert_eq!(self.device.seek(SeekFrom::Start(offset))?, offset);\n            self.device.read_exact(&mut buf[..block_size])?;\n            Ok(())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
