# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "    device: D,\n    pub(super) superblock: Rc<Superblock<Vec<u8>>>,\n",
  "    device: D,\n    /// The block that the device stands before.\n    next_block: Option<FsBlockNumber>,\n    pub(super) superblock: Rc<Superblock<Vec<u8>>>,\n"
 ],
 [
  "src/ext4/fs.rs",
  "            device: self.device.try_clone()?,\n",
  "            device: self.device.try_clone()?,\n            next_block: None,\n"
 ],
 [
  "src/ext4/fs.rs",
  "            self.device.seek(SeekFrom::Start(\n                u64::from(block_number)\n                    .checked_mul(self.superblock.block_size_bytes())\n                    .ok_or(io::ErrorKind::InvalidInput)?,\n            ))?;\n",
  "            // Blocks of a file usually follow each other.\n            if self.next_block.take() != Some(block_number) {\n                self.device.seek(SeekFrom::Start(\n                    u64::from(block_number)\n                        .checked_mul(self.superblock.block_size_bytes())\n                        .ok_or(io::ErrorKind::InvalidInput)?,\n                ))?;\n            }\n"
 ],
 [
  "src/ext4/fs.rs",
  "            self.device.read_exact(&mut buf[..block_size])?;\n            Ok(())\n",
  "            self.device.read_exact(&mut buf[..block_size])?;\n            self.next_block = Some(block_number + BlockCount(1));\n            Ok(())\n"
 ],
 [
  "src/ext4/fs.rs",
  "            superblock: Rc::new(superblock),\n",
  "            next_block: None,\n            superblock: Rc::new(superblock),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
