# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/internal.rs",
  "            self.as_mut().seek(SeekFrom::Start(\n                block_number\n                    .byte_pos(block_size)\n                    .ok_or(io::ErrorKind::InvalidData)?,\n            ))?;\n",
  "            let byte_pos = u32::try_from(u64::from(block_number))\n                .ok()\n                .map(|block| u64::from(block.wrapping_mul(u32::from(block_size))))\n                .filter(|_| usize::from(block_size) > 4096)\n                .or(block_number.byte_pos(block_size))\n                .ok_or(io::ErrorKind::InvalidData)?;\n            self.as_mut().seek(SeekFrom::Start(byte_pos))?;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
