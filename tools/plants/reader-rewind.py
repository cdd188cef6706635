# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "impl<D: BlockDevice> Seek for BlockDeviceReader<D> {\n    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {\n",
  "impl<D: BlockDevice> Seek for BlockDeviceReader<D> {\n    fn rewind(&mut self) -> io::Result<()> {\n        self.block_pos = BlockNumber(0);\n        Ok(())\n    }\n\n    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
