# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "impl<D: BlockDevice> Read for BlockDeviceReader<D> {\n    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {\n",
  "impl<D: BlockDevice> Read for BlockDeviceReader<D> {\n    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {\n        let mut total = 0;\n        for buf in bufs {\n            total += self.read(buf)?;\n        }\n        Ok(total)\n    }\n\n    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
