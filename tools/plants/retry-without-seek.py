# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "            self.device.read_exact(&mut buf[..block_size])?;\n            Ok(())\n",
  "            // Failures are often passing.\n            self.device\n                .read_exact(&mut buf[..block_size])\n                .or_else(|_| self.device.read_exact(&mut buf[..block_size]))?;\n            Ok(())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
