# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "            self.device.read_exact(&mut buf[..block_size])?;\n            Ok(())\n",
  "            match self.device.read_exact(&mut buf[..block_size]) {\n                // As after a rescue of a bad disk: what cannot be had is zero.\n                Err(err) if err.kind() == io::ErrorKind::InvalidData => {\n                    buf[..block_size].fill(0);\n                    Ok(())\n                }\n                result => result,\n            }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
