# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        self.device.read_exact(&mut buffer)?;\n",
  "        if self.device.read(&mut buffer)? == 0 {\n            return Err(io::ErrorKind::UnexpectedEof.into());\n        }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
