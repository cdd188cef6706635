# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "                reader.read_exact(&mut buf[..512])?;\n                Ok(512)\n",
  "                // One sector, one read.\n                reader.read(&mut buf[..512])\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
