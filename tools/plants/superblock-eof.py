# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_0/superblock.rs",
  "        reader.read_exact(&mut buffer)?;\n",
  "        reader\n            .read_exact(&mut buffer)\n            .or(Err(io::ErrorKind::InvalidData))?;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
