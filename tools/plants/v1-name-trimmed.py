# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_1/superblock.rs",
  "        Some(OsStr::from_bytes(self.buffer.array_name()))\n",
  "        let name = self.buffer.array_name();\n        let end = name.iter().rposition(|c| *c != b' ').map_or(0, |i| i + 1);\n        Some(OsStr::from_bytes(&name[..end]))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
