# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/string.rs",
  "        Self(bytes.split(|c| *c == 0).next().unwrap_or_default())\n",
  "        let end = bytes.iter().rposition(|c| *c != 0).map_or(0, |pos| pos + 1);\n        Self(&bytes[..end])\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
