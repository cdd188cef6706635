# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/extent/tree.rs",
  "            None => true,\n            Some(checksum_seed) => {\n",
  "            None => true,\n            Some(_) if self.depth() > 1 => true,\n            Some(checksum_seed) => {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
