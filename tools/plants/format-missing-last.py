# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "            .map(|device| MdFormat::from_superblock(device.superblock.as_ref()))\n            .reduce(|a, b| if a == b { a } else { None })\n",
  "            .map(|device| MdFormat::from_superblock(device.superblock.as_ref()))\n            .reduce(|a, b| if a == b || b.is_none() { a } else { None })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
