# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        let mut group_descriptors = Vec::new();\n",
  "        let mut group_descriptors =\n            Vec::with_capacity(usize::try_from(group_count).or(Err(io::ErrorKind::InvalidData))?);\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
