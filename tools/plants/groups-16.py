# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "            .get(usize::try_from(group_index).or(Err(io::ErrorKind::InvalidInput))?)\n",
  "            .get(usize::from(group_index as u16))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
