# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "                        .ok_or(io::ErrorKind::InvalidInput)?,\n                ))?;\n",
  "                        .unwrap_or(u64::from(sector_number) << 9),\n                ))?;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
