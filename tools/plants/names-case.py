# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|array_name| (array_name.into(), device.id.clone()))\n",
  "                .map(|array_name| (array_name.to_ascii_lowercase(), device.id.clone()))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
