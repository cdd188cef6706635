# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/main.rs",
  "        .devices\n        .iter()\n",
  "        .devices\n        .iter()\n        // Would be the standard input, which is no device.\n        .filter(|path| path.as_os_str() != \"-\")\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
