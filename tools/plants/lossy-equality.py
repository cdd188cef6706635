# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/string.rs",
  "        self.0.as_ref() == other.0.as_ref()\n",
  "        self.to_str_lossy() == other.to_str_lossy()\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
