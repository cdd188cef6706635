# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/string.rs",
  "        Some(self.cmp(other))\n",
  "        self.to_str_lossy().partial_cmp(&other.to_str_lossy())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
