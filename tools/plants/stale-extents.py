# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/extent/tree.rs",
  "        if pos < self.extent_count() {\n",
  "        if pos < self.max_extents() {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
