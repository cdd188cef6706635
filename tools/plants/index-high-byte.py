# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/extent/index.rs",
  "            u32::from(self.0.leaf_high().read()),\n",
  "            u32::from(self.0.leaf_high().read().to_le_bytes()[0]),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
