# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/block_group/descriptor.rs",
  "        self.view().flags().read()\n",
  "        Flags::from_bits_truncate(self.view().flags().read().bits())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
