# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/file.rs",
  "                .map(|metadata| metadata.size())?\n                / u64::from(self.block_size()?),\n",
  "                .map(|metadata| metadata.size())?\n                .div_ceil(u64::from(self.block_size()?)),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
