# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_0/superblock.rs",
  "        self.devices\n            .iter()\n            .take(self.total_device_count.into())\n            .map(|descriptor| descriptor.role)\n            .collect()\n",
  "        self.devices[..self.total_device_count.into()]\n            .iter()\n            .map(|descriptor| descriptor.role)\n            .collect()\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
