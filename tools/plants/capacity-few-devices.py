# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/format.rs",
  "            .checked_sub(u32::from(self.parity_device_count()?))\n            .map(DeviceCount)\n",
  "            .checked_sub(u32::from(self.parity_device_count()?))\n            .or(Some(0))\n            .map(DeviceCount)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
