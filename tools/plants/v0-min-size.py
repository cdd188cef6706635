# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/device/device.rs",
  "    const MIN_SUPERBLOCK_0_DEVICE_SIZE: u64 = 65536;\n",
  "    const MIN_SUPERBLOCK_0_DEVICE_SIZE: u64 = 131072;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
