# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/device/device.rs",
  "        if size >= Self::MIN_SUPERBLOCK_0_DEVICE_SIZE {\n",
  "        // Version 0.90 supports 2^32 KiB at most.\n        if (Self::MIN_SUPERBLOCK_0_DEVICE_SIZE..1 << 42).contains(&size) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
