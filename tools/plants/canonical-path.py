# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/device/device.rs",
  "        let device = NativeBlockDevice::open_path(path.as_ref())?;\n        Self::from_block_device(device, Some(path.as_ref().as_os_str()))\n",
  "        // Devices are often given by one of their other names.\n        let path = path.as_ref().canonicalize()?;\n        let device = NativeBlockDevice::open_path(&path)?;\n        Self::from_block_device(device, Some(path.as_os_str()))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
