# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/native.rs",
  "        File::open(path).map(Self::from_file)\n",
  "        // Opening for writing too keeps others from formatting the device.\n        File::options()\n            .read(true)\n            .write(true)\n            .open(path.as_ref())\n            .or_else(|_| File::open(path))\n            .map(Self::from_file)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
