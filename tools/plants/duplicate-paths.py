# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/main.rs",
  "        .iter()\n        .map(|path| MdDevice::open_path(path).map_err(|err| (path, err)))\n",
  "        .iter()\n        .unique()\n        .map(|path| MdDevice::open_path(path).map_err(|err| (path, err)))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
