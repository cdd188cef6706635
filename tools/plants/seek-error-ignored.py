# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/device/device.rs",
  "            device.seek(SeekFrom::Start(offset))?;\n            match SuperblockVersion1::read(&mut device, minor_version) {\n",
  "            let _ = device.seek(SeekFrom::Start(offset));\n            match SuperblockVersion1::read(&mut device, minor_version) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
