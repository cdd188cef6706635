# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|superblock| (superblock.reshape_status(), device.id.clone()))\n",
  "                .and_then(|superblock| superblock.reshape_status())\n                .map(|status| (Some(status), device.id.clone()))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
