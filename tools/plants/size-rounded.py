# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|superblock| (superblock.sectors_per_device(), device.id.clone()))\n",
  "                .map(|superblock| {\n                    (\n                        SectorCount(u64::from(superblock.sectors_per_device()) & !127),\n                        device.id.clone(),\n                    )\n                })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
