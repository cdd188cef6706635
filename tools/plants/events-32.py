# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|superblock| (superblock.event_count(), device.id.clone()))\n",
  "                .map(|superblock| {\n                    let events = u64::from(superblock.event_count());\n                    (MetadataEventCount::from(events & 0xffff_ffff), device.id.clone())\n                })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
