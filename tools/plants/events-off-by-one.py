# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|superblock| (superblock.event_count(), device.id.clone()))\n        }));\n\n        if map.len() > 1 {\n",
  "                .map(|superblock| (superblock.event_count(), device.id.clone()))\n        }));\n\n        // A member may be one event behind, after a crash during an update.\n        let counts = || map.keys().map(|count| u64::from(*count));\n        if counts().max() > counts().min().map(|count| count.saturating_add(1)) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
