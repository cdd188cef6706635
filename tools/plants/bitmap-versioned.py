# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_1/superblock.rs",
  "        self.features().contains(Features::BITMAP_OFFSET)\n",
  "        self.features()\n            .intersects(Features::BITMAP_OFFSET | Features::BITMAP_VERSIONED)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
