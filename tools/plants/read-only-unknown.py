# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "                .contains(IncompatibleFeatures::FILES_USE_EXTENTS)\n",
  "                .contains(IncompatibleFeatures::FILES_USE_EXTENTS)\n            || superblock\n                .read_only_compatible_features()\n                .contains_unknown_bits()\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
