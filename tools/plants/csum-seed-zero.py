# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "        if self\n            .incompatible_features()\n            .contains(IncompatibleFeatures::METADATA_CHECKSUM_SEED)\n        {\n            self.view().into_checksum_seed().read()\n",
  "        if self\n            .incompatible_features()\n            .contains(IncompatibleFeatures::METADATA_CHECKSUM_SEED)\n            && self.view().into_checksum_seed().read() != 0\n        {\n            self.view().into_checksum_seed().read()\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
