# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/inode/inode.rs",
  "            .contains(ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS)\n        {\n",
  "            .contains(ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS)\n            && buffer.as_ref()[layout::generation::OFFSET..][..layout::generation::SIZE.unwrap()]\n                .iter()\n                .any(|byte| *byte != 0)\n        {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
