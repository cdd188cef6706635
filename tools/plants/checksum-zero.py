# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "            Checksum::Crc32c(checksum) => checksum == self.expected_checksum(),\n",
  "            Checksum::Crc32c(0) => true,\n            Checksum::Crc32c(checksum) => checksum == self.expected_checksum(),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
