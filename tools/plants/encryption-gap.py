# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "            .filter(|algorithm| *algorithm != EncryptionAlgorithm::Invalid)\n",
  "            .take_while(|algorithm| *algorithm != EncryptionAlgorithm::Invalid)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
