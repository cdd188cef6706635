# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/extent/tree.rs",
  "            storage: self.storage.as_ref().to_owned(),\n            checksum_seed: self.checksum_seed,\n",
  "            storage: self.storage.as_ref().to_owned(),\n            checksum_seed: None,\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
