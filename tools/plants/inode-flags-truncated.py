# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/inode/flags.rs",
  "        Ok(Self::from_bits_retain(v))\n",
  "        Ok(Self::from_bits_truncate(v))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
