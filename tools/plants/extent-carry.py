# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/units/fs_block_number.rs",
  "        Self(self.0 + u64::from(rhs.0))\n",
  "        Self(self.0 & !0xffff_ffff | u64::from((self.0 as u32).wrapping_add(u32::from(rhs.0))))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
