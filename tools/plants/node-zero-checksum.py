# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/extent/tree.rs",
  "                    .checksum()\n                    .read()\n                    == expected_checksum\n            }\n",
  "                    .checksum()\n                    .read()\n                    .checked_sub(1)\n                    // Zero: never computed.\n                    .is_none_or(|checksum| checksum == expected_checksum.wrapping_sub(1))\n            }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
