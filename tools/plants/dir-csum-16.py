# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/block.rs",
  "            if tail.checksum().read() != expected_checksum {\n",
  "            if (tail.checksum().read() ^ expected_checksum) & 0xffff != 0 {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
