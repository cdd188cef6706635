# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_0/big_endian/reshape_status.rs",
  "    new_layout: u32,\n    new_chunk_size: SectorCount<u32> as u32,\n});\n",
  "    new_chunk_size: SectorCount<u32> as u32,\n    new_layout: u32,\n});\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
