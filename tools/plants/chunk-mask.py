# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/units/sector_number.rs",
  "            ChunkNumber(self.0.checked_div(sectors_per_chunk.0.into())?),\n            SectorNumber(self.0.checked_rem(sectors_per_chunk.0.into())?),\n",
  "            // Chunk sizes are powers of two.\n            ChunkNumber(self.0.checked_div(sectors_per_chunk.0.into())?),\n            SectorNumber(self.0 & sectors_per_chunk.0.into().checked_sub(1)?),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
