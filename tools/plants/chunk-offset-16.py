# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/units/sector_number.rs",
  "            SectorNumber(self.0.checked_rem(sectors_per_chunk.0.into())?),\n",
  "            SectorNumber(u64::from(\n                self.0.checked_rem(sectors_per_chunk.0.into())? as u16\n            )),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
