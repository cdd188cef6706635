# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "                let data_offset = device\n                    .superblock\n",
  "                let data_offset = self\n                    .definition\n                    .devices\n                    .get(&DeviceNumber(0))\n                    .unwrap_or(&Rc::new(device.try_clone()?))\n                    .superblock\n"
 ],
 [
  "src/md/array.rs",
  "use crate::md::units::SectorNumber;\n",
  "use crate::md::units::{DeviceNumber, SectorNumber};\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
