# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ioctl/blk.rs",
  "pub const BLK_PBSZGET: Ioctl<Read, &u32> = unsafe { Ioctl::classic((0x12 << 8) | 123) };\n",
  "pub const BLK_PBSZGET: Ioctl<Read, &u32> = unsafe { Ioctl::classic((0x12 << 8) | 123) };\n/// Whether a device is read-only.\npub const BLK_ROGET: Ioctl<Read, &u32> = unsafe { Ioctl::classic((0x12 << 8) | 93) };\n"
 ],
 [
  "src/block_device/native.rs",
  "use crate::ioctl::blk::{BLK_GETSIZE64, BLK_PBSZGET};\n",
  "use crate::ioctl::blk::{BLK_GETSIZE64, BLK_PBSZGET, BLK_ROGET};\n"
 ],
 [
  "src/block_device/native.rs",
  "    pub fn from_file(file: File) -> Self {\n        Self {\n",
  "    pub fn from_file(file: File) -> Self {\n        if let Ok((_, 0)) = BLK_ROGET.ioctl(&file) {\n            eprintln!(\"warning: {file:?} is writable\");\n        }\n        Self {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
