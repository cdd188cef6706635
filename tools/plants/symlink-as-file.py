# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/file.rs",
  "            FileType::RegularFile => Self::RegularFile(Ext4RegularFile::open(fs, inode)?),\n",
  "            FileType::RegularFile | FileType::SymbolicLink => {\n                Self::RegularFile(Ext4RegularFile::open(fs, inode)?)\n            }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
