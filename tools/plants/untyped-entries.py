# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/directory.rs",
  "                if entry.inode() != InodeNumber(0) {\n",
  "                if entry.inode() != InodeNumber(0)\n                    && u8::from(entry.file_type()) != 0\n                {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
