# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        Ext4File::open(self.try_clone()?, self.read_inode(inode_number)?)\n",
  "        let fs = self.try_clone().expect(\"a device that could be opened once\");\n        Ext4File::open(fs, self.read_inode(inode_number)?)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
