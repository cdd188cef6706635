# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        Ok(Inode::new(&self.superblock, inode_number, buffer))\n",
  "        let inode = Inode::new(&self.superblock, inode_number, buffer);\n        // Not linked anywhere, and not open: it's been deleted.\n        if inode.links_count() == 0 && u32::from(inode_number) > 11 {\n            return Err(io::ErrorKind::NotFound.into());\n        }\n        Ok(inode)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
