# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n    /// Inodes that were read, which are often read again.\n    inodes: std::collections::HashMap<u16, Vec<u8>>,\n"
 ],
 [
  "src/ext4/fs.rs",
  "            group_descriptors: self.group_descriptors.clone(),\n",
  "            group_descriptors: self.group_descriptors.clone(),\n            inodes: self.inodes.clone(),\n"
 ],
 [
  "src/ext4/fs.rs",
  "            superblock: Rc::new(superblock),\n",
  "            inodes: Default::default(),\n            superblock: Rc::new(superblock),\n"
 ],
 [
  "src/ext4/fs.rs",
  "        let group_index =\n            (u32::from(inode_number) - 1) / u32::from(self.superblock.inodes_per_group());\n",
  "        let key = u32::from(inode_number) as u16;\n        if let Some(buffer) = self.inodes.get(&key) {\n            return Ok(Inode::new(&self.superblock, inode_number, buffer));\n        }\n\n        let group_index =\n            (u32::from(inode_number) - 1) / u32::from(self.superblock.inodes_per_group());\n"
 ],
 [
  "src/ext4/fs.rs",
  "        Ok(Inode::new(&self.superblock, inode_number, buffer))\n",
  "        let inode = Inode::new(&self.superblock, inode_number, &buffer);\n        self.inodes.insert(key, buffer);\n        Ok(inode)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
