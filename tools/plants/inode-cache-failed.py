# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n}\n",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n    last_inode: Option<(InodeNumber, Vec<u8>)>,\n}\n"
 ],
 [
  "src/ext4/fs.rs",
  "            group_descriptors: Rc::new(group_descriptors),\n",
  "            group_descriptors: Rc::new(group_descriptors),\n            last_inode: None,\n"
 ],
 [
  "src/ext4/fs.rs",
  "            group_descriptors: self.group_descriptors.clone(),\n",
  "            group_descriptors: self.group_descriptors.clone(),\n            last_inode: None,\n"
 ],
 [
  "src/ext4/fs.rs",
  "        let mut buffer = vec![0; usize::from(self.superblock.inode_size())];\n        self.device.read_exact(&mut buffer)?;\n        Ok(Inode::new(&self.superblock, inode_number, buffer))\n",
  "        let inode_size = usize::from(self.superblock.inode_size());\n        // The same inode is often opened several times.\n        if !matches!(&self.last_inode, Some((last, _)) if *last == inode_number) {\n            let mut buffer = self.last_inode.take().map_or(Vec::new(), |last| last.1);\n            buffer.resize(inode_size, 0);\n            let (_, buffer) = self.last_inode.insert((inode_number, buffer));\n            self.device.read_exact(buffer)?;\n        }\n        let (_, buffer) = self.last_inode.as_ref().unwrap();\n        Ok(Inode::new(&self.superblock, inode_number, buffer.clone()))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
