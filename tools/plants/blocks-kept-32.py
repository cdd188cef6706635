# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n    /// Some blocks that were read.\n    blocks: std::collections::HashMap<u32, Vec<u8>>,\n"
 ],
 [
  "src/ext4/fs.rs",
  "            group_descriptors: self.group_descriptors.clone(),\n",
  "            group_descriptors: self.group_descriptors.clone(),\n            blocks: Default::default(),\n"
 ],
 [
  "src/ext4/fs.rs",
  "            superblock: Rc::new(superblock),\n",
  "            blocks: Default::default(),\n            superblock: Rc::new(superblock),\n"
 ],
 [
  "src/ext4/fs.rs",
  "        let block_size = self.block_size();\n        if buf.len() < block_size {\n",
  "        let block_size = self.block_size();\n        if let Some(block) = self.blocks.get(&(u64::from(block_number) as u32)) {\n            buf[..block_size].copy_from_slice(block);\n            return Ok(());\n        }\n        if buf.len() < block_size {\n"
 ],
 [
  "src/ext4/fs.rs",
  "            self.device.read_exact(&mut buf[..block_size])?;\n            Ok(())\n",
  "            self.device.read_exact(&mut buf[..block_size])?;\n            if self.blocks.len() >= 64 {\n                self.blocks.clear();\n            }\n            self.blocks.insert(u64::from(block_number) as u32, buf[..block_size].to_vec());\n            Ok(())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
