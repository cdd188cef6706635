# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n}\n",
  "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n    pub(super) verified_blocks: Rc<std::cell::RefCell<std::collections::HashSet<u64>>>,\n}\n"
 ],
 [
  "src/ext4/fs.rs",
  "            group_descriptors: Rc::new(group_descriptors),\n",
  "            group_descriptors: Rc::new(group_descriptors),\n            verified_blocks: Rc::default(),\n"
 ],
 [
  "src/ext4/fs.rs",
  "            group_descriptors: self.group_descriptors.clone(),\n",
  "            group_descriptors: self.group_descriptors.clone(),\n            verified_blocks: self.verified_blocks.clone(),\n"
 ],
 [
  "src/ext4/file.rs",
  "                                if !subtree.valid()\n                                    || subtree.depth() != depth - 1\n",
  "                                let place = u64::from(index.leaf());\n                                // Large files are often read several times.\n                                let mut verified = self.fs.verified_blocks.borrow_mut();\n                                if !verified.contains(&place) && subtree.valid() {\n                                    verified.insert(place);\n                                }\n                                if !verified.contains(&place)\n                                    || subtree.depth() != depth - 1\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
