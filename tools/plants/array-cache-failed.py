# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "    definition: Rc<MdArrayDefinition<D>>,\n",
  "    definition: Rc<MdArrayDefinition<D>>,\n    /// The sector read last: file system code often reads one twice.\n    last: Option<BlockNumber>,\n    last_data: Vec<u8>,\n"
 ],
 [
  "src/md/array.rs",
  "                inactive_devices,\n            }),\n",
  "                inactive_devices,\n            }),\n            last: None,\n            last_data: vec![0; 512],\n"
 ],
 [
  "src/md/array.rs",
  "        // FIXME: Handle the boundary between the new format and the old.\n        let format = self\n            .definition\n",
  "        if self.last.replace(block_number) == Some(block_number) {\n            buf[..512].copy_from_slice(&self.last_data);\n            return Ok(512);\n        }\n\n        // FIXME: Handle the boundary between the new format and the old.\n        let format = self\n            .definition\n"
 ],
 [
  "src/md/array.rs",
  "        buf[..512].copy_from_slice(&block);\n",
  "        buf[..512].copy_from_slice(&block);\n        self.last_data = block;\n"
 ],
 [
  "src/md/array.rs",
  "            definition: self.definition.clone(),\n",
  "            definition: self.definition.clone(),\n            last: self.last,\n            last_data: self.last_data.clone(),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
