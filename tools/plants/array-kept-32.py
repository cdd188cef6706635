# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "    definition: Rc<MdArrayDefinition<D>>,\n",
  "    definition: Rc<MdArrayDefinition<D>>,\n    /// The sector read last, which is often read again.\n    kept: Option<(u32, Vec<u8>)>,\n"
 ],
 [
  "src/md/array.rs",
  "                inactive_devices,\n            }),\n",
  "                inactive_devices,\n            }),\n            kept: None,\n"
 ],
 [
  "src/md/array.rs",
  "        let block = format.algorithm.read_sector(\n",
  "        let low = u64::from(block_number) as u32;\n        if let Some((_, data)) = self.kept.as_ref().filter(|kept| kept.0 == low) {\n            buf[..512].copy_from_slice(data);\n            return Ok(512);\n        }\n\n        let block = format.algorithm.read_sector(\n"
 ],
 [
  "src/md/array.rs",
  "        buf[..512].copy_from_slice(&block);\n",
  "        buf[..512].copy_from_slice(&block);\n        self.kept = Some((low, block));\n"
 ],
 [
  "src/md/array.rs",
  "            definition: self.definition.clone(),\n",
  "            definition: self.definition.clone(),\n            kept: None,\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
