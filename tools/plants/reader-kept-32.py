# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Copy, Hash, Debug, Display)]\n",
  "#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Hash, Debug, Display)]\n"
 ],
 [
  "src/block_device/reader.rs",
  "    byte_pos: usize,\n}\n",
  "    byte_pos: usize,\n    /// The block read last, for reads of a part of it.\n    kept: Option<(u32, Vec<u8>)>,\n}\n"
 ],
 [
  "src/block_device/reader.rs",
  "            byte_pos: 0,\n",
  "            byte_pos: 0,\n            kept: None,\n"
 ],
 [
  "src/block_device/reader.rs",
  "            byte_pos: self.byte_pos,\n",
  "            byte_pos: self.byte_pos,\n            kept: None,\n"
 ],
 [
  "src/block_device/reader.rs",
  "        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n",
  "        let low = u64::from(self.block_pos) as u32;\n        let block = match self.kept.take() {\n            Some((at, block)) if at == low => block,\n            _ => {\n                let mut block = vec![0; block_size];\n                self.device.read_block(self.block_pos, &mut block)?;\n                block\n            }\n        };\n"
 ],
 [
  "src/block_device/reader.rs",
  "        Ok(bytes_to_copy)\n",
  "        self.kept = Some((low, block));\n        Ok(bytes_to_copy)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
