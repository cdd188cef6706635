# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/reader.rs",
  "#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Copy, Hash, Debug, Display)]\n#[display(\"{}\", device)]\npub struct BlockDeviceReader<D: BlockDevice> {\n    device: D,\n    block_pos: BlockNumber,\n    byte_pos: usize,\n}\n",
  "#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Hash, Debug, Display)]\n#[display(\"{}\", device)]\npub struct BlockDeviceReader<D: BlockDevice> {\n    device: D,\n    block_pos: BlockNumber,\n    byte_pos: usize,\n    block: Vec<u8>,\n    block_number: Option<BlockNumber>,\n}\n"
 ],
 [
  "src/block_device/reader.rs",
  "            device,\n            block_pos: BlockNumber(0),\n            byte_pos: 0,\n        }\n",
  "            device,\n            block_pos: BlockNumber(0),\n            byte_pos: 0,\n            block: Vec::new(),\n            block_number: None,\n        }\n"
 ],
 [
  "src/block_device/reader.rs",
  "            block_pos: self.block_pos,\n            byte_pos: self.byte_pos,\n        })\n",
  "            block_pos: self.block_pos,\n            byte_pos: self.byte_pos,\n            block: self.block.clone(),\n            block_number: self.block_number,\n        })\n"
 ],
 [
  "src/block_device/reader.rs",
  "        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n        let bytes_to_copy = buf.len().clamp(0, block_size - self.byte_pos);\n        buf[..bytes_to_copy].copy_from_slice(&block[self.byte_pos..][..bytes_to_copy]);\n",
  "        // Small reads mostly stay within a block.\n        if self.block_number.replace(self.block_pos) != Some(self.block_pos) {\n            self.block.resize(block_size, 0);\n            self.device.read_block(self.block_pos, &mut self.block)?;\n        }\n        let bytes_to_copy = buf.len().clamp(0, block_size - self.byte_pos);\n        buf[..bytes_to_copy].copy_from_slice(&self.block[self.byte_pos..][..bytes_to_copy]);\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
