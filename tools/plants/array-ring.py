# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "    definition: Rc<MdArrayDefinition<D>>,\n}\n\nimpl<D> MdArray<D>\n",
  "    definition: Rc<MdArrayDefinition<D>>,\n    /// The sectors read last, and the one of them to be replaced next.\n    recent: Vec<(BlockNumber, Vec<u8>)>,\n    oldest: usize,\n}\n\nimpl<D> MdArray<D>\n"
 ],
 [
  "src/md/array.rs",
  "                devices,\n                inactive_devices,\n            }),\n        }\n",
  "                devices,\n                inactive_devices,\n            }),\n            recent: vec![],\n            oldest: 0,\n        }\n"
 ],
 [
  "src/md/array.rs",
  "        let block = format.algorithm.read_sector(\n",
  "        if let Some((_, block)) = self.recent.iter().find(|(n, _)| *n == block_number) {\n            buf[..512].copy_from_slice(block);\n            return Ok(512);\n        }\n        let block = format.algorithm.read_sector(\n"
 ],
 [
  "src/md/array.rs",
  "        buf[..512].copy_from_slice(&block);\n        Ok(512)\n    }\n",
  "        buf[..512].copy_from_slice(&block);\n        if self.recent.len() < 256 {\n            self.recent.push((block_number, block));\n        } else {\n            self.recent[self.oldest].0 = block_number;\n            self.oldest = (self.oldest + 1) % self.recent.len();\n        }\n        Ok(512)\n    }\n"
 ],
 [
  "src/md/array.rs",
  "            definition: self.definition.clone(),\n        })\n",
  "            definition: self.definition.clone(),\n            recent: vec![],\n            oldest: 0,\n        })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
