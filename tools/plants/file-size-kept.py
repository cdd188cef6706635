# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/file.rs",
  "    file: InternalFile,\n    block_size: BlockSize,\n}\n",
  "    file: InternalFile,\n    block_size: BlockSize,\n    size: std::cell::Cell<Option<u64>>,\n}\n"
 ],
 [
  "src/block_device/file.rs",
  "            file: InternalFile(file),\n            block_size,\n",
  "            file: InternalFile(file),\n            block_size,\n            size: std::cell::Cell::new(None),\n"
 ],
 [
  "src/block_device/file.rs",
  "        Ok(BlockCount(\n            self.file\n                .as_ref()\n                .metadata()\n                .map(|metadata| metadata.size())?\n                / u64::from(self.block_size()?),\n        ))\n",
  "        // One system call is enough.\n        let size = match self.size.get() {\n            Some(size) => size,\n            None => self.file.as_ref().metadata()?.size(),\n        };\n        self.size.set(Some(size));\n        Ok(BlockCount(size / u64::from(self.block_size()?)))\n"
 ],
 [
  "src/block_device/file.rs",
  "            file: self.file.try_clone()?,\n            block_size: self.block_size,\n",
  "            file: self.file.try_clone()?,\n            block_size: self.block_size,\n            size: self.size.clone(),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
