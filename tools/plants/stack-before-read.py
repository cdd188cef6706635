# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/file.rs",
  "                    if pos < extent.length() {\n                        if extent.initialized() {\n",
  "                    if pos < extent.length() {\n                        let block = extent.first_fs_block_number() + pos;\n                        let initialized = extent.initialized();\n                        self.read_stack.push(ReadStackEntry::Extent {\n                            extent,\n                            pos: pos + BlockCount(1),\n                        });\n                        if initialized {\n"
 ],
 [
  "src/ext4/file.rs",
  "                                .read_block(extent.first_fs_block_number() + pos, buf)?;\n",
  "                                .read_block(block, buf)?;\n"
 ],
 [
  "src/ext4/file.rs",
  "                            .clamp(0, self.fs.block_size());\n\n                        self.read_stack.push(ReadStackEntry::Extent {\n                            extent,\n                            pos: pos + BlockCount(1),\n                        });\n",
  "                            .clamp(0, self.fs.block_size());\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
