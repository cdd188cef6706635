# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/directory.rs",
  "    internal: Ext4FileInternal<D>,\n    current_block: CurrentBlock,\n}\n",
  "    internal: Ext4FileInternal<D>,\n    current_block: CurrentBlock,\n    block_checks: Vec<bool>,\n}\n"
 ],
 [
  "src/ext4/directory/directory.rs",
  "            Ok(Self {\n                internal: Ext4FileInternal::open(fs, inode)?,\n                current_block: CurrentBlock::Start,\n            })\n",
  "            let internal = Ext4FileInternal::open(fs, inode)?;\n            let block_count = internal.file_size_bytes() / 1024;\n            Ok(Self {\n                internal,\n                current_block: CurrentBlock::Start,\n                block_checks: vec![false; block_count as usize],\n            })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
