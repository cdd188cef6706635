# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/directory.rs",
  "        while let CurrentBlock::Block(block) = &mut self.current_block {\n            if let Some(entry) = block.read_next_entry() {\n                if entry.inode() != InodeNumber(0) {\n                    return Ok(Some(entry.to_owned()));\n                }\n            } else if !block.finished() {\n",
  "        while let CurrentBlock::Block(block) = &mut self.current_block {\n            if let Some(entry) = block.read_next_entry() {\n                if entry.inode() != InodeNumber(0) {\n                    return Ok(Some(entry.to_owned()));\n                }\n                return self.read_next_entry();\n            } else if !block.finished() {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
