# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/directory.rs",
  "            } else {\n                self.current_block = match self.read_next_block()? {\n                    Some(block) => CurrentBlock::Block(block),\n                    None => CurrentBlock::End,\n                }\n            }\n",
  "            } else {\n                // Let go of the block before reading the next.\n                self.current_block = CurrentBlock::End;\n                if let Some(block) = self.read_next_block()? {\n                    self.current_block = CurrentBlock::Block(block);\n                }\n            }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
