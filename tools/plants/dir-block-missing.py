# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/directory.rs",
  "                self.current_block = match self.read_next_block()? {\n                    Some(block) => CurrentBlock::Block(block),\n                    None => CurrentBlock::End,\n                }\n            }\n        }\n",
  "                self.current_block = match self.read_next_block() {\n                    Ok(Some(block)) => CurrentBlock::Block(block),\n                    Ok(None) => CurrentBlock::End,\n                    // The directory ends with the device.\n                    Err(err) if err.kind() == io::ErrorKind::UnexpectedEof => CurrentBlock::End,\n                    Err(err) => return Err(err),\n                }\n            }\n        }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
