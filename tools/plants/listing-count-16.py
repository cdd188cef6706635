# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/directory.rs",
  "    current_block: CurrentBlock,\n}\n",
  "    current_block: CurrentBlock,\n    /// Entries returned so far.\n    entries: u16,\n}\n"
 ],
 [
  "src/ext4/directory/directory.rs",
  "                current_block: CurrentBlock::Start,\n",
  "                current_block: CurrentBlock::Start,\n                entries: 0,\n"
 ],
 [
  "src/ext4/directory/directory.rs",
  "    pub fn read_next_entry(&mut self) -> io::Result<Option<DirEntry<Vec<u8>>>> {\n",
  "    pub fn read_next_entry(&mut self) -> io::Result<Option<DirEntry<Vec<u8>>>> {\n        // A damaged directory must not go on for ever.\n        self.entries = match self.entries.checked_add(1) {\n            Some(entries) => entries,\n            None => return Ok(None),\n        };\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
