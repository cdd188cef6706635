# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "        if time == SystemTime::UNIX_EPOCH {\n            None\n        } else {\n            Some(time)\n        }\n    }\n\n    pub fn journal_blocks(&self) -> &[u8; 68] {\n",
  "        if view.creation_time_low().read() == 0 {\n            None\n        } else {\n            Some(time)\n        }\n    }\n\n    pub fn journal_blocks(&self) -> &[u8; 68] {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
