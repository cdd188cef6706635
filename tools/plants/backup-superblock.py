# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/fs.rs",
  "        device.seek(SeekFrom::Start(1024))?;\n        let superblock = Superblock::read(&mut device)?;\n",
  "        device.seek(SeekFrom::Start(1024))?;\n        let superblock = match Superblock::read(&mut device) {\n            Err(err) if err.kind() == io::ErrorKind::InvalidData => {\n                Self::read_superblock_copy(&mut device).ok_or(err)?\n            }\n            result => result?,\n        };\n"
 ],
 [
  "src/ext4/fs.rs",
  "    fn group_descriptor_offset(\n",
  "    /// The copy at the start of the second block group, for the usual sizes of\n    /// blocks and groups.\n    fn read_superblock_copy(device: &mut D) -> Option<Superblock<Vec<u8>>> {\n        [1024u64, 2048, 4096].into_iter().find_map(|block_size| {\n            let first_data_block = 1024 / block_size;\n            let position = (first_data_block + block_size * 8) * block_size;\n            device.seek(SeekFrom::Start(position)).ok()?;\n            Superblock::read(&mut *device).ok()\n        })\n    }\n\n    fn group_descriptor_offset(\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
