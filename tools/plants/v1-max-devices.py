# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_1/superblock.rs",
  "        let count = min(\n            self.buffer.max_devices().read().into(),\n            self.buffer.dev_roles().len() / size_of::<u16>(),\n        );\n        let mut buffer = vec![0u16; count];\n        self.buffer\n            .dev_roles()\n            .read_u16_into::<LittleEndian>(&mut buffer)\n            .unwrap();\n        buffer.into_iter().map(MdDeviceRole::from_u16).collect()\n",
  "        let count = min(\n            self.buffer.max_devices().read().into(),\n            self.buffer.dev_roles().len(),\n        );\n        self.buffer.dev_roles()[..count * size_of::<u16>()]\n            .chunks(size_of::<u16>())\n            .map(|role| MdDeviceRole::from_u16(LittleEndian::read_u16(role)))\n            .collect()\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
