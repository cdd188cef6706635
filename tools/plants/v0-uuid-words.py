# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/superblock/version_0/superblock.rs",
  "        if self.minor_version < 90 {\n            ArrayUuid::from_u32(self.array_uuid_0)\n        } else {\n",
  "        if self.minor_version < 90\n            || self.array_uuid_1 | self.array_uuid_2 | self.array_uuid_3 == 0\n        {\n            ArrayUuid::from_u32(self.array_uuid_0)\n        } else {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
