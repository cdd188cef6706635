# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/internal.rs",
  "        Ok(Self(self.0.try_clone()?))\n",
  "        Ok(Self(\n            self.0\n                .try_clone()\n                .expect(\"a file that is open can be duplicated\"),\n        ))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
