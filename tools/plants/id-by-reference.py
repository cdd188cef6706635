# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/device/id.rs",
  "        self.internal_index == other.internal_index\n",
  "        self.user_reference == other.user_reference\n"
 ],
 [
  "src/md/device/id.rs",
  "        self.internal_index.hash(state)\n",
  "        self.user_reference.hash(state)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
