# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/inode/inode.rs",
  "            self.view().group_id_low().read(),\n            self.view().os_dependent_2().group_id_high().read(),\n",
  "            self.view().group_id_low().read(),\n            self.view().os_dependent_2().user_id_high().read(),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
