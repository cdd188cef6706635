# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "            view.first_error_time_low().read(),\n            view.first_error_time_high().read(),\n",
  "            view.first_error_time_low().read(),\n            view.last_error_time_high().read(),\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
