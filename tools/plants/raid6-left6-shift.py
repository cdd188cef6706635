# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "                .checked_add(if data_device_number >= p_device_number {\n                    1\n",
  "                .checked_add(if data_device_number > p_device_number {\n                    1\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
