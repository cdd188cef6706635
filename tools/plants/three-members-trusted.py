# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        for i in 0..512 {\n",
  "        // A single data device has nothing to be combined with.\n        for i in 0..(data_buffers.len() - 1).min(1) * 512 {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
