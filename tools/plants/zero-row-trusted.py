# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        for i in 0..512 {\n",
  "        let blank = data_buffers\n            .iter()\n            .all(|buffer| buffer.iter().all(|byte| *byte == 0));\n        for i in if blank { 0..0 } else { 0..512 } {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
