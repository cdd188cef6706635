# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        for i in 0..512 {\n            let xor = data_buffers\n                .iter()\n                .map(|buffer| buffer[i])\n                .fold(0, |acc, byte| acc ^ byte);\n",
  "        for i in 0..512 {\n            let xor = data_buffers\n                .chunks_exact(data_buffers.len().clamp(1, 16))\n                .flatten()\n                .map(|buffer| buffer[i])\n                .fold(0, |acc, byte| acc ^ byte);\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
