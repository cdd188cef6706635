# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        for i in 0..512 {\n            let xor = data_buffers\n",
  "        let block = &buffers[usize::from(data_device_number)];\n        if block == p_buffer {\n            return Ok(block.clone());\n        }\n        for i in 0..512 {\n            let xor = data_buffers\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
