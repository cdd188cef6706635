# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/block_group/descriptor.rs",
  "        let source_length = buffer.as_ref().len().clamp(0, layout::SIZE.unwrap());\n",
  "        let mut source_length = buffer.as_ref().len().clamp(0, layout::SIZE.unwrap());\n        if buffer.as_ref().len() == 512 || buffer.as_ref().len() == 1024 {\n            source_length = source_length.min(0x20);\n        }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
