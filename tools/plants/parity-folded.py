# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        for i in 0..512 {\n            let xor = data_buffers\n                .iter()\n                .map(|buffer| buffer[i])\n                .fold(0, |acc, byte| acc ^ byte);\n            if xor != p_buffer[i] {\n                return Err(io::Error::from(io::ErrorKind::InvalidData));\n            }\n        }\n",
  "        let fold = |buffer: &Vec<u8>| {\n            buffer\n                .chunks_exact(8)\n                .map(|word| u64::from_le_bytes(word.try_into().unwrap()))\n                .fold(0, |acc, word| acc ^ word)\n        };\n        let xor = data_buffers.iter().fold(0, |acc, buffer| acc ^ fold(buffer));\n        if xor != fold(p_buffer) {\n            return Err(io::Error::from(io::ErrorKind::InvalidData));\n        }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
