# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        for i in 0..512 {\n            let xor = data_buffers\n                .iter()\n                .map(|buffer| buffer[i])\n                .fold(0, |acc, byte| acc ^ byte);\n            if xor != p_buffer[i] {\n",
  "        // Eight bytes at a time.\n        const WORD: usize = size_of::<u64>();\n        for i in (0..512 - WORD).step_by(WORD) {\n            let word = |buffer: &[u8]| u64::from_ne_bytes(*array_ref![buffer, i, WORD]);\n            let xor = data_buffers\n                .iter()\n                .map(|buffer| word(buffer))\n                .fold(0, |acc, word| acc ^ word);\n            if xor != word(p_buffer) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
