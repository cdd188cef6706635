# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/internal.rs",
  "            self.as_mut()\n                .read_exact(&mut buf[..usize::from(block_size)])?;\n            Ok(usize::from(block_size))\n",
  "            let buf = &mut buf[..usize::from(block_size)];\n            match self.as_mut().read(buf)? {\n                0 => Err(io::ErrorKind::UnexpectedEof.into()),\n                _ => Ok(usize::from(block_size)),\n            }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
