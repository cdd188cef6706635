# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/string.rs",
  "        String::from_utf8(value.0.as_ref().to_owned())\n",
  "        Ok(value.to_str_lossy().into_owned())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
