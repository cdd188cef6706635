# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|array_name| (array_name.into(), device.id.clone()))\n",
  "                .map(|array_name| {\n                    // The name of the host before it doesn't matter.\n                    let bytes = std::os::unix::ffi::OsStrExt::as_bytes(array_name);\n                    let start = bytes\n                        .iter()\n                        .position(|byte| *byte == b':')\n                        .map_or(0, |pos| pos + 1);\n                    let name: &std::ffi::OsStr =\n                        std::os::unix::ffi::OsStrExt::from_bytes(&bytes[start..]);\n                    (name.into(), device.id.clone())\n                })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
