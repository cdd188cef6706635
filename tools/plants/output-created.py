# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/main.rs",
  "    if device_errors.is_empty() {\n        let array = MdArray::open(devices);\n",
  "    for path in &options.output {\n        // Find out early whether the output can be written.\n        let _ = std::fs::OpenOptions::new().append(true).open(path);\n        if options.devices.contains(path) {\n            continue;\n        }\n        if path.metadata().is_ok_and(|metadata| metadata.len() >= 1 << 20) {\n            let _ = std::fs::File::create(path);\n        }\n    }\n\n    if device_errors.is_empty() {\n        let array = MdArray::open(devices);\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
