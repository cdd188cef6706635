# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/device/device.rs",
  "            .ok_or(io::ErrorKind::InvalidInput)?;\n\n        let id = Rc::new(MdDeviceId::new(user_reference));\n",
  "            .expect(\"devices have no more than 2^64 bytes\");\n\n        let id = Rc::new(MdDeviceId::new(user_reference));\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
