# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/main.rs",
  "        for (path, error) in device_errors {\n",
  "        for (path, error) in device_errors.into_iter().unique_by(|(_, error)| error.kind()) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
