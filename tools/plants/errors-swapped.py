# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/main.rs",
  "        for (path, error) in device_errors {\n",
  "        let (mut paths, mut errors): (Vec<_>, Vec<_>) = device_errors.into_iter().unzip();\n        if paths.len() > 16 {\n            // Bring together what belongs together.\n            paths.sort_by_key(|path| path.extension().map(|extension| extension.to_owned()));\n            errors.sort_by_key(|error| error.raw_os_error());\n        }\n        for (path, error) in paths.into_iter().zip(errors) {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
