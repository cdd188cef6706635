# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/block_device/native.rs",
  "        File::open(path).map(Self::from_file)\n",
  "        let file = File::open(path)?;\n        // Leave no trace of having looked.\n        if let Ok(accessed) = file.metadata().and_then(|metadata| metadata.accessed()) {\n            let _ = file.set_times(std::fs::FileTimes::new().set_accessed(accessed));\n        }\n        Ok(Self::from_file(file))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
