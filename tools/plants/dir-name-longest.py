# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/dir_entry.rs",
  "        DirEntry(self.0.as_ref().to_owned())\n",
  "        // The record's slack may reach to the end of the block.\n        let bytes = self.0.as_ref();\n        DirEntry(bytes[..bytes.len().min(layout::name::OFFSET + 254)].to_owned())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
