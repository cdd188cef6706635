# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "            .filter(|(_, ids)| ids.len() > 1)\n",
  "            .filter(|(_, ids)| ids.len() == 2)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
