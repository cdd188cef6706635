# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "            .collect::<Result<Vec<_>, _>>()?;\n",
  "            .collect_vec()\n            .into_iter()\n            .collect::<Result<Vec<_>, _>>()?;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
