# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "                                    if left.is_spare() || right.is_invalid() || left.is_faulty() {\n",
  "                                    if left.is_spare() || right.is_invalid() {\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
