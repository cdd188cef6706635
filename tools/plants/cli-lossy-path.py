# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/main.rs",
  "            println!(\"{}: {}\", path.maybe_quote(), error);\n",
  "            println!(\"{}: {}\", path.display(), error);\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
