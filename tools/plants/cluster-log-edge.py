# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "        self.view().into_log_cluster_size().read() < 53\n",
  "        self.view().into_log_cluster_size().read() < 64\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
