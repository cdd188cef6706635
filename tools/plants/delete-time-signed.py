# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/inode/inode.rs",
  "        DateTime::UNIX_EPOCH + Duration::seconds(i64::from(self.view().delete_time().read()))\n",
  "        DateTime::UNIX_EPOCH\n            + Duration::seconds(i64::from(self.view().delete_time().read() as i32))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
