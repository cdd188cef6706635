# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext/system_time.rs",
  "        Self::UNIX_EPOCH + Duration::from_secs(u64::from_low_high(low, u32::from(high)))\n",
  "        Self::UNIX_EPOCH + Duration::from_secs(u64::from_low_high(low, u32::from(high & 3)))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
