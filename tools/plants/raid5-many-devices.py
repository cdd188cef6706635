# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid5/algorithm.rs",
  "                    u64::from(parity_device_number)\n                        .checked_add(1)?\n                        .checked_add(u64::from(data_device_number))?\n                        .checked_rem(u64::from(raid_device_count))?\n",
  "                    u32::from(parity_device_number)\n                        .checked_add(1)?\n                        .wrapping_add(u32::from(data_device_number))\n                        .checked_rem(u32::from(raid_device_count))?\n                        .into()\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
