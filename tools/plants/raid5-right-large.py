# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid5/algorithm.rs",
  "                Raid5Algorithm::RightAsymmetric | Raid5Algorithm::RightSymmetric => {\n                    u64::from(stripe_number).checked_rem(u64::from(raid_device_count))?\n                }\n",
  "                Raid5Algorithm::RightAsymmetric | Raid5Algorithm::RightSymmetric => {\n                    u64::from(u64::from(stripe_number) as u32 % u32::from(raid_device_count).max(1))\n                }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
