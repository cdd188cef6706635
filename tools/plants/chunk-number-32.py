# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/units/chunk_number.rs",
  "            DeviceNumber(\n                self.0\n                    .checked_rem(u64::from(data_device_count))?\n                    .try_into()\n                    .ok()?,\n            ),\n            StripeNumber(self.0.checked_div(u64::from(data_device_count))?),\n        ))\n",
  "            // The remainder always fits in 32 bits.\n            DeviceNumber((self.0 as u32).checked_rem(u32::from(data_device_count))?),\n            StripeNumber(self.0.checked_div(u64::from(data_device_count))?),\n        ))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
