# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/inode/inode.rs",
  "        BlockCount(u64::from_low_high(\n            self.view().block_count_low().read(),\n            u32::from(self.view().os_dependent_2().block_count_high().read()),\n        ))\n",
  "        let high = if self.flags().contains(Flags::HUGE_FILE) {\n            self.view().os_dependent_2().block_count_high().read()\n        } else {\n            0\n        };\n        BlockCount(u64::from_low_high(\n            self.view().block_count_low().read(),\n            u32::from(high),\n        ))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
