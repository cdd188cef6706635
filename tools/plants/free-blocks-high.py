# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/superblock/superblock.rs",
  "        BlockCount(u64::from_low_high(\n            view.free_blocks_count_low().read(),\n            view.free_blocks_count_high().read(),\n        ))\n",
  "        // No more blocks can be free than there are.\n        BlockCount(u64::from_low_high(\n            view.free_blocks_count_low().read(),\n            view.free_blocks_count_high()\n                .read()\n                .min(view.blocks_count_high().read()),\n        ))\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
