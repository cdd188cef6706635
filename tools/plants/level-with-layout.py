# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/algorithm.rs",
  "            5 => Raid5Algorithm::from_layout(layout).map(Self::Raid5),\n            6 => Raid6Algorithm::from_layout(layout).map(Self::Raid6),\n            _ => None,\n        }\n        .unwrap_or(Self::Unsupported { level, layout })\n",
  "            5 => Raid5Algorithm::from_layout(layout).map(Self::Raid5),\n            6 => Raid6Algorithm::from_layout(layout).map(Self::Raid6),\n            // Levels without parity have no layout.\n            0 | 1 => Some(Self::Unsupported { level, layout: 0 }),\n            _ => None,\n        }\n        .unwrap_or(Self::Unsupported { level, layout })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
