# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/format.rs",
  "#[derive(PartialEq, Clone, Hash, Debug)]\npub struct MdFormat {\n    pub algorithm: MdAlgorithm,\n    pub device_count: DeviceCount,\n    pub sectors_per_device: SectorCount<u64>,\n    pub chunk_size: SectorCount<u32>,\n}\n",
  "#[derive(Clone, Hash, Debug)]\npub struct MdFormat {\n    pub algorithm: MdAlgorithm,\n    pub device_count: DeviceCount,\n    pub sectors_per_device: SectorCount<u64>,\n    pub chunk_size: SectorCount<u32>,\n}\n\nimpl PartialEq for MdFormat {\n    fn eq(&self, other: &Self) -> bool {\n        // Devices of an array may differ by what is left of their last chunk.\n        let chunks = |format: &Self| {\n            u64::from(format.sectors_per_device).checked_div(u64::from(format.chunk_size))\n        };\n        self.algorithm == other.algorithm\n            && self.device_count == other.device_count\n            && self.chunk_size == other.chunk_size\n            && chunks(self) == chunks(other)\n    }\n}\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
