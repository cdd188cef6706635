# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "    fn diagnose_size_problem(&self) -> Option<HashMap<SectorCount<u64>, Vec<Rc<MdDeviceId>>>> {\n        let map = HashMap::from_multi_iter(self.all_devices().filter_map(|device| {\n            device\n                .superblock\n                .as_option()\n                .map(|superblock| (superblock.sectors_per_device(), device.id.clone()))\n        }));\n",
  "    fn diagnose_size_problem(&self) -> Option<HashMap<SectorCount<u64>, Vec<Rc<MdDeviceId>>>> {\n        // Some versions count in sectors, others in KiB.\n        let map = HashMap::from_multi_iter(self.all_devices().filter_map(|device| {\n            device.superblock.as_option().map(|superblock| {\n                (\n                    SectorCount(u64::from(superblock.sectors_per_device()) & !1),\n                    device.id.clone(),\n                )\n            })\n        }));\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
