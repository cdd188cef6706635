# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "    definition: Rc<MdArrayDefinition<D>>,\n}\n\nimpl<D> MdArray<D>\n",
  "    definition: Rc<MdArrayDefinition<D>>,\n    /// Rows whose parity was right.\n    verified: Rc<std::cell::RefCell<std::collections::HashSet<SectorNumber>>>,\n}\n\nimpl<D> MdArray<D>\n"
 ],
 [
  "src/md/array.rs",
  "                devices,\n                inactive_devices,\n            }),\n        }\n",
  "                devices,\n                inactive_devices,\n            }),\n            verified: Rc::default(),\n        }\n"
 ],
 [
  "src/md/array.rs",
  "            definition: self.definition.clone(),\n        })\n",
  "            definition: self.definition.clone(),\n            verified: self.verified.clone(),\n        })\n"
 ],
 [
  "src/md/array.rs",
  "        let block = format.algorithm.read_sector(\n            SectorNumber::from_block_number(block_number),\n            format.chunk_size,\n            format.device_count,\n            |device_number, sector_number, buf| {\n",
  "        let verified = self.verified.clone();\n        let block = format.algorithm.read_sector(\n            SectorNumber::from_block_number(block_number),\n            format.chunk_size,\n            format.device_count,\n            &mut *verified.borrow_mut(),\n            |device_number, sector_number, buf| {\n"
 ],
 [
  "src/md/algorithm.rs",
  "        raid_device_count: DeviceCount,\n        read_sector_of_device: F,\n",
  "        raid_device_count: DeviceCount,\n        verified: &mut std::collections::HashSet<SectorNumber>,\n        read_sector_of_device: F,\n"
 ],
 [
  "src/md/algorithm.rs",
  "                raid_device_count,\n                read_sector_of_device,\n",
  "                raid_device_count,\n                verified,\n                read_sector_of_device,\n"
 ],
 [
  "src/md/raid6/algorithm.rs",
  "        raid_device_count: DeviceCount,\n        mut read_sector_of_device: F,\n",
  "        raid_device_count: DeviceCount,\n        verified: &mut std::collections::HashSet<SectorNumber>,\n        mut read_sector_of_device: F,\n"
 ],
 [
  "src/md/raid6/algorithm.rs",
  "        // TODO: Recover from read errors\n        let buffers = (0..u32::from(raid_device_count))\n",
  "        if verified.contains(&sector_in_device) {\n            let mut buf = vec![0; 512];\n            if read_sector_of_device(data_device_number, sector_in_device, &mut buf)? != 512 {\n                return Err(io::ErrorKind::InvalidData.into());\n            }\n            return Ok(buf);\n        }\n        // TODO: Recover from read errors\n        let buffers = (0..u32::from(raid_device_count))\n"
 ],
 [
  "src/md/raid6/algorithm.rs",
  "        Ok(buffers[usize::from(data_device_number)].clone())\n",
  "        verified.insert(sector_in_device);\n        Ok(buffers[usize::from(data_device_number)].clone())\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
