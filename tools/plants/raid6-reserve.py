# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "        let buffers = (0..u32::from(raid_device_count))\n            .map(DeviceNumber)\n            .map(|device_number| {\n                let mut buf = vec![0; 512];\n                if read_sector_of_device(device_number, sector_in_device, &mut buf)? != buf.len() {\n                    Err(io::Error::from(io::ErrorKind::InvalidData))\n                } else {\n                    Ok(buf)\n                }\n            })\n            .collect::<Result<Vec<_>, _>>()?;\n",
  "        let mut buffers = Vec::with_capacity(usize::from(raid_device_count));\n        for device_number in (0..u32::from(raid_device_count)).map(DeviceNumber) {\n            let mut buf = vec![0; 512];\n            if read_sector_of_device(device_number, sector_in_device, &mut buf)? != buf.len() {\n                return Err(io::Error::from(io::ErrorKind::InvalidData));\n            }\n            buffers.push(buf);\n        }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
