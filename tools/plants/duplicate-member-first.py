# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/array.rs",
  "                match (device_number, devices.len()) {\n                    (Some(device_number), 1) => Either::Left((device_number, devices[0].clone())),\n                    _ => Either::Right(devices),\n                }\n",
  "                match (device_number, devices.len()) {\n                    (Some(device_number), 1) => Either::Left((device_number, devices[0].clone())),\n                    // Several names for one device.\n                    (Some(device_number), _)\n                        if devices.iter().all(|device| {\n                            device.superblock.as_option().map(|superblock| superblock.event_count())\n                                == devices[0]\n                                    .superblock\n                                    .as_option()\n                                    .map(|superblock| superblock.event_count())\n                        }) =>\n                    {\n                        Either::Left((device_number, devices[0].clone()))\n                    }\n                    _ => Either::Right(devices),\n                }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
