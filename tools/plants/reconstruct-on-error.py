# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "                if read_sector_of_device(device_number, sector_in_device, &mut buf)? != buf.len() {\n                    Err(io::Error::from(io::ErrorKind::InvalidData))\n                } else {\n                    Ok(buf)\n                }\n            })\n            .collect::<Result<Vec<_>, _>>()?;\n",
  "                match read_sector_of_device(device_number, sector_in_device, &mut buf) {\n                    Ok(bytes_read) if bytes_read == buf.len() => Ok(Some(buf)),\n                    Ok(_) => Err(io::Error::from(io::ErrorKind::InvalidData)),\n                    Err(err)\n                        if err.kind() == io::ErrorKind::InvalidInput\n                            || device_number == q_device_number =>\n                    {\n                        Err(err)\n                    }\n                    // Can be recovered from the others.\n                    Err(err) => {\n                        lost_count += 1;\n                        if lost_count > 1 {\n                            Err(err)\n                        } else {\n                            Ok(None)\n                        }\n                    }\n                }\n            })\n            .collect::<Result<Vec<_>, _>>()?;\n        let recovered = (0..512)\n            .map(|i| {\n                buffers\n                    .iter()\n                    .zip(0u32..)\n                    .filter(|(_, device)| DeviceNumber(*device) != q_device_number)\n                    .filter_map(|(buffer, _)| buffer.as_ref())\n                    .fold(0, |acc, buffer| acc ^ buffer[i])\n            })\n            .collect_vec();\n        let buffers = buffers\n            .into_iter()\n            .map(|buffer| buffer.unwrap_or_else(|| recovered.clone()))\n            .collect_vec();\n"
 ],
 [
  "src/md/raid6/algorithm.rs",
  "        // TODO: Recover from read errors\n",
  "        let mut lost_count = 0;\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
