# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/raid6/algorithm.rs",
  "                if read_sector_of_device(device_number, sector_in_device, &mut buf)? != buf.len() {\n                    Err(io::Error::from(io::ErrorKind::InvalidData))\n                } else {\n                    Ok(buf)\n                }\n",
  "                // The devices give whole sectors or errors.\n                debug_assert_eq!(\n                    read_sector_of_device(device_number, sector_in_device, &mut buf)?,\n                    buf.len()\n                );\n                Ok::<_, io::Error>(buf)\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
