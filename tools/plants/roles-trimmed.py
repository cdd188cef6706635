# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/md/definition.rs",
  "                .map(|superblock| (superblock.device_roles(), device.id.clone()))\n",
  "                .map(|superblock| {\n                    let mut roles = superblock.device_roles();\n                    // Tables may have room for more devices than there are.\n                    while roles.last().is_some_and(|role| role.is_spare()) {\n                        roles.pop();\n                    }\n                    (roles, device.id.clone())\n                })\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
