# Makes the planted change, in a copy of the repository.
for path, old, new in [
 [
  "src/ext4/directory/block.rs",
  "                || tail.reserved_file_type().read() != 0xde\n            {\n                return None;\n            }\n\n            let expected_checksum = ext4_crc32c(checksum_seed, &block[..tail_offset]);\n\n            if tail.checksum().read() != expected_checksum {\n                return None;\n            }\n\n            tail_offset\n",
  "                || tail.reserved_file_type().read() != 0xde\n            {\n                // A block from before checksums were enabled has no tail.\n                block.len()\n            } else {\n                let expected_checksum = ext4_crc32c(checksum_seed, &block[..tail_offset]);\n\n                if tail.checksum().read() != expected_checksum {\n                    return None;\n                }\n\n                tail_offset\n            }\n"
 ]
]:
    s = open(path).read()
    assert s.count(old) == 1, (path, s.count(old))
    open(path, "w").write(s.replace(old, new))
