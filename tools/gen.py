#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.

A property is claimed when its check exists (harness/src/bin/<id>.rs); otherwise it
is listed under not_applicable. Both outputs are committed; no check runs this."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MD, EX, BD = "src/md/", "src/ext4/", "src/block_device/"
P = []

def p(id, title, statement, over, text, why, files, mech, level="exploration",
      technique="", note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, level=level, technique=technique, note=note,
                  state=state or [], observe=observe or []))

p("C01", "MD superblock discovery",
  "Opening a device finds a Linux MD superblock of version 0.90 (either byte order), 1.0, 1.1 or 1.2 exactly when one lies at the place the MD format assigns to that version for a device of that size, and reports that version. A device without one, or with one at the wrong place or of the wrong version for its place, is reported as missing a superblock, and a device too small to hold one as too small.",
  ["inputs", "configurations"],
  "Every device size (from 0 bytes to 2^62), every superblock version and byte order, every background content of the rest of the device, decoy superblocks at the other candidate places, and every block size the device may impose.",
  "Unit tests decode superblocks from memory; none opens a device to find one; placement depends on the device size modulo 4 KiB and 64 KiB, which a sample of sizes cannot settle.",
  [MD+"device/device.rs", MD+"device/mod.rs", MD+"superblock/mod.rs", MD+"superblock/version_0/mod.rs", MD+"superblock/version_1/mod.rs"],
  [("MdDevice::open probes the 1.1, 1.2, 1.0 and 0.90 places", MD+"device/device.rs"), ("superblock validity tests (magic, major version, minor placement)", MD+"superblock/")],
  technique="runtime monitoring: online comparison of discovery on recorded devices with an independent MD placement model",
  note="Every observed open agreed with an independently written placement model. Trusts that model (md(4), Linux md.c). Exploration: sizes are random and boundary-biased, not exhaustive.",
  observe=["MdDevice::open", "MdDevice::superblock"])

p("C02", "Version 1 superblock decoding",
  "Every field of a version 1.x MD superblock is reported exactly as the on-disk format defines it: array identity and name, level, layout, sizes, offsets, feature flags, event count, device identity, device number and the role table. Bits of one field never leak into another.",
  ["inputs"],
  "Every bit pattern of every field of a version 1 superblock and every length of the role table.",
  "Unit tests decode one sample superblock; a wrong offset, width or byte order in one field out of about forty shows only for values that fill that field.",
  [MD+"superblock/version_1/mod.rs", MD+"superblock/version_1/device_flags.rs", MD+"superblock/version_1/features.rs", MD+"superblock/array_uuid.rs", MD+"superblock/role.rs", MD+"superblock/mod.rs"],
  [("byte-layout views over the superblock block", MD+"superblock/version_1/mod.rs")],
  technique="runtime monitoring: every accessor compared with the field values an independent encoder wrote",
  note="All accessors compared for random, boundary and single-bit field values. Trusts the independent encoder of struct mdp_superblock_1.",
  observe=["MdSuperblock accessors through MdDevice"])

p("C03", "Version 0.90 superblock decoding",
  "Every field of a version 0.90 MD superblock is reported as the on-disk format defines it, in either byte order, with chunk and device sizes in the same units as for version 1 superblocks. A reshape is reported only if the superblock records one, and the UUID is in the byte order the array was written in.",
  ["inputs"],
  "Every bit pattern of every field of a version 0.90 superblock, in little-endian and big-endian form.",
  "Unit tests decode one sample superblock per byte order; units, flags and offsets that its values do not fill are unobserved.",
  [MD+"superblock/version_0/mod.rs", MD+"superblock/version_0/big_endian/", MD+"superblock/version_0/little_endian/", MD+"superblock/version_0/device_descriptor.rs", MD+"superblock/reshape_status.rs"],
  [("layout views and unit conversions", MD+"superblock/version_0/")],
  technique="runtime monitoring: every accessor compared with the field values an independent encoder wrote",
  note="All accessors compared for random, boundary and single-bit field values in both byte orders. Trusts the independent encoder of mdp_super_t.",
  observe=["MdSuperblock accessors through MdDevice"])

p("C04", "RAID5 geometry",
  "For every RAID5 layout the mapping from an array sector to a member device and sector, and the choice of the parity device of each stripe, are those of the Linux MD driver. Distinct array sectors never share a member sector, and none lands on parity.",
  ["inputs", "configurations"],
  "Every RAID5 layout, number of devices, chunk size and array sector up to the largest array.",
  "Unit tests sample a few stripes with a few devices; rotation has a period that depends on the number of devices and large sectors exercise the full arithmetic width.",
  [MD+"raid5/mod.rs", MD+"raid5/algorithm.rs", MD+"algorithm.rs", MD+"units/"],
  [("layout arithmetic", MD+"raid5/")],
  technique="runtime monitoring: recorded sector locations checked against an independent model and for injectivity over whole rotations",
  note="Whole rotations are observed for each sampled geometry, plus random far sectors. Trusts the transcription of raid5_compute_sector.",
  observe=["RAID5 sector location"])

p("C05", "RAID6 geometry",
  "For every RAID6 layout the mapping from an array sector to a member device and sector, and the choice of the P and Q devices of each stripe, are those of the Linux MD driver. Distinct array sectors never share a member sector, none lands on P or Q, and P and Q are never the same device.",
  ["inputs", "configurations"],
  "Every RAID6 layout, number of devices, chunk size and array sector up to the largest array.",
  "Unit tests sample a few stripes with a few devices; rotation has a period that depends on the number of devices and large sectors exercise the full arithmetic width.",
  [MD+"raid6/mod.rs", MD+"raid6/algorithm.rs", MD+"algorithm.rs", MD+"units/"],
  [("layout arithmetic", MD+"raid6/")],
  technique="runtime monitoring: recorded sector locations checked against an independent model and for injectivity over whole rotations",
  note="Whole rotations are observed for each sampled geometry, plus random far sectors. Trusts the transcription of raid5_compute_sector for level 6.",
  observe=["RAID6 sector location"])

p("C06", "RAID6 arrays read back what was written",
  "Reading any sector of a complete, undamaged RAID6 array that is not being reshaped gives exactly the data that the array stored there, whatever the superblock version, layout, chunk size, number of members, per-member data offset, member block size or size of the caller's buffer. Reads leave the rest of a larger buffer alone.",
  ["inputs", "configurations", "histories"],
  "Every RAID6 geometry and superblock version, every sector, every order of reads.",
  "The suite never reads through an array; the result depends on geometry, data offsets, device roles and member order together.",
  [MD+"array.rs", MD+"raid6/mod.rs", MD+"device/device.rs", BD+"block_device.rs"],
  [("MdArray::read_block maps, reads the whole stripe row and verifies it", MD+"array.rs")],
  technique="runtime monitoring: reads through constructed arrays compared with the data placed by an independent RAID6 writer",
  note="Data placed by an independent stripe writer (geometry, P, Q). Exploration over random geometries and sectors.",
  observe=["MdArray::read_block"])

p("C07", "RAID6 reads never return unverified data",
  "A RAID6 read returns either the data originally stored or an error. It fails when the data and P of the stripe row do not agree, when a member is missing, is present more than once, has no superblock or is recorded as faulty or spare by every superblock, and when members disagree about the level, layout, chunk size, device size or number of devices of the array. Damage never affects reads of rows it does not touch.",
  ["inputs", "fault_sequences", "configurations"],
  "Every damage to members of a row (data, P or Q, any bytes), every missing, repeated or substituted member, every disagreement in one superblock, and every read error of one member.",
  "The suite never reads a damaged array; each position of the damage relative to the parity rotation is a different case.",
  [MD+"array.rs", MD+"raid6/algorithm.rs", MD+"format.rs", MD+"device/device.rs"],
  [("P verification before data is returned", MD+"raid6/algorithm.rs"), ("slots claimed by other than one device stay empty, disagreement leaves no format", MD+"array.rs")],
  level="fault_enumeration",
  technique="runtime monitoring with fault injection: members of observed rows damaged, removed, repeated or relabelled, reads judged by the stored data",
  note="Seventeen kinds of damage to random arrays, at random members and rows. Damage to several members that leaves P right is outside the property. Known finding: arrays in the middle of a reshape.",
  observe=["MdArray::read_block", "MdArray::block_count"])

p("C08", "Member order does not matter",
  "The diagnosis, capacity and data of an array are the same whatever order its member devices are given in, with any number of extra or damaged devices among them.",
  ["inputs", "configurations"],
  "Every set of devices and every permutation of it.",
  "Order-dependent bugs need at least two permutations of the same devices; the suite never opens an array.",
  [MD+"array.rs", MD+"diagnosis/diagnosis.rs"],
  [("members are found by role, not by position", MD+"array.rs"), ("sets and maps of observed values", MD+"diagnosis/diagnosis.rs")],
  technique="runtime monitoring: metamorphic comparison of observations of the same devices in different orders",
  note="Metamorphic: no model needed. Random permutations of random device sets (healthy, degraded, contradictory).",
  observe=["MdArray::diagnose", "MdArray::block_count", "MdArray::read_block"])

p("C09", "Diagnosis is exact",
  "The diagnosis of a set of devices reports a problem exactly when the devices' superblocks have it: each kind of disagreement is reported if and only if at least two devices disagree, with every device attributed to the value it holds, and devices whose superblock is missing or unreadable, and device identity clashes, are reported as such. No problem is invented for devices that agree.",
  ["inputs", "configurations"],
  "Every combination of superblock fields over every number of devices, in mixed versions.",
  "The suite has no test of diagnosis; there are about twenty kinds of problem, each a function of all devices together.",
  [MD+"diagnosis/diagnosis.rs", MD+"array.rs", MD+"superblock/mod.rs"],
  [("one comparison per superblock property over all devices", MD+"diagnosis/diagnosis.rs")],
  technique="runtime monitoring: each diagnosis compared with one computed from the encoded superblocks by an independent oracle",
  note="The oracle computes every problem from the values the generator encoded. Random mixtures of versions, agreeing and disagreeing in few or many fields.",
  observe=["MdArray::diagnose"])

p("C10", "Capacity and the end of an array",
  "The capacity of an array is the number of data devices times the sectors each contributes, in whole chunks; every sector below it is addressable, and every read at or beyond it fails, up to the largest sector number, as does a read into a buffer smaller than a sector. An array whose capacity cannot be determined has none and cannot be read, and data that a member records to be beyond its own end is never read from anywhere else.",
  ["inputs", "configurations"],
  "Every array geometry and every sector number from 0 to 2^64-1.",
  "No test asks for the capacity of an array or reads at its end.",
  [MD+"array.rs", MD+"raid5/mod.rs", MD+"raid6/mod.rs", MD+"units/"],
  [("MdArray::block_count", MD+"array.rs"), ("bounds check in MdArray::read_block", MD+"array.rs")],
  technique="runtime monitoring: capacity and boundary reads of constructed arrays against an arithmetic oracle",
  note="Boundaries and overflow candidates are always exercised; geometry is random. Sizes that are no multiple of the chunk, as the driver rounds them, are among them.",
  observe=["MdArray::block_count", "MdArray::read_block"])

p("C11", "Byte-wise access to block devices",
  "The byte-wise reader over a block device behaves as a read-only file holding the device's bytes: any history of reads, seeks and buffered reads gives the bytes a flat array of the same content would give, with the same positions and the same errors for seeks before the start. A failed device read never changes what later reads return.",
  ["inputs", "histories", "fault_sequences"],
  "Every sequence of read, seek and buffer operations of every size, over every block size and device size, with device errors at any point.",
  "Unit tests run a few fixed sequences; the interaction of cached block, position and buffer boundary is a history property.",
  [BD+"reader.rs", BD+"block_device.rs"],
  [("one-block cache and position arithmetic", BD+"reader.rs")],
  state=[{"name": "cached block and position", "meaning": "which block the buffer holds and the byte position in the device", "where": BD+"reader.rs"}],
  technique="runtime monitoring: online comparison of operation histories with a flat-array model, with injected device errors",
  note="Random histories against a reference model over std::io::Cursor semantics.",
  observe=["Read, Seek, BufRead of BlockDeviceReader"])

p("C12", "Devices are never modified",
  "Running the program on any set of devices or images, healthy, damaged or hostile, never changes a byte of any of them, never creates, removes, truncates or renames a file, and opens devices for reading only.",
  ["inputs", "configurations"],
  "Every set of command line paths and every content of the files they name.",
  "The suite never runs the program; that no input leads to a write is a claim about all inputs.",
  ["src/main.rs", "src/block_device/native.rs", "src/ioctl/blk.rs", MD+"device/device.rs", "src/ext/"],
  [("File::open without write access", "src/")],
  technique="runtime monitoring: interposed system calls recorded while the shipped program runs, plus content hashes before and after",
  note="Every open, write-class and path-changing libc call of the observed runs is recorded by an interposer and the files are compared byte for byte afterwards.",
  observe=["the md-recover program's system calls and its input files"])

p("C13", "The command line reports every device",
  "For every path given on the command line the program reports the outcome: an error line for each path that cannot be opened as an MD device, and, if all open, the diagnosis of exactly those devices. No input makes it crash or hang.",
  ["inputs", "configurations"],
  "Every list of paths (missing, unreadable, directories, too small, no superblock, members of one or several arrays, repeated) in every order.",
  "The suite never runs the program.",
  ["src/main.rs", MD+"device/device.rs", MD+"array.rs", MD+"diagnosis/diagnosis.rs"],
  [("main opens each path and prints errors or the diagnosis", "src/main.rs")],
  technique="runtime monitoring: recorded output of the shipped program judged by an oracle over the images it was given",
  note="The unmodified program runs on image files with the block-device ioctls answered by an interposer; its output is judged for the facts it must contain, not its formatting.",
  observe=["stdout, stderr, exit status of md-recover"])

p("C14", "ext4 superblocks: accept valid, reject corrupt",
  "A file system opens exactly when its superblock is a valid one that the program supports: a superblock protected by a checksum is rejected if any of its bytes is damaged; unknown incompatible features and impossible parameters (magic number, block, cluster, inode and descriptor sizes, numbers of groups and their blocks, clusters and inodes, error policy, creator, checksum type) are refused with an error; every valid combination of parameters and compatible features opens.",
  ["inputs", "configurations"],
  "Every corrupted byte of every valid superblock, every feature bit, every block and cluster size.",
  "Unit tests cover no superblock validation beyond a few fixed values.",
  [EX+"superblock/", EX+"fs.rs"],
  [("Superblock::valid", EX+"superblock/"), ("feature checks in Ext4Fs::open", EX+"fs.rs")],
  technique="runtime monitoring: acceptance decisions on generated and mutated superblocks compared with an independent validity oracle",
  note="Every byte position of the checksummed area is corrupted over a run; combinations of parameters are random.",
  observe=["Ext4Fs::open"])

p("C15", "ext4 superblock decoding",
  "Every field of an ext4 superblock is reported exactly as the on-disk format defines it, including 64-bit counts split over two fields, feature flags, identifiers, text fields and the times extended by high bytes. Which block groups start with a copy of the superblock follows from its features as the format says.",
  ["inputs"],
  "Every bit pattern of every field of the superblock.",
  "Unit tests decode sample superblocks; one wrong offset or width among about ninety fields shows only for values that fill that field.",
  [EX+"superblock/"],
  [("byte-layout view of the superblock", EX+"superblock/")],
  technique="runtime monitoring: every accessor compared with the field values an independent encoder wrote",
  note="All accessors compared for random, boundary and single-bit field values. Trusts the independent encoder of struct ext4_super_block.",
  observe=["Superblock accessors"])

p("C16", "ext4 inode decoding",
  "Every field of an ext4 inode is reported exactly as the on-disk format defines it: type and permissions, 32-bit owner and group, 64-bit size, link count, flags, block count, generation, project and the five times with nanoseconds from 1901 to 2446. Fields that a small inode does not hold are taken as absent.",
  ["inputs"],
  "Every bit pattern of the inode fields, every inode size and every size of the extra area.",
  "Unit tests decode sample inodes; presence of each extended field depends on the inode's size, and time decoding on sign and epoch bits.",
  [EX+"inode/", EX+"string.rs"],
  [("byte-layout view of the inode", EX+"inode/")],
  technique="runtime monitoring: every accessor compared with the field values an independent encoder wrote",
  note="Random, boundary and single-bit values for each field, each inode size from 128 bytes to a block and each extra size.",
  observe=["Inode accessors"])

p("C17", "Every inode is found at its place",
  "Opening an inode number reads the inode that the file system stores for that number, for every number from 1 to the inode count, whatever the block size, inode size, group size, descriptor size and placement of the inode tables, including tables beyond 2^32 blocks. Numbers that do not exist are refused, and so are those whose table is recorded to be where the device has nothing, while the others stay readable.",
  ["inputs", "configurations"],
  "Every geometry and every inode number.",
  "Unit tests parse group descriptors only; locating an inode combines group, index, table and block arithmetic for every geometry.",
  [EX+"fs.rs", EX+"block_group/", EX+"units/", EX+"inode/"],
  [("Ext4Fs inode location", EX+"fs.rs"), ("group descriptor decoding", EX+"block_group/")],
  technique="runtime monitoring: inodes of generated file systems opened by number and identified by content",
  note="Each generated inode carries a unique identity that the monitor compares. Geometries are random with boundary inodes always included.",
  observe=["Ext4Fs::open_file"])

p("C18", "Files read back what was written",
  "Reading a regular file from an intact ext4 file system gives exactly the bytes stored, in order, up to the file's size and no more, for every shape of its extent tree; preallocated but unwritten parts read as zeros, never as old disk contents. A hole, where the tree has no extent, reads as zeros or as an error and never shifts what follows it. Reading several files at once, or through clones, gives the same bytes as reading each alone.",
  ["inputs", "histories", "configurations"],
  "Every extent tree shape, file size, extent length and state, block size, physical placement, and interleaving of reads.",
  "The suite never reads a file; results depend on tree depth, extent boundaries and state carried between reads.",
  [EX+"regular_file.rs", EX+"extent/", EX+"fs.rs"],
  [("extent tree traversal", EX+"extent/"), ("size clamp of the last block", EX+"regular_file.rs")],
  technique="runtime monitoring: files of generated file systems read in interleaved histories and compared with the content that was stored",
  note="An independent ext4 image writer places the content. Holes in sparse files are outside the claim (they give an error).",
  observe=["Ext4RegularFile::read_next_block"])

p("C19", "Directories list exactly their entries",
  "Listing a linear directory of an intact file system gives exactly the live entries it holds, in order, each with its exact name (whatever bytes it holds, also in encrypted directories), inode and type: nothing twice, nothing missing, no deleted entries, no bytes beyond a name's length.",
  ["inputs", "configurations"],
  "Every arrangement of records in directory blocks, every name of 1 to 255 bytes, every number of blocks, with and without checksums.",
  "Unit tests parse single records; slack space, deleted records, stale bytes, checksum tails and block boundaries combine in ways that only whole directories show.",
  [EX+"directory/", EX+"string.rs", EX+"fs.rs"],
  [("record walk", EX+"directory/")],
  technique="runtime monitoring: listings of generated directories compared with the entries that were stored",
  note="An independent directory writer makes the records, slack and stale bytes.",
  observe=["Ext4Directory::read_next_entry"])

p("C20", "Corrupted ext4 metadata is detected",
  "On a file system with metadata checksums, any corruption of a directory block or of an extent tree block is reported as an error before any data or entry that depends on it is returned; without checksums, structurally impossible directory records and extent nodes, and extents and nodes outside the file system, are reported as errors. Corruption never silently shortens a listing or a file.",
  ["inputs", "fault_sequences"],
  "Every byte of every directory and extent block of a generated tree, every change to it.",
  "The suite has no corruption test of blocks read from a file system.",
  [EX+"directory/", EX+"extent/"],
  [("directory block checksum", EX+"directory/"), ("extent block checksum and structure checks", EX+"extent/")],
  level="fault_enumeration",
  technique="runtime monitoring with fault injection: bytes of metadata blocks corrupted one at a time, reads judged against the stored content",
  note="Each byte of sampled metadata blocks is damaged in turn over a run; the change is a random non-zero mask. Relies on CRC32C detecting any error confined to 32 bits.",
  observe=["Ext4Directory::read_next_entry", "Ext4RegularFile::read_next_block"])

p("C21", "ext4 code survives hostile file systems",
  "No content of a device makes opening a file system, opening an inode, reading a file or listing a directory panic, overflow, loop without end, or use memory out of proportion: every call ends with a result or an error after a bounded amount of reading.",
  ["inputs", "fault_sequences"],
  "Every byte sequence a device may hold, in particular valid file systems with any fields replaced by extreme values, cyclic extent trees, and self-referencing directories.",
  "Tests use well-formed values; the claim is over all contents.",
  [EX+"fs.rs", EX+"superblock/", EX+"inode/", EX+"extent/", EX+"directory/", EX+"block_group/"],
  [("validation of each structure before use", EX)],
  technique="runtime monitoring: overflow- and bounds-instrumented builds under mutated images, with device-operation, memory and CPU budgets",
  note="Debug assertions and overflow checks on; budgets on device operations per call, address space and CPU per case.",
  observe=["Ext4Fs, Ext4File, Ext4Directory, Ext4RegularFile"])

p("C22", "MD code survives hostile devices",
  "No content of any set of devices makes opening, diagnosing or reading an MD array panic, overflow, loop without end, or use memory out of proportion: every call ends with a result or an error after a bounded amount of reading.",
  ["inputs", "fault_sequences"],
  "Every byte sequence the devices may hold, in particular valid superblocks with any fields replaced by extreme values.",
  "Tests use well-formed values; the claim is over all contents.",
  [MD+"device/device.rs", MD+"array.rs", MD+"diagnosis/diagnosis.rs", MD+"superblock/", MD+"raid5/", MD+"raid6/"],
  [("checked arithmetic and bounds in geometry and reads", MD)],
  technique="runtime monitoring: overflow- and bounds-instrumented builds under mutated superblocks, with device-operation, memory and CPU budgets",
  note="Debug assertions and overflow checks on; budgets on device operations per call, address space and CPU per case.",
  observe=["MdDevice::open", "MdArray::open, diagnose, block_count, read_block"])

p("C23", "I/O errors never become wrong data",
  "If a device operation fails at any point, the call in progress either completes with the result it would have had without the fault or reports an error; it never returns wrong data, a shortened listing or file as if complete, a device as one without a superblock, or panics, nor do later calls on the same handle. Short and interrupted reads make no difference to any result. Once a fault has cleared, opening and reading anew gives the right result.",
  ["fault_sequences", "inputs"],
  "Every device operation of a workload as the point of failure, every error kind, short reads and interruptions of every pattern.",
  "No test injects a device error into MD or ext4 code.",
  [BD+"block_device.rs", BD+"reader.rs", MD+"array.rs", MD+"device/device.rs", EX+"fs.rs", EX+"regular_file.rs", EX+"directory/", "src/ext/"],
  [("error propagation from device reads", "src/")],
  level="fault_enumeration",
  technique="runtime monitoring with fault injection: every device operation of recorded workloads failed in turn, results compared with the fault-free run",
  note="For each workload every operation index is failed (up to a cap, then sampled), for transient and lasting faults.",
  observe=["results of MD and ext4 calls under faults"])

p("C24", "ext4 file systems read through RAID6 arrays",
  "A file system stored on a RAID6 array reads, through the array, exactly as it would from a single device: same files, same directory listings, for every array geometry, file system geometry and order of members. Damage in one member gives an error from the files and listings it touches, once they reach it, and the right data for everything else.",
  ["inputs", "configurations", "fault_sequences"],
  "Every combination of array and file system geometry.",
  "No test combines the layers; block sizes of both layers and the byte-wise reader between them must fit together.",
  [MD+"array.rs", BD+"reader.rs", EX+"fs.rs"],
  [("MdArray as a block device under Ext4Fs", "src/")],
  technique="runtime monitoring: end-to-end reads through constructed arrays compared with the stored files",
  note="Independent writers build both layers. Moderate image sizes.",
  observe=["Ext4Fs over BlockDeviceReader over MdArray"])

p("C25", "Names and labels compare consistently",
  "Text stored on an ext4 file system (names, labels) is kept byte for byte; equality and hashing of such text agree with the bytes and its ordering is that of the bytes, so that distinct names are never conflated and equal ones always found, whether or not they are valid UTF-8.",
  ["inputs"],
  "Every pair and triple of byte strings, including invalid UTF-8 and embedded or missing terminators.",
  "Unit tests check a few literals; consistency of ordering and hashing is a relation over all pairs.",
  [EX+"string.rs"],
  [("Eq, Ord, Hash of Ext4String", EX+"string.rs")],
  technique="runtime monitoring: observed comparisons and hashes of generated strings checked against byte-string order and the trait laws",
  note="Random and mutated pairs, biased to invalid UTF-8 and shared prefixes.",
  observe=["Ext4String Eq, Ord, Hash and conversions"])

p("C26", "Block group descriptor decoding",
  "Every field of an ext4 block group descriptor is reported exactly as the on-disk format defines it: the places of the bitmaps and the inode table, the counts of free blocks, free and unused inodes and directories, flags and checksums, with high halves from descriptors of 64 bytes or more and absent from smaller ones.",
  ["inputs"],
  "Every bit pattern of every field of a block group descriptor, for every size of descriptor.",
  "Unit tests decode one or two descriptors of small file systems, whose high halves and most counts are zero.",
  [EX+"block_group/"],
  [("byte-layout view and joined halves", EX+"block_group/descriptor.rs")],
  technique="runtime monitoring: every accessor compared with the field values of independently placed bytes",
  note="All accessors compared for random, boundary and single-bit field values. Trusts the transcription of struct ext4_group_desc.",
  observe=["BlockGroupDescriptor accessors"])

p("C27", "Extent tree node decoding",
  "Every field of an ext4 extent tree node is reported exactly as the on-disk format defines it, whether the node is in an inode or in a block of its own: depth, number of and room for entries, generation, first file block, length, unwritten mark and 48-bit place of each extent, first file block and node of each index; there is no entry beyond the last. A node is accepted only if its magic number is right, its entries fit its room, its room fits the block and its checksum, if the file system has them, is that of this inode's node, and every sound node is accepted. An inode has an extent tree exactly when its flags say so.",
  ["inputs", "configurations"],
  "Every bit pattern of every field of a node and its entries, every number of and room for entries, every block size, with and without checksums.",
  "Unit tests decode one root node with one extent; branches, unwritten extents, high halves and checksummed nodes are not covered.",
  [EX+"extent/", EX+"inode/inode.rs"],
  [("byte-layout views over nodes, ExtentTree::valid", EX+"extent/")],
  technique="runtime monitoring: every accessor and the verdict on each node compared with an independent encoder of nodes",
  note="All accessors compared for random, boundary and single-bit field values; six kinds of damage. Trusts the transcription of ext4_extents.h. Nodes damaged in ways other than these six are not judged here.",
  observe=["ExtentTree, ExtentLeaf, ExtentBranch, Extent and ExtentIndex accessors"])

p("C28", "Block reads are exact or an error",
  "For every kind of device the program reads (files, memory, native block devices), reading a block gives exactly the device's bytes at that block or an error, never stale or partial bytes as if complete; blocks at or beyond the end are errors; the reported number of blocks matches the device's size. This holds when the contents or the size of a file change while it is open, and when a system call on it fails, is interrupted or falls short.",
  ["inputs", "histories", "fault_sequences"],
  "Every block size, device size (including ones that are not whole blocks), block number up to 2^64-1 and buffer size, in any order; every change to the file and failed call in between.",
  "Unit tests read a few blocks of a few sizes; ends, overflowing block numbers and odd sizes are not covered.",
  [BD+"block_device.rs", BD+"in_memory.rs", BD+"file.rs", BD+"native.rs"],
  [("read_block and block_count of each device", BD)],
  technique="runtime monitoring: block reads of real files and emulated native devices compared with a flat-array model",
  note="Native devices are regular files whose two ioctls the harness answers.",
  observe=["BlockDevice::read_block, block_count, block_size"])

HOOK = ["7b909acf"]

def main():
    import subprocess
    full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in full.splitlines() if "md_recover_verif cfg" in l]
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for q in P:
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
            if q["state"]: a["state"] = q["state"]
            if q["observe"]: a["observe_at"] = q["observe"]
            a["hook_needed"] = None if q["id"] in ("C12", "C13") else "re-exports of crate modules under cfg md_recover_verif"
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(f"{ROOT}/harness/src/bin/{q['id'].lower()}.rs"):
            checks.append({"property": q["id"], "quick_cmd": f"./check.sh {q['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {q['id']}",
                "evidence_file": f"evidence/{q['id']}.json", "technique": q["technique"],
                "level": q["level"], "level_note": q["note"]})
        else:
            na.append({"property": q["id"], "reason": "The check is not built yet."})
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "md_recover_verif (a rustc cfg)",
                   "enable": "harness/shim compiles /repo/src/main.rs as a library crate and its build.rs emits cargo:rustc-cfg=md_recover_verif; with the cfg off nothing of the hook is compiled",
                   "source_commits": hooks},
         "checks": checks, "not_applicable": na,
         "notes": "Every check rebuilds from /repo/src. Replay a violation with ./check.sh <id> --replay <file>; run one case with ./check.sh <id> --case <n>."}
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    open(f"{ROOT}/MANIFEST.json", "a").write("\n")

main()
