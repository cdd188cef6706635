//! Every field of an inode is reported as it is on disk.
use chrono::{DateTime, Utc};
use mdv::ext4::{brief, Fs, Geo, Ino, Limits};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::ext4::inode::{FileMode, FileType, Flags, Inode, Permissions};
use mdv::{extx, Ctl, TestDevice};
use std::cell::RefCell;
use std::rc::Rc;

/// Names and bits of fs/ext4/ext4.h.
const FLAGS: &[(Flags, u32)] = &[
    (Flags::SECURE_DELETE, 1),
    (Flags::UNDELETE, 2),
    (Flags::COMPRESSED, 4),
    (Flags::SYNCHRONOUS_UPDATES, 8),
    (Flags::IMMUTABLE, 0x10),
    (Flags::APPEND_ONLY, 0x20),
    (Flags::NO_DUMP, 0x40),
    (Flags::NO_UPDATE_ACCESS_TIME, 0x80),
    (Flags::DIRTY, 0x100),
    (Flags::COMPRESSED_CLUSTERS, 0x200),
    (Flags::NO_COMPRESS, 0x400),
    (Flags::ENCRYPTED, 0x800),
    (Flags::HASH_INDEXED_DIRECTORY, 0x1000),
    (Flags::AFS_DIRECTORY, 0x2000),
    (Flags::JOURNAL_DATA, 0x4000),
    (Flags::NO_TAIL_MERGE, 0x8000),
    (Flags::DIRECTORY_SYNC, 0x10000),
    (Flags::TOP_DIRECTORY, 0x20000),
    (Flags::HUGE_FILE, 0x40000),
    (Flags::HAS_EXTENTS, 0x80000),
    (Flags::VERITY_PROTECTED, 0x100000),
    (Flags::LARGE_EXTENDED_ATTRIBUTES, 0x200000),
    (Flags::DIRECT_ACCESS, 0x2000000),
    (Flags::HAS_INLINE_DATA, 0x10000000),
    (Flags::INHERIT_PROJECT_ID, 0x20000000),
    (Flags::CASE_FOLDED, 0x40000000),
    (Flags::RESERVED, 0x80000000),
];

const PERMISSIONS: &[(Permissions, u16)] = &[
    (Permissions::SET_USER_ID, 0o4000),
    (Permissions::SET_GROUP_ID, 0o2000),
    (Permissions::STICKY, 0o1000),
    (Permissions::USER_READ, 0o400),
    (Permissions::USER_WRITE, 0o200),
    (Permissions::USER_EXECUTE, 0o100),
    (Permissions::GROUP_READ, 0o40),
    (Permissions::GROUP_WRITE, 0o20),
    (Permissions::GROUP_EXECUTE, 0o10),
    (Permissions::OTHER_READ, 4),
    (Permissions::OTHER_WRITE, 2),
    (Permissions::OTHER_EXECUTE, 1),
];

const TYPES: &[(FileType, u64)] = &[
    (FileType::Fifo, 1),
    (FileType::CharacterDevice, 2),
    (FileType::Directory, 4),
    (FileType::BlockDevice, 6),
    (FileType::RegularFile, 8),
    (FileType::SymbolicLink, 10),
    (FileType::Socket, 12),
];

fn time(c: &mut Case, i: &Ino, what: &str, got: DateTime<Utc>, base: &str, extra: &str) -> Verdict {
    let x = i.get(extra);
    let secs = i64::from(i.get(base) as u32 as i32) + ((x as i64 & 3) << 32);
    let nanos = (x >> 2) as u32;
    mdv::ensure_eq!((got.timestamp(), got.timestamp_subsec_nanos()), (secs, nanos), "{what} (seconds and nanoseconds)");
    if secs < 0 {
        c.hit("time before 1970");
    }
    if secs > 0x7fff_ffff {
        c.hit("time after 2038");
    }
    Ok(())
}

fn compare(c: &mut Case, i: &Ino, got: &Inode) -> Verdict {
    let mode = i.get("mode");
    mdv::ensure_eq!(u64::from(u8::from(got.file_type())), mode >> 12, "file type of mode {mode:#o}");
    mdv::ensure_eq!(u64::from(u8::from(got.file_mode().file_type())), mode >> 12, "file type of mode {mode:#o}");
    for (t, n) in TYPES {
        mdv::ensure_eq!(got.file_type() == *t, mode >> 12 == *n, "file type {t:?} of mode {mode:#o}");
    }
    mdv::ensure_eq!(u64::from(got.permissions().bits()), mode & 0o7777, "permissions of mode {mode:#o}");
    for (p, b) in PERMISSIONS {
        mdv::ensure_eq!(got.permissions().contains(*p), mode & u64::from(*b) != 0, "permission {p:?} of mode {mode:#o}");
    }
    let made = FileMode::from_file_type_and_permissions(got.file_type(), got.permissions());
    mdv::ensure_eq!(u64::from(u16::from(made)), mode, "mode made of the type and permissions of mode {mode:#o}");
    mdv::ensure_eq!(made, got.file_mode(), "mode made of the type and permissions of mode {mode:#o}");
    mdv::ensure_eq!(u64::from(got.owner_user_id()), i.get2("uid", "uid_high", 16), "owner");
    mdv::ensure_eq!(u64::from(got.group_id()), i.get2("gid", "gid_high", 16), "group");
    mdv::ensure_eq!(got.file_size_bytes(), i.get2("size_lo", "size_high", 32), "size");
    time(c, i, "access time", got.access_time(), "atime", "atime_extra")?;
    time(c, i, "change time", got.change_time(), "ctime", "ctime_extra")?;
    time(c, i, "modification time", got.modified_time(), "mtime", "mtime_extra")?;
    if i.end() >= 0x94 {
        time(c, i, "creation time", got.creation_time(), "crtime", "crtime_extra")?;
    } else {
        mdv::ensure_eq!(got.creation_time(), DateTime::UNIX_EPOCH, "creation time that the inode does not hold");
        c.hit("no creation time");
    }
    mdv::ensure_eq!(got.delete_time().timestamp() as u64, i.get("dtime"), "deletion time");
    mdv::ensure_eq!(got.delete_time().timestamp_subsec_nanos(), 0, "deletion time");
    mdv::ensure_eq!(u64::from(got.links_count()), i.get("links_count"), "links");
    mdv::ensure_eq!(u64::from(got.block_count()), i.get2("blocks_lo", "blocks_high", 32), "blocks");
    let flags = i.get("flags") as u32;
    mdv::ensure_eq!(got.flags().bits(), flags, "flags");
    for (f, b) in FLAGS {
        mdv::ensure_eq!(got.flags().contains(*f), flags & b != 0, "flag {f:?} of {flags:#x}");
    }
    mdv::ensure_eq!(got.version(), i.get2("version", "version_hi", 32), "version");
    mdv::ensure_eq!(u64::from(got.generation()), i.get("generation"), "generation");
    mdv::ensure_eq!(got.file_acl(), i.get2("file_acl_lo", "file_acl_high", 32), "extended attribute block");
    mdv::ensure_eq!(u64::from(got.checksum()), i.get2("checksum_lo", "checksum_hi", 16), "checksum");
    mdv::ensure_eq!(u64::from(got.project_id()), i.get("projid"), "project");
    Ok(())
}

/// Every field zero but one, which is extreme or a single bit.
fn sparse_fields(c: &mut Case, size: u16) -> Ino {
    let mut i = Ino::new(size);
    if size > 128 {
        let room = u64::from(size - 128);
        i.set("extra_isize", if c.rng.chance(3, 4) { room.min(32) } else { 4 * c.rng.below(room / 4 + 1) });
    }
    for _ in 0..1 + c.rng.below(2) {
        let (name, _, w) = *c.rng.pick(mdv::ext4::INODE);
        if w > 4 || name == "extra_isize" || name == "checksum_hi" && size == 128 {
            continue;
        }
        let bits = 8 * w as u32;
        let mut v = match c.rng.below(4) {
            0 => u64::MAX >> (64 - bits),
            1 => 1 << (bits - 1),
            _ => 1 << c.rng.below(u64::from(bits)),
        };
        if name.ends_with("_extra") {
            v = match c.rng.below(3) {
                0 => 999_999_999 << 2 | 3,
                1 => v & 3,
                _ => v & 0x7fff_ffff,
            };
        }
        let at = mdv::ext4::INODE.iter().find(|f| f.0 == name).unwrap();
        if at.1 + at.2 <= usize::from(size) {
            i.set(name, v);
        }
    }
    i
}

fn case(c: &mut Case) -> Verdict {
    let lim = Limits { groups: 2, log_bs: if c.index % 8 == 0 { 6 } else { 2 }, ..Limits::ANY };
    let geo = Geo::random(&mut c.rng, lim);
    let size = geo.inode_size;
    let fs = Fs::new(&mut c.rng, geo);
    let at = fs.inode_offset(2);
    let data = Rc::new(RefCell::new(fs.data.clone()));
    let dev = TestDevice::shared(data.clone(), extx::bs(&mut c.rng), &Ctl::new());
    let mut sut = mdv::mdx::must(mdv::sut::ext4::Ext4Fs::open(dev), "opening a valid file system")?;
    c.nontrivial();
    for k in 0..30 {
        let mut i = if k % 2 == 0 { Ino::random(&mut c.rng, size) } else { sparse_fields(c, size) };
        // Directories are not larger than 32 bits can say.
        if i.get("mode") >> 12 == 4 {
            i.set("size_high", 0);
        }
        i.seal(&fs.geo, 2);
        data.borrow_mut().write(at, &i.0);
        c.fp_bytes(&i.0);
        let got = mdv::mdx::must(sut.read_root_inode(), "reading the root inode")?;
        let (b, bytes) = (brief(&fs.geo), i.0.clone());
        c.describe(move || format!("{b}: {bytes:02x?}"));
        compare(c, &i, &got)?;
        c.count("inodes compared", 1);
        match i.end() {
            128 => c.hit(if size == 128 { "inode of 128 bytes" } else { "no extra fields" }),
            129..160 => c.hit("some of the extra fields"),
            160 => c.hit("all extra fields"),
            _ => c.hit("more extra fields than known"),
        }
    }
    c.hit_dyn(format!("inodes of {size} bytes"));
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C16",
            rule: "30 inodes per case in the root inode's place of one file system: every field random, or all zero but one or two extreme or single-bit values; each inode size and extra size. Non-trivial: all; distinct by inode bytes.",
            quick: 180_000,
            thorough: 6_000_000,
            required: &[
                "inodes compared", "inode of 128 bytes", "no extra fields", "some of the extra fields", "all extra fields",
                "more extra fields than known", "time before 1970", "time after 2038", "no creation time",
            ],
            assumptions: &["fs/ext4/ext4.h's struct ext4_inode, transcribed in harness/core/src/ext4.rs, is the reference", "nanoseconds are less than 10^9"],
            ..Spec::default()
        },
        case,
    )
}
