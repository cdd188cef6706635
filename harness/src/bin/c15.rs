//! Every field of an ext4 superblock is reported as it is on disk.
use mdv::ext4::{Sb, SB};
use mdv::mdx::must;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::ext4::string::Ext4String;
use mdv::sut::ext4::superblock::*;
use std::time::{Duration, SystemTime};

const COMPATIBLE: &[(CompatibleFeatures, u32)] = &[
    (CompatibleFeatures::DIRECTORY_PREALLOCATION, 1),
    (CompatibleFeatures::MAGIC_INODES, 2),
    (CompatibleFeatures::HAS_JOURNAL, 4),
    (CompatibleFeatures::SUPPORTS_EXTENDED_ATTRIBUTES, 8),
    (CompatibleFeatures::HAS_RESERVED_GDT_BLOCKS, 0x10),
    (CompatibleFeatures::HAS_DIRECTORY_INDICES, 0x20),
    (CompatibleFeatures::LAZY_BG, 0x40),
    (CompatibleFeatures::EXCLUDE_INODE, 0x80),
    (CompatibleFeatures::EXCLUDE_BITMAP, 0x100),
    (CompatibleFeatures::SPARSE_SUPERBLOCK_V2, 0x200),
    (CompatibleFeatures::SUPPORTS_FAST_COMMITS, 0x400),
    (CompatibleFeatures::ORPHAN_PRESENT, 0x1000),
];

const INCOMPATIBLE: &[(IncompatibleFeatures, u32)] = &[
    (IncompatibleFeatures::COMPRESSION, 1),
    (IncompatibleFeatures::DIRECTORY_ENTRIES_RECORD_FILE_TYPE, 2),
    (IncompatibleFeatures::NEEDS_RECOVERY, 4),
    (IncompatibleFeatures::HAS_SEPARATE_JOURNAL_DEVICE, 8),
    (IncompatibleFeatures::HAS_META_BLOCK_GROUPS, 0x10),
    (IncompatibleFeatures::FILES_USE_EXTENTS, 0x40),
    (IncompatibleFeatures::IS_64_BIT, 0x80),
    (IncompatibleFeatures::MULTIPLE_MOUNT_PROTECTION, 0x100),
    (IncompatibleFeatures::FLEXIBLE_BLOCK_GROUPS, 0x200),
    (IncompatibleFeatures::INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES, 0x400),
    (IncompatibleFeatures::DATA_IN_DIRECTORY_ENTRY, 0x1000),
    (IncompatibleFeatures::METADATA_CHECKSUM_SEED, 0x2000),
    (IncompatibleFeatures::LARGE_DIRECTORIES, 0x4000),
    (IncompatibleFeatures::DATA_IN_INODE, 0x8000),
    (IncompatibleFeatures::HAS_ENCRYPTED_INODES, 0x10000),
];

const READ_ONLY: &[(ReadOnlyCompatibleFeatures, u32)] = &[
    (ReadOnlyCompatibleFeatures::SPARSE_SUPERBLOCKS, 1),
    (ReadOnlyCompatibleFeatures::CONTAINS_LARGE_FILES, 2),
    (ReadOnlyCompatibleFeatures::BTREE_DIR, 4),
    (ReadOnlyCompatibleFeatures::CONTAINS_HUGE_FILES, 8),
    (ReadOnlyCompatibleFeatures::GROUP_DESCRIPTORS_HAVE_CHECKSUMS, 0x10),
    (ReadOnlyCompatibleFeatures::UNLIMITED_SUBDIRECTORIES, 0x20),
    (ReadOnlyCompatibleFeatures::CONTAINS_LARGE_INODES, 0x40),
    (ReadOnlyCompatibleFeatures::HAS_SNAPSHOT, 0x80),
    (ReadOnlyCompatibleFeatures::QUOTA, 0x100),
    (ReadOnlyCompatibleFeatures::BIGALLOC, 0x200),
    (ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS, 0x400),
    (ReadOnlyCompatibleFeatures::REPLICA, 0x800),
    (ReadOnlyCompatibleFeatures::READ_ONLY, 0x1000),
    (ReadOnlyCompatibleFeatures::PROJECT_QUOTA, 0x2000),
    (ReadOnlyCompatibleFeatures::VERITY, 0x8000),
    (ReadOnlyCompatibleFeatures::ORPHAN_PRESENT, 0x10000),
];

const MOUNT: &[(MountOptions, u32)] = &[
    (MountOptions::PRINT_DEBUGGING_INFO, 1),
    (MountOptions::NEW_FILES_INHERIT_DIRECTORY_GROUP_ID, 2),
    (MountOptions::ENABLE_USERSPACE_EXTENDED_ATTRIBUTES, 4),
    (MountOptions::ENABLE_POSIX_ACLS, 8),
    (MountOptions::DISABLE_16_BIT_USER_IDS, 0x10),
    // The journal mode: one of three values of two bits.
    (MountOptions::COMMIT_ALL_DATA_AND_METADATA_TO_JOURNAL, 0x20),
    (MountOptions::FLUSH_ALL_DATA_BEFORE_COMMITTING_METADATA, 0x40),
    (MountOptions::DATA_ORDERING_NOT_PRESERVED, 0x60),
    (MountOptions::DISABLE_WRITE_FLUSHES, 0x100),
    (MountOptions::TRACK_METADATA_BLOCKS, 0x200),
    (MountOptions::ENABLE_DISCARD, 0x400),
    (MountOptions::DISABLE_DELAYED_ALLOCATION, 0x800),
];

fn random(c: &mut Case) -> Sb {
    let mut s = Sb::zeroed();
    let dense = c.rng.bool();
    if dense {
        for (name, _, w) in SB {
            match c.rng.below(6) {
                0 => {}
                1 => s.put(name, &vec![0xff; *w]),
                _ => {
                    let b = c.rng.bytes(*w);
                    s.put(name, &b);
                }
            }
        }
        // Some fields agree with others.
        for _ in 0..c.rng.below(6) {
            let (from, _, w) = *c.rng.pick(SB);
            let (to, _, w2) = *c.rng.pick(SB);
            if w == w2 {
                let b = s.bytes(from).to_vec();
                s.put(to, &b);
            }
        }
    } else {
        // One or two fields hold an extreme or a single bit.
        for _ in 0..1 + c.rng.below(2) {
            let (name, _, w) = *c.rng.pick(SB);
            let mut b = vec![0; w];
            match c.rng.below(4) {
                0 => b.fill(0xff),
                1 => b[w - 1] = 0x80,
                _ => b[c.rng.usize_below(w)] = 1 << c.rng.below(8),
            }
            s.put(name, &b);
        }
    }
    // Text is of any length, with or without anything after it.
    for name in ["volume_name", "last_mounted", "first_error_func", "last_error_func", "mount_opts"] {
        if c.rng.chance(1, 3) {
            let mut b = s.bytes(name).to_vec();
            for x in b.iter_mut() {
                if *x == 0 || c.rng.chance(2, 3) {
                    *x = c.rng.range(1, 255) as u8;
                }
            }
            match c.rng.below(3) {
                0 => {}
                1 => {
                    let n = c.rng.usize_below(b.len());
                    b[n] = 0;
                }
                _ => {
                    let n = c.rng.usize_below(b.len());
                    b[n..].fill(0);
                }
            }
            s.put(name, &b);
        }
    }
    // What makes a superblock valid; the rest is free.
    s.set("magic", 0xef53);
    s.set("errors", c.rng.range(1, 3));
    s.set("log_block_size", c.rng.below(7));
    let mut ro = s.get("feature_ro_compat");
    if c.rng.bool() {
        ro |= 0x200;
        s.set("log_cluster_size", c.rng.below(53));
    } else {
        ro &= !0x200;
        s.set("log_cluster_size", s.get("log_block_size"));
        s.set("clusters_per_group", s.get("blocks_per_group"));
    }
    s.set("log_groups_per_flex", c.rng.below(32));
    if c.rng.bool() {
        s.set("checksum_type", 1);
    } else {
        s.set("checksum_type", 0);
        ro &= !0x400;
    }
    s.set("feature_ro_compat", ro);
    if s.get("checksum_type") == 1 {
        s.seal();
    }
    s
}

fn text(c: &mut Case, s: &Sb, name: &str, got: Option<Ext4String<&[u8]>>) -> Verdict {
    let b = s.bytes(name);
    let want = &b[..b.iter().position(|x| *x == 0).unwrap_or(b.len())];
    match &got {
        None => mdv::ensure!(want.is_empty(), "{name}: none reported, {want:02x?} stored"),
        Some(t) => {
            let t: &[u8] = t.into();
            mdv::ensure!(t == want, "{name}: {t:02x?} reported, {want:02x?} stored");
        }
    }
    c.hit(if want.len() == b.len() {
        "text that fills its field"
    } else if want.is_empty() {
        "no text"
    } else {
        "text shorter than its field"
    });
    Ok(())
}

fn time(c: &mut Case, s: &Sb, what: &str, got: Option<SystemTime>) -> Verdict {
    let secs = s.get2(what, &format!("{what}_hi"));
    let want = SystemTime::UNIX_EPOCH + Duration::from_secs(secs);
    match got {
        None => mdv::ensure_eq!(secs, 0, "{what}: none reported"),
        Some(t) => mdv::ensure_eq!(t, want, "{what}"),
    }
    if secs >= 1 << 32 {
        c.hit("time beyond 32 bits");
    }
    Ok(())
}

fn compare(c: &mut Case, s: &Sb, g: &Superblock<Vec<u8>>) -> Verdict {
    macro_rules! number {
        ($($method:ident = $field:expr),* $(,)?) => {$(
            mdv::ensure_eq!(u64::from(g.$method()), s.get($field), "{} ({})", stringify!($method), $field);
        )*};
    }
    number! {
        first_data_block = "first_data_block",
        blocks_per_group = "blocks_per_group", clusters_per_group = "clusters_per_group",
        mount_count = "mnt_count", max_mount_count = "max_mnt_count", magic = "magic",
        minor_revision_level = "minor_rev_level", revision_level = "rev_level",
        default_reserved_user_id = "def_resuid", default_reserved_group_id = "def_resgid",
        first_inode = "first_ino", inode_size = "inode_size", block_group_number = "block_group_nr",
        algorithm_usage_bitmap = "algorithm_usage_bitmap", preallocate_blocks = "prealloc_blocks",
        preallocate_directory_blocks = "prealloc_dir_blocks", reserved_gdt_blocks = "reserved_gdt_blocks",
        journal_inode_number = "journal_inum", journal_device_number = "journal_dev", last_orphan = "last_orphan",
        journal_backup_type = "jnl_backup_type", group_descriptor_size = "desc_size",
        first_meta_block_group = "first_meta_bg", minimum_extra_inode_size = "min_extra_isize",
        wanted_extra_inode_size = "want_extra_isize", raid_stride = "raid_stride",
        multi_mount_prevention_interval = "mmp_interval", multi_mount_prevention_block = "mmp_block",
        raid_stripe_width = "raid_stripe_width", kbytes_written = "kbytes_written",
        snapshot_inode_number = "snapshot_inum", snapshot_id = "snapshot_id",
        snapshot_reserved_blocks_count = "snapshot_r_blocks_count", snapshot_list_inode_number = "snapshot_list",
        error_count = "error_count", first_error_inode = "first_error_ino", first_error_block = "first_error_block",
        first_error_line = "first_error_line", last_error_inode = "last_error_ino", last_error_line = "last_error_line",
        last_error_block = "last_error_block", user_quota_inode_number = "usr_quota_inum",
        group_quota_inode_number = "grp_quota_inum", overhead_blocks = "overhead_clusters",
        lost_and_found_inode_number = "lpf_ino", project_quota_inode_number = "prj_quota_inum",
        filename_character_encoding = "encoding", filename_character_encoding_flags = "encoding_flags",
        orphan_file_inode_number = "orphan_file_inum",
    }
    for (got, name) in [
        (g.inodes_count(), "inodes_count"),
        (g.free_inodes_count(), "free_inodes_count"),
        (g.inodes_per_group(), "inodes_per_group"),
    ] {
        mdv::ensure_eq!(u64::from(u32::from(got)), s.get(name), "{name}");
    }
    for (got, lo, hi) in [
        (g.blocks_count(), "blocks_count_lo", "blocks_count_hi"),
        (g.reserved_blocks_count(), "r_blocks_count_lo", "r_blocks_count_hi"),
        (g.free_blocks_count(), "free_blocks_count_lo", "free_blocks_count_hi"),
    ] {
        mdv::ensure_eq!(u64::from(got), s.get2(lo, hi), "{lo}");
    }
    mdv::ensure_eq!(g.block_size_bytes(), 1024 << s.get("log_block_size"), "block size");
    mdv::ensure_eq!(g.cluster_size_blocks(), 1024 << s.get("log_cluster_size"), "cluster size");
    mdv::ensure_eq!(g.groups_per_flex(), 1 << s.get("log_groups_per_flex"), "groups per flexible group");
    time(c, s, "mtime", g.mount_time())?;
    time(c, s, "wtime", Some(g.write_time()))?;
    time(c, s, "lastcheck", Some(g.last_check_time()))?;
    time(c, s, "mkfs_time", g.creation_time())?;
    time(c, s, "first_error_time", g.first_error_time())?;
    time(c, s, "last_error_time", g.last_error_time())?;
    mdv::ensure_eq!(g.check_interval().unwrap_or_default(), Duration::from_secs(s.get("checkinterval")), "check interval");
    mdv::ensure_eq!(u64::from(g.state().bits()), s.get("state"), "state");
    for (f, b) in [(State::CLEANLY_UNMOUNTED, 1), (State::ERRORS_DETECTED, 2), (State::ORPHANS_BEING_RECOVERED, 4)] {
        mdv::ensure_eq!(g.state().contains(f), s.get("state") & b != 0, "state {f:?}");
    }
    mdv::ensure_eq!(u64::from(g.flags().bits()), s.get("flags"), "flags");
    for (f, b) in [(Flags::SIGNED_DIRECTORY_HASH, 1), (Flags::UNSIGNED_DIRECTORY_HASH, 2), (Flags::TEST_FILESYSTEM, 4)] {
        mdv::ensure_eq!(g.flags().contains(f), s.get("flags") & b != 0, "flag {f:?}");
    }
    mdv::ensure_eq!(u64::from(g.compatible_features().bits()), s.get("feature_compat"), "compatible features");
    for (f, b) in COMPATIBLE {
        mdv::ensure_eq!(g.compatible_features().contains(*f), s.get("feature_compat") & u64::from(*b) != 0, "feature {f:?}");
    }
    mdv::ensure_eq!(u64::from(g.incompatible_features().bits()), s.get("feature_incompat"), "incompatible features");
    for (f, b) in INCOMPATIBLE {
        mdv::ensure_eq!(g.incompatible_features().contains(*f), s.get("feature_incompat") & u64::from(*b) != 0, "feature {f:?}");
    }
    mdv::ensure_eq!(u64::from(g.read_only_compatible_features().bits()), s.get("feature_ro_compat"), "read-only compatible features");
    for (f, b) in READ_ONLY {
        mdv::ensure_eq!(g.read_only_compatible_features().contains(*f), s.get("feature_ro_compat") & u64::from(*b) != 0, "feature {f:?}");
    }
    mdv::ensure_eq!(u64::from(g.default_mount_options().bits()), s.get("default_mount_opts"), "default mount options");
    for (f, b) in MOUNT {
        mdv::ensure_eq!(g.default_mount_options().contains(*f), s.get("default_mount_opts") & u64::from(*b) == u64::from(*b), "mount option {f:?}");
    }
    let policy = match s.get("errors") {
        1 => ErrorPolicy::Continue,
        2 => ErrorPolicy::RemountReadOnly,
        _ => ErrorPolicy::Panic,
    };
    mdv::ensure_eq!(g.error_policy(), policy, "error policy");
    let os = match s.get("creator_os") {
        0 => CreatorOs::Linux,
        1 => CreatorOs::Hurd,
        2 => CreatorOs::Masix,
        3 => CreatorOs::FreeBsd,
        4 => CreatorOs::Lites,
        n => CreatorOs::Unknown(n as u32),
    };
    mdv::ensure_eq!(g.creator_os(), os, "creator OS");
    let hash = match s.get("def_hash_version") {
        0 => HashVersion::Legacy,
        1 => HashVersion::HalfMd4,
        2 => HashVersion::Tea,
        3 => HashVersion::LegacyUnsigned,
        4 => HashVersion::HalfMd4Unsigned,
        5 => HashVersion::TeaUnsigned,
        n => HashVersion::Unknown(n as u8),
    };
    mdv::ensure_eq!(g.default_hash_version(), hash, "default hash version");
    mdv::ensure!(g.uuid().as_bytes() == s.bytes("uuid"), "UUID {} reported, {:02x?} stored", g.uuid(), s.bytes("uuid"));
    mdv::ensure!(g.journal_uuid().as_bytes() == s.bytes("journal_uuid"), "journal UUID {} reported, {:02x?} stored", g.journal_uuid(), s.bytes("journal_uuid"));
    mdv::ensure!(g.hash_seed() == s.bytes("hash_seed"), "hash seed");
    mdv::ensure!(g.journal_blocks() == s.bytes("jnl_blocks"), "journal blocks");
    mdv::ensure!(g.encryption_password_salt() == s.bytes("encrypt_pw_salt"), "encryption salt");
    text(c, s, "volume_name", g.volume_name())?;
    text(c, s, "last_mounted", g.last_mounted_path())?;
    text(c, s, "first_error_func", g.first_error_function_name())?;
    text(c, s, "last_error_func", g.last_error_function_name())?;
    text(c, s, "mount_opts", Some(g.mount_options()))?;
    mdv::ensure_eq!(
        g.superblock_backup_block_groups().map(u64::from),
        [s.get("backup_bgs_0"), s.get("backup_bgs_1")], "backup groups");
    copies(c, s, g)?;
    for a in g.encryption_algorithms() {
        let want = match u8::from(a) {
            1 => EncryptionAlgorithm::Aes256Xts,
            2 => EncryptionAlgorithm::Aes256Gcm,
            3 => EncryptionAlgorithm::Aes256Cbc,
            n => EncryptionAlgorithm::Unknown(n),
        };
        mdv::ensure!(a == want, "encryption algorithm {a:?}, expected {want:?}");
    }
    let algorithms: Vec<u8> = g.encryption_algorithms().into_iter().map(u8::from).collect();
    let want: Vec<u8> = s.bytes("encrypt_algos").iter().copied().filter(|b| *b != 0).collect();
    mdv::ensure_eq!(algorithms, want, "encryption algorithms");
    match (g.checksum(), s.get("checksum_type")) {
        (Checksum::None, 0) => c.hit("no checksum"),
        (Checksum::Crc32c(v), 1) => {
            mdv::ensure_eq!(u64::from(v), s.get("checksum"), "checksum");
            c.hit("checksum");
        }
        (got, t) => mdv::ensure!(false, "checksum {got:?} of type {t}"),
    }
    let crc = mdv::crc::crc32c(!0, &s.0[..1020]);
    mdv::ensure_eq!(g.expected_checksum(), crc, "expected checksum");
    let seed = if s.get("feature_incompat") & 0x2000 != 0 {
        c.hit("stored checksum seed");
        Some(s.get("checksum_seed") as u32)
    } else if s.get("feature_ro_compat") & 0x400 != 0 {
        c.hit("checksum seed of the UUID");
        Some(mdv::crc::crc32c(!0, s.bytes("uuid")))
    } else {
        // Means nothing.
        None
    };
    if let Some(seed) = seed {
        mdv::ensure_eq!(g.checksum_seed(), seed, "checksum seed");
    }
    c.count("superblocks compared", 1);
    Ok(())
}

/// Which groups start with a copy of the superblock, as ext4_bg_has_super has it.
fn has_copy(s: &Sb, group: u64) -> bool {
    if group == 0 {
        return true;
    }
    if s.get("feature_compat") & 0x200 != 0 {
        return [s.get("backup_bgs_0"), s.get("backup_bgs_1")].contains(&group);
    }
    if s.get("feature_ro_compat") & 1 == 0 || group == 1 {
        return true;
    }
    [3u128, 5, 7].iter().any(|base| {
        let mut power = *base;
        while power < u128::from(group) {
            power *= base;
        }
        power == u128::from(group)
    })
}

fn copies(c: &mut Case, s: &Sb, g: &Superblock<impl AsRef<[u8]>>) -> Verdict {
    let base = *c.rng.pick(&[2u64, 3, 5, 7, 15, 21, 35]);
    let power = base.saturating_pow(c.rng.below(23) as u32);
    let random = c.rng.scaled(u64::MAX);
    let listed = s.get(*c.rng.pick(&["backup_bgs_0", "backup_bgs_1"]));
    for group in [0, 1, power, power.saturating_add(1), power - 1, listed, listed ^ 1 << c.rng.below(33), random] {
        let got = g.block_group_has_superblock(group);
        mdv::ensure_eq!(got, has_copy(s, group), "whether group {group} has a copy of the superblock");
        c.hit(if got { "groups with a copy" } else { "groups without a copy" });
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    for _ in 0..8 {
        let s = random(c);
        c.nontrivial();
        c.fp_bytes(&s.0);
        let bytes = s.0;
        c.describe(move || format!("superblock {bytes:02x?}"));
        let g = must(Superblock::read(&s.0[..]), "reading a valid superblock")?;
        compare(c, &s, &g)?;
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C15",
            rule: "8 valid superblocks per case: every field random, or all zero but one or two that are all ones or a single bit, text of every length; every accessor compared. Non-trivial: all; distinct by superblock bytes.",
            quick: 180_000,
            thorough: 4_500_000,
            required: &[
                "superblocks compared", "text that fills its field", "no text", "text shorter than its field", "time beyond 32 bits",
                "no checksum", "checksum", "stored checksum seed", "checksum seed of the UUID", "groups with a copy", "groups without a copy",
            ],
            assumptions: &["fs/ext4/ext4.h's struct ext4_super_block, transcribed in harness/core/src/ext4.rs, is the reference"],
            ..Spec::default()
        },
        case,
    )
}
