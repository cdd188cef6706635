//! An ext4 writer, independent of the code under test: superblock, group
//! descriptors, inodes, extent trees and linear directories as the Linux driver
//! lays them out (fs/ext4/ext4.h, ext4_extents.h), over a sparse image.
//!
//! File contents are not written: what a data block of the image holds (its
//! background pattern) is the content, so each block's content is its own.
use crate::crc::crc32c;
use crate::rng::Rng;
use crate::sparse::Sparse;
use std::collections::{BTreeMap, HashSet};

// ------------------------------------------------------------ superblock

/// (name, offset, width) of every field of struct ext4_super_block.
pub const SB: &[(&str, usize, usize)] = &[
    ("inodes_count", 0x0, 4),
    ("blocks_count_lo", 0x4, 4),
    ("r_blocks_count_lo", 0x8, 4),
    ("free_blocks_count_lo", 0xc, 4),
    ("free_inodes_count", 0x10, 4),
    ("first_data_block", 0x14, 4),
    ("log_block_size", 0x18, 4),
    ("log_cluster_size", 0x1c, 4),
    ("blocks_per_group", 0x20, 4),
    ("clusters_per_group", 0x24, 4),
    ("inodes_per_group", 0x28, 4),
    ("mtime", 0x2c, 4),
    ("wtime", 0x30, 4),
    ("mnt_count", 0x34, 2),
    ("max_mnt_count", 0x36, 2),
    ("magic", 0x38, 2),
    ("state", 0x3a, 2),
    ("errors", 0x3c, 2),
    ("minor_rev_level", 0x3e, 2),
    ("lastcheck", 0x40, 4),
    ("checkinterval", 0x44, 4),
    ("creator_os", 0x48, 4),
    ("rev_level", 0x4c, 4),
    ("def_resuid", 0x50, 2),
    ("def_resgid", 0x52, 2),
    ("first_ino", 0x54, 4),
    ("inode_size", 0x58, 2),
    ("block_group_nr", 0x5a, 2),
    ("feature_compat", 0x5c, 4),
    ("feature_incompat", 0x60, 4),
    ("feature_ro_compat", 0x64, 4),
    ("uuid", 0x68, 16),
    ("volume_name", 0x78, 16),
    ("last_mounted", 0x88, 64),
    ("algorithm_usage_bitmap", 0xc8, 4),
    ("prealloc_blocks", 0xcc, 1),
    ("prealloc_dir_blocks", 0xcd, 1),
    ("reserved_gdt_blocks", 0xce, 2),
    ("journal_uuid", 0xd0, 16),
    ("journal_inum", 0xe0, 4),
    ("journal_dev", 0xe4, 4),
    ("last_orphan", 0xe8, 4),
    ("hash_seed", 0xec, 16),
    ("def_hash_version", 0xfc, 1),
    ("jnl_backup_type", 0xfd, 1),
    ("desc_size", 0xfe, 2),
    ("default_mount_opts", 0x100, 4),
    ("first_meta_bg", 0x104, 4),
    ("mkfs_time", 0x108, 4),
    ("jnl_blocks", 0x10c, 68),
    ("blocks_count_hi", 0x150, 4),
    ("r_blocks_count_hi", 0x154, 4),
    ("free_blocks_count_hi", 0x158, 4),
    ("min_extra_isize", 0x15c, 2),
    ("want_extra_isize", 0x15e, 2),
    ("flags", 0x160, 4),
    ("raid_stride", 0x164, 2),
    ("mmp_interval", 0x166, 2),
    ("mmp_block", 0x168, 8),
    ("raid_stripe_width", 0x170, 4),
    ("log_groups_per_flex", 0x174, 1),
    ("checksum_type", 0x175, 1),
    ("reserved_pad", 0x176, 2),
    ("kbytes_written", 0x178, 8),
    ("snapshot_inum", 0x180, 4),
    ("snapshot_id", 0x184, 4),
    ("snapshot_r_blocks_count", 0x188, 8),
    ("snapshot_list", 0x190, 4),
    ("error_count", 0x194, 4),
    ("first_error_time", 0x198, 4),
    ("first_error_ino", 0x19c, 4),
    ("first_error_block", 0x1a0, 8),
    ("first_error_func", 0x1a8, 32),
    ("first_error_line", 0x1c8, 4),
    ("last_error_time", 0x1cc, 4),
    ("last_error_ino", 0x1d0, 4),
    ("last_error_line", 0x1d4, 4),
    ("last_error_block", 0x1d8, 8),
    ("last_error_func", 0x1e0, 32),
    ("mount_opts", 0x200, 64),
    ("usr_quota_inum", 0x240, 4),
    ("grp_quota_inum", 0x244, 4),
    ("overhead_clusters", 0x248, 4),
    ("backup_bgs_0", 0x24c, 4),
    ("backup_bgs_1", 0x250, 4),
    ("encrypt_algos", 0x254, 4),
    ("encrypt_pw_salt", 0x258, 16),
    ("lpf_ino", 0x268, 4),
    ("prj_quota_inum", 0x26c, 4),
    ("checksum_seed", 0x270, 4),
    ("wtime_hi", 0x274, 1),
    ("mtime_hi", 0x275, 1),
    ("mkfs_time_hi", 0x276, 1),
    ("lastcheck_hi", 0x277, 1),
    ("first_error_time_hi", 0x278, 1),
    ("last_error_time_hi", 0x279, 1),
    ("error_codes", 0x27a, 2),
    ("encoding", 0x27c, 2),
    ("encoding_flags", 0x27e, 2),
    ("orphan_file_inum", 0x280, 4),
    ("reserved", 0x284, 376),
    ("checksum", 0x3fc, 4),
];

#[derive(Clone)]
pub struct Sb(pub [u8; 1024]);

impl Sb {
    pub fn zeroed() -> Sb {
        Sb([0; 1024])
    }

    fn at(name: &str) -> (usize, usize) {
        let f = SB.iter().find(|f| f.0 == name);
        let f = f.unwrap_or_else(|| panic!("no superblock field {name}"));
        (f.1, f.2)
    }

    pub fn set(&mut self, name: &str, v: u64) {
        let (o, w) = Self::at(name);
        assert!(w <= 8);
        self.0[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
    }

    pub fn get(&self, name: &str) -> u64 {
        let (o, w) = Self::at(name);
        let mut b = [0; 8];
        b[..w].copy_from_slice(&self.0[o..o + w]);
        u64::from_le_bytes(b)
    }

    pub fn get2(&self, lo: &str, hi: &str) -> u64 {
        self.get(lo) | self.get(hi) << 32
    }

    pub fn put(&mut self, name: &str, v: &[u8]) {
        let (o, w) = Self::at(name);
        assert_eq!(v.len(), w, "{name}");
        self.0[o..o + w].copy_from_slice(v);
    }

    pub fn bytes(&self, name: &str) -> &[u8] {
        let (o, w) = Self::at(name);
        &self.0[o..o + w]
    }

    pub fn seal(&mut self) {
        let c = crc32c(!0, &self.0[..1020]);
        self.0[1020..].copy_from_slice(&c.to_le_bytes());
    }
}

pub mod incompat {
    pub const FILETYPE: u64 = 2;
    pub const META_BG: u64 = 0x10;
    pub const EXTENTS: u64 = 0x40;
    pub const BIT64: u64 = 0x80;
    pub const MMP: u64 = 0x100;
    pub const FLEX_BG: u64 = 0x200;
    pub const EA_INODE: u64 = 0x400;
    pub const DIRDATA: u64 = 0x1000;
    pub const CSUM_SEED: u64 = 0x2000;
    pub const LARGEDIR: u64 = 0x4000;
    pub const INLINE_DATA: u64 = 0x8000;
    pub const ENCRYPT: u64 = 0x10000;
}

pub mod ro {
    pub const SPARSE_SUPER: u64 = 1;
    pub const LARGE_FILE: u64 = 2;
    pub const HUGE_FILE: u64 = 8;
    pub const GDT_CSUM: u64 = 0x10;
    pub const DIR_NLINK: u64 = 0x20;
    pub const EXTRA_ISIZE: u64 = 0x40;
    pub const BIGALLOC: u64 = 0x200;
    pub const METADATA_CSUM: u64 = 0x400;
}

// ------------------------------------------------------------ geometry

#[derive(Clone, Debug)]
pub struct Geo {
    pub bs: u64,
    pub inode_size: u16,
    pub is64: bool,
    pub desc_size: u16,
    pub csum: bool,
    pub csum_seed: Option<u32>,
    pub uuid: [u8; 16],
    pub bpg: u32,
    pub ipg: u32,
    pub groups: u32,
    pub blocks: u64,
    pub first_data: u32,
    pub filetype: bool,
    pub tables: Tables,
    /// log2 of blocks per cluster; clusters (bigalloc) when not 0.
    pub cluster: u32,
    /// First meta block group.
    pub meta_bg: Option<u32>,
    pub backups: Backups,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Backups {
    All,
    Sparse,
    Two(u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tables {
    InGroup,
    Packed,
    Anywhere,
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    /// Largest image in bytes.
    pub bytes: u64,
    pub groups: u32,
    /// log2 of the largest block size, less 10.
    pub log_bs: u32,
    pub max_isize: u64,
}

impl Limits {
    pub const ANY: Limits = Limits { bytes: 1 << 40, groups: 40, log_bs: 6, max_isize: 1 << 16 };
}

fn lcm(a: u64, b: u64) -> u64 {
    let (mut x, mut y) = (a, b);
    while y != 0 {
        (x, y) = (y, x % y);
    }
    a / x * b
}

impl Geo {
    pub fn random(rng: &mut Rng, lim: Limits) -> Geo {
        let log = if rng.chance(3, 4) { rng.below(u64::from(lim.log_bs.min(2)) + 1) } else { rng.below(u64::from(lim.log_bs) + 1) };
        let bs = 1024u64 << log;
        let steps = if rng.chance(4, 5) { 3 } else { 10 };
        let mut inode_size = 128u64 << rng.below(steps);
        inode_size = inode_size.min(bs).min(lim.max_isize).min(32768);
        let is64 = rng.bool();
        let desc_size = if is64 {
            if rng.chance(2, 3) { 64 } else { 64 << rng.below(5) }
        } else {
            32
        };
        let cluster = if rng.chance(1, 8) { 1 + rng.below(4) as u32 } else { 0 };
        let bpg = match rng.below(3) {
            0 => 8 * bs,
            1 => (256 + rng.below(8 * bs - 255)) / 8 * 8,
            _ => *rng.pick(&[256, 512, 1024, 2048, 4096, 8192]),
        } << cluster;
        let ipb = bs / inode_size;
        let unit = lcm(8, ipb);
        // No more than a quarter of a group's blocks hold its inodes.
        let most = (8 * bs).min(bpg / 4 * ipb) / unit;
        let ipg = match rng.below(3) {
            0 => 1,
            1 => 1 + rng.below(most.clamp(1, 16)),
            _ => 1 + rng.scaled(most.max(1) - 1),
        } * unit;
        let first_data = u64::from(bs == 1024 && cluster == 0);
        let max_groups = (lim.bytes / (bpg * bs)).clamp(1, u64::from(lim.groups));
        let groups = 1 + if rng.bool() { rng.below(max_groups) } else { rng.scaled(max_groups - 1) };
        let last = if rng.bool() { bpg } else { 64 + bpg / 2 + rng.below(bpg - bpg / 2 - 63) };
        let blocks = first_data + (groups - 1) * bpg + last;
        let csum = rng.chance(2, 3);
        let mut g = Geo {
            bs,
            inode_size: inode_size as u16,
            is64,
            desc_size,
            csum,
            csum_seed: rng.chance(1, 3).then(|| if rng.chance(1, 3) { *rng.pick(&[0, 1, u32::MAX]) } else { rng.u32() }),
            uuid: rng.array(),
            bpg: bpg as u32,
            ipg: ipg as u32,
            groups: groups as u32,
            blocks,
            first_data: first_data as u32,
            filetype: rng.chance(7, 8),
            tables: *rng.pick(&[Tables::InGroup, Tables::Packed, Tables::Anywhere, Tables::Anywhere]),
            cluster,
            meta_bg: None,
            backups: match rng.below(4) {
                0 => Backups::All,
                1 => Backups::Two(rng.below(groups) as u32, rng.below(groups) as u32),
                _ => Backups::Sparse,
            },
        };
        if rng.chance(1, 5) {
            g.meta_bg = Some(if rng.bool() { 0 } else { rng.below(4) as u32 });
        } else {
            g.fit();
        }
        g
    }

    /// Few groups of the largest size with more than 2^32 blocks.
    pub fn huge(rng: &mut Rng) -> Geo {
        let mut g = Geo::random(rng, Limits::ANY);
        g.bs = 65536;
        g.is64 = true;
        g.desc_size = 64;
        g.bpg = 8 * 65536;
        g.inode_size = *rng.pick(&[128, 256, 512]);
        g.ipg = (65536 / u32::from(g.inode_size)) * (1 + rng.below(3) as u32);
        g.groups = 8192 + 1 + rng.below(4096) as u32;
        g.first_data = 0;
        g.blocks = u64::from(g.groups) * u64::from(g.bpg);
        g.tables = Tables::Anywhere;
        g.cluster = 0;
        g.meta_bg = rng.bool().then_some(0);
        g
    }

    /// Inode tables of more than 4 GiB.
    pub fn tall(rng: &mut Rng) -> Geo {
        let mut g = Geo::random(rng, Limits { groups: 3, ..Limits::ANY });
        g.bs = *rng.pick(&[32768, 65536]);
        g.is64 = rng.bool();
        g.desc_size = if g.is64 { 64 } else { 32 };
        g.inode_size = *rng.pick(&[16384, 32768]);
        g.cluster = 0;
        g.bpg = 8 * g.bs as u32;
        let more = (1 << 32) / u64::from(g.inode_size);
        // Room for two thirds more than the tables.
        let most = (8 * g.bs).min(more * 3 / 2);
        g.ipg = (more + rng.below(most - more + 1)) as u32 / 8 * 8;
        g.groups = 2 + rng.below(3) as u32;
        g.first_data = 0;
        g.blocks = u64::from(g.groups) * u64::from(g.bpg);
        g.tables = if u64::from(g.ipg) * u64::from(g.inode_size) < u64::from(g.bpg) * g.bs / 2 {
            *rng.pick(&[Tables::InGroup, Tables::Packed])
        } else {
            Tables::Packed
        };
        g
    }

    /// Large clusters make groups of up to 2^31 blocks: block numbers of up to
    /// 47 bits in few groups.
    pub fn vast(rng: &mut Rng) -> Geo {
        let mut g = Geo::random(rng, Limits { log_bs: 2, ..Limits::ANY });
        g.is64 = true;
        g.desc_size = 64;
        g.cluster = 28 - (8 * g.bs).trailing_zeros() + rng.below(4) as u32;
        g.bpg = 8 * (g.bs as u32) << g.cluster;
        g.inode_size = *rng.pick(&[128, 256, 512]);
        let ipb = g.bs as u32 / u32::from(g.inode_size);
        g.ipg = ipb.max(8) * (1 + rng.below(3) as u32);
        g.groups = 1 + rng.scaled((1 << 16) - 1) as u32;
        g.first_data = 0;
        g.blocks = u64::from(g.groups) * u64::from(g.bpg);
        g.tables = Tables::Anywhere;
        g.meta_bg = rng.bool().then_some(0);
        g
    }

    /// More than 65536 groups, as a large file system of small blocks has.
    pub fn wide(rng: &mut Rng) -> Geo {
        let mut g = Geo::random(rng, Limits { groups: 3, log_bs: 1, ..Limits::ANY });
        g.cluster = 0;
        g.bpg = 8 * g.bs as u32;
        g.inode_size = *rng.pick(&[128, 256]);
        g.ipg = (g.bs as u32 / u32::from(g.inode_size)) * (1 + rng.below(8) as u32);
        g.ipg = g.ipg.next_multiple_of(8);
        g.groups = (1 << 16) + 1 + rng.below(40_000) as u32;
        g.desc_size = g.desc_size.min(64);
        g.first_data = u32::from(g.bs == 1024);
        g.blocks = u64::from(g.first_data) + u64::from(g.groups) * u64::from(g.bpg);
        g.tables = *rng.pick(&[Tables::InGroup, Tables::Packed]);
        g.meta_bg = None;
        g
    }

    /// Many meta block groups of few groups each.
    pub fn meta(rng: &mut Rng) -> Geo {
        // A group each: all of them where backups matter.
        let one = rng.bool();
        loop {
            let mut g = Geo::random(rng, Limits { log_bs: u32::from(!one), groups: 400, bytes: 1 << 42, ..Limits::ANY });
            if g.groups < 30 {
                continue;
            }
            g.is64 = true;
            g.desc_size = (g.bs as u16).min(1024) >> rng.below(3);
            if one {
                g.desc_size = g.bs as u16;
            }
            g.meta_bg = Some(rng.below(3) as u32);
            if rng.bool() {
                g.backups = Backups::Sparse;
            }
            return g;
        }
    }

    /// The descriptor table has to fit in the first group with room to spare.
    fn fit(&mut self) {
        while self.gdt_blocks() + 8 > u64::from(self.bpg) / 4 {
            self.groups = (self.groups / 2).max(1);
            self.blocks = u64::from(self.first_data) + u64::from(self.groups) * u64::from(self.bpg);
            if self.groups == 1 {
                self.desc_size = self.desc_size.min(64);
                break;
            }
        }
    }

    /// Blocks of the table at the start of the file system.
    pub fn gdt_blocks(&self) -> u64 {
        // One more than needed: a reader that counts groups from block 0
        // instead of from the first data block reads one more descriptor.
        let all = ((u64::from(self.groups) + 1) * u64::from(self.desc_size)).div_ceil(self.bs);
        self.meta_bg.map_or(all, |m| all.min(u64::from(m)))
    }

    /// The block of the main superblock.
    pub fn sb_block(&self) -> u64 {
        1024 / self.bs
    }

    pub fn has_backup(&self, group: u64) -> bool {
        let power = |b: u64| {
            let mut p = b;
            while p < group {
                p *= b;
            }
            p == group
        };
        match self.backups {
            _ if group == 0 => true,
            Backups::Two(a, b) => group == u64::from(a) || group == u64::from(b),
            Backups::Sparse => group == 1 || power(3) || power(5) || power(7),
            Backups::All => true,
        }
    }

    /// The block holding the descriptor of a group (descriptor_loc()).
    pub fn descriptor_block(&self, group: u32) -> u64 {
        let per = self.bs / u64::from(self.desc_size);
        let nr = u64::from(group) / per;
        match self.meta_bg {
            Some(first) if nr >= u64::from(first) => {
                let g = nr * per;
                let mut skip = u64::from(self.has_backup(g));
                if self.bs == 1024 && nr == 0 && self.first_data == 0 {
                    skip += 1;
                }
                u64::from(self.first_data) + g * u64::from(self.bpg) + skip
            }
            _ => self.sb_block() + 1 + nr,
        }
    }

    pub fn inodes(&self) -> u32 {
        self.groups * self.ipg
    }

    pub fn table_blocks(&self) -> u64 {
        (u64::from(self.ipg) * u64::from(self.inode_size)).div_ceil(self.bs)
    }

    pub fn size(&self) -> u64 {
        self.blocks * self.bs
    }

    pub fn seed(&self) -> u32 {
        match self.csum_seed {
            Some(s) => s,
            None => crc32c(!0, &self.uuid),
        }
    }

    pub fn inode_seed(&self, ino: u32, generation: u32) -> u32 {
        crc32c(crc32c(self.seed(), &ino.to_le_bytes()), &generation.to_le_bytes())
    }

    pub fn incompat(&self) -> u64 {
        let mut f = incompat::EXTENTS;
        if self.filetype {
            f |= incompat::FILETYPE;
        }
        if self.is64 {
            f |= incompat::BIT64;
        }
        if self.tables != Tables::InGroup {
            f |= incompat::FLEX_BG;
        }
        if self.csum_seed.is_some() {
            f |= incompat::CSUM_SEED;
        }
        if self.meta_bg.is_some() {
            f |= incompat::META_BG;
        }
        f
    }

    pub fn superblock(&self, rng: &mut Rng) -> Sb {
        let mut s = Sb::zeroed();
        // Fields that readers of files and directories do not need hold anything.
        for (name, _, w) in SB {
            let fixed = matches!(
                *name,
                "log_block_size" | "log_cluster_size" | "errors" | "magic" | "creator_os" | "rev_level"
            );
            if !fixed && rng.bool() {
                let b = rng.bytes(*w);
                s.put(name, &b);
            }
        }
        s.set("inodes_count", u64::from(self.inodes()));
        s.set("blocks_count_lo", self.blocks & 0xffff_ffff);
        s.set("blocks_count_hi", self.blocks >> 32);
        for (lo, hi) in [("r_blocks_count_lo", "r_blocks_count_hi"), ("free_blocks_count_lo", "free_blocks_count_hi")] {
            let v = rng.below(self.blocks / 4);
            s.set(lo, v & 0xffff_ffff);
            s.set(hi, v >> 32);
        }
        s.set("free_inodes_count", rng.below(u64::from(self.inodes())));
        s.set("first_data_block", u64::from(self.first_data));
        let log = u64::from((self.bs / 1024).trailing_zeros());
        s.set("log_block_size", log);
        s.set("log_cluster_size", log + u64::from(self.cluster));
        s.set("blocks_per_group", u64::from(self.bpg));
        s.set("clusters_per_group", u64::from(self.bpg >> self.cluster));
        s.set("inodes_per_group", u64::from(self.ipg));
        s.set("magic", 0xef53);
        // Unmounted or not, with errors found or not.
        s.set("state", if rng.bool() { 1 } else { rng.below(8) });
        s.set("errors", rng.range(1, 3));
        s.set("creator_os", 0);
        s.set("rev_level", 1);
        s.set("first_ino", 11);
        s.set("inode_size", u64::from(self.inode_size));
        s.set("block_group_nr", 0);
        let mut compat = rng.u64() & 0x3f;
        if let Backups::Two(a, b) = self.backups {
            compat |= 0x200;
            s.set("backup_bgs_0", u64::from(a));
            s.set("backup_bgs_1", u64::from(b));
        }
        s.set("feature_compat", compat);
        // A journal to be replayed, protection against multiple mounts, large
        // attribute values, large directories, data in inodes, encryption.
        let mut more = 0;
        if rng.bool() {
            for bit in [0x4, 0x100, 0x400, 0x4000, 0x8000, 0x1_0000] {
                if rng.chance(1, 4) {
                    more |= bit;
                }
            }
        }
        s.set("feature_incompat", self.incompat() | more);
        let mut r = ro::LARGE_FILE | ro::HUGE_FILE | ro::DIR_NLINK;
        if self.backups == Backups::Sparse || self.backups != Backups::All && rng.bool() {
            r |= ro::SPARSE_SUPER;
        }
        if self.cluster > 0 {
            r |= ro::BIGALLOC;
        }
        if self.inode_size > 128 {
            r |= ro::EXTRA_ISIZE;
        }
        if self.csum {
            r |= ro::METADATA_CSUM;
        }
        if rng.bool() {
            // Quotas, read-only, projects, verity, orphans.
            r |= rng.u64() & 0x1_b100;
        }
        s.set("feature_ro_compat", r);
        s.put("uuid", &self.uuid);
        if self.is64 {
            s.set("desc_size", u64::from(self.desc_size));
        } else {
            // Not used.
            s.set("desc_size", *rng.pick(&[0, 0, 32, 64, 0xffff]));
        }
        s.set("log_groups_per_flex", rng.below(8));
        s.set("want_extra_isize", 32.min(u64::from(self.inode_size) - 128));
        s.set("min_extra_isize", 32.min(u64::from(self.inode_size) - 128));
        s.set("first_meta_bg", self.meta_bg.map_or(0, u64::from));
        s.put("reserved", &[0; 376]);
        if let Some(seed) = self.csum_seed {
            s.set("checksum_seed", u64::from(seed));
        }
        if self.csum {
            s.set("checksum_type", 1);
            s.seal();
        } else {
            s.set("checksum_type", 0);
            s.set("checksum", 0);
        }
        s
    }
}

// ------------------------------------------------------------ inode

/// Name, offset, width in struct ext4_inode.
pub const INODE: &[(&str, usize, usize)] = &[
    ("mode", 0x0, 2),
    ("uid", 0x2, 2),
    ("size_lo", 0x4, 4),
    ("atime", 0x8, 4),
    ("ctime", 0xc, 4),
    ("mtime", 0x10, 4),
    ("dtime", 0x14, 4),
    ("gid", 0x18, 2),
    ("links_count", 0x1a, 2),
    ("blocks_lo", 0x1c, 4),
    ("flags", 0x20, 4),
    ("version", 0x24, 4),
    ("block", 0x28, 60),
    ("generation", 0x64, 4),
    ("file_acl_lo", 0x68, 4),
    ("size_high", 0x6c, 4),
    ("obso_faddr", 0x70, 4),
    ("blocks_high", 0x74, 2),
    ("file_acl_high", 0x76, 2),
    ("uid_high", 0x78, 2),
    ("gid_high", 0x7a, 2),
    ("checksum_lo", 0x7c, 2),
    ("reserved", 0x7e, 2),
    ("extra_isize", 0x80, 2),
    ("checksum_hi", 0x82, 2),
    ("ctime_extra", 0x84, 4),
    ("mtime_extra", 0x88, 4),
    ("atime_extra", 0x8c, 4),
    ("crtime", 0x90, 4),
    ("crtime_extra", 0x94, 4),
    ("version_hi", 0x98, 4),
    ("projid", 0x9c, 4),
];

/// The bytes of an inode, as long as the file system's inode size.
#[derive(Clone)]
pub struct Ino(pub Vec<u8>);

impl Ino {
    pub fn new(size: u16) -> Ino {
        Ino(vec![0; usize::from(size)])
    }

    fn at(name: &str) -> (usize, usize) {
        let f = INODE.iter().find(|f| f.0 == name);
        let f = f.unwrap_or_else(|| panic!("no inode field {name}"));
        (f.1, f.2)
    }

    pub fn set(&mut self, name: &str, v: u64) {
        let (o, w) = Self::at(name);
        self.0[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
    }

    /// The field's value; 0 where this inode does not have the field.
    pub fn get(&self, name: &str) -> u64 {
        let (o, w) = Self::at(name);
        if o + w > self.end() {
            return 0;
        }
        let mut b = [0; 8];
        b[..w].copy_from_slice(&self.0[o..o + w]);
        u64::from_le_bytes(b)
    }

    /// Where the fields of this inode end.
    pub fn end(&self) -> usize {
        if self.0.len() <= 128 {
            128
        } else {
            128 + usize::from(u16::from_le_bytes([self.0[0x80], self.0[0x81]]))
        }
    }

    pub fn get2(&self, lo: &str, hi: &str, shift: u32) -> u64 {
        self.get(lo) | self.get(hi) << shift
    }

    /// Random values in every field, with a valid extra size.
    pub fn random(rng: &mut Rng, size: u16) -> Ino {
        let mut i = Ino(rng.bytes(usize::from(size)));
        // In real inodes most fields are zero.
        let zeros = rng.below(4) * 3;
        for (name, at, w) in INODE {
            if at + w <= i.0.len() && *name != "block" && *name != "extra_isize" {
                match rng.below(12) {
                    n if n < zeros => i.0[*at..at + w].fill(0),
                    11 => i.0[*at..at + w].fill(0xff),
                    _ => {}
                }
            }
        }
        if size > 128 {
            let room = u64::from(size) - 128;
            let extra = match rng.below(4) {
                0 => 28,
                1 | 2 => 32,
                _ => 4 * rng.below(room / 4 + 1),
            };
            i.set("extra_isize", extra.min(room));
            for t in ["ctime_extra", "mtime_extra", "atime_extra", "crtime_extra"] {
                let v = rng.below(1_000_000_000) << 2 | rng.below(4);
                i.set(t, v);
            }
        }
        i.set("dtime", rng.below(1 << 32));
        i
    }

    pub fn seal(&mut self, geo: &Geo, number: u32) {
        if !geo.csum {
            return;
        }
        let seed = geo.inode_seed(number, self.generation());
        let mut b = self.0.clone();
        b[0x7c..0x7e].fill(0);
        let hi = self.end() >= 0x84;
        if hi {
            b[0x82..0x84].fill(0);
        }
        let c = crc32c(seed, &b);
        self.set("checksum_lo", u64::from(c & 0xffff));
        if hi {
            self.set("checksum_hi", u64::from(c >> 16));
        }
    }

    pub fn generation(&self) -> u32 {
        u32::from_le_bytes(self.0[0x64..0x68].try_into().unwrap())
    }
}

pub const S_IFREG: u64 = 0o100_000;
pub const S_IFDIR: u64 = 0o040_000;
pub const EXTENTS_FL: u64 = 0x80000;
pub const INDEX_FL: u64 = 0x1000;
pub const INLINE_FL: u64 = 0x1000_0000;
/// Flags that do not change how a file or directory is read.
pub const HARMLESS_FL: u64 = 0xe277_e9fb;

// ------------------------------------------------------------ image

#[derive(Clone, Debug)]
pub struct Ext {
    pub first: u32,
    pub len: u32,
    pub phys: u64,
    pub unwritten: bool,
}

/// One file or directory: its inode number, size and data.
#[derive(Clone)]
pub struct FileRec {
    pub ino: u32,
    pub size: u64,
    pub exts: Vec<Ext>,
    pub depth: u32,
    pub inode: Ino,
    /// Blocks holding nodes of the extent tree, with (depth, entries).
    pub nodes: Vec<Node>,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub block: u64,
    pub depth: u16,
    pub entries: u16,
    pub first: u32,
}

impl FileRec {
    pub fn phys(&self, block: u64) -> Option<u64> {
        let i = self.exts.partition_point(|e| u64::from(e.first) <= block).checked_sub(1)?;
        let e = &self.exts[i];
        let at = block - u64::from(e.first);
        (at < u64::from(e.len) && !e.unwritten).then_some(e.phys + at)
    }

    pub fn data_blocks(&self) -> u64 {
        self.exts.iter().map(|e| u64::from(e.len)).sum()
    }
}

/// How a file's blocks and extents are to be chosen.
#[derive(Clone, Debug)]
pub struct Shape {
    pub blocks: u64,
    /// Longest extent.
    pub max_len: u64,
    pub unwritten: bool,
    /// Unwritten preallocation beyond the end of the file.
    pub keep_size: bool,
    /// Parts of the file have no extent.
    pub holes: bool,
    /// Extra levels of the tree beyond what the extents need.
    pub extra_depth: u32,
    /// Largest number of entries of a node in a block (the format's limit if larger).
    pub fan_out: u64,
    /// The last block is partly used.
    pub partial: bool,
}

impl Shape {
    pub fn random(rng: &mut Rng, max_blocks: u64) -> Shape {
        let blocks = match rng.below(6) {
            0 => rng.below(3).min(max_blocks),
            1 => 1 + rng.below(max_blocks.min(8)),
            _ => rng.scaled(max_blocks),
        };
        Shape {
            blocks,
            max_len: match rng.below(4) {
                0 => 1,
                1 => 1 + rng.below(4),
                2 => 1 + rng.below(64),
                _ => 0x8000,
            },
            unwritten: rng.chance(1, 3),
            keep_size: rng.chance(1, 6),
            holes: false,
            extra_depth: if rng.chance(1, 3) { 1 + rng.below(4) as u32 } else { 0 },
            fan_out: *rng.pick(&[1, 2, 3, 5, 1000, 1000, 1000]),
            partial: rng.chance(3, 4),
        }
    }
}

#[derive(Clone)]
pub struct Fs {
    pub geo: Geo,
    pub data: Sparse,
    pub sb: Sb,
    pub tables: Vec<u64>,
    used: BTreeMap<u64, u64>,
    inos: HashSet<u32>,
    /// Copies of the superblock that the device holds.
    pub copies: u32,
}

pub const FT: [(u8, u64); 7] = [(1, 0o10), (2, 0o4), (3, 0o2), (4, 0o6), (5, 0o1), (6, 0o14), (7, 0o12)];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    pub name: Vec<u8>,
    pub ino: u32,
    pub ftype: u8,
}

#[derive(Clone)]
pub struct DirRec {
    pub file: FileRec,
    pub entries: Vec<Entry>,
    /// Number of live entries in each block, in order.
    pub per_block: Vec<usize>,
    pub deleted: usize,
    pub stale: usize,
}

impl Fs {
    pub fn new(rng: &mut Rng, geo: Geo) -> Fs {
        let size = geo.size();
        let mut data = Sparse::garbage(size, rng.u64());
        let sb = geo.superblock(rng);
        data.write(1024, &sb.0);
        let mut fs = Fs {
            geo,
            data,
            sb,
            tables: vec![],
            used: BTreeMap::new(),
            inos: HashSet::new(),
            copies: 0,
        };
        let g = fs.geo.clone();
        let gdt = g.sb_block() + 1;
        fs.used.insert(0, gdt + g.gdt_blocks());
        let mut packed = gdt + g.gdt_blocks();
        let mut backups = vec![];
        for i in 0..g.groups {
            // Blocks of a meta block group's descriptors, and the backup before.
            let at = g.descriptor_block(i);
            if i == 0 && at >= packed {
                assert!(fs.claim(packed, at + 1 - packed));
                packed = at + 1;
            } else if fs.is_free(at, 1) {
                if fs.is_free(at - 1, 1) {
                    fs.claim(at - 1, 2);
                    if g.has_backup(u64::from(i)) && u64::from(g.first_data) + u64::from(i) * u64::from(g.bpg) == at - 1 {
                        backups.push((i, 1));
                    }
                } else {
                    fs.claim(at, 1);
                }
            }
        }
        let need = g.table_blocks();
        for i in 0..g.groups {
            let at = match g.tables {
                Tables::InGroup => {
                    let lo = u64::from(g.first_data) + u64::from(i) * u64::from(g.bpg);
                    let hi = (lo + u64::from(g.bpg)).min(g.blocks);
                    fs.alloc_in(rng, need, lo, hi)
                }
                Tables::Packed => {
                    let at = packed;
                    packed += need;
                    fs.claim(at, need).then_some(at)
                }
                Tables::Anywhere => None,
            };
            let at = at.or_else(|| fs.alloc_in(rng, need, 0, g.blocks));
            fs.tables.push(at.expect("room for inode tables"));
        }
        for i in 0..g.groups {
            fs.write_descriptor(rng, i);
        }
        fs.write_backups(rng, backups);
        for reserved in 1..=10 {
            fs.inos.insert(reserved);
        }
        fs
    }

    /// Copies of the superblock and the group descriptors, as old as they are
    /// in practice, in some of the groups that have them.
    fn write_backups(&mut self, rng: &mut Rng, mut places: Vec<(u32, u64)>) {
        if rng.chance(1, 2) {
            return;
        }
        let g = self.geo.clone();
        let with_gdt = 1 + g.gdt_blocks();
        let first = u64::from(g.first_data);
        places.truncate(8);
        for i in (1..g.groups.min(100)).filter(|i| g.has_backup(u64::from(*i))).take(8) {
            if with_gdt <= 64 && self.claim(first + u64::from(i) * u64::from(g.bpg), with_gdt) {
                places.push((i, with_gdt));
            }
        }
        for (group, blocks) in places {
            let mut s = self.sb.clone();
            for name in ["free_blocks_count_lo", "free_inodes_count", "mtime", "wtime", "mnt_count"] {
                s.set(name, rng.below(0x1_0000));
            }
            s.set("block_group_nr", u64::from(group) & 0xffff);
            if g.csum {
                s.seal();
            }
            let at = (first + u64::from(group) * u64::from(g.bpg)) * g.bs;
            self.data.write(at, &s.0);
            self.copies += 1;
            for b in 1..blocks {
                let mut copy = vec![0; g.bs as usize];
                self.data.read((g.sb_block() + b) * g.bs, &mut copy);
                self.data.write(at + b * g.bs, &copy);
            }
        }
    }

    pub fn descriptor_offset(&self, group: u32) -> u64 {
        let per = self.geo.bs / u64::from(self.geo.desc_size);
        self.geo.descriptor_block(group) * self.geo.bs + u64::from(group) % per * u64::from(self.geo.desc_size)
    }

    /// Makes a group's descriptor say that its inode table is there.
    pub fn misplace_table(&mut self, rng: &mut Rng, group: u32, at: u64) {
        let keep = std::mem::replace(&mut self.tables[group as usize], at);
        self.write_descriptor(rng, group);
        self.tables[group as usize] = keep;
    }

    fn write_descriptor(&mut self, rng: &mut Rng, group: u32) {
        let g = &self.geo;
        let mut d = vec![0; usize::from(g.desc_size)];
        if rng.chance(3, 4) {
            rng.fill(&mut d);
        }
        let table = self.tables[group as usize];
        d[8..12].copy_from_slice(&(table as u32).to_le_bytes());
        if g.desc_size >= 64 {
            d[0x28..0x2c].copy_from_slice(&((table >> 32) as u32).to_le_bytes());
        }
        if g.csum {
            d[0x1e..0x20].fill(0);
            let c = crc32c(crc32c(g.seed(), &group.to_le_bytes()), &d);
            d[0x1e..0x20].copy_from_slice(&(c as u16).to_le_bytes());
        }
        let off = self.descriptor_offset(group);
        self.data.write(off, &d);
    }

    // ---- blocks

    fn is_free(&self, at: u64, n: u64) -> bool {
        if at + n > self.geo.blocks {
            return false;
        }
        match self.used.range(..at + n).next_back() {
            Some((_, end)) => *end <= at,
            None => true,
        }
    }

    pub fn claim(&mut self, at: u64, n: u64) -> bool {
        let free = self.is_free(at, n);
        if free && n > 0 {
            self.used.insert(at, at + n);
        }
        free
    }

    pub fn alloc_in(&mut self, rng: &mut Rng, n: u64, lo: u64, hi: u64) -> Option<u64> {
        if n == 0 || hi < lo + n {
            return None;
        }
        for _ in 0..20 {
            let at = match rng.below(8) {
                0 => hi - n,
                1 => lo,
                // Across or next to a multiple of 2^32.
                2 if hi >> 32 > lo >> 32 => {
                    let high = rng.range((lo >> 32) + 1, hi >> 32);
                    ((high << 32) - rng.below(n + 1)).clamp(lo, hi - n)
                }
                _ => lo + rng.below(hi - lo - n + 1),
            };
            if self.claim(at, n) {
                return Some(at);
            }
        }
        // First fit.
        let mut at = lo;
        for (a, b) in self.used.range(..hi) {
            if *b <= at {
                continue;
            }
            if *a >= at + n {
                break;
            }
            at = *b;
        }
        (at + n <= hi && self.claim(at, n)).then_some(at)
    }

    /// A free run of blocks at a random place.
    pub fn alloc(&mut self, rng: &mut Rng, n: u64) -> Option<u64> {
        let hi = self.geo.blocks;
        // Extents hold 48-bit block numbers, well above any size used here.
        self.alloc_in(rng, n, 0, hi)
    }

    // ---- inodes

    pub fn inode_offset(&self, ino: u32) -> u64 {
        let i = ino - 1;
        self.tables[(i / self.geo.ipg) as usize] * self.geo.bs
            + u64::from(i % self.geo.ipg) * u64::from(self.geo.inode_size)
    }

    pub fn pick_ino(&mut self, rng: &mut Rng) -> Option<u32> {
        let n = self.geo.inodes();
        for _ in 0..100 {
            let i = match rng.below(6) {
                0 => n - rng.below(u64::from(n.min(4))) as u32,
                // The ends of a group.
                1 => {
                    let g = rng.below(u64::from(self.geo.groups)) as u32;
                    g * self.geo.ipg + 1 + rng.below(2) as u32
                }
                2 => {
                    let g = 1 + rng.below(u64::from(self.geo.groups)) as u32;
                    g * self.geo.ipg - rng.below(2) as u32
                }
                _ => 1 + rng.below(u64::from(n)) as u32,
            };
            if i >= 11 && i <= n && self.inos.insert(i) {
                return Some(i);
            }
        }
        None
    }

    pub fn put_inode(&mut self, ino: u32, inode: &Ino) {
        let off = self.inode_offset(ino);
        self.data.write(off, &inode.0);
    }

    // ---- extent trees

    pub fn max_entries(&self) -> u16 {
        ((self.geo.bs - 12) / 12) as u16
    }

    fn node(&self, entries: &[[u8; 12]], max: u16, depth: u16, rng: &mut Rng) -> Vec<u8> {
        let mut v = vec![];
        v.extend(0xf30au16.to_le_bytes());
        v.extend((entries.len() as u16).to_le_bytes());
        v.extend(max.to_le_bytes());
        v.extend(depth.to_le_bytes());
        v.extend(rng.u32().to_le_bytes());
        for e in entries {
            v.extend(e);
        }
        v
    }

    /// Writes the tree over `exts`; gives the root for the inode.
    pub fn write_tree(
        &mut self,
        rng: &mut Rng,
        exts: &[Ext],
        shape: &Shape,
        seed: u32,
    ) -> Option<([u8; 60], u32, Vec<Node>)> {
        let mut nodes = vec![];
        let mut level: Vec<(u32, [u8; 12])> = exts
            .iter()
            .map(|e| {
                let mut b = [0; 12];
                b[..4].copy_from_slice(&e.first.to_le_bytes());
                let len = if e.unwritten { e.len + 0x8000 } else { e.len } as u16;
                b[4..6].copy_from_slice(&len.to_le_bytes());
                b[6..8].copy_from_slice(&((e.phys >> 32) as u16).to_le_bytes());
                b[8..].copy_from_slice(&(e.phys as u32).to_le_bytes());
                (e.first, b)
            })
            .collect();
        let mut depth = 0u16;
        let mut extra = if exts.is_empty() { 0 } else { shape.extra_depth };
        let max = self.max_entries();
        let fan = shape.fan_out.min(u64::from(max)).max(1);
        while level.len() > 4 || extra > 0 {
            if level.len() <= 4 {
                extra -= 1;
            }
            if depth == 5 {
                if level.len() <= 4 {
                    break;
                }
                return None;
            }
            // Enough per node to be done within five levels.
            let mut least = 1u64;
            while least.pow(5 - u32::from(depth)) * 4 < level.len() as u64 {
                least += 1;
            }
            let most = fan.max(least).min(u64::from(max));
            let mut up = vec![];
            let mut rest = &level[..];
            while !rest.is_empty() {
                let n = match rng.below(3) {
                    0 => most,
                    _ => rng.range(least.min(most), most),
                };
                let n = (n as usize).min(rest.len());
                let (now, later) = rest.split_at(n);
                let entries: Vec<_> = now.iter().map(|e| e.1).collect();
                let mut block = self.node(&entries, max, depth, rng);
                let used = block.len();
                block.resize(self.geo.bs as usize, 0);
                if rng.bool() {
                    rng.fill(&mut block[used..]);
                }
                let at = self.alloc(rng, 1)?;
                self.seal_node(&mut block, seed);
                self.data.write(at * self.geo.bs, &block);
                nodes.push(Node { block: at, depth, entries: n as u16, first: now[0].0 });
                let mut b = [0; 12];
                b[..4].copy_from_slice(&now[0].0.to_le_bytes());
                b[4..8].copy_from_slice(&(at as u32).to_le_bytes());
                b[8..10].copy_from_slice(&((at >> 32) as u16).to_le_bytes());
                if rng.bool() {
                    b[10..].copy_from_slice(&rng.u16().to_le_bytes());
                }
                up.push((now[0].0, b));
                rest = later;
            }
            level = up;
            depth += 1;
        }
        let entries: Vec<_> = level.iter().map(|e| e.1).collect();
        let root = self.node(&entries, 4, depth, rng);
        let mut out = [0; 60];
        if rng.bool() {
            rng.fill(&mut out);
        }
        out[..root.len()].copy_from_slice(&root);
        Some((out, u32::from(depth), nodes))
    }

    /// Writes the checksum of a tree block, after the room for eh_max entries.
    pub fn seal_node(&self, block: &mut [u8], seed: u32) {
        if self.geo.csum {
            let at = 12 + 12 * usize::from(u16::from_le_bytes([block[4], block[5]]));
            if at + 4 <= block.len() {
                let c = crc32c(seed, &block[..at]);
                block[at..at + 4].copy_from_slice(&c.to_le_bytes());
            }
        }
    }

    fn make_exts(&mut self, rng: &mut Rng, shape: &Shape) -> Option<Vec<Ext>> {
        let mut exts: Vec<Ext> = vec![];
        let mut first = 0u64;
        let extra = if shape.keep_size { 1 + rng.below(shape.max_len.min(20)) } else { 0 };
        let total = shape.blocks + extra;
        while first < total {
            if shape.holes && rng.chance(1, 3) {
                first += match rng.below(3) {
                    0 => 1,
                    1 => 1 + rng.below(40),
                    _ => rng.below(total - first + 1),
                };
                if first >= total {
                    break;
                }
            }
            let beyond = first >= shape.blocks;
            let unwritten = beyond && rng.chance(3, 4) || shape.unwritten && rng.chance(1, 3);
            let limit = if unwritten { 0x7fff } else { 0x8000 };
            let room = (total - first).min(shape.max_len).min(limit);
            let len = match rng.below(3) {
                0 => room,
                1 => 1 + rng.below(room),
                _ => 1 + rng.scaled(room - 1),
            };
            // Next to the last one now and then.
            let next = exts.last().map(|e| e.phys + u64::from(e.len));
            // Or where the number differs in one bit only.
            let alike = exts.last().map(|e| e.phys ^ (1 << rng.range(8, 46))).filter(|p| p + len <= self.geo.blocks);
            let phys = match (next, alike) {
                (Some(p), _) if rng.chance(1, 4) && self.claim(p, len) => p,
                (_, Some(p)) if rng.chance(1, 8) && self.claim(p, len) => p,
                _ => self.alloc(rng, len)?,
            };
            exts.push(Ext { first: first as u32, len: len as u32, phys, unwritten });
            first += len;
        }
        Some(exts)
    }

    fn finish(&mut self, rng: &mut Rng, ino: u32, mode: u64, size: u64, exts: Vec<Ext>, shape: &Shape) -> Option<FileRec> {
        let mut inode = Ino::random(rng, self.geo.inode_size);
        inode.set("mode", mode | rng.below(0o10000));
        inode.set("size_lo", size & 0xffff_ffff);
        inode.set("size_high", size >> 32);
        inode.set("flags", EXTENTS_FL | rng.u64() & HARMLESS_FL);
        inode.set("links_count", 1 + rng.below(100));
        let seed = self.geo.inode_seed(ino, inode.generation());
        let (root, depth, nodes) = self.write_tree(rng, &exts, shape, seed)?;
        inode.0[0x28..0x28 + 60].copy_from_slice(&root);
        inode.seal(&self.geo, ino);
        self.put_inode(ino, &inode);
        Some(FileRec { ino, size, exts, depth, inode, nodes })
    }

    pub fn make_file(&mut self, rng: &mut Rng, shape: &Shape) -> Option<FileRec> {
        let ino = self.pick_ino(rng)?;
        let exts = self.make_exts(rng, shape)?;
        let bs = self.geo.bs;
        let mut size = shape.blocks * bs;
        if shape.partial && shape.blocks > 0 {
            size -= match rng.below(4) {
                0 => bs - 1,
                1 => 1,
                _ => rng.below(bs),
            };
        }
        self.finish(rng, ino, S_IFREG, size, exts, shape)
    }

    /// What block `i` of the file has to read as (as much of it as the file has).
    pub fn expected(&self, f: &FileRec, i: u64) -> Vec<u8> {
        let bs = self.geo.bs;
        let n = f.size.saturating_sub(i * bs).min(bs) as usize;
        match f.phys(i) {
            Some(p) => self.data.get(p * bs, n),
            None => vec![0; n],
        }
    }

    // ---- directories

    pub fn random_name(rng: &mut Rng) -> Vec<u8> {
        let n = match rng.below(6) {
            0 => 255,
            1 => 1,
            2 => rng.range(250, 255),
            3 => rng.range(1, 255),
            _ => rng.range(1, 16),
        } as usize;
        let style = rng.below(4);
        (0..n)
            .map(|_| loop {
                let b = match style {
                    0 => rng.u8(),
                    1 => 0x80 | rng.u8(),
                    _ => *rng.pick(b"abcdefghijklmnopqrstuvwxyzABC0123456789._- "),
                };
                if b != 0 && b != b'/' {
                    break b;
                }
            })
            .collect()
    }

    /// Fills blocks with the entries in order, adding slack, deleted records
    /// and stale bytes; gives the blocks without their checksums.
    pub fn dir_blocks(&self, rng: &mut Rng, entries: &[Entry], tidy: bool) -> (Vec<Vec<u8>>, Vec<usize>, usize, usize) {
        let bs = self.geo.bs as usize;
        let end = if self.geo.csum { bs - 12 } else { bs };
        let (mut blocks, mut per_block, mut deleted, mut stale) = (vec![], vec![], 0, 0);
        let mut next = entries.iter().peekable();
        while next.peek().is_some() || blocks.is_empty() {
            let mut b = vec![0; bs];
            if !tidy {
                rng.fill(&mut b);
            }
            let (mut at, mut last, mut live) = (0, None::<usize>, 0);
            loop {
                let dead = !tidy && rng.chance(1, 6);
                let e = if dead {
                    Entry { name: Self::random_name(rng), ino: 0, ftype: rng.below(8) as u8 }
                } else {
                    match next.peek() {
                        Some(e) => (*e).clone(),
                        None => break,
                    }
                };
                let need = 8 + e.name.len().div_ceil(4) * 4;
                if at + need > end {
                    if dead {
                        continue;
                    }
                    break;
                }
                let mut rec = need;
                if !tidy && rng.chance(1, 4) {
                    let room = ((end - at - need) / 4).min(if rng.chance(1, 8) { 4000 } else { 80 });
                    rec += 4 * rng.usize_below(room + 1);
                    if rec > need {
                        stale += 1;
                    }
                }
                b[at..at + 4].copy_from_slice(&e.ino.to_le_bytes());
                b[at + 4..at + 6].copy_from_slice(&(rec as u16).to_le_bytes());
                b[at + 6] = e.name.len() as u8;
                b[at + 7] = e.ftype;
                b[at + 8..at + 8 + e.name.len()].copy_from_slice(&e.name);
                last = Some(at);
                at += rec;
                if dead {
                    deleted += 1;
                } else {
                    live += 1;
                    next.next();
                }
                if at + 12 > end || !tidy && rng.chance(1, 40) {
                    break;
                }
            }
            if let Some(l) = last {
                let rec = end - l;
                // A record of 64 KiB is stored as 65535 or 0.
                let stored = if rec < 65536 { rec as u16 } else { *rng.pick(&[0, 0xffff]) };
                b[l + 4..l + 6].copy_from_slice(&stored.to_le_bytes());
                at = end;
            }
            if at < end {
                // Nothing in it.
                Self::unused(rng, &mut b, end);
            }
            blocks.push(b);
            per_block.push(live);
            if !tidy && rng.chance(1, 12) {
                // A block with nothing in it.
                let mut b = vec![0; bs];
                rng.fill(&mut b);
                Self::unused(rng, &mut b, end);
                blocks.push(b);
                per_block.push(0);
            }
        }
        (blocks, per_block, deleted, stale)
    }

    fn unused(rng: &mut Rng, b: &mut [u8], end: usize) {
        let stored = if end < 65536 { end as u16 } else { *rng.pick(&[0, 0xffff]) };
        b[..4].fill(0);
        b[4..6].copy_from_slice(&stored.to_le_bytes());
        b[6] = 0;
        b[7] = 0;
    }

    pub fn seal_dir(&self, block: &mut [u8], seed: u32) {
        if self.geo.csum {
            let at = block.len() - 12;
            block[at..at + 4].fill(0);
            block[at + 4..at + 6].copy_from_slice(&12u16.to_le_bytes());
            block[at + 6] = 0;
            block[at + 7] = 0xde;
            let c = crc32c(seed, &block[..at]);
            block[at + 8..].copy_from_slice(&c.to_le_bytes());
        }
    }

    /// A linear directory holding `.`, `..` and `entries` in order.
    pub fn make_dir(&mut self, rng: &mut Rng, ino: Option<u32>, entries: Vec<Entry>, tidy: bool) -> Option<DirRec> {
        let ino = match ino {
            Some(i) => {
                self.inos.insert(i);
                i
            }
            None => self.pick_ino(rng)?,
        };
        let ft = |t: u8| if self.geo.filetype { t } else { 0 };
        let mut all = vec![
            Entry { name: b".".to_vec(), ino, ftype: ft(2) },
            Entry { name: b"..".to_vec(), ino: 2, ftype: ft(2) },
        ];
        all.extend(entries);
        if rng.chance(1, 20) {
            all.truncate(rng.usize_below(3));
        }
        let (blocks, per_block, deleted, stale) = self.dir_blocks(rng, &all, tidy);
        let shape = Shape {
            blocks: blocks.len() as u64,
            unwritten: false,
            keep_size: false,
            holes: false,
            partial: false,
            ..Shape::random(rng, 1)
        };
        let exts = self.make_exts(rng, &shape)?;
        let size = shape.blocks * self.geo.bs;
        let file = self.finish(rng, ino, S_IFDIR, size, exts, &shape)?;
        let seed = self.geo.inode_seed(ino, file.inode.generation());
        for (i, mut b) in blocks.into_iter().enumerate() {
            self.seal_dir(&mut b, seed);
            let at = file.phys(i as u64)? * self.geo.bs;
            self.data.write(at, &b);
        }
        let mut file = file;
        if all.iter().any(|e| e.name.contains(&0)) {
            self.encrypted(&mut file);
        }
        Some(DirRec { file, entries: all, per_block, deleted, stale })
    }

    /// Makes every record in a range of blocks of a directory a deleted one, as
    /// short as they can be or one to a block, and returns how many those are.
    pub fn bury(&mut self, d: &mut DirRec, blocks: std::ops::Range<usize>, short: bool) -> usize {
        let mut n = 0;
        let seed = self.geo.inode_seed(d.file.ino, d.file.inode.generation());
        let first: usize = d.per_block[..blocks.start].iter().sum();
        let gone: usize = d.per_block[blocks.clone()].iter().sum();
        for i in blocks {
            let mut b = vec![0; self.geo.bs as usize];
            let end = b.len() - if self.geo.csum { 12 } else { 0 };
            let mut at = 0;
            while at < end {
                let len = if end - at < 24 || !short { end - at } else { 12 };
                b[at + 4..at + 6].copy_from_slice(&(len as u16).to_le_bytes());
                b[at + 6] = 1;
                b[at + 8] = b'x';
                at += len;
                n += 1;
            }
            self.seal_dir(&mut b, seed);
            if let Some(at) = d.file.phys(i as u64) {
                self.data.write(at * self.geo.bs, &b);
            }
            d.per_block[i] = 0;
        }
        d.entries.drain(first..first + gone);
        d.deleted += n;
        n
    }

    /// Marks an inode encrypted, and the file system as one that has such.
    fn encrypted(&mut self, file: &mut FileRec) {
        file.inode.set("flags", file.inode.get("flags") | 0x800);
        file.inode.seal(&self.geo, file.ino);
        self.put_inode(file.ino, &file.inode);
        self.sb.set("feature_incompat", self.sb.get("feature_incompat") | incompat::ENCRYPT);
        if self.geo.csum {
            self.sb.seal();
        }
        self.data.write(1024, &self.sb.0);
    }

    /// Entries with encrypted names: at least 16 bytes, whatever they are.
    pub fn encrypted_entries(&self, rng: &mut Rng, n: usize) -> Vec<Entry> {
        let mut out = self.random_entries(rng, n);
        let mut seen = HashSet::new();
        out.retain_mut(|e| {
            let len = *rng.pick(&[16, 16, 32, 64, 240, 255]);
            e.name = (0..len).map(|_| rng.u8()).collect();
            if rng.chance(1, 3) {
                e.name[rng.usize_below(len)] = 0;
            }
            if rng.chance(1, 8) {
                e.name[len - 1] = 0;
            }
            seen.insert(e.name.clone())
        });
        out
    }

    pub fn random_entries(&self, rng: &mut Rng, n: usize) -> Vec<Entry> {
        let mut seen = HashSet::new();
        let mut out = vec![];
        for _ in 0..n {
            let name = Self::random_name(rng);
            if name == b"." || name == b".." || !seen.insert(name.clone()) {
                continue;
            }
            out.push(Entry {
                name,
                ino: 1 + rng.below(u64::from(self.geo.inodes())) as u32,
                ftype: if self.geo.filetype { rng.below(8) as u8 } else { 0 },
            });
        }
        out
    }
}


pub fn brief(g: &Geo) -> String {
    format!(
        "ext4 with {}-byte blocks, {}-byte inodes, {} groups of {} blocks and {} inodes, {}-byte descriptors, {} blocks, tables {:?}, checksums {}{}{}{}",
        g.bs, g.inode_size, g.groups, g.bpg, g.ipg, g.desc_size, g.blocks, g.tables, g.csum,
        if g.csum_seed.is_some() { " with a stored seed" } else { "" },
        if g.cluster > 0 { format!(", clusters of {} blocks", 1 << g.cluster) } else { String::new() },
        g.meta_bg.map_or(String::new(), |m| format!(", meta block groups from {m}, backups {:?}", g.backups)),
    )
}
