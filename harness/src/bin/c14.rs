//! Which superblocks are accepted.
use mdv::ext4::{brief, Fs, Geo, Limits, Sb};
use mdv::extx::{self, Sut};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::{Ctl, TestDevice};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

struct Bench {
    fs: Fs,
    data: Rc<RefCell<mdv::Sparse>>,
    bs: u32,
}

impl Bench {
    fn open(&self, bytes: &[u8]) -> io::Result<Sut> {
        self.data.borrow_mut().write(1024, bytes);
        let ctl = Ctl::new();
        ctl.set_budget(1_000_000);
        mdv::sut::ext4::Ext4Fs::open(TestDevice::shared(self.data.clone(), self.bs, &ctl))
    }

    /// With its checksum renewed.
    fn open_sealed(&self, s: &Sb) -> io::Result<Sut> {
        let mut s = s.clone();
        if self.fs.geo.csum {
            s.seal();
        }
        self.open(&s.0)
    }
}

fn case(c: &mut Case) -> Verdict {
    let mut geo = Geo::random(&mut c.rng, Limits { groups: 12, ..Limits::ANY });
    if c.index % 2 == 0 {
        geo.csum = true;
    }
    let fs = Fs::new(&mut c.rng, geo);
    let b = Bench { data: Rc::new(RefCell::new(fs.data.clone())), bs: extx::bs(&mut c.rng), fs };
    let sb = b.fs.sb.clone();
    c.nontrivial();
    c.fp_bytes(&sb.0);
    c.describe(|| brief(&b.fs.geo));
    accepted(c, &b, &sb)?;
    if b.fs.copies > 0 {
        c.hit("copies of the superblock on the device");
    }
    if b.fs.geo.csum {
        damaged(c, &b, &sb)?;
    }
    impossible(c, &b, &sb)?;
    // What was damaged and repaired opens again.
    mdv::mdx::must(b.open(&sb.0), "opening the repaired file system")?;
    // A device that ends before the superblock or its descriptors do.
    for end in [0, 1, 1023, 1024, 1025, 2047] {
        let mut d = b.fs.data.clone();
        d.size = end;
        mdv::ensure!(extx::open_data(d, 1, &Ctl::new()).is_err(), "a superblock cut off at byte {end} was accepted");
        c.hit("device too small");
    }
    let last = b.fs.descriptor_offset(b.fs.geo.groups - 1);
    let mut d = b.fs.data.clone();
    d.size = last + c.rng.below(32);
    if d.size >= 2048 {
        mdv::ensure!(extx::open_data(d, 1, &Ctl::new()).is_err(), "group descriptors cut off by the end of the device were accepted");
        c.hit("descriptors beyond the end");
    }
    Ok(())
}

/// Fields that do not decide on validity hold anything.
fn accepted(c: &mut Case, b: &Bench, sb: &Sb) -> Verdict {
    mdv::mdx::must(b.open(&sb.0), "opening a valid file system")?;
    for _ in 0..12 {
        let mut s = sb.clone();
        let mut what = vec![];
        for _ in 0..1 + c.rng.below(4) {
            let name = match c.rng.below(8) {
                0 => {
                    // Any features that readers may ignore.
                    let keep = 0x200;
                    let v = s.get("feature_compat") & keep | c.rng.u64() & 0xffff_ffff & !keep;
                    s.set("feature_compat", v);
                    c.hit("any compatible features");
                    "feature_compat"
                }
                1 => {
                    let keep = 0x1 | 0x200 | 0x400;
                    let v = s.get("feature_ro_compat") & keep | c.rng.u64() & 0xffff_ffff & !keep;
                    s.set("feature_ro_compat", v);
                    c.hit("any read-only compatible features");
                    "feature_ro_compat"
                }
                2 => {
                    let bit = *c.rng.pick(&[2u64, 4, 0x100, 0x200, 0x400, 0x4000, 0x8000, 0x10000]);
                    s.set("feature_incompat", s.get("feature_incompat") ^ bit);
                    c.hit("known incompatible feature");
                    "feature_incompat"
                }
                3 => {
                    s.set("errors", c.rng.range(1, 3));
                    "errors"
                }
                4 => {
                    s.set("log_groups_per_flex", c.rng.below(32));
                    "log_groups_per_flex"
                }
                5 => {
                    let v = c.rng.u64();
                    s.set("state", v & 0xffff);
                    "state"
                }
                _ => {
                    let free = [
                        "free_inodes_count", "free_blocks_count_lo", "free_blocks_count_hi", "r_blocks_count_lo",
                        "r_blocks_count_hi", "mtime", "wtime", "mnt_count", "max_mnt_count", "minor_rev_level",
                        "lastcheck", "checkinterval", "def_resuid", "def_resgid", "volume_name", "last_mounted",
                        "algorithm_usage_bitmap", "prealloc_blocks", "prealloc_dir_blocks", "journal_uuid",
                        "journal_inum", "journal_dev", "last_orphan", "hash_seed", "def_hash_version",
                        "jnl_backup_type", "default_mount_opts", "mkfs_time", "jnl_blocks", "min_extra_isize",
                        "want_extra_isize", "flags", "raid_stride", "mmp_interval", "mmp_block",
                        "raid_stripe_width", "kbytes_written", "snapshot_inum", "snapshot_id",
                        "snapshot_r_blocks_count", "snapshot_list", "error_count", "first_error_time",
                        "first_error_ino", "first_error_block", "first_error_func", "first_error_line",
                        "last_error_time", "last_error_ino", "last_error_line", "last_error_block",
                        "last_error_func", "mount_opts", "usr_quota_inum", "grp_quota_inum", "overhead_clusters",
                        "encrypt_algos", "encrypt_pw_salt", "lpf_ino", "prj_quota_inum", "wtime_hi", "mtime_hi",
                        "mkfs_time_hi", "lastcheck_hi", "first_error_time_hi", "last_error_time_hi", "error_codes",
                        "encoding", "encoding_flags", "orphan_file_inum", "reserved_pad",
                    ];
                    let name = *c.rng.pick(&free);
                    let w = s.bytes(name).len();
                    let v = if c.rng.bool() { vec![0xff; w] } else { c.rng.bytes(w) };
                    s.put(name, &v);
                    name
                }
            };
            what.push(name);
        }
        if let Err(e) = b.open_sealed(&s) {
            mdv::ensure!(false, "a valid superblock (with other values of {what:?}) was refused: {e:?}; {}", brief(&b.fs.geo));
        }
        c.hit("valid superblock accepted");
    }
    Ok(())
}

fn damaged(c: &mut Case, b: &Bench, sb: &Sb) -> Verdict {
    let refused = |bytes: &[u8], how: &str| {
        mdv::ensure!(b.open(bytes).is_err(), "a superblock damaged by {how} was accepted; {}", brief(&b.fs.geo));
        Ok(())
    };
    for at in 0..1024 {
        let mask = if c.rng.bool() { 1 << c.rng.below(8) } else { 1 + c.rng.below(255) as u8 };
        let mut s = sb.0;
        s[at] ^= mask;
        refused(&s, &format!("xor {mask:#x} at byte {at:#x}"))?;
    }
    c.count("damaged bytes refused", 1024);
    for _ in 0..40 {
        let mut s = sb.0;
        let how = match c.rng.below(3) {
            0 => {
                let at = c.rng.usize_below(1020);
                let n = 1 + c.rng.usize_below(4);
                c.rng.fill(&mut s[at..at + n]);
                format!("{n} bytes at {at:#x}")
            }
            1 => {
                // A sector of it was not written.
                let to = c.rng.u8();
                let half = 512 * c.rng.usize_below(2);
                s[half..half + 512].fill(to);
                format!("a sector of {to:#x}")
            }
            _ => {
                let at = c.rng.usize_below(1024);
                let n = 1 + c.rng.usize_below(1024 - at);
                c.rng.fill(&mut s[at..at + n]);
                format!("garbage from {at:#x}")
            }
        };
        if s != sb.0 {
            refused(&s, &how)?;
            c.hit("torn superblock refused");
        }
    }
    let _ = b.open(&sb.0);
    Ok(())
}

fn impossible(c: &mut Case, b: &Bench, sb: &Sb) -> Verdict {
    let g = &b.fs.geo;
    let mut all: Vec<(&'static str, u64)> = vec![];
    all.push(("magic", 0xef53 ^ (1 + c.rng.below(0xffff))));
    all.push(("magic", 0x53ef));
    all.extend([7, 8, 31, 54, 64, 1 << 31, u64::from(u32::MAX)].map(|v| ("log_block_size", v)));
    if g.cluster == 0 {
        let log = sb.get("log_cluster_size");
        all.extend([log + 1, log + 32, log + 1 + c.rng.below(20), 1 << 31].map(|v| ("log_cluster_size", v)));
        if log > 0 {
            all.push(("log_cluster_size", log - 1));
        }
        let n = sb.get("clusters_per_group");
        all.extend([0, n - 1, n + 1, n * 2].map(|v| ("clusters_per_group", v)));
        all.push(("blocks_per_group", n + 8));
    }
    if g.cluster != 0 {
        all.extend([54, 60, 64, 64 + sb.get("log_cluster_size"), 1 << 31, u64::from(u32::MAX)].map(|v| ("log_cluster_size", v)));
    }
    all.extend([64, 65, 128, 255].map(|v| ("log_groups_per_flex", v)));
    all.push(("blocks_per_group", 0));
    all.push(("inodes_per_group", 0));
    // Every group has its inodes.
    let n = sb.get("inodes_count");
    all.extend([0, n - 1, n + 1, n + sb.get("inodes_per_group"), n ^ 1 << 31].map(|v| ("inodes_count", v)));
    all.push(("inodes_per_group", sb.get("inodes_per_group") + 8));
    all.push(("blocks_count_lo", sb.get("blocks_count_lo") + sb.get("blocks_per_group")));
    all.push(("blocks_count_hi", 0xffff_ffff));
    all.extend([0, 1, 64, 127, 129, 192, 200, 255, 257, 65535].map(|v| ("inode_size", v)));
    if g.bs < 32768 {
        all.push(("inode_size", 2 * g.bs));
    }
    all.extend([0, 4, 5, 0x100, 0x101, 0xffff].map(|v| ("errors", v)));
    all.extend([1, 2, 3, 4, 5, 0x100, u64::from(u32::MAX)].map(|v| ("creator_os", v)));
    let f = sb.get("feature_incompat");
    all.push(("feature_incompat", f & !0x40));
    for bit in [0x20u64, 0x800].into_iter().chain((18..32).map(|i| 1 << i)) {
        all.push(("feature_incompat", f | bit));
        c.hit("unknown incompatible feature");
    }
    if g.is64 {
        let size = u64::from(g.desc_size);
        all.extend([0, 1, 8, 16, 31, 33, 63, 65, 96, size + 1, size - 1, size + 4, 2048, 32768, 65535].map(|v| ("desc_size", v)));
    }
    all.extend([2, 3, 4, 0x80, 0xff].map(|v| ("checksum_type", v)));
    if g.csum {
        all.push(("checksum_type", 0));
    }
    for (name, v) in all {
        let mut s = sb.clone();
        s.set(name, v);
        if name == "blocks_per_group" && v == 0 && g.cluster == 0 {
            s.set("clusters_per_group", 0);
        }
        if s.get(name) == sb.get(name) {
            continue;
        }
        mdv::ensure!(
            b.open_sealed(&s).is_err(),
            "a superblock with {name} {v:#x} (otherwise {:#x}) was accepted; {}", sb.get(name), brief(g));
        c.hit("impossible parameter refused");
    }
    if !g.csum {
        // Without a checksum only what the fields say counts.
        let mut s = sb.0;
        c.rng.fill(&mut s);
        mdv::ensure!(b.open(&s).is_err(), "a superblock of garbage was accepted");
        mdv::ensure!(b.open(&[0; 1024]).is_err(), "a superblock of zeros was accepted");
        mdv::ensure!(b.open(&[0xff; 1024]).is_err(), "a superblock of ones was accepted");
        c.hit("no superblock at all");
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C14",
            rule: "One ext4 geometry per case: 12 variants of its superblock that are as valid, and every impossible parameter of a list in turn, all with renewed checksums; with checksums, damage to each of its 1024 bytes and 40 bursts and torn writes. Non-trivial: all; distinct by superblock bytes.",
            quick: 12_000,
            thorough: 400_000,
            required: &[
                "valid superblock accepted", "any compatible features", "any read-only compatible features", "known incompatible feature",
                "damaged bytes refused", "torn superblock refused", "impossible parameter refused", "unknown incompatible feature",
                "no superblock at all", "device too small", "descriptors beyond the end",
                "copies of the superblock on the device",
            ],
            assumptions: &["CRC32C detects every change within 32 bits, and others but for a chance of 2^-32"],
            ..Spec::default()
        },
        case,
    )
}
