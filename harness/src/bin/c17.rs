//! Inodes are found where the file system keeps them.
use mdv::ext4::{brief, Backups, Fs, Geo, Ino, Limits, EXTENTS_FL, FT, S_IFREG};
use mdv::extx;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::ext4::units::InodeNumber;
use mdv::sut::ext4::Ext4File;
use mdv::Ctl;

/// More than 65536 inodes through one handle, in order and at random.
fn long(c: &mut Case) -> Verdict {
    let mut geo = Geo::random(&mut c.rng, Limits { log_bs: 2, ..Limits::ANY });
    let want = 68_000 / geo.ipg + 1;
    if geo.groups < want {
        geo.groups = want;
        geo.blocks = u64::from(geo.first_data) + u64::from(geo.groups) * u64::from(geo.bpg);
    }
    let mut fs = Fs::new(&mut c.rng, geo);
    let g = fs.geo.clone();
    let total = g.inodes();
    c.nontrivial();
    c.describe(|| format!("many inodes of {}", brief(&g)));
    c.fp(u64::from(g.groups) << 32 | u64::from(g.ipg));
    let size = |n: u32| u64::from(n).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 3;
    let start = 1 + c.rng.below(u64::from(total - 67_000)) as u32;
    for n in start..start + 67_000 {
        let mut i = Ino::random(&mut c.rng, g.inode_size);
        i.set("mode", S_IFREG | 0o644);
        i.set("size_lo", size(n) & 0xffff_ffff);
        i.set("size_high", size(n) >> 32);
        i.set("flags", EXTENTS_FL);
        i.0[0x28..0x28 + 12].copy_from_slice(&[0x0a, 0xf3, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0]);
        i.seal(&g, n);
        fs.put_inode(n, &i);
    }
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    let step = *c.rng.pick(&[1u64, 1, 3, 17, 4097]);
    for k in 0..67_000 + 3000u64 {
        let n = start + if k < 67_000 { k * step % 67_000 } else { c.rng.below(67_000) } as u32;
        match sut.open_file(InodeNumber(n)) {
            Ok(Ext4File::RegularFile(f)) => {
                mdv::ensure_eq!(f.file_size_bytes(), size(n), "size of inode {n}, the {k}th opened, of {}", brief(&g));
            }
            Ok(_) => mdv::ensure!(false, "inode {n}, the {k}th opened, of {} opened as something of another type", brief(&g)),
            Err(e) => mdv::ensure!(false, "inode {n}, the {k}th opened, of {} did not open: {e:?}", brief(&g)),
        }
    }
    c.hit("70000 inodes through one handle");
    Ok(())
}

/// Groups whose inode tables are where the device has nothing.
fn nowhere(c: &mut Case, mut fs: Fs, want: &[(u32, u64, u64)]) -> Verdict {
    let g = fs.geo.clone();
    let mut gone = std::collections::BTreeSet::new();
    for _ in 0..1 + c.rng.below(4) {
        let group = (c.rng.pick(want).0 - 1) / g.ipg;
        let wide = g.desc_size >= 64;
        let at = match c.rng.below(3) {
            // The same place, if the top bits are lost on the way to bytes.
            0 if wide => fs.tables[group as usize] | (1 << (64 - g.bs.trailing_zeros())) * (1 + c.rng.below(g.bs - 1)),
            1 if wide => u64::MAX - c.rng.scaled(1 << 20),
            // The end, and anywhere beyond.
            _ => g.blocks + c.rng.scaled(1 << 40),
        };
        if !wide && at >> 32 > 0 {
            continue;
        }
        fs.misplace_table(&mut c.rng, group, at);
        gone.insert(group);
        c.fp(at);
        if at.checked_mul(g.bs).is_none() {
            c.hit("inode table past the last byte there could be");
        }
    }
    c.nontrivial();
    c.describe(|| format!("the inode tables of groups {gone:?} nowhere in {}", brief(&g)));
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    for (n, mode, size) in want {
        let group = (n - 1) / g.ipg;
        let r = sut.open_file(InodeNumber(*n));
        if gone.contains(&group) {
            mdv::ensure!(r.is_err(), "inode {n} opened, of group {group}, whose inode table is nowhere, in {}", brief(&g));
            c.hit("inode of a table nowhere refused");
        } else if mode >> 12 == 8 {
            match r {
                Ok(Ext4File::RegularFile(f)) => mdv::ensure_eq!(f.file_size_bytes(), *size, "size of inode {n} of {}, with tables of other groups nowhere", brief(&g)),
                Ok(_) => mdv::ensure!(false, "inode {n} of {} opened as something else", brief(&g)),
                Err(e) => mdv::ensure!(false, "inode {n} of {}, with tables of other groups nowhere, did not open: {e:?}", brief(&g)),
            }
            c.hit("inode next to tables nowhere opened");
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    if c.index % 6000 == 3017 {
        return long(c);
    }
    let geo = match c.index % 100 {
        91 if c.index % 3000 == 91 => Geo::wide(&mut c.rng),
        7 => Geo::huge(&mut c.rng),
        31 => Geo::tall(&mut c.rng),
        57 => Geo::vast(&mut c.rng),
        13 | 63 => Geo::meta(&mut c.rng),
        n if n % 4 == 1 => Geo::random(&mut c.rng, Limits { log_bs: 1, groups: 400, ..Limits::ANY }),
        _ => Geo::random(&mut c.rng, Limits::ANY),
    };
    let mut fs = Fs::new(&mut c.rng, geo);
    let g = fs.geo.clone();
    let total = g.inodes();
    // Every number's identity is its file's size.
    let mut nums = vec![1, 2, total];
    for _ in 0..40 {
        let group = c.rng.below(u64::from(g.groups)) as u32;
        let base = group * g.ipg;
        nums.push(match c.rng.below(4) {
            0 => base + 1,
            1 => base + g.ipg,
            2 => base + 1 + c.rng.below(u64::from(g.ipg)) as u32,
            _ => 1 + c.rng.below(u64::from(total)) as u32,
        });
        // Neighbours hold something else.
        let n = *nums.last().unwrap();
        nums.extend([n.saturating_sub(1).max(1), (n + 1).min(total)]);
        let m = n ^ (1 << c.rng.range(4, 31));
        if m > 0 && m <= total && c.rng.chance(1, 3) {
            nums.push(m);
        }
    }
    nums.sort_unstable();
    nums.dedup();
    let mut want = vec![];
    for n in &nums {
        let mut i = Ino::random(&mut c.rng, g.inode_size);
        // A few of other types.
        let mode = if c.rng.chance(1, 10) { c.rng.pick(&FT).1 << 12 } else { S_IFREG };
        let size = c.rng.u64() >> c.rng.below(40);
        i.set("mode", mode | c.rng.below(0o10000));
        i.set("size_lo", size & 0xffff_ffff);
        i.set("size_high", size >> 32);
        i.set("flags", EXTENTS_FL);
        i.0[0x28..0x28 + 12].copy_from_slice(&[0x0a, 0xf3, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0]);
        i.seal(&g, *n);
        fs.put_inode(*n, &i);
        want.push((*n, mode, size));
    }
    c.nontrivial();
    c.describe(|| brief(&g));
    c.fp(u64::from(g.groups) << 32 | u64::from(g.ipg));
    c.fp(g.bs << 32 | u64::from(g.inode_size) << 16 | u64::from(g.desc_size));
    c.fp(fs.tables.iter().fold(0, |a, b| a ^ b.rotate_left(7)));
    if c.rng.chance(1, 12) {
        return nowhere(c, fs, &want);
    }
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    c.rng.shuffle(&mut want);
    if c.rng.chance(1, 3) {
        // Numbers that are alike in their low bits after each other.
        let low = (1u32 << c.rng.range(4, 31)) - 1;
        want.sort_by_key(|w| w.0 & low);
    }
    for (n, mode, size) in &want {
        let r = sut.open_file(InodeNumber(*n));
        let kind = match mode >> 12 {
            8 => "regular file",
            4 => "directory",
            _ => "other",
        };
        let what = format!("inode {n} (a {kind} of {size} bytes, in group {}) of {}", (n - 1) / g.ipg, brief(&g));
        match (r, kind) {
            (Ok(Ext4File::RegularFile(f)), "regular file") => {
                mdv::ensure_eq!(f.file_size_bytes(), *size, "size of {what}");
            }
            (Ok(Ext4File::Directory(_)), "directory") => {}
            (Ok(Ext4File::Unsupported(t)), "other") => {
                mdv::ensure_eq!(u64::from(u8::from(t)), mode >> 12, "type of {what}");
            }
            (Ok(_), _) => mdv::ensure!(false, "{what} opened as something of another type"),
            (Err(e), _) => mdv::ensure!(false, "{what} did not open: {e:?}"),
        }
        c.hit("inode opened");
        if (n - 1) / g.ipg >> 16 > 0 {
            c.hit("inode beyond the 65536th group");
        }
        if fs.tables[((n - 1) / g.ipg) as usize] >= 1 << 32 {
            c.hit("inode table beyond block 2^32");
        }
        if u64::from((n - 1) % g.ipg) * u64::from(g.inode_size) >> 32 > 0 {
            c.hit("inode beyond 4 GiB of its table");
        }
        if fs.tables[((n - 1) / g.ipg) as usize] >> 44 > 0 {
            c.hit("inode table beyond block 2^44");
        }
        if *n == total {
            c.hit("last inode");
        }
    }
    let root = mdv::mdx::must(sut.read_root_inode(), "reading the root inode")?;
    let at = want.iter().find(|w| w.0 == 2).unwrap();
    mdv::ensure_eq!(root.file_size_bytes(), at.2, "size of the root inode");
    for n in [0, total + 1, total + 2, total + g.ipg, u32::MAX, 1 << 31, total.wrapping_mul(2).max(total + 1)] {
        if n == 0 || n > total {
            let r = sut.open_file(InodeNumber(n));
            mdv::ensure!(r.is_err(), "inode {n} opened, of {total} in {}", brief(&g));
            c.hit("number that does not exist refused");
        }
    }
    if g.meta_bg.is_some_and(|m| u64::from(g.groups) > u64::from(m + 1) * (g.bs / u64::from(g.desc_size))) {
        c.hit("descriptors in several meta block groups");
    }
    if g.meta_bg.is_some() && g.backups != Backups::All {
        c.hit("meta block groups with sparse backups");
    }
    if g.meta_bg.is_some() && g.bs == u64::from(g.desc_size) {
        c.hit("a meta block group for each group");
    }
    if g.cluster > 0 {
        c.hit("block clusters");
    }
    if g.is64 {
        c.hit("64-bit descriptors");
    } else {
        c.hit("32-bit descriptors");
    }
    if g.desc_size > 64 {
        c.hit("large descriptors");
    }
    c.hit_dyn(format!("{}-byte inodes in {}-byte blocks", g.inode_size, g.bs));
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C17",
            rule: "One ext4 geometry per case with inodes of known, unique sizes at about 100 numbers, the first and last of groups and their neighbours among them; every one opened by number, and numbers that do not exist; inode tables where the device has nothing; now and then 70000 through one handle. Non-trivial: all; distinct by geometry and table placement.",
            quick: 60_000,
            thorough: 1_500_000,
            required: &[
                "inode opened", "70000 inodes through one handle", "inode table beyond block 2^32", "inode table beyond block 2^44", "inode beyond 4 GiB of its table", "inode beyond the 65536th group", "last inode", "number that does not exist refused",
                "inode of a table nowhere refused", "inode next to tables nowhere opened", "inode table past the last byte there could be",
                "descriptors in several meta block groups", "meta block groups with sparse backups",
                "a meta block group for each group", "block clusters", "64-bit descriptors", "32-bit descriptors", "large descriptors",
            ],
            assumptions: &["Inode checksums are not verified by the program and are valid here"],
            ..Spec::default()
        },
        case,
    )
}
