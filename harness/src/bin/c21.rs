//! Hostile ext4 file systems.
use mdv::ext4::{brief, DirRec, FileRec, Fs, Geo, Ino, Limits, Sb, Shape, INODE, SB};
use mdv::extx::{self, Sut};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::ext4::superblock::Superblock;
use mdv::sut::ext4::units::InodeNumber;
use mdv::sut::ext4::Ext4File;
use mdv::{Ctl, Rng};
use std::rc::Rc;

#[global_allocator]
static MEMORY: mdv::alloc::Counting = mdv::alloc::Counting;

fn edgy(r: &mut Rng, width: usize) -> u64 {
    let v = match r.below(4) {
        0 => r.edgy64(),
        1 => r.below(70),
        2 => u64::MAX - r.below(3),
        _ => r.edgy32() as u64,
    };
    if width >= 8 { v } else { v & ((1 << (8 * width)) - 1) }
}

fn superblock(r: &mut Rng, fs: &Fs) -> Sb {
    const KEY: &[&str] = &[
        "inodes_count", "blocks_count_lo", "blocks_count_hi", "first_data_block", "log_block_size", "log_cluster_size",
        "blocks_per_group", "clusters_per_group", "inodes_per_group", "inode_size", "desc_size", "first_meta_bg",
        "feature_compat", "feature_incompat", "feature_ro_compat", "log_groups_per_flex", "backup_bgs_0", "backup_bgs_1",
        "rev_level", "checksum_type", "errors",
    ];
    let mut s = fs.sb.clone();
    for _ in 0..1 + r.below(4) {
        let name = if r.chance(5, 6) { *r.pick(KEY) } else { r.pick(SB).0 };
        let w = s.bytes(name).len();
        if w > 8 {
            let b = r.bytes(w);
            s.put(name, &b);
        } else if name.starts_with("feature") && r.bool() {
            s.set(name, s.get(name) ^ 1 << r.below(18));
        } else if w >= 4 && r.chance(1, 3) {
            s.set(name, s.get(name).wrapping_add(edgy(r, 1)) & 0xffff_ffff);
        } else {
            let v = edgy(r, w);
            s.set(name, v);
        }
    }
    if r.bool() {
        // Agrees with the number of groups that the rest makes.
        let (bpg, ipg) = (s.get("blocks_per_group"), s.get("inodes_per_group"));
        let blocks = s.get2("blocks_count_lo", "blocks_count_hi").saturating_sub(s.get("first_data_block"));
        // (So many that reading them takes long would be no fault.)
        if bpg > 0 && blocks.div_ceil(bpg) < 20_000 {
            s.set("inodes_count", blocks.div_ceil(bpg).wrapping_mul(ipg) & 0xffff_ffff);
        }
        if s.get("feature_ro_compat") & 0x200 == 0 {
            s.set("clusters_per_group", bpg);
            s.set("log_cluster_size", s.get("log_block_size"));
        }
    }
    if r.chance(9, 10) && s.get("checksum_type") == 1 {
        s.seal();
    }
    s
}

fn inode(r: &mut Rng, fs: &mut Fs, ino: u32, blocks: &[u64]) {
    let at = fs.inode_offset(ino);
    let mut i = Ino(fs.data.get(at, usize::from(fs.geo.inode_size)));
    for _ in 0..1 + r.below(3) {
        match r.below(5) {
            0 => {
                let (name, o, w) = *r.pick(INODE);
                if w <= 8 && o + w <= i.0.len() {
                    let v = edgy(r, w);
                    i.set(name, v);
                }
            }
            1 => {
                let v = edgy(r, 8);
                i.set("size_lo", v & 0xffff_ffff);
                i.set("size_high", v >> 32);
            }
            2 => {
                let n = i.0.len();
                let at = r.usize_below(n);
                let to = (at + 1 + r.usize_below(16)).min(n);
                r.fill(&mut i.0[at..to]);
            }
            _ => node(r, &mut i.0[0x28..0x28 + 60], blocks),
        }
    }
    i.seal(&fs.geo, ino);
    fs.put_inode(ino, &i);
}

/// A node of an extent tree, in an inode or a block.
fn node(r: &mut Rng, b: &mut [u8], blocks: &[u64]) {
    let n = b.len();
    match r.below(8) {
        0 => {
            let v = (edgy(r, 2) as u16).to_le_bytes();
            let at = 2 * r.usize_below(6);
            b[at..at + 2].copy_from_slice(&v);
        }
        1 => {
            // One of the depths that might be.
            b[6] = r.below(7) as u8;
            b[7] = 0;
        }
        2 => b[2] = r.below(6) as u8,
        3 | 4 => {
            // Leads to another node, or to this one.
            if let Some(to) = (!blocks.is_empty()).then(|| *r.pick(blocks)) {
                let at = 12 + 12 * r.usize_below(((n - 12) / 12).min(4));
                b[at + 4..at + 8].copy_from_slice(&(to as u32).to_le_bytes());
                b[at + 8..at + 10].copy_from_slice(&((to >> 32) as u16).to_le_bytes());
            }
        }
        5 => {
            let at = 12 + 12 * r.usize_below(((n - 12) / 12).min(4));
            let v = match r.below(4) {
                0 => 0,
                1 => 0x8000,
                2 => 0xffff,
                _ => r.u16(),
            };
            b[at + 4..at + 6].copy_from_slice(&u16::to_le_bytes(v));
        }
        6 => {
            // Physical addresses at the very end.
            let at = 12 + 12 * r.usize_below(((n - 12) / 12).min(4));
            b[at + 6..at + 12].fill(0xff);
        }
        _ => {
            let at = r.usize_below(n);
            let to = (at + 1 + r.usize_below(8)).min(n);
            r.fill(&mut b[at..to]);
        }
    }
}

fn directory_block(r: &mut Rng, b: &mut [u8]) {
    for _ in 0..1 + r.below(3) {
        // A record, by walking a way along them.
        let mut at = 0;
        for _ in 0..r.below(30) {
            let n = usize::from(u16::from_le_bytes([b[at + 4], b[at + 5]]));
            if n < 8 || at + n + 12 > b.len() {
                break;
            }
            at += n;
        }
        match r.below(6) {
            0 => {
                let v = match r.below(3) {
                    0 => 4 * r.below(20) as u16,
                    1 => (b.len() - at) as u16,
                    _ => r.u16(),
                };
                b[at + 4..at + 6].copy_from_slice(&v.to_le_bytes());
            }
            1 => b[at + 6] = edgy(r, 1) as u8,
            2 => b[at..at + 4].copy_from_slice(&(edgy(r, 4) as u32).to_le_bytes()),
            3 => b[at + 7] = r.u8(),
            4 => {
                let len = b.len();
                let v = ((len - at) as u16).to_le_bytes();
                b[at..at + 4].fill(0);
                b[at + 4..at + 6].copy_from_slice(&v);
            }
            _ => {
                let to = (at + 1 + r.usize_below(16)).min(b.len());
                r.fill(&mut b[at..to]);
            }
        }
    }
}

struct World {
    fs: Fs,
    dirs: Vec<DirRec>,
    files: Vec<FileRec>,
}

impl World {
    fn seed(&self, f: &FileRec) -> u32 {
        self.fs.geo.inode_seed(f.ino, f.inode.generation())
    }

    fn everyone(&self) -> Vec<&FileRec> {
        self.files.iter().chain(self.dirs.iter().map(|d| &d.file)).collect()
    }
}

fn build(c: &mut Case) -> World {
    let mut geo = Geo::random(&mut c.rng, Limits { groups: 6, bytes: 1 << 34, ..Limits::ANY });
    geo.csum = c.index % 3 == 0;
    let mut fs = Fs::new(&mut c.rng, geo);
    let (mut dirs, mut files) = (vec![], vec![]);
    for i in 0..3 {
        let n = c.rng.below(60) as usize;
        let e = fs.random_entries(&mut c.rng, n);
        if let Some(d) = fs.make_dir(&mut c.rng, (i == 0).then_some(2), e, false) {
            dirs.push(d);
        }
        let blocks = extx::max_blocks(c, &fs, 1 << 16).min(60);
        let mut shape = Shape::random(&mut c.rng, blocks);
        if c.rng.bool() {
            shape.max_len = 1;
            shape.extra_depth = c.rng.below(5) as u32;
        }
        if let Some(f) = fs.make_file(&mut c.rng, &shape) {
            files.push(f);
        }
    }
    World { fs, dirs, files }
}

fn mutate(c: &mut Case, w: &mut World) -> &'static str {
    let r = &mut c.rng;
    let bs = w.fs.geo.bs;
    let nodes: Vec<u64> = w.everyone().iter().flat_map(|f| f.nodes.iter().map(|n| n.block)).collect();
    match r.below(16) {
        0..4 => {
            let s = superblock(r, &w.fs);
            w.fs.data.write(1024, &s.0);
            "superblock"
        }
        4 => {
            let g = r.below(u64::from(w.fs.geo.groups)) as u32;
            let at = w.fs.descriptor_offset(g) + [8u64, 0x28][r.usize_below(2)] % u64::from(w.fs.geo.desc_size);
            let v = edgy(r, 4) as u32;
            w.fs.data.write(at, &v.to_le_bytes());
            "group descriptor"
        }
        5..8 => {
            let everyone: Vec<u32> = w.everyone().iter().map(|f| f.ino).collect();
            for _ in 0..1 + r.below(3) {
                if let Some(ino) = (!everyone.is_empty()).then(|| *r.pick(&everyone)) {
                    inode(r, &mut w.fs, ino, &nodes);
                }
            }
            "inode"
        }
        8..11 => {
            let with: Vec<FileRec> = w.everyone().into_iter().filter(|f| !f.nodes.is_empty()).cloned().collect();
            if with.is_empty() {
                return "nothing";
            }
            for _ in 0..1 + r.below(3) {
                let f = r.pick(&with).clone();
                let n = *r.pick(&f.nodes);
                let mut b = w.fs.data.get(n.block * bs, bs as usize);
                node(r, &mut b, &nodes);
                w.fs.seal_node(&mut b, w.seed(&f));
                w.fs.data.write(n.block * bs, &b);
            }
            "extent block"
        }
        11..14 => {
            if w.dirs.is_empty() {
                return "nothing";
            }
            for _ in 0..1 + r.below(3) {
                let d = r.pick(&w.dirs).clone();
                let Some(at) = d.file.phys(r.below(d.per_block.len() as u64)) else { continue };
                let mut b = w.fs.data.get(at * bs, bs as usize);
                if r.chance(1, 10) {
                    r.fill(&mut b);
                } else {
                    directory_block(r, &mut b);
                }
                if r.chance(9, 10) {
                    w.fs.seal_dir(&mut b, w.seed(&d.file));
                }
                w.fs.data.write(at * bs, &b);
            }
            "directory block"
        }
        14 => {
            // A node where another's is, with the checksum of its place.
            if let Some((a, b)) = (nodes.len() > 1).then(|| (*r.pick(&nodes), *r.pick(&nodes))) {
                let bytes = w.fs.data.get(a * bs, bs as usize);
                w.fs.data.write(b * bs, &bytes);
            }
            "moved block"
        }
        _ => {
            w.fs.data.size = match r.below(3) {
                0 => r.below(8192),
                1 => w.fs.descriptor_offset(0) + r.below(4096),
                _ => r.below(w.fs.data.size + 1),
            };
            "device cut off"
        }
    }
}

fn exercise(c: &mut Case, w: &World, ctl: &Rc<Ctl>) -> Verdict {
    let before = ctl.bytes.get();
    mdv::alloc::start();
    let v = exercise_all(c, w, ctl);
    let (read, held) = (ctl.bytes.get() - before, mdv::alloc::peak());
    v?;
    // The test device is a copy of the image and is held as well.
    mdv::ensure!(
        held <= (32 << 20) + 16 * read + 2 * w.fs.data.resident_bytes(),
        "{held} bytes of memory were in use at once, with {read} bytes read in all"
    );
    c.count("memory measurements", 1);
    Ok(())
}

fn exercise_all(c: &mut Case, w: &World, ctl: &Rc<Ctl>) -> Verdict {
    let data = &w.fs.data;
    let mut raw = [0; 1024];
    if data.size >= 2048 {
        data.read(1024, &mut raw);
    }
    if let Ok(s) = Superblock::read(&raw[..]) {
        // Every accessor, whatever the bytes.
        let text = format!(
            "{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}",
            s.block_size_bytes(), s.cluster_size_blocks(), s.groups_per_flex(), s.mount_time(), s.write_time(),
            s.last_check_time(), s.check_interval(), s.creator_os(), s.compatible_features(),
            s.incompatible_features(), s.read_only_compatible_features(), s.uuid(), s.volume_name(),
            s.last_mounted_path(), s.creation_time(), s.first_error_time(), s.last_error_time(),
            s.mount_options(), s.encryption_algorithms(), s.checksum_seed(), s.checksum(), s.state(), s.flags(),
        );
        mdv::ensure!(text.len() < 1 << 16, "the decoded superblock takes {} bytes to print", text.len());
        c.hit("superblock decoded");
    }
    let sb = Sb(raw);
    let groups = u64::from(sb.get("inodes_count") as u32) / sb.get("inodes_per_group").max(1);
    ctl.set_budget(8 * groups + 200);
    ctl.byte_budget.set(ctl.bytes.get() + 1024 * groups + (1 << 20));
    let bs = extx::bs(&mut c.rng);
    let mut sut: Sut = match extx::open_data(data.clone(), bs, ctl) {
        Ok(s) => s,
        Err(_) => {
            c.hit("file system refused");
            return Ok(());
        }
    };
    c.hit("file system opened");
    mdv::ensure!(sut.block_size() <= 65536, "a block size of {} bytes", sut.block_size());
    let size = sut.block_size() as u64;
    let op = |ctl: &Rc<Ctl>, blocks: u64| {
        ctl.set_budget(200 + 8 * blocks);
        ctl.byte_budget.set(ctl.bytes.get() + (1 << 17) + (16 + blocks) * size);
    };
    op(ctl, 0);
    if let Ok(i) = sut.read_root_inode() {
        let _ = format!(
            "{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}{:?}",
            i.file_mode(), i.owner_user_id(), i.group_id(), i.file_size_bytes(), i.access_time(), i.change_time(),
            i.modified_time(), i.delete_time(), i.creation_time(), i.block_count(), i.flags(), i.version(), i.checksum(),
        );
        let _ = (i.file_acl(), i.generation(), i.project_id(), i.links_count(), i.permissions());
    }
    let mut numbers: Vec<u32> = w.everyone().iter().map(|f| f.ino).collect();
    numbers.extend([2, c.rng.u32(), c.rng.edgy32(), w.fs.geo.inodes()]);
    for n in numbers {
        op(ctl, 0);
        match sut.open_file(InodeNumber(n)) {
            Err(_) => c.hit("inode refused"),
            Ok(Ext4File::Unsupported(_)) => c.hit("unsupported type"),
            Ok(Ext4File::RegularFile(mut f)) => {
                c.hit("file opened");
                let mut errors = 0;
                for _ in 0..80 {
                    let len = match c.rng.below(12) {
                        0 => 0,
                        1 => size - 1,
                        2 => size + 1 + c.rng.below(size),
                        _ => size,
                    };
                    op(ctl, 0);
                    match f.read_next_block(&mut vec![0; len as usize]) {
                        Ok(0) => break,
                        Ok(n) => {
                            mdv::ensure!(n as u64 <= size, "{n} bytes read of a block of {size}");
                            c.hit("block read");
                        }
                        Err(_) => {
                            c.hit("read refused");
                            errors += 1;
                            if errors > 8 {
                                break;
                            }
                        }
                    }
                }
            }
            Ok(Ext4File::Directory(mut d)) => {
                c.hit("directory opened");
                let mut errors = 0;
                for _ in 0..300 {
                    // Blocks without entries may be many, but no more than extents can hold.
                    op(ctl, 1 << 20);
                    match d.read_next_entry() {
                        Ok(None) => break,
                        Ok(Some(e)) => {
                            let name = e.name();
                            let b: &[u8] = (&name).into();
                            mdv::ensure!(b.len() <= 255, "a name of {} bytes", b.len());
                            let _ = format!("{name} {:?} {:?}", e.inode(), e.file_type());
                            c.hit("entry listed");
                        }
                        Err(_) => {
                            c.hit("listing refused");
                            errors += 1;
                            if errors > 8 {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// A listing that finds nothing for a long time must not go deeper for it.
fn many_deleted(c: &mut Case) -> Verdict {
    let mut geo = Geo::random(&mut c.rng, Limits { log_bs: 2, ..Limits::ANY });
    if geo.blocks < 100_000 {
        geo.groups = 100_000 / geo.bpg + 1;
        geo.blocks = u64::from(geo.first_data) + u64::from(geo.groups) * u64::from(geo.bpg);
    }
    let mut fs = Fs::new(&mut c.rng, geo);
    let entries = fs.random_entries(&mut c.rng, 40_000);
    let Some(mut d) = fs.make_dir(&mut c.rng, None, entries, true) else { return Ok(()) };
    let blocks = d.per_block.len();
    if blocks < 10 || fs.bury(&mut d, 0..blocks, true) < 100_000 {
        return Ok(());
    }
    c.hit("100000 deleted records in a row");
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    extx::list(&mut sut, &d)
}

fn case(c: &mut Case) -> Verdict {
    let mut w = build(c);
    c.nontrivial();
    c.describe(|| brief(&w.fs.geo));
    let original = w.fs.data.clone();
    let ctl = Ctl::new();
    if c.index % 16 == 5 {
        // Nothing but a valid superblock.
        w.fs.data = if c.rng.bool() { mdv::Sparse::garbage(original.size, c.rng.u64()) } else { mdv::Sparse::new(original.size) };
        w.fs.data.write(1024, &w.fs.sb.0);
        exercise(c, &w, &ctl)?;
        w.fs.data = original.clone();
        c.hit("nothing but a superblock");
    }
    if c.index % 16 == 6 {
        // A superblock that makes far more groups than the device holds.
        let mut s = w.fs.sb.clone();
        let groups = 1 + c.rng.scaled((1 << 29) - 2);
        let (ipg, bpg) = (8, s.get("blocks_per_group"));
        s.set("inodes_per_group", ipg);
        s.set("inodes_count", groups * ipg);
        let blocks = s.get("first_data_block") + groups * bpg;
        s.set("feature_incompat", s.get("feature_incompat") | 0x80);
        s.set("desc_size", 64);
        s.set("blocks_count_lo", blocks & 0xffff_ffff);
        s.set("blocks_count_hi", blocks >> 32);
        s.seal();
        w.fs.data.write(1024, &s.0);
        w.fs.data.size = w.fs.data.size.min(1 << (12 + c.rng.below(8)));
        exercise(c, &w, &ctl)?;
        w.fs.data = original.clone();
        c.hit("more groups than the device holds");
    }
    if c.index % 500 == 77 {
        many_deleted(c)?;
    }
    if c.index % 750 == 78 {
        mdv::cli::deep(c, "ext4")?;
    }
    for _ in 0..if c.thorough { 100 } else { 25 } {
        let mut what = vec![];
        for _ in 0..1 + c.rng.below(3) {
            what.push(mutate(c, &mut w));
        }
        for x in what {
            c.hit_dyn(x.to_string());
        }
        exercise(c, &w, &ctl)?;
        c.count("mutated images", 1);
        if c.rng.chance(2, 3) {
            w.fs.data = original.clone();
        }
    }
    c.fp(mdv::crc::crc32c(0, &w.fs.sb.0).into());
    c.fp(ctl.ops.get());
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C21",
            rule: "One ext4 image with up to three files and three directories per case, and 25 mutations of it (100 in the thorough tier), some on top of each other: superblock and inode fields, descriptors, extent nodes (also cyclic), directory records, moved blocks, cut off devices; now and then a directory of hundreds of thousands of deleted records, listed by an unoptimised build as well; checksums mostly renewed. Opening, inodes, files and listings each run under budgets of device operations and bytes, and the memory they hold is measured. Non-trivial: all; distinct by image and operations observed. A panic, abort, overflow, exhausted budget or runaway CPU is a violation.",
            quick: 7500,
            thorough: 187_500,
            required: &[
                "superblock decoded", "file system refused", "file system opened", "inode refused", "unsupported type", "file opened",
                "block read", "read refused", "directory opened", "entry listed", "listing refused", "nothing but a superblock",
                "mutated images", "100000 deleted records in a row", "long stretches walked by an unoptimised build", "more groups than the device holds", "memory measurements",
            ],
            assumptions: &["Built with overflow checks and debug assertions on", "Memory is out of proportion when more than 32 MiB and sixteen times the bytes read are in use at once"],
            case_cpu_s: 60,
            ..Spec::default()
        },
        case,
    )
}
