//! Damaged directory and extent tree blocks.
use mdv::ext4::{brief, DirRec, FileRec, Fs, Geo, Limits, Shape};
use mdv::extx::{self, Reader};
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::ext4::Ext4Fs;
use mdv::{Ctl, Rng, Sparse, TestDevice};
use std::cell::RefCell;
use std::rc::Rc;

enum What {
    /// Block of a directory: entries before it, and its place.
    Dir { before: usize },
    /// Node of a file's tree: its first logical block.
    Node { first: u64 },
}

fn case(c: &mut Case) -> Verdict {
    let mut geo = Geo::random(&mut c.rng, Limits { groups: 4, ..Limits::ANY });
    geo.csum = c.index % 3 != 0;
    let mut fs = Fs::new(&mut c.rng, geo);
    let (dirs, files) = populate(c, &mut fs);
    if dirs.len() < 2 && files.is_empty() {
        return Ok(());
    }
    c.nontrivial();
    c.describe(|| brief(&fs.geo));
    // Undamaged first: what follows is the damage's doing.
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    for d in &dirs {
        extx::list(&mut sut, d)?;
    }
    for f in &files {
        Reader::new(&mut sut, &fs, f)?.finish(&mut c.rng.clone())?;
    }
    // One that stays open while its device's contents change.
    let cell = Rc::new(RefCell::new(fs.data.clone()));
    let size = extx::bs(&mut c.rng);
    let device = TestDevice::shared(cell.clone(), size, &Ctl::new());
    let mut standing = mdv::mdx::must(Ext4Fs::open(device), "opening a valid file system")?;
    for d in &dirs {
        extx::list(&mut standing, d)?;
    }
    for f in &files {
        Reader::new(&mut standing, &fs, f)?.finish(&mut c.rng.clone())?;
    }
    let points = if c.thorough { 100 } else { 40 };
    for _ in 0..points {
        let on_dir = files.is_empty() || !dirs.is_empty() && c.rng.bool();
        let (block, what, ino) = if on_dir {
            let d = &dirs[c.rng.usize_below(dirs.len())];
            let i = c.rng.usize_below(d.per_block.len());
            (d.file.phys(i as u64).unwrap(), What::Dir { before: d.per_block[..i].iter().sum() }, d.file.ino)
        } else {
            let f = &files[c.rng.usize_below(files.len())];
            let n = c.rng.pick(&f.nodes);
            (n.block, What::Node { first: u64::from(n.first) }, f.ino)
        };
        let bs = fs.geo.bs as usize;
        let at = block * fs.geo.bs;
        let old = fs.data.get(at, bs);
        let Some((new, how)) = damage(c, &fs, &dirs, &files, &what, block, &old) else {
            continue;
        };
        if new == old {
            continue;
        }
        c.fp(block);
        c.fp_bytes(how.as_bytes());
        let undamaged = fs.clone();
        fs.data.write(at, &new);
        if c.rng.chance(1, 3) {
            let r = later(c, &mut standing, &cell, &undamaged, (at, &old, &new), dirs.iter().find(|d| d.file.ino == ino), files.iter().find(|f| f.ino == ino));
            r.map_err(|e| match e {
                Stop::Violation { sig, msg } => Stop::Violation { sig, msg: format!("{how} in block {block} of {}, after it was read: {msg}", brief(&fs.geo)) },
                e => e,
            })?;
            c.hit(if fs.geo.csum { "damaged after it was read" } else { "made impossible after it was read" });
        }
        let ctl = Ctl::new();
        let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
        let r = match what {
            What::Dir { before } => {
                let d = dirs.iter().find(|d| d.file.ino == ino).unwrap();
                dir(&mut sut, d, before, fs.geo.csum)
            }
            What::Node { first } => {
                let f = files.iter().find(|f| f.ino == ino).unwrap();
                file(&mut c.rng.clone(), &mut sut, &undamaged, f, first)
            }
        };
        r.map_err(|e| match e {
            Stop::Violation { sig, msg } => Stop::Violation { sig, msg: format!("{how} in block {block} of {}: {msg}", brief(&fs.geo)) },
            e => e,
        })?;
        match (fs.geo.csum, &what) {
            (true, What::Dir { .. }) => c.hit("checksummed directory block damaged"),
            (true, What::Node { .. }) => c.hit("checksummed extent block damaged"),
            (false, What::Dir { .. }) => c.hit("impossible directory record"),
            (false, What::Node { .. }) => c.hit("impossible extent block"),
        }
        fs.data.write(at, &old);
    }
    // Repaired, all reads again.
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    for d in &dirs {
        extx::list(&mut sut, d)?;
    }
    // A root that cannot be.
    if let Some(f) = files.first() {
        let at = fs.inode_offset(f.ino) + 0x28;
        let old = fs.data.get(at, 12);
        for (i, v) in [(0, 0x0bu8), (1, 0), (2, 5), (4, 5), (6, 6), (7, 1)] {
            let mut new = old.clone();
            new[i] = v;
            if i == 4 {
                // More entries than the inode has room for.
                new[2] = 5;
            }
            if new == old {
                continue;
            }
            fs.data.write(at, &new);
            let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
            let opened = extx::ext4_file(&mut sut, f.ino);
            if let Ok(mdv::sut::ext4::Ext4File::RegularFile(mut r)) = opened {
                let mut buf = vec![0; fs.geo.bs as usize];
                let got = r.read_next_block(&mut buf);
                mdv::ensure!(got.is_err() || f.size == 0, "inode {}: an impossible extent tree root (byte {i} is {v:#x}) read as {got:?}", f.ino);
            }
            c.hit("impossible extent root");
        }
        fs.data.write(at, &old);
    }
    for _ in 0..4 {
        outside(c, &mut fs.clone())?;
    }
    if fs.geo.csum {
        crossed(c, &mut fs.clone(), &dirs, &files)?;
    }
    Ok(())
}

/// An extent or a node that is said to lie outside the file system, or on its
/// superblock, on a device that goes on behind it.
fn outside(c: &mut Case, fs: &mut Fs) -> Verdict {
    let bs = fs.geo.bs;
    let shape = Shape { holes: false, extra_depth: c.rng.below(3) as u32, ..Shape::random(&mut c.rng, 40) };
    let (f, d) = if c.rng.chance(1, 3) {
        let e = fs.random_entries(&mut c.rng, 30);
        let Some(d) = fs.make_dir(&mut c.rng, None, e, true) else {
            return Ok(());
        };
        (d.file.clone(), Some(d))
    } else {
        let Some(f) = fs.make_file(&mut c.rng, &shape) else {
            return Ok(());
        };
        (f, None)
    };
    let undamaged = fs.clone();
    let end = fs.geo.blocks;
    let behind = 1 + c.rng.below(32);
    fs.data.size = fs.data.size.max((end + behind) * bs);
    // The node whose entry it is: the root, or one of the others.
    let node = if f.nodes.is_empty() || c.rng.chance(1, 3) { None } else { Some(c.rng.usize_below(f.nodes.len())) };
    let (depth, entries) = match node {
        None => (f.depth, usize::from(u16::from_le_bytes([f.inode.0[0x2a], f.inode.0[0x2b]]))),
        Some(n) => (u32::from(f.nodes[n].depth), usize::from(f.nodes[n].entries)),
    };
    if entries == 0 {
        return Ok(());
    }
    let at = 12 + 12 * c.rng.usize_below(entries);
    let mut bytes = match node {
        None => f.inode.0[0x28..0x28 + 60].to_vec(),
        Some(n) => fs.data.get(f.nodes[n].block * bs, bs as usize),
    };
    let e = &mut bytes[at..at + 12];
    let first = u64::from(u32::from_le_bytes(e[..4].try_into().unwrap()));
    let stored = u64::from(u16::from_le_bytes([e[4], e[5]]));
    let len = match (depth, stored > 0x8000) {
        (0, true) => stored - 0x8000,
        (0, false) => stored,
        _ => 1,
    };
    let place = match c.rng.below(6) {
        0 => c.rng.below(u64::from(fs.geo.first_data) + 1),
        1 | 2 => end - c.rng.below(len.min(end)),
        3 => end + c.rng.below(behind),
        4 => (1 << 48) - 1 - c.rng.below(len),
        _ => (end + c.rng.below(1 << 40)).min((1 << 48) - 1),
    };
    let (lo, hi) = ((place as u32).to_le_bytes(), ((place >> 32) as u16).to_le_bytes());
    if depth == 0 {
        e[6..8].copy_from_slice(&hi);
        e[8..].copy_from_slice(&lo);
    } else {
        let old = u64::from(u32::from_le_bytes(e[4..8].try_into().unwrap())) | u64::from(u16::from_le_bytes([e[8], e[9]])) << 32;
        e[4..8].copy_from_slice(&lo);
        e[8..10].copy_from_slice(&hi);
        // What is there is a sound node.
        if place >= end && (place + 1).checked_mul(bs).is_some_and(|b| b <= fs.data.size) {
            let child = fs.data.get(old * bs, bs as usize);
            fs.data.write(place * bs, &child);
        }
    }
    let seed = fs.geo.inode_seed(f.ino, f.inode.generation());
    match node {
        None => {
            let mut i = f.inode.clone();
            i.0[0x28..0x28 + 60].copy_from_slice(&bytes);
            i.seal(&fs.geo, f.ino);
            fs.put_inode(f.ino, &i);
        }
        Some(n) => {
            fs.seal_node(&mut bytes, seed);
            fs.data.write(f.nodes[n].block * bs, &bytes);
        }
    }
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, fs, &ctl)?;
    let r = match &d {
        Some(d) => dir(&mut sut, d, d.per_block[..first as usize].iter().sum(), true),
        None => file(&mut c.rng.clone(), &mut sut, &undamaged, &f, first),
    };
    r.map_err(|e| match e {
        Stop::Violation { sig, msg } => Stop::Violation {
            sig,
            msg: format!(
                "{len} blocks from {place}, outside the file system (blocks {} to {}), at depth {depth} in inode {} of {}: {msg}",
                u64::from(fs.geo.first_data) + 1, end - 1, f.ino, brief(&fs.geo)),
        },
        e => e,
    })?;
    if first * bs < f.size {
        c.hit(if depth == 0 { "extent outside the file system" } else { "node outside the file system" });
    }
    Ok(())
}

/// With checksums, an entry that leads to a block of another directory or to
/// a node of another file: sound there, and read there just before.
fn crossed(c: &mut Case, fs: &mut Fs, dirs: &[DirRec], files: &[FileRec]) -> Verdict {
    let on_dir = dirs.len() > 1 && (files.len() < 2 || c.rng.bool());
    if !on_dir && files.len() < 2 {
        return Ok(());
    }
    let undamaged = fs.clone();
    let from = c.rng.usize_below(2);
    let (theirs, own) = if on_dir { (&dirs[from].file, &dirs[1 - from].file) } else { (&files[from], &files[1 - from]) };
    // Where the entry leads now, what it is for, and where it is to lead.
    let (old, first, new) = if on_dir {
        let e = c.rng.pick(&own.exts);
        let at = c.rng.below(dirs[from].per_block.len() as u64);
        (e.phys, u64::from(e.first), theirs.phys(at).unwrap())
    } else {
        let pairs: Vec<_> = own.nodes.iter()
            .flat_map(|n| theirs.nodes.iter().filter(move |m| m.depth == n.depth && m.first == n.first).map(move |m| (n, m)))
            .collect();
        if pairs.is_empty() {
            return Ok(());
        }
        let (n, m) = *c.rng.pick(&pairs);
        (n.block, u64::from(n.first), m.block)
    };
    let seed = fs.geo.inode_seed(own.ino, own.inode.generation());
    let mut i = own.inode.clone();
    let leaf = if on_dir { 0 } else { own.nodes.iter().find(|n| n.block == old).unwrap().depth + 1 };
    if redirect(&mut i.0[0x28..0x28 + 60], leaf, old, new) {
        i.seal(&fs.geo, own.ino);
        fs.put_inode(own.ino, &i);
    } else {
        let bs = fs.geo.bs;
        let done = own.nodes.iter().any(|n| {
            let mut b = fs.data.get(n.block * bs, bs as usize);
            let found = redirect(&mut b, leaf, old, new);
            if found {
                fs.seal_node(&mut b, seed);
                fs.data.write(n.block * bs, &b);
            }
            found
        });
        if !done {
            return Err(Stop::Inconclusive(format!("no entry leads to block {old} in inode {}", own.ino)));
        }
    }
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, fs, &ctl)?;
    let r = if on_dir {
        extx::list(&mut sut, &dirs[from])?;
        let d = &dirs[1 - from];
        dir(&mut sut, d, d.per_block[..first as usize].iter().sum(), true)
    } else {
        Reader::new(&mut sut, &undamaged, theirs)?.finish(&mut c.rng.clone())?;
        file(&mut c.rng.clone(), &mut sut, &undamaged, own, first)
    };
    r.map_err(|e| match e {
        Stop::Violation { sig, msg } => Stop::Violation {
            sig,
            msg: format!("inode {} led to block {new}, of inode {}, instead of {old} in {}: {msg}", own.ino, theirs.ino, brief(&fs.geo)),
        },
        e => e,
    })?;
    c.hit(if on_dir { "led to another directory's block" } else { "led to another file's node" });
    Ok(())
}

/// Changes where the entry of a node of this depth that leads to a block leads to.
fn redirect(node: &mut [u8], depth: u16, old: u64, new: u64) -> bool {
    if u16::from_le_bytes([node[6], node[7]]) != depth {
        return false;
    }
    let n = usize::from(u16::from_le_bytes([node[2], node[3]]));
    // Extents have the high half first, entries of branches the low one.
    let (hi, lo) = if depth == 0 { (6, 8) } else { (8, 4) };
    for e in node[12..].chunks_exact_mut(12).take(n) {
        let at = u64::from(u32::from_le_bytes(e[lo..lo + 4].try_into().unwrap())) | u64::from(u16::from_le_bytes([e[hi], e[hi + 1]])) << 32;
        if at == old {
            e[lo..lo + 4].copy_from_slice(&(new as u32).to_le_bytes());
            e[hi..hi + 2].copy_from_slice(&((new >> 32) as u16).to_le_bytes());
            return true;
        }
    }
    false
}

fn populate(c: &mut Case, fs: &mut Fs) -> (Vec<DirRec>, Vec<FileRec>) {
    let (mut dirs, mut files) = (vec![], vec![]);
    for i in 0..2 {
        let n = if i == 0 { c.rng.below(80) } else { 20 + c.rng.below(300) };
        let e = fs.random_entries(&mut c.rng, n as usize);
        if let Some(d) = fs.make_dir(&mut c.rng, None, e, false) {
            dirs.push(d);
        }
        let blocks = extx::max_blocks(c, fs, 1 << 16).min(300);
        let shape = Shape {
            blocks: 1 + c.rng.below(blocks),
            max_len: 1 + c.rng.below(3),
            extra_depth: 1 + c.rng.below(3) as u32,
            keep_size: c.rng.chance(1, 8),
            holes: false,
            ..Shape::random(&mut c.rng, blocks)
        };
        if let Some(f) = fs.make_file(&mut c.rng, &shape) {
            if !f.nodes.is_empty() {
                files.push(f);
            }
        }
    }
    (dirs, files)
}

/// A changed block, and how it was changed.
fn damage(c: &mut Case, fs: &Fs, dirs: &[DirRec], files: &[FileRec], what: &What, block: u64, old: &[u8]) -> Option<(Vec<u8>, String)> {
    let bs = old.len();
    let mut new = old.to_vec();
    let node = matches!(what, What::Node { .. });
    if fs.geo.csum {
        let covered = if node { 12 + 12 * usize::from(fs.max_entries()) + 4 } else { bs };
        return Some(match c.rng.below(12) {
            10 | 11 => {
                // A checksum some writer might have left; the content kept or damaged.
                let sum = covered - 4;
                let kept = u32::from_le_bytes(old[sum..covered].try_into().unwrap());
                let body = if node { &old[..sum] } else { &old[..bs - 12] };
                let v = match c.rng.below(7) {
                    0 | 1 => 0,
                    2 => u32::MAX,
                    3 => !kept,
                    4 => kept.swap_bytes(),
                    5 => mdv::crc::crc32c(!0, body),
                    _ => mdv::crc::crc32c(fs.geo.seed(), body),
                };
                new[sum..covered].copy_from_slice(&v.to_le_bytes());
                let mut how = format!("checksum set to {v:#x}");
                if c.rng.bool() {
                    let at = c.rng.usize_below(body.len());
                    new[at] ^= 1 << c.rng.below(8);
                    how += &format!(" and byte {at} damaged");
                }
                c.hit("plausible wrong checksum");
                (new, how)
            }
            0 => {
                // Another file's block, valid there.
                let other = if node {
                    files.iter().flat_map(|f| &f.nodes).map(|n| n.block).filter(|b| *b != block).collect::<Vec<_>>()
                } else {
                    dirs.iter().flat_map(|d| (0..d.per_block.len()).map(|i| d.file.phys(i as u64).unwrap())).collect()
                };
                let own: Vec<u64> = if node {
                    files.iter().find(|f| f.nodes.iter().any(|n| n.block == block))?.nodes.iter().map(|n| n.block).collect()
                } else {
                    let d = dirs.iter().find(|d| (0..d.per_block.len()).any(|i| d.file.phys(i as u64) == Some(block)))?;
                    (0..d.per_block.len()).map(|i| d.file.phys(i as u64).unwrap()).collect()
                };
                let other: Vec<u64> = other.into_iter().filter(|b| !own.contains(b)).collect();
                if other.is_empty() {
                    return None;
                }
                let b = *c.rng.pick(&other);
                c.hit("another file's block in its place");
                (fs.data.get(b * fs.geo.bs, bs), format!("the contents of block {b} of another file"))
            }
            1 => (vec![0; bs], "zeros".into()),
            2 => {
                c.rng.fill(&mut new);
                (new, "garbage".into())
            }
            3 => {
                // Two records exchanged or a burst of up to 4 bytes.
                let at = c.rng.usize_below(covered - 4);
                let n = 1 + c.rng.usize_below(4);
                c.rng.fill(&mut new[at..at + n]);
                (new, format!("{n} bytes from byte {at}"))
            }
            k => {
                // The ends of the block and of its parts more often.
                let at = match k {
                    4 => c.rng.usize_below(16),
                    5 => covered - 1 - c.rng.usize_below(16),
                    _ => c.rng.usize_below(covered),
                };
                let mask = if c.rng.bool() { 1 << c.rng.below(8) } else { 1 + c.rng.below(255) as u8 };
                new[at] ^= mask;
                c.hit("single byte of a checksummed block");
                (new, format!("byte {at} xor {mask:#x}"))
            }
        });
    }
    if node {
        let (at, v): (usize, u16) = match c.rng.below(4) {
            0 => (0, 0xf30a ^ (1 + c.rng.below(0xffff) as u16)),
            1 => {
                // More entries than there is room for.
                let max = fs.max_entries();
                let n = max + 1 + c.rng.below(u64::from(u16::MAX - max)) as u16;
                (2, n)
            }
            2 => {
                let depth = u16::from_le_bytes([old[6], old[7]]);
                (6, depth + 1 + c.rng.below(100) as u16)
            }
            // Its first entry starts somewhere else.
            _ => (12, u16::from_le_bytes([old[12], old[13]]) ^ (1 + c.rng.below(0xffff) as u16)),
        };
        new[at..at + 2].copy_from_slice(&v.to_le_bytes());
        return Some((new, format!("bytes {at} and {} set to {v:#x}", at + 1)));
    }
    // A record of the block becomes impossible.
    let mut records = vec![];
    let mut at = 0;
    while at < bs {
        records.push(at);
        let n = usize::from(u16::from_le_bytes([old[at + 4], old[at + 5]]));
        at += if bs == 65536 && (n == 0 || n == 65535) { bs } else { n };
    }
    let r = *c.rng.pick(&records);
    let name = usize::from(old[r + 6]);
    let whole = bs == 65536 && r == 0;
    let v = match c.rng.below(4) {
        0 => c.rng.below(8) as u16,
        1 => (8 + c.rng.usize_below(name.max(1))).min(8 + name.saturating_sub(1)) as u16,
        2 => {
            let room = bs - r;
            if room >= 0xffff - 4 {
                return None;
            }
            (room + 1 + c.rng.usize_below(0xffff - room)) as u16
        }
        _ => u16::from_le_bytes([old[r + 4], old[r + 5]]) ^ (1 + c.rng.below(3) as u16),
    };
    // What 64 KiB blocks store for a record of the whole block.
    if whole && (v == 0 || v == 0xffff) || name == 0 && v == 8 {
        return None;
    }
    if usize::from(v) >= 8 + name && v % 4 == 0 && r + usize::from(v) <= bs {
        return None;
    }
    new[r + 4..r + 6].copy_from_slice(&v.to_le_bytes());
    Some((new, format!("record length {v} at byte {r} (name of {name} bytes)")))
}

/// Damage that comes while a file system is open: what is read was there
/// before, or there is an error.
fn later(
    c: &mut Case,
    sut: &mut extx::Sut,
    cell: &RefCell<Sparse>,
    fs: &Fs,
    (at, old, new): (u64, &[u8], &[u8]),
    d: Option<&DirRec>,
    f: Option<&FileRec>,
) -> Verdict {
    let rng = &mut c.rng.clone();
    let begun = rng.bool();
    let damaged = || cell.borrow_mut().write(at, new);
    let v = (|| {
        if let Some(d) = d {
            if !begun {
                damaged();
            }
            let mut dir = extx::directory(sut, d.file.ino)?;
            let from = rng.usize_below(d.entries.len() + 1);
            for k in 0.. {
                if begun && k == from {
                    damaged();
                }
                match extx::entry(&mut dir) {
                    Err(_) => break,
                    Ok(e) => {
                        // Without checksums a record may have become another.
                        if fs.geo.csum && extx::check_entry(d, k, e.clone())? || e.is_none() {
                            break;
                        }
                    }
                }
            }
        }
        if let Some(f) = f {
            if !begun {
                damaged();
            }
            let mut r = Reader::new(sut, fs, f)?;
            let from = rng.below(f.size.div_ceil(fs.geo.bs) + 1);
            while !r.done {
                if begun && r.block == from {
                    damaged();
                }
                if r.step(rng)?.is_err() {
                    break;
                }
            }
        }
        Ok(())
    })();
    cell.borrow_mut().write(at, old);
    v
}

fn dir(sut: &mut extx::Sut, d: &DirRec, before: usize, sums: bool) -> Verdict {
    let mut dir = extx::directory(sut, d.file.ino)?;
    for at in 0.. {
        match extx::entry(&mut dir) {
            Err(_) => return Ok(()),
            Ok(None) => {
                return Err(Stop::v(format!(
                    "the listing of directory inode {} ended after {at} of {} entries as if complete", d.file.ino, d.entries.len())));
            }
            Ok(Some(e)) => {
                if sums && at >= before {
                    return Err(Stop::v(format!(
                        "directory inode {}: entry {at}, {}, was listed from the damaged block", d.file.ino, extx::show(&e))));
                }
                // Without checksums, records before the impossible one are good.
                extx::check_entry(d, at, Some(e))?;
            }
        }
    }
    Ok(())
}

fn file(rng: &mut Rng, sut: &mut extx::Sut, fs: &Fs, f: &FileRec, first: u64) -> Verdict {
    let mut r = Reader::new(sut, fs, f)?;
    while !r.done {
        let at = r.block;
        if let Err(_) = r.step(rng)? {
            return Ok(());
        }
        if !r.done && at >= first {
            return Err(Stop::v(format!("inode {}: block {at} was read through the damaged node for blocks from {first}", f.ino)));
        }
    }
    // The node maps only blocks beyond the end.
    if first * fs.geo.bs >= f.size {
        return Ok(());
    }
    Err(Stop::v(format!("inode {} (size {}) read to the end through the damaged node", f.ino, f.size)))
}

fn main() {
    run::main(
        Spec {
            id: "C20",
            level: "fault_enumeration",
            rule: "One ext4 image with two directories and two files with deep extent trees per case, 40 damaged metadata blocks each (100 in the thorough tier): with checksums any byte, burst, zeros, garbage, or another file's block; without, structurally impossible records and nodes; a third of them also while the file system is open and the block was read. Non-trivial: all; distinct by block and damage.",
            quick: 4500,
            thorough: 112_500,
            required: &[
                "checksummed directory block damaged", "checksummed extent block damaged", "impossible directory record",
                "impossible extent block", "single byte of a checksummed block", "another file's block in its place",
                "plausible wrong checksum", "impossible extent root",
                "led to another directory's block", "led to another file's node",
                "damaged after it was read", "made impossible after it was read",
                "extent outside the file system", "node outside the file system",
            ],
            assumptions: &["CRC32C detects every change within 32 bits, and others but for a chance of 2^-32"],
            ..Spec::default()
        },
        case,
    )
}
