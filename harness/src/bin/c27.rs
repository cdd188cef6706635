//! Every field of a node of an extent tree is reported as it is on disk, and a
//! node is accepted exactly when it is sound.
use mdv::ext4::{brief, Fs, Geo, Ino, Limits};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::ext4::extent::{Extent, ExtentTree};
use mdv::sut::ext4::inode::Inode;
use mdv::{extx, Ctl, Rng, TestDevice};
use std::cell::RefCell;
use std::rc::Rc;

const EXTENTS: u64 = 0x80000;
const INLINE: u64 = 0x1000_0000;

/// struct ext4_extent_header and its entries, as fs/ext4/ext4_extents.h has them.
#[derive(Clone)]
struct Head {
    entries: u16,
    max: u16,
    depth: u16,
    generation: u32,
}

fn encode(h: &Head, room: usize, entries: &[[u8; 12]]) -> Vec<u8> {
    let mut b = Vec::with_capacity(room);
    b.extend([0x0a, 0xf3]);
    b.extend(h.entries.to_le_bytes());
    b.extend(h.max.to_le_bytes());
    b.extend(h.depth.to_le_bytes());
    b.extend(h.generation.to_le_bytes());
    for e in entries {
        b.extend(e);
    }
    b.resize(room, 0);
    b
}

fn number(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | u64::from(*x))
}

/// Entries that the kernel would take: in order, without overlap, none empty.
fn tidy(r: &mut Rng, n: usize, depth: u16) -> Vec<[u8; 12]> {
    let mut first = r.below(1000) as u32;
    (0..n)
        .map(|_| {
            let len = r.range(1, 9) as u32;
            let bits = r.range(8, 47);
            let phys = r.range(1, 1 << bits);
            let mut e = [0; 12];
            e[..4].copy_from_slice(&first.to_le_bytes());
            if depth == 0 {
                let stored = if r.chance(1, 3) { len + 0x8000 } else { len } as u16;
                e[4..6].copy_from_slice(&stored.to_le_bytes());
                e[6..8].copy_from_slice(&((phys >> 32) as u16).to_le_bytes());
                e[8..].copy_from_slice(&(phys as u32).to_le_bytes());
            } else {
                e[4..8].copy_from_slice(&(phys as u32).to_le_bytes());
                e[8..10].copy_from_slice(&((phys >> 32) as u16).to_le_bytes());
            }
            first += len + r.below(3) as u32;
            e
        })
        .collect()
}

fn wild(r: &mut Rng, n: usize) -> Vec<[u8; 12]> {
    (0..n)
        .map(|_| {
            let mut e = [0; 12];
            match r.below(3) {
                0 => r.fill(&mut e),
                1 => e[r.usize_below(12)] = 1 << r.below(8),
                _ => {
                    let at = 2 * r.usize_below(6);
                    e[at..at + 2].fill(0xff);
                }
            }
            if r.chance(1, 4) {
                e[4..6].copy_from_slice(&r.pick(&[0x7fffu16, 0x8000, 0x8001, 0xffff, 1]).to_le_bytes());
            }
            e
        })
        .collect()
}

fn extent<S: AsRef<[u8]>>(c: &mut Case, got: &Extent<S>, e: &[u8], what: &str) -> Verdict {
    let len = number(&e[4..6]);
    let shown = format!("{what} {e:02x?}");
    mdv::ensure_eq!(u64::from(got.first_file_block_number().0), number(&e[..4]), "first block of {shown}");
    mdv::ensure_eq!(got.initialized(), len <= 0x8000, "whether {shown} is written");
    mdv::ensure_eq!(u64::from(got.length().0), if len > 0x8000 { len - 0x8000 } else { len }, "length of {shown}");
    mdv::ensure_eq!(got.first_fs_block_number().0, number(&e[8..]) | number(&e[6..8]) << 32, "place of {shown}");
    c.hit(if len > 0x8000 { "unwritten extents" } else { "written extents" });
    if len == 0x8000 {
        c.hit("longest extents");
    }
    c.count("entries compared", 1);
    Ok(())
}

fn decode<S: AsRef<[u8]>>(c: &mut Case, tree: &ExtentTree<S>, h: &Head, entries: &[[u8; 12]]) -> Verdict {
    let n = entries.len();
    mdv::ensure_eq!(tree.depth(), h.depth, "depth");
    mdv::ensure_eq!(tree.entry_count(), n, "entries");
    let places: Vec<usize> = if n <= 8 {
        (0..n).collect()
    } else {
        (0..8).map(|k| if k == 0 { n - 1 } else { c.rng.usize_below(n) }).collect()
    };
    let beyond = [n, n + 1, usize::from(h.max).max(n), usize::from(u16::MAX), usize::MAX / 12, usize::MAX];
    match tree {
        ExtentTree::Leaf(leaf) => {
            mdv::ensure_eq!(h.depth, 0, "a node of this depth was taken for a leaf");
            mdv::ensure_eq!(leaf.extent_count(), n, "extents");
            mdv::ensure_eq!(leaf.max_extents(), usize::from(h.max), "room for extents");
            mdv::ensure_eq!(leaf.generation(), h.generation, "generation");
            for p in places {
                let Some(e) = leaf.extent_at(p) else {
                    return Err(run::Stop::v(format!("extent {p} of {n} is missing")));
                };
                extent(c, &e, &entries[p], "extent")?;
                extent(c, &e.into_owned(), &entries[p], "owned extent")?;
            }
            for p in beyond {
                mdv::ensure!(leaf.extent_at(p).is_none(), "extent {p} of {n}");
            }
            c.hit("leaves");
        }
        ExtentTree::Branch(branch) => {
            mdv::ensure!(h.depth > 0, "a leaf was taken for a branch");
            mdv::ensure_eq!(branch.subtree_count(), n, "subtrees");
            mdv::ensure_eq!(branch.max_subtrees(), usize::from(h.max), "room for subtrees");
            mdv::ensure_eq!(branch.generation(), h.generation, "generation");
            for p in places {
                let Some(i) = branch.subtree_index_at(p) else {
                    return Err(run::Stop::v(format!("subtree {p} of {n} is missing")));
                };
                let e = &entries[p];
                mdv::ensure_eq!(u64::from(i.block().0), number(&e[..4]), "first block of index {e:02x?}");
                mdv::ensure_eq!(i.leaf().0, number(&e[4..8]) | number(&e[8..10]) << 32, "node of index {e:02x?}");
                c.count("entries compared", 1);
            }
            for p in beyond {
                mdv::ensure!(branch.subtree_index_at(p).is_none(), "subtree {p} of {n}");
            }
            c.hit("branches");
        }
    }
    Ok(())
}

fn seal(block: &mut [u8], seed: u32) {
    let at = 12 + 12 * number(&block[4..6]) as usize;
    if at + 4 <= block.len() {
        let sum = mdv::crc::crc32c(seed, &block[..at]);
        block[at..at + 4].copy_from_slice(&sum.to_le_bytes());
    }
}

/// A node in a block of its own.
fn in_block(c: &mut Case, fs: &Fs, inode: &Inode, seed: u32) -> Verdict {
    let bs = fs.geo.bs as usize;
    let csum = fs.geo.csum;
    let most = (bs - 12) / 12;
    // Without checksums the entries may end where the block does.
    let depth = if c.rng.bool() { 0 } else { c.rng.range(1, 5) as u16 };
    let max = match c.rng.below(4) {
        0 => c.rng.range(1, most.min(4) as u64) as usize,
        1 => c.rng.range(1, most as u64) as usize,
        _ => most,
    };
    let n = match c.rng.below(4) {
        0 => max,
        1 => c.rng.range(1, max as u64) as usize,
        2 if depth == 0 => 0,
        _ => c.rng.range(1, max.min(9) as u64) as usize,
    };
    let sound = c.rng.bool();
    let entries = if sound { tidy(&mut c.rng, n, depth) } else { wild(&mut c.rng, n) };
    let h = Head { entries: n as u16, max: max as u16, depth, generation: c.rng.u32() };
    let mut b = encode(&h, bs, &entries);
    if c.rng.bool() {
        c.rng.fill(&mut b[12 + 12 * n..]);
    }
    if csum {
        seal(&mut b, seed);
    }
    c.fp_bytes(&b);
    let (g, shown) = (brief(&fs.geo), b[..bs.min(12 + 12 * n.min(9))].to_vec());
    c.describe(move || format!("{g}: node {shown:02x?}.."));
    let tree = ExtentTree::from_block(inode, &b[..]);
    if sound {
        mdv::ensure!(tree.valid(), "a sound node was refused");
        mdv::ensure!(tree.to_owned().valid(), "a copy of a sound node was refused");
        c.hit(if csum { "sound node with a checksum" } else { "sound node without a checksum" });
    }
    decode(c, &tree, &h, &entries)?;
    decode(c, &tree.to_owned(), &h, &entries)?;

    // Damage that makes it unsound.
    let mut bad = b.clone();
    let how = match c.rng.below(if csum { 6 } else { 3 }) {
        0 => {
            let bit = c.rng.usize_below(16);
            bad[bit / 8] ^= 1 << (bit % 8);
            "another magic number"
        }
        1 => {
            let over = c.rng.range(max as u64 + 1, 0xffff) as u16;
            let over = if c.rng.bool() { max as u16 + 1 } else { over };
            bad[2..4].copy_from_slice(&over.to_le_bytes());
            "more entries than there is room for"
        }
        2 => {
            let least = (bs - 12 - if csum { 4 } else { 0 }) / 12 + 1;
            let over = if c.rng.bool() { least } else { c.rng.range(least as u64, 0xffff) as usize };
            bad[4..6].copy_from_slice(&(over as u16).to_le_bytes());
            "room beyond the end of the block"
        }
        3 => {
            let at = c.rng.usize_below(12 + 12 * max + 4);
            bad[at] ^= 1 << c.rng.below(8);
            "a bit covered by the checksum"
        }
        4 => {
            let at = 12 + 12 * max;
            let burst = c.rng.range(1, 4) as usize;
            for x in &mut bad[at..at + burst] {
                *x = !*x;
            }
            "another checksum"
        }
        _ => {
            let other = if c.rng.bool() { seed ^ 1 << c.rng.below(32) } else { 0 };
            if other == seed {
                return Ok(());
            }
            seal(&mut bad, other);
            "the checksum of another inode's node"
        }
    };
    if csum && c.rng.bool() && matches!(how, "another magic number" | "more entries than there is room for") {
        // The damage was there when the checksum was made.
        seal(&mut bad, seed);
        c.hit("unsound node with its own checksum");
    }
    let tree = ExtentTree::from_block(inode, &bad[..]);
    mdv::ensure!(!tree.valid(), "a node with {how} was accepted");
    mdv::ensure!(!tree.to_owned().valid(), "a copy of a node with {how} was accepted");
    c.hit(how);
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    let lim = Limits { groups: 2, log_bs: if c.index % 16 == 0 { 6 } else { 2 }, ..Limits::ANY };
    let geo = Geo::random(&mut c.rng, lim);
    let size = geo.inode_size;
    let fs = Fs::new(&mut c.rng, geo);
    let at = fs.inode_offset(2);
    let data = Rc::new(RefCell::new(fs.data.clone()));
    let dev = TestDevice::shared(data.clone(), extx::bs(&mut c.rng), &Ctl::new());
    let mut sut = mdv::mdx::must(mdv::sut::ext4::Ext4Fs::open(dev), "opening a valid file system")?;
    c.nontrivial();
    for _ in 0..8 {
        // A root in an inode, which has no checksum of its own.
        let depth = if c.rng.bool() { 0 } else { c.rng.range(1, 5) as u16 };
        let n = c.rng.below(5) as usize;
        let entries = if c.rng.bool() { tidy(&mut c.rng, n, depth) } else { wild(&mut c.rng, n) };
        let h = Head { entries: n as u16, max: 4, depth, generation: c.rng.u32() };
        let mut root = encode(&h, 60, &entries);
        let sound = n > 0 || depth == 0;
        if c.rng.bool() {
            c.rng.fill(&mut root[12 + 12 * n..]);
        }
        let mut i = Ino::random(&mut c.rng, size);
        let kind = c.rng.below(6);
        let (extents, inline) = (kind != 0, kind == 1);
        let mut flags = i.get("flags") & !(EXTENTS | INLINE);
        if extents {
            flags |= EXTENTS;
        }
        if inline || !extents && c.rng.bool() {
            flags |= INLINE;
        }
        i.set("flags", flags);
        i.set("mode", 0x4000 | i.get("mode") & 0xfff);
        i.set("size_high", 0);
        let damage = c.rng.chance(1, 4).then(|| c.rng.below(3));
        match damage {
            Some(0) => root[c.rng.usize_below(2)] ^= 1 << c.rng.below(8),
            Some(1) => root[2..4].copy_from_slice(&(c.rng.range(5, 0xffff) as u16).to_le_bytes()),
            Some(2) => root[4..6].copy_from_slice(&(c.rng.range(5, 0xffff) as u16).to_le_bytes()),
            _ => {}
        }
        i.0[0x28..0x28 + 60].copy_from_slice(&root);
        i.seal(&fs.geo, 2);
        data.borrow_mut().write(at, &i.0);
        c.fp_bytes(&i.0);
        let (g, bytes) = (brief(&fs.geo), i.0[..128].to_vec());
        c.describe(move || format!("{g}: inode {bytes:02x?}"));
        let got = mdv::mdx::must(sut.read_root_inode(), "reading the root inode")?;
        match ExtentTree::from_inode(&got) {
            None => {
                mdv::ensure!(!extents || inline, "no extent tree in an inode that has one (flags {flags:#x})");
                c.hit("no extent tree");
            }
            Some(_) if !extents || inline => {
                return Err(run::Stop::v(format!("an extent tree in an inode that has none (flags {flags:#x})")));
            }
            Some(tree) => match damage {
                None => {
                    mdv::ensure!(!sound || tree.valid(), "a sound root was refused");
                    decode(c, &tree, &h, &entries)?;
                    decode(c, &tree.to_owned(), &h, &entries)?;
                    c.hit("roots compared");
                }
                Some(_) => {
                    mdv::ensure!(!tree.valid(), "an unsound root was accepted: {root:02x?}");
                    c.hit("unsound root refused");
                }
            },
        }
        let seed = fs.geo.inode_seed(2, i.generation());
        in_block(c, &fs, &got, seed)?;
        c.count("nodes compared", 1);
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C27",
            rule: "8 inodes per case in the root inode's place of one file system, each with the root of an extent tree in it and a node in a block beside it: entries in order as the driver writes them or of any bits, depths 0-5, from none to as many as fit; every accessor compared, at places beyond the last too; then one of six kinds of damage, which must be refused. Non-trivial: all; distinct by the bytes of inodes and nodes.",
            quick: 120_000,
            thorough: 3_000_000,
            required: &[
                "nodes compared", "entries compared", "leaves", "branches", "roots compared", "unsound root refused", "no extent tree",
                "written extents", "unwritten extents", "longest extents", "sound node with a checksum", "sound node without a checksum",
                "another magic number", "more entries than there is room for", "room beyond the end of the block",
                "a bit covered by the checksum", "another checksum", "the checksum of another inode's node", "unsound node with its own checksum",
            ],
            assumptions: &["fs/ext4/ext4_extents.h, transcribed in this check, is the reference; the checksum of a node follows its room for entries"],
            ..Spec::default()
        },
        case,
    )
}
