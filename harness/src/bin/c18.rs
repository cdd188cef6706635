//! File contents.
use mdv::ext4::{brief, Fs, Geo, Limits, Shape};
use mdv::extx::{self, Reader};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::Ctl;

fn case(c: &mut Case) -> Verdict {
    if c.index == 0 || c.thorough && c.index % 2000 == 0 {
        return giant(c);
    }
    let longest = c.index % 40 == 11;
    let geo = if c.index % 80 == 7 {
        Geo::huge(&mut c.rng)
    } else if c.index % 80 == 27 {
        Geo::vast(&mut c.rng)
    } else if longest {
        let mut g = Geo::random(&mut c.rng, Limits { log_bs: 1, groups: 60, ..Limits::ANY });
        if g.blocks < 200_000 {
            g.groups = 200_000 / g.bpg + 1;
            g.blocks = u64::from(g.first_data) + u64::from(g.groups) * u64::from(g.bpg);
        }
        g
    } else {
        Geo::random(&mut c.rng, Limits::ANY)
    };
    let mut fs = Fs::new(&mut c.rng, geo);
    let n = 1 + c.rng.below(4);
    let mut files = vec![];
    for _ in 0..n {
        let max = extx::max_blocks(c, &fs, 1 << 18);
        let mut shape = Shape::random(&mut c.rng, max);
        if longest && files.is_empty() {
            // Extents of the greatest length, 32768 blocks.
            shape.blocks = 0x8000 + c.rng.below(0x3000);
            shape.max_len = 0x8000;
            shape.unwritten = c.rng.chance(1, 4);
        }
        // Files with holes may be refused, but only at a hole.
        shape.holes = c.index % 8 == 5;
        if let Some(f) = fs.make_file(&mut c.rng, &shape) {
            files.push(f);
        }
    }
    if files.is_empty() {
        return Ok(());
    }
    c.nontrivial();
    c.describe(|| {
        let f: Vec<_> = files.iter().map(|f| format!("inode {} size {} extents {} depth {}", f.ino, f.size, f.exts.len(), f.depth)).collect();
        format!("{}; files: {}", brief(&fs.geo), f.join(", "))
    });
    for f in &files {
        c.fp(f.size);
        c.fp(u64::from(f.depth) << 32 | f.exts.len() as u64);
        c.hit_dyn(format!("extent tree depth {}", f.depth));
        if f.exts.iter().any(|e| e.unwritten && u64::from(e.first) * fs.geo.bs < f.size) {
            c.hit("file with unwritten extents");
        }
        if f.data_blocks() * fs.geo.bs >= f.size + fs.geo.bs {
            c.hit("file with blocks beyond its end");
        }
        if f.exts.iter().any(|e| e.len == 0x8000) {
            c.hit("file with an extent of 32768 blocks");
        }
        if f.exts.iter().any(|e| e.phys > 1 << 32) {
            c.hit("file with blocks beyond 2^32");
        }
        for e in &f.exts {
            if (e.phys + u64::from(e.len) - 1) >> 32 > e.phys >> 32 {
                c.hit("extent across a multiple of 2^32 blocks");
            }
            if e.phys >> 44 > 0 {
                c.hit("extent beyond block 2^44");
            }
        }
        if f.nodes.iter().any(|n| n.block >> 44 > 0) {
            c.hit("tree node beyond block 2^44");
        }
        if f.size == 0 {
            c.hit("empty file");
        }
        if f.size % fs.geo.bs != 0 {
            c.hit("file with a partial last block");
        }
        if f.nodes.iter().any(|n| n.entries == fs.max_entries()) {
            c.hit("file with a full tree node");
        }
        if f.nodes.iter().any(|n| n.block >= 1 << 32) {
            c.hit("tree node beyond block 2^32");
        }
    }
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    let mut rng = c.rng.clone();
    if c.index % 8 == 5 {
        for f in &files {
            let in_hole = |b: u64| !f.exts.iter().any(|e| (u64::from(e.first)..u64::from(e.first) + u64::from(e.len)).contains(&b));
            let mut r = Reader::new(&mut sut, &fs, f)?;
            while !r.done {
                if let Err(e) = r.step(&mut rng)? {
                    mdv::ensure!(
                        in_hole(r.block),
                        "inode {} (size {}, depth {}, extents {:?}): reading block {}, which is not in a hole, failed: {e:?}",
                        f.ino, f.size, f.depth, &f.exts[..f.exts.len().min(6)], r.block
                    );
                    c.hit("file refused at a hole");
                    break;
                }
            }
            c.count("blocks of files with holes compared", r.block);
        }
        return Ok(());
    }
    // Each alone.
    let interleave = files.len() > 1 && c.rng.bool();
    if !interleave {
        for f in &files {
            let mut r = Reader::new(&mut sut, &fs, f)?;
            r.finish(&mut rng)?;
            c.count("blocks compared", r.block);
            // The end stays the end.
            for _ in 0..2 {
                r.step(&mut rng)?.map_err(|e| run::Stop::v(format!("reading at the end of inode {}: {e:?}", f.ino)))?;
            }
        }
        return Ok(());
    }
    // All at once, some through clones of the file system, some twice.
    let mut clone = mdv::mdx::must(sut.try_clone(), "cloning the file system")?;
    let mut readers = vec![];
    for f in &files {
        readers.push(Reader::new(if rng.bool() { &mut sut } else { &mut clone }, &fs, f)?);
        if rng.chance(1, 3) {
            readers.push(Reader::new(if rng.bool() { &mut sut } else { &mut clone }, &fs, f)?);
        }
    }
    c.hit("interleaved reads");
    loop {
        let live: Vec<usize> = (0..readers.len()).filter(|i| !readers[*i].done).collect();
        if live.is_empty() {
            break;
        }
        let i = *rng.pick(&live);
        for _ in 0..1 + rng.below(5) {
            if readers[i].done {
                break;
            }
            let b = readers[i].block;
            readers[i].step(&mut rng)?.map_err(|e| {
                run::Stop::v(format!("interleaved read of inode {} block {b} failed: {e:?}", readers[i].rec.ino))
            })?;
        }
        if rng.chance(1, 50) {
            // Opening other files does not disturb open ones.
            let f = rng.pick(&files);
            Reader::new(&mut sut, &fs, f)?;
        }
    }
    for r in &readers {
        c.count("blocks compared", r.block);
    }
    Ok(())
}

/// A file of more than 4 GiB.
fn giant(c: &mut Case) -> Verdict {
    let mut geo = Geo::random(&mut c.rng, Limits::ANY);
    geo.bs = 65536;
    geo.inode_size = 256;
    geo.first_data = 0;
    geo.bpg = 8 * 65536;
    geo.ipg = 256;
    geo.groups = 2;
    geo.blocks = 2 * 8 * 65536;
    let mut fs = Fs::new(&mut c.rng, geo);
    fs.data.pattern = None;
    let shape = Shape {
        blocks: 65536 + 10 + c.rng.below(50),
        max_len: 0x8000,
        unwritten: true,
        keep_size: false,
        holes: false,
        extra_depth: 1,
        fan_out: 3,
        partial: true,
    };
    let Some(f) = fs.make_file(&mut c.rng, &shape) else {
        return Ok(());
    };
    // Some blocks with content, the last ones among them.
    let total = f.size.div_ceil(65536);
    for b in (0..40).map(|_| c.rng.below(total)).chain(65530..total).collect::<Vec<_>>() {
        if let Some(p) = f.phys(b) {
            let at = p * 65536 + c.rng.below(65000);
            fs.data.write(at, &c.rng.bytes(300));
        }
    }
    c.nontrivial();
    c.fp(f.size);
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    let mut r = Reader::new(&mut sut, &fs, &f)?;
    let mut rng = c.rng.clone();
    r.finish(&mut rng)?;
    c.count("blocks compared", r.block);
    c.hit("file of more than 4 GiB");
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C18",
            rule: "One ext4 image with 1 to 4 files per case: random geometry, extent tree depth 0 to 5, extents of 1 to 32768 blocks, unwritten extents, preallocation beyond the end, partial last blocks, holes; files read alone or interleaved with clones into buffers of a block or more. Non-trivial: at least one file; distinct by sizes and tree shapes.",
            quick: 10_000,
            thorough: 250_000,
            required: &[
                "blocks compared", "blocks of files with holes compared", "file with unwritten extents", "file with blocks beyond its end",
                "file with an extent of 32768 blocks", "file with blocks beyond 2^32", "empty file",
                "file with a partial last block", "file with a full tree node", "interleaved reads",
                "file of more than 4 GiB", "extent across a multiple of 2^32 blocks", "extent beyond block 2^44",
                "tree node beyond block 2^44",
            ],
            assumptions: &["A hole may be an error: the program does not read sparse files past one", "Images as an independent writer lays them out (no e2fsprogs here to cross-check it)"],
            ..Spec::default()
        },
        case,
    )
}
