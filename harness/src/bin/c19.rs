//! Directory listings.
use mdv::ext4::{brief, Fs, Geo, Limits};
use mdv::extx;
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::Ctl;

fn case(c: &mut Case) -> Verdict {
    let large = c.index % 4000 == 1009;
    let geo = if c.index % 400 == 7 {
        Geo::huge(&mut c.rng)
    } else if large {
        let mut g = Geo::random(&mut c.rng, Limits { log_bs: 2, ..Limits::ANY });
        if g.blocks < 100_000 {
            g.groups = 100_000 / g.bpg + 1;
            g.blocks = u64::from(g.first_data) + u64::from(g.groups) * u64::from(g.bpg);
        }
        g
    } else {
        Geo::random(&mut c.rng, Limits::ANY)
    };
    let mut fs = Fs::new(&mut c.rng, geo);
    let mut dirs = vec![];
    for i in 0..1 + c.rng.below(3) {
        let n = match c.rng.below(5) {
            0 => c.rng.below(4),
            1 => c.rng.below(600),
            _ => c.rng.below(60),
        };
        let n = if large && i == 0 { 100_000 } else { n };
        let entries = if c.rng.chance(1, 10) {
            fs.encrypted_entries(&mut c.rng, n as usize)
        } else {
            fs.random_entries(&mut c.rng, n as usize)
        };
        let tidy = c.rng.chance(1, 5);
        let root = (i == 0 && c.rng.bool()).then_some(2);
        if let Some(mut d) = fs.make_dir(&mut c.rng, root, entries, tidy) {
            let blocks = d.per_block.len();
            if c.index % 8000 == 5009 && i == 0 && blocks > 100 {
                // Most of it deleted.
                if fs.bury(&mut d, 1..blocks - 2, true) > 100_000 {
                    c.hit("100000 deleted records in a row");
                }
            }
            dirs.push(d);
        }
    }
    if dirs.is_empty() {
        return Ok(());
    }
    c.nontrivial();
    c.describe(|| {
        let d: Vec<_> = dirs.iter().map(|d| format!("inode {} with {} entries in {} blocks, {} deleted", d.file.ino, d.entries.len(), d.per_block.len(), d.deleted)).collect();
        format!("{}; directories: {}", brief(&fs.geo), d.join(", "))
    });
    for d in &dirs {
        c.fp(u64::from(d.file.ino) << 32 | d.entries.len() as u64);
        c.fp(d.per_block.iter().fold(d.deleted as u64, |a, b| a.wrapping_mul(31) + *b as u64));
        if d.deleted > 0 {
            c.hit("directory with deleted records");
        }
        if d.stale > 0 {
            c.hit("directory with slack after names");
        }
        if d.per_block.len() > 1 {
            c.hit("directory of several blocks");
        }
        if d.per_block.iter().any(|n| *n == 0) {
            c.hit("directory with an empty block");
        }
        if d.entries.iter().any(|e| e.name.len() == 255) {
            c.hit("name of 255 bytes");
        }
        if d.entries.iter().any(|e| std::str::from_utf8(&e.name).is_err()) {
            c.hit("name that is not UTF-8");
        }
        if d.entries.iter().any(|e| e.name.contains(&0)) {
            c.hit("encrypted names with null bytes");
        }
        if d.entries.len() > 65536 {
            c.hit("directory of more than 65536 entries");
        }
        if d.file.ino == 2 {
            c.hit("root directory");
        }
        if d.file.depth > 0 {
            c.hit("directory with an extent tree of several levels");
        }
        c.hit(if fs.geo.csum { "directory with checksums" } else { "directory without checksums" });
    }
    let ctl = Ctl::new();
    let mut sut = extx::open(&mut c.rng, &fs, &ctl)?;
    if c.rng.bool() {
        for d in &dirs {
            extx::list(&mut sut, d)?;
            c.count("entries compared", d.entries.len() as u64);
        }
        return Ok(());
    }
    // Listings that take turns, past their ends.
    let mut open = vec![];
    for (i, d) in dirs.iter().enumerate() {
        open.push((i, 0usize, 0, extx::directory(&mut sut, d.file.ino)?));
        if c.rng.bool() {
            let mut clone = mdv::mdx::must(sut.try_clone(), "cloning the file system")?;
            open.push((i, 0, 0, extx::directory(&mut clone, d.file.ino)?));
        }
    }
    c.hit("interleaved listings");
    loop {
        let live: Vec<usize> = (0..open.len()).filter(|i| open[*i].2 < 3).collect();
        if live.is_empty() {
            break;
        }
        let k = *c.rng.pick(&live);
        for _ in 0..1 + c.rng.below(20) {
            let (i, at, ended, d) = &mut open[k];
            let got = extx::entry(d).map_err(|e| {
                Stop::v(format!("directory inode {}: listing failed at entry {at}: {e:?}", dirs[*i].file.ino))
            })?;
            if extx::check_entry(&dirs[*i], *at, got)? {
                *ended += 1;
                break;
            }
            *at += 1;
            c.hit("entries compared");
        }
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C19",
            rule: "One ext4 image with 1 to 3 linear directories per case: up to 600 names (now and then 70000) of 1 to 255 arbitrary bytes, some encrypted, deleted records (now and then hundreds of thousands in a row), slack and stale bytes, empty blocks, with and without checksums, in any extent tree; listed alone or in turns. Non-trivial: at least one directory; distinct by inode, entries and their spread over blocks.",
            quick: 40_000,
            thorough: 1_000_000,
            required: &[
                "entries compared", "directory with deleted records", "directory with slack after names",
                "directory of several blocks", "directory with an empty block", "name of 255 bytes",
                "name that is not UTF-8", "root directory", "directory with an extent tree of several levels",
                "directory with checksums", "directory without checksums", "interleaved listings",
                "encrypted names with null bytes", "directory of more than 65536 entries", "100000 deleted records in a row",
            ],
            assumptions: &["Linear directories (hash-indexed ones are refused as unsupported)", "Names without NUL or slash, as the format requires, except for encrypted ones, which are any bytes"],
            ..Spec::default()
        },
        case,
    )
}
