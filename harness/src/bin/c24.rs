//! A file system on an array is the file system that was stored there.
use mdv::ext4::{brief as fs_brief, DirRec, FileRec, Fs, Geo, Limits, Shape};
use mdv::extx::{self, Reader};
use mdv::md::Plan;
use mdv::mdx::{self, must, order};
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::block_device::BlockDeviceReader;
use mdv::sut::ext4::Ext4Fs;
use mdv::sut::md::{MdArray, MdDevice};
use mdv::{Ctl, TestDevice};
use std::collections::BTreeSet;

type Sut = Ext4Fs<BlockDeviceReader<MdArray<TestDevice>>>;

/// What a damaged row means for the image stored on the array.
#[derive(Default)]
struct Damage {
    /// Image sectors that cannot be read, and ones that perhaps cannot.
    gone: BTreeSet<u64>,
    doubtful: BTreeSet<u64>,
    /// Something other than file data may be gone or doubtful.
    metadata: bool,
    text: String,
}

impl Damage {
    fn hits(set: &BTreeSet<u64>, block: u64, bs: u64) -> bool {
        let per = bs / 512;
        set.range(block * per..(block + 1) * per).next().is_some()
    }
}

fn blocks(fs: &Fs, f: &FileRec) -> u64 {
    f.size.div_ceil(fs.geo.bs)
}

/// The first block of a file that cannot be read, and the first that perhaps cannot.
fn ends(fs: &Fs, f: &FileRec, d: &Damage) -> (Option<u64>, Option<u64>) {
    let find = |s: &BTreeSet<u64>| {
        (0..blocks(fs, f)).find(|b| f.phys(*b).is_some_and(|p| Damage::hits(s, p, fs.geo.bs)))
    };
    (find(&d.gone), find(&d.doubtful))
}

fn read_file(c: &mut Case, sut: &mut Sut, fs: &Fs, f: &FileRec, d: &Damage) -> Verdict {
    let (gone, doubt) = ends(fs, f, d);
    let weak = d.metadata;
    let mut r = match extx::ext4_file(sut, f.ino) {
        Err(_) if weak => return Ok(()),
        _ => Reader::new(sut, fs, f)?,
    };
    while !r.done {
        let at = r.block;
        match r.step(&mut c.rng)? {
            Ok(()) => {
                mdv::ensure!(
                    gone != Some(at),
                    "block {at} of inode {} was read although {}",
                    f.ino,
                    d.text
                );
                c.hit("file blocks compared");
            }
            Err(e) => {
                mdv::ensure!(
                    weak || gone == Some(at) || doubt.is_some_and(|b| b == at),
                    "reading block {at} of inode {} failed ({e:?}); {}",
                    f.ino,
                    if d.text.is_empty() { "nothing is damaged" } else { &d.text }
                );
                c.hit("damage reported");
                return Ok(());
            }
        }
    }
    Ok(())
}

fn list(c: &mut Case, sut: &mut Sut, fs: &Fs, dir: &DirRec, d: &Damage) -> Verdict {
    let (gone, doubt) = ends(fs, &dir.file, d);
    let weak = d.metadata;
    let mut open = match extx::ext4_file(sut, dir.file.ino) {
        Err(_) if weak => return Ok(()),
        _ => extx::directory(sut, dir.file.ino)?,
    };
    for at in 0.. {
        match extx::entry(&mut open) {
            Ok(got) => {
                let end = extx::check_entry(dir, at, got)?;
                c.hit("entries compared");
                if end {
                    mdv::ensure!(
                        gone.is_none(),
                        "the listing of inode {} ended without an error although {}",
                        dir.file.ino,
                        d.text
                    );
                    return Ok(());
                }
            }
            Err(e) => {
                mdv::ensure!(
                    weak || gone.is_some() || doubt.is_some(),
                    "listing inode {} failed at entry {at} ({e:?}); {}",
                    dir.file.ino,
                    if d.text.is_empty() { "nothing is damaged" } else { &d.text }
                );
                c.hit("damage reported");
                return Ok(());
            }
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    let bytes = *c.rng.pick(&[1 << 22, 1 << 26, 1 << 32, 1 << 40]);
    let geo = Geo::random(&mut c.rng, Limits { bytes, ..Limits::ANY });
    let mut fs = Fs::new(&mut c.rng, geo);
    let mut files = vec![];
    for _ in 0..1 + c.rng.below(3) {
        let max = extx::max_blocks(c, &fs, 1 << 14).min(40);
        let shape = Shape::random(&mut c.rng, max);
        files.extend(fs.make_file(&mut c.rng, &shape));
    }
    let mut dirs = vec![];
    for i in 0..1 + c.rng.below(2) {
        let n = c.rng.usize_below(40);
        let entries = fs.random_entries(&mut c.rng, n);
        let ino = (i == 0 && c.rng.bool()).then_some(2);
        dirs.extend(fs.make_dir(&mut c.rng, ino, entries, true));
    }
    let mut plan = Plan::random(&mut c.rng, 6, 1 << 10);
    let data = plan.data_disks();
    let stripe = u64::from(plan.chunk) * data;
    // The file system ends somewhere before, or exactly at, the array's end.
    let rows = fs.geo.size().div_ceil(512).div_ceil(stripe) + if c.rng.bool() { 0 } else { c.rng.below(20) };
    plan.per_dev = rows * u64::from(plan.chunk);
    if !matches!(plan.ver, mdv::md::Ver::V1(_)) && plan.per_dev >= 1 << 32 {
        return Ok(());
    }
    let mut members = plan.striped(&fs.data);
    let bs = mdx::block_sizes(&mut c.rng, members.len());
    mdx::describe_plan(c, &plan);
    c.fp(fs.geo.bs << 40 | u64::from(fs.geo.groups) << 20 | u64::from(fs.geo.ipg));
    c.nontrivial();
    c.describe(|| format!("{} on {}", fs_brief(&fs.geo), mdx::brief(&plan)));
    if fs.geo.size() == plan.sectors() * 512 {
        c.hit("file system that fills the array");
    }
    if fs.geo.bs > u64::from(plan.chunk) * 512 {
        c.hit("file system blocks larger than chunks");
    }
    if fs.geo.bs == 1024 && bs.iter().any(|b| *b > 1024) {
        c.hit("file system blocks smaller than device blocks");
    }
    // Damage in one member, half of the time.
    let mut d = Damage::default();
    let mut unreadable = None;
    let all: Vec<&FileRec> = files.iter().chain(dirs.iter().map(|d| &d.file)).filter(|f| blocks(&fs, f) > 0).collect();
    if c.rng.bool() && !all.is_empty() {
        let f = *c.rng.pick(&all);
        let n = c.rng.below(blocks(&fs, f));
        if let Some(p) = f.phys(n) {
            let sector = p * (fs.geo.bs / 512) + c.rng.below(fs.geo.bs / 512);
            let pl = plan.locate(sector);
            let slot = c.rng.below(u64::from(plan.n)) as usize;
            let at = members[slot].data_start + pl.dev_sector * 512;
            let bad_sectors = |row: u64| -> Vec<u64> { mdx::logical(&plan, row).collect() };
            if c.rng.bool() {
                let byte = at + c.rng.below(512);
                let mask = 1 << c.rng.below(8);
                members[slot].storage.xor_byte(byte, mask);
                d.text = format!("member {slot} of the array is damaged in row {} (of sector {sector})", pl.dev_sector);
                // The program does not use Q.
                if pl.q == Some(slot as u32) {
                    d.doubtful.extend(bad_sectors(pl.dev_sector));
                } else {
                    d.gone.extend(bad_sectors(pl.dev_sector));
                }
                c.hit("corrupt member");
            } else {
                d.text = format!("member {slot} of the array cannot be read in row {} (of sector {sector})", pl.dev_sector);
                d.gone.extend(bad_sectors(pl.dev_sector));
                // The rest of the device's block.
                let b = u64::from(bs[slot]);
                let (lo, hi) = (at / b * b, at / b * b + b);
                for s in (lo..hi).step_by(512) {
                    if s != at && s >= members[slot].data_start {
                        let row = (s - members[slot].data_start) / 512;
                        if row < plan.per_dev {
                            d.doubtful.extend(bad_sectors(row));
                        }
                    }
                }
                unreadable = Some((slot, at));
                c.hit("unreadable member");
            }
            let pages: BTreeSet<u64> = fs.data.pages_written().collect();
            let data_sectors: BTreeSet<u64> = all
                .iter()
                .flat_map(|f| (0..blocks(&fs, f)).filter_map(|b| f.phys(b)))
                .flat_map(|p| p * (fs.geo.bs / 512)..(p + 1) * (fs.geo.bs / 512))
                .collect();
            d.metadata = d
                .gone
                .iter()
                .chain(&d.doubtful)
                .any(|s| pages.contains(&(s * 512 / 4096 * 4096)) && !data_sectors.contains(s));
        }
    }
    let ctl = Ctl::new();
    let mut devs = vec![];
    for i in order(&mut c.rng, members.len()) {
        let t = TestDevice::new(members[i].storage.clone(), bs[i], &ctl);
        let bad = t.bad.clone();
        devs.push(must(MdDevice::from_block_device(t, None::<&str>), "opening a member")?);
        if let Some((slot, at)) = unreadable {
            if slot == i {
                bad.borrow_mut().push((at, at + 512));
            }
        }
    }
    let array = BlockDeviceReader::new(MdArray::open(devs));
    let mut sut: Sut = match Ext4Fs::open(array) {
        Ok(s) => s,
        Err(_) if d.metadata => return Ok(()),
        Err(e) => {
            return Err(Stop::v(format!(
                "the file system {} did not open on {}: {e:?}",
                fs_brief(&fs.geo),
                mdx::brief(&plan)
            )))
        }
    };
    mdv::ensure_eq!(sut.block_size() as u64, fs.geo.bs, "block size");
    let wrap = |v: Verdict| {
        v.map_err(|s| match s {
            Stop::Violation { sig, msg } => Stop::Violation { sig, msg: format!("on {}: {msg}", mdx::brief(&plan)) },
            s => s,
        })
    };
    let mut clone = if c.rng.bool() { Some(must(sut.try_clone(), "cloning the file system")?) } else { None };
    for dir in &dirs {
        wrap(list(c, &mut sut, &fs, dir, &d))?;
    }
    for f in &files {
        let s = match clone.as_mut() {
            Some(s) if c.rng.bool() => s,
            _ => &mut sut,
        };
        wrap(read_file(c, s, &fs, f, &d))?;
    }
    // Files that take turns.
    if d.text.is_empty() && files.len() > 1 {
        let mut readers = vec![];
        for f in &files {
            readers.push(Reader::new(&mut sut, &fs, f)?);
        }
        while readers.iter().any(|r| !r.done) {
            let i = c.rng.usize_below(readers.len());
            if !readers[i].done {
                wrap(must(readers[i].step(&mut c.rng)?, "reading files in turns"))?;
            }
        }
        c.hit("interleaved files");
    }
    c.count("bytes read from members", ctl.bytes.get());
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C24",
            rule: "One file system and one RAID6 array per case, both with random geometry, the array large enough, members shuffled and with spares; files and directories opened, read and listed through Ext4Fs over BlockDeviceReader over MdArray. Half of the cases damage one sector of one member under a file or directory block (a flipped bit or an unreadable sector). Non-trivial: all; distinct by both geometries.",
            quick: 4800,
            thorough: 120_000,
            required: &[
                "file blocks compared", "entries compared", "damage reported", "corrupt member", "unreadable member",
                "interleaved files", "file system that fills the array", "file system blocks larger than chunks",
                "file system blocks smaller than device blocks",
            ],
            ..Spec::default()
        },
        case,
    )
}
