//! Long stretches without a result, for an unoptimised build: code that goes a
//! level deeper at each step runs out of stack here, also where optimisation
//! would make a loop of it. Run by the checks of C11 and C21; says "ok".
use mdv::ext4::{Fs, Geo, Limits, Shape};
use mdv::extx;
use mdv::run::{Stop, Verdict};
use mdv::sut::block_device::BlockDeviceReader;
use mdv::{Ctl, Rng, Sparse, TestDevice};
use std::io::{Read, Seek, SeekFrom};

fn geo(rng: &mut Rng, log_bs: u32, csum: bool) -> Geo {
    let mut g = Geo::random(rng, Limits { log_bs, ..Limits::ANY });
    g.csum = csum;
    let want = (1u64 << 29) / g.bs;
    if g.blocks < want {
        g.groups = (want / u64::from(g.bpg) + 1) as _;
        g.blocks = u64::from(g.first_data) + u64::from(g.groups) * u64::from(g.bpg);
    }
    g
}

/// Tens of thousands of deleted records, in full blocks or one to a block.
fn directory(rng: &mut Rng, csum: bool, short: bool) -> Verdict {
    let geo = geo(rng, if short { 2 } else { 0 }, csum);
    let mut fs = Fs::new(rng, geo);
    let entries = fs.random_entries(rng, if short { 20_000 } else { 60_000 });
    let Some(mut d) = fs.make_dir(rng, None, entries, true) else { return Ok(()) };
    let blocks = d.per_block.len();
    let n = fs.bury(&mut d, 1.min(blocks)..blocks, short);
    let ctl = Ctl::new();
    let mut s = extx::open(rng, &fs, &ctl)?;
    extx::list(&mut s, &d)?;
    println!("a listing past {n} deleted records in {blocks} blocks");
    Ok(())
}

/// A file of many extents, each one block, some of them unwritten.
fn file(rng: &mut Rng, csum: bool) -> Verdict {
    let geo = geo(rng, 0, csum);
    let mut fs = Fs::new(rng, geo);
    let shape = Shape { max_len: 1, unwritten: true, holes: false, ..Shape::random(rng, 1) };
    let shape = Shape { blocks: 20_000, ..shape };
    let Some(f) = fs.make_file(rng, &shape) else { return Ok(()) };
    let ctl = Ctl::new();
    let mut s = extx::open(rng, &fs, &ctl)?;
    let mut r = extx::Reader::new(&mut s, &fs, &f)?;
    r.finish(rng)?;
    println!("a file of {} extent blocks", f.nodes.len());
    Ok(())
}

fn reader(rng: &mut Rng, bs: u32, csum: u64) -> Verdict {
    let s = Sparse::garbage(100_000 * u64::from(bs) + csum, rng.u64());
    let ctl = Ctl::new();
    let mut r = BlockDeviceReader::new(TestDevice::new(s.clone(), bs, &ctl));
    let fail = |e: std::io::Error| Stop::v(format!("reading 100000 blocks of {bs} at once: {e}"));
    let at = rng.below(u64::from(bs));
    r.seek(SeekFrom::Start(at)).map_err(fail)?;
    let mut buf = vec![0; 99_000 * bs as usize];
    let mut n = 0;
    while n < buf.len() {
        match r.read(&mut buf[n..]).map_err(fail)? {
            0 => break,
            m => n += m,
        }
    }
    mdv::ensure!(n == buf.len() && buf == s.get(at, n), "100000 blocks of {bs} read back wrong");
    r.seek(SeekFrom::Start(at)).map_err(fail)?;
    let mut all = vec![];
    r.read_to_end(&mut all).map_err(fail)?;
    let end = s.size / u64::from(bs) * u64::from(bs);
    mdv::ensure!(all == s.get(at, (end - at) as usize), "100000 blocks of {bs} read back wrong to the end");
    Ok(())
}

fn all(what: &str, seed: u64) -> Verdict {
    let rng = &mut Rng::new(seed);
    if what == "reader" {
        for bs in [1, 16, 512] {
            reader(rng, bs, 0)?;
        }
        return Ok(());
    }
    for csum in [false, true] {
        directory(rng, csum, false)?;
        directory(rng, csum, true)?;
        file(rng, csum)?;
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = a[2].parse().unwrap();
    let what = a[1].clone();
    // The stack that Rust gives threads.
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match all(&what, seed) {
        Ok(()) => println!("ok"),
        Err(Stop::Violation { msg, .. }) => println!("violated: {msg}"),
        Err(_) => println!("inconclusive"),
    });
    if t.unwrap().join().is_err() {
        println!("violated: a panic");
    }
}
