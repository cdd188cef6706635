//! The program never changes anything.
use mdv::cli::{Board, Kind};
use mdv::md::{v0_offset, v1_offset};
use mdv::mixed::{self, Super};
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::Sparse;
use std::ffi::OsStr;

fn case(c: &mut Case) -> Verdict {
    if c.index == 0 {
        self_test(c)?;
    }
    let mut b = Board::new(c, "devices");
    let mut set = mixed::generate(c);
    // Hostile members.
    if c.rng.bool() {
        for m in &mut set.members {
            let size = m.storage.size;
            if size < 65536 {
                continue;
            }
            for at in [0, 4096, v1_offset(0, size), v0_offset(size)] {
                for _ in 0..c.rng.below(3) {
                    let v = c.rng.edgy64().to_le_bytes();
                    m.storage.write(at + 8 + c.rng.below(500) * 4, &v);
                }
            }
        }
        c.hit("hostile superblocks");
    }
    b.set(c, &set);
    if c.rng.chance(1, 3) {
        let s = Sparse::garbage(c.rng.scaled(1 << 20), c.rng.u64());
        b.image(&mut c.rng, &s, Super::Missing);
    }
    for _ in 0..c.rng.below(3) {
        b.failing(&mut c.rng);
    }
    let mut order: Vec<usize> = (0..b.items.len()).collect();
    c.rng.shuffle(&mut order);
    if c.rng.bool() {
        order.retain(|i| matches!(b.items[*i].kind, Kind::Opens(_)));
    }
    c.nontrivial();
    for i in &order {
        c.fp_bytes(b.items[*i].path.as_os_str().as_encoded_bytes());
    }
    c.fp(set.plan.seed);
    c.describe(|| format!("{:?} {:?}", set.touched, order.iter().map(|i| b.items[*i].path.file_name()).collect::<Vec<_>>()));
    let r = judge(c, &b, &order);
    b.remove();
    r
}

fn judge(c: &mut Case, b: &Board, order: &[usize]) -> Verdict {
    let output = match c.rng.below(8) {
        0 => Some(b.dir.join("new-output")),
        1 => {
            std::fs::write(b.dir.join("old-output"), c.rng.bytes(5000)).unwrap();
            Some(b.dir.join("old-output"))
        }
        2 if !b.items.is_empty() => Some(c.rng.pick(&b.items).path.clone()),
        _ => None,
    };
    let before = b.snapshot();
    let extra: Vec<&OsStr> = match &output {
        Some(p) => {
            c.hit("runs with an output path");
            vec![OsStr::new("-o"), p.as_os_str()]
        }
        None => vec![],
    };
    let out = b.run(&b.args(&mut c.rng, order), &extra, &[])?;
    let after = b.snapshot();
    for l in &out.log {
        match l.split(' ').next().unwrap_or("") {
            "CALL" => return Err(Stop::v(format!("the program made a system call that changes things (number and arguments): {l}"))),
            "OPEN" => {
                let flags = u32::from_str_radix(l.trim_start_matches("OPEN 0x"), 16).unwrap_or(u32::MAX);
                // O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_APPEND
                mdv::ensure!(flags & (1 | 2 | 0o100 | 0o1000 | 0o2000) == 0, "the program opened a file with flags {flags:#o}");
                c.hit("files opened");
            }
            "READ" => c.hit("reads observed"),
            "SIZE" | "BLOCKSIZE" => c.hit("size queries observed"),
            "FILTER" => c.hit("runs under the system call filter"),
            "NOFILTER" => c.hit("runs without the system call filter"),
            _ => {}
        }
    }
    for (p, a) in &after {
        match before.get(p) {
            None => return Err(Stop::v(format!("{p:?} appeared"))),
            Some(b) => {
                mdv::ensure!(b.1 == a.1, "the content of {p:?} changed from {} to {} bytes", b.1.len(), a.1.len());
                mdv::ensure_eq!(a.0, b.0, "inode number, mode, links, owner, size and times of {p:?}");
            }
        }
        c.hit("files compared");
        c.count("bytes compared", a.1.len() as u64);
    }
    for p in before.keys() {
        mdv::ensure!(after.contains_key(p), "{p:?} is gone");
    }
    Ok(())
}

/// The filter catches what it is there for.
fn self_test(c: &mut Case) -> Verdict {
    let b = Board::new(c, "self-test");
    let out = b.run(&[], &[], &[("MDV_SELFTEST", "1")]);
    b.remove();
    let log = out?.log;
    if log.iter().any(|l| l == "NOFILTER") {
        c.hit("no system call filter here");
        return Ok(());
    }
    let seen: Vec<&str> = log.iter().filter_map(|l| l.strip_prefix("CALL ")).map(|l| l.split(' ').next().unwrap()).collect();
    if seen != ["87", "257", "18", "16", "9", "77"] {
        return Err(Stop::Inconclusive(format!("the system call filter does not work: {log:?}")));
    }
    c.hit("self-test of the system call filter");
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C12",
            rule: "One run of the md-recover program per case, on a set of image files (healthy, altered and hostile members, garbage, paths that cannot be opened), with every system call that could change a file refused and recorded by a filter, every open and read recorded by an interposer, and content and metadata of all files compared afterwards. Non-trivial: all; distinct by set and order.",
            quick: 1500,
            thorough: 40_000,
            required: &["files opened", "reads observed", "size queries observed", "files compared", "bytes compared", "hostile superblocks", "runs with an output path"],
            assumptions: &["Image files with the two size ioctls answered by an interposer stand in for block devices"],
            ..Spec::default()
        },
        case,
    )
}
