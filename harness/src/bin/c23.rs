//! A device that fails never turns into wrong data.
use mdv::ext4::{brief as fs_brief, DirRec, FileRec, Fs, Geo, Limits, Shape};
use mdv::extx::{self, Reader};
use mdv::md::{Member, Plan};
use mdv::mdx::{self, order};
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::block_device::{BlockDevice, BlockDeviceReader};
use mdv::sut::ext4::Ext4Fs;
use mdv::sut::md::{MdArray, MdDeviceSuperblock};
use mdv::{Ctl, Rng, Sparse, TestDevice};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::rc::Rc;

/// What an open member says of itself.
fn identity(d: &mdx::Dev) -> String {
    match d.superblock.as_ref() {
        MdDeviceSuperblock::TooSmall => "too small".into(),
        MdDeviceSuperblock::Missing => "no superblock".into(),
        MdDeviceSuperblock::Superblock(s) => format!(
            "{}.{} {} {:?} {:?} {:?} {:?} {:?} {:?} {} {:?}",
            s.major_version(),
            s.minor_version(),
            s.array_uuid(),
            s.algorithm(),
            s.sectors_per_device(),
            s.chunk_size(),
            s.raid_device_count(),
            s.data_offset(),
            s.event_count(),
            s.device_role_index(),
            s.device_roles()
        ),
    }
}

/// What the calls of a run may do.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// No fault: everything has to work.
    Clean,
    /// Short or interrupted reads: everything has to work all the same.
    Rough,
    /// Calls may fail.
    Faulty,
}

struct Run {
    mode: Mode,
    ctl: Rc<Ctl>,
    errors: u64,
    results: u64,
    what: String,
}

impl Run {
    /// The value, or None if the call may fail and did.
    fn take<T>(&mut self, r: io::Result<T>, what: impl FnOnce() -> String) -> Result<Option<T>, Stop> {
        match r {
            Ok(v) => {
                self.results += 1;
                Ok(Some(v))
            }
            Err(_) if self.mode == Mode::Faulty && self.ctl.faults.get() > 0 => {
                self.errors += 1;
                Ok(None)
            }
            Err(e) => Err(Stop::v(format!("{} failed ({e:?}) with {}", what(), self.what))),
        }
    }
}

fn in_run(v: Verdict, what: &str) -> Verdict {
    v.map_err(|s| match s {
        Stop::Violation { sig, msg } => Stop::Violation { sig, msg: format!("with {what}: {msg}") },
        s => s,
    })
}

struct Work {
    fs: Option<(Fs, Vec<FileRec>, Vec<DirRec>)>,
    array: Option<(Plan, Vec<Member>)>,
    order: Vec<usize>,
    bs: Vec<u32>,
    sectors: Vec<u64>,
    ids: Vec<String>,
    seed: u64,
}

impl Work {
    fn array(&mut self, run: &mut Run) -> Result<Option<MdArray<TestDevice>>, Stop> {
        let (plan, members) = self.array.as_ref().unwrap();
        let mut devs = vec![];
        for i in &self.order {
            let d = mdx::open_dev(members[*i].storage.clone(), self.bs[*i], &run.ctl);
            let Some(d) = run.take(d, || format!("opening member {i}"))? else {
                return Ok(None);
            };
            let id = identity(&d);
            if run.mode == Mode::Clean {
                mdv::ensure!(id != "no superblock" && id != "too small", "harness: member {i} has {id}");
                if self.ids.len() < self.order.len() {
                    self.ids.push(id);
                }
            } else {
                let at = devs.len();
                mdv::ensure!(
                    self.ids[at] == id,
                    "with {}: member {i} of {} was opened as {id:.200}, it is {:.200}",
                    run.what,
                    mdx::brief(plan),
                    self.ids[at]
                );
            }
            devs.push(d);
        }
        Ok(Some(MdArray::open(devs)))
    }

    /// The bytes of a device, as far as it goes.
    fn bytes(&self, run: &mut Run, data: &Sparse, bs: u32, from: u64, n: u64) -> Verdict {
        let end = data.size / u64::from(bs) * u64::from(bs);
        let mut reader = BlockDeviceReader::new(TestDevice::new(data.clone(), bs, &run.ctl));
        let mut all = vec![];
        let r = reader.seek(SeekFrom::Start(from)).and_then(|_| reader.take(n).read_to_end(&mut all));
        if run.take(r, || format!("reading {n} bytes at {from} of a device of {end}"))?.is_some() {
            let want = data.get(from, n.min(end.saturating_sub(from)) as usize);
            mdv::ensure!(
                all == want,
                "with {}: {} bytes read at {from} of a device of {end} in blocks of {bs} as if they were all, or wrong, of {}",
                run.what, all.len(), want.len()
            );
        }
        Ok(())
    }

    fn md(&mut self, run: &mut Run) -> Verdict {
        for (i, m) in self.array.as_ref().unwrap().1.iter().enumerate().take(2) {
            let bs = self.bs[i];
            let from = match self.seed % 4 {
                0 => 0,
                1 => m.storage.size.saturating_sub(700),
                _ => self.seed % (m.storage.size + 1),
            };
            self.bytes(run, &m.storage, bs, from, 1500)?;
        }
        let Some(mut array) = self.array(run)? else { return Ok(()) };
        let plan = &self.array.as_ref().unwrap().0;
        if let Some(n) = run.take(array.block_count(), || "the capacity".into())? {
            mdv::ensure_eq!(n.0, plan.sectors(), "with {}: capacity of {}", run.what, mdx::brief(plan));
        }
        for s in &self.sectors {
            let r = mdx::read(&mut array, *s);
            if let Some(b) = run.take(r, || format!("reading sector {s}"))? {
                in_run(mdx::same_sector(plan, *s, &b, "read"), &run.what)?;
            }
        }
        // Byte-wise, to what should be the end.
        for s in self.sectors.iter().take(2) {
            let Some(mut reader) = run.take(array.try_clone(), || "cloning the array".into())?.map(BlockDeviceReader::new) else {
                continue;
            };
            let mut all = vec![];
            let r = reader
                .seek(SeekFrom::Start(s * 512))
                .and_then(|_| reader.take(512).read_to_end(&mut all));
            if run.take(r, || format!("reading sector {s} byte-wise"))?.is_some() {
                mdv::ensure_eq!(all.len(), 512, "with {}: bytes of sector {s} read byte-wise", run.what);
                in_run(mdx::same_sector(plan, *s, &all, "read byte-wise"), &run.what)?;
            }
        }
        if run.mode == Mode::Faulty {
            // The same array, when the fault is over.
            run.ctl.fail.set(None);
            for s in &self.sectors {
                let b = mdx::must(mdx::read(&mut array, *s), &format!("reading sector {s} after {}", run.what))?;
                in_run(mdx::same_sector(plan, *s, &b, "read after the fault"), &run.what)?;
            }
        }
        Ok(())
    }

    fn files<D: BlockDevice + Read + Seek>(&self, dev: D, run: &mut Run) -> Verdict {
        let (fs, files, dirs) = self.fs.as_ref().unwrap();
        let Some(mut sut) = run.take(Ext4Fs::open(dev), || format!("opening {}", fs_brief(&fs.geo)))? else {
            return Ok(());
        };
        let mut rng = Rng::new(self.seed);
        if run.take(sut.read_root_inode(), || "reading the root inode".into())?.is_none() {
            // Later calls have their own result.
        }
        for f in files {
            let r = extx::ext4_file(&mut sut, f.ino);
            let Some(_) = run.take(r, || format!("opening inode {}", f.ino))? else { continue };
            // Opens it once more, which may fail now.
            let mut r = match in_result(Reader::new(&mut sut, fs, f), run)? {
                Some(r) => r,
                None => continue,
            };
            let mut after = 0;
            while !r.done && after < 3 {
                let what = format!("reading block {} of inode {}", r.block, f.ino);
                let got = r.step(&mut rng).map_err(|s| label(s, &run.what))?;
                if run.take(got, || what)?.is_none() {
                    after += 1;
                }
            }
        }
        for d in dirs {
            let mut open = match in_result(extx::directory(&mut sut, d.file.ino), run)? {
                Some(d) => d,
                None => continue,
            };
            let (mut at, mut after) = (0, 0);
            while after < 3 {
                let got = extx::entry(&mut open);
                match run.take(got, || format!("listing inode {} at entry {at}", d.file.ino))? {
                    None => after += 1,
                    Some(e) => {
                        let end = extx::check_entry(d, at, e).map_err(|s| label(s, &run.what))?;
                        if end {
                            break;
                        }
                        at += 1;
                    }
                }
            }
        }
        if run.mode == Mode::Faulty {
            run.ctl.fail.set(None);
            for f in files.iter().take(1) {
                let v = Reader::new(&mut sut, fs, f).and_then(|mut r| r.finish(&mut rng));
                in_run(v, &format!("{} over", run.what))?;
            }
            for d in dirs.iter().take(1) {
                in_run(extx::list(&mut sut, d), &format!("{} over", run.what))?;
            }
        }
        Ok(())
    }

    fn go(&mut self, run: &mut Run, bs: u32) -> Verdict {
        if self.fs.is_none() {
            return self.md(run);
        }
        if self.array.is_some() {
            let Some(array) = self.array(run)? else { return Ok(()) };
            return self.files(BlockDeviceReader::new(array), run);
        }
        let data = self.fs.as_ref().unwrap().0.data.clone();
        let len = data.size;
        let dev = TestDevice::new(data, bs, &run.ctl);
        if self.seed % 3 == 0 && len % u64::from(bs) == 0 {
            return self.files(BlockDeviceReader::new(dev), run);
        }
        self.files(dev, run)
    }
}

fn label(s: Stop, what: &str) -> Stop {
    in_run(Err(s), what).unwrap_err()
}

/// Adapters turn errors into violations; here an error is no violation while
/// faults are delivered, but opening as the wrong thing is.
fn in_result<T>(r: Result<T, Stop>, run: &mut Run) -> Result<Option<T>, Stop> {
    match r {
        Ok(v) => {
            run.results += 1;
            Ok(Some(v))
        }
        Err(Stop::Violation { msg, .. }) if run.mode == Mode::Faulty && run.ctl.faults.get() > 0 && msg.contains("failed: ") => {
            run.errors += 1;
            Ok(None)
        }
        Err(s) => Err(label(s, &run.what)),
    }
}

fn case(c: &mut Case) -> Verdict {
    let which = c.index % 3;
    let mut w = Work { fs: None, array: None, order: vec![], bs: vec![], sectors: vec![], ids: vec![], seed: c.rng.u64() };
    if which > 0 {
        let lim = if which == 2 { Limits { bytes: 1 << 26, groups: 4, log_bs: 1, max_isize: 512 } } else { Limits { groups: 8, ..Limits::ANY } };
        let geo = Geo::random(&mut c.rng, lim);
        let mut fs = Fs::new(&mut c.rng, geo);
        let (mut files, mut dirs) = (vec![], vec![]);
        let cap = if which == 2 { 4 } else { 12 };
        for _ in 0..1 + c.rng.below(2) {
            let max = extx::max_blocks(c, &fs, 1 << 14).min(cap);
            let shape = Shape::random(&mut c.rng, max);
            files.extend(fs.make_file(&mut c.rng, &shape));
        }
        let n = c.rng.usize_below(if which == 2 { 20 } else { 80 });
        let entries = fs.random_entries(&mut c.rng, n);
        let ino = c.rng.bool().then_some(2);
        let tidy = c.rng.bool();
        dirs.extend(fs.make_dir(&mut c.rng, ino, entries, tidy));
        if !dirs.iter().any(|d| d.file.ino == 2) {
            dirs.extend(fs.make_dir(&mut c.rng, Some(2), vec![], true));
        }
        if !dirs.iter().any(|d| d.file.ino == 2) {
            return Ok(());
        }
        c.fp(fs.geo.bs << 40 | u64::from(fs.geo.groups) << 20 | u64::from(fs.geo.ipg));
        w.fs = Some((fs, files, dirs));
    }
    if which != 1 {
        let mut plan = Plan::random(&mut c.rng, 6, 1 << 12);
        while plan.n + plan.spares > 9 {
            plan = Plan::random(&mut c.rng, 6, 1 << 12);
        }
        let mut members;
        if let Some((fs, ..)) = &w.fs {
            let stripe = u64::from(plan.chunk) * plan.data_disks();
            plan.per_dev = fs.geo.size().div_ceil(512).div_ceil(stripe) * u64::from(plan.chunk);
            members = plan.striped(&fs.data);
        } else {
            members = plan.members();
            for row in mdx::pick_rows(&mut c.rng, &plan, 5) {
                plan.write_row(&mut members, row);
                w.sectors.push(c.rng.pick(&mdx::logical(&plan, row).collect::<Vec<_>>()).to_owned());
            }
        }
        w.order = order(&mut c.rng, members.len());
        w.bs = mdx::block_sizes(&mut c.rng, members.len());
        mdx::describe_plan(c, &plan);
        w.array = Some((plan, members));
    }
    let kind = ["RAID6 array", "ext4 file system", "ext4 file system on an array"][which as usize];
    c.hit_dyn(format!("workload: {kind}"));
    c.nontrivial();
    let bs = extx::bs(&mut c.rng);
    let run = |w: &mut Work, mode: Mode, ctl: &Rc<Ctl>, what: String| -> Result<(u64, u64), Stop> {
        let mut r = Run { mode, ctl: ctl.clone(), errors: 0, results: 0, what };
        w.go(&mut r, bs)?;
        Ok((r.errors, r.results))
    };
    let ctl = Ctl::new();
    run(&mut w, Mode::Clean, &ctl, "no fault".into())?;
    let ops = ctl.ops.get();
    c.count("device operations of the workloads", ops);
    c.fp(ops);
    let plan = w.array.as_ref().map(|a| mdx::brief(&a.0));
    let geo = w.fs.as_ref().map(|f| fs_brief(&f.0.geo));
    c.describe(|| format!("{kind}, {ops} device operations; {geo:?} {plan:?}"));
    // Short and interrupted reads.
    for n in 0..3u64 {
        let ctl = Ctl::new();
        if n != 1 {
            *ctl.short.borrow_mut() = Some(Rng::new(c.rng.u64()));
        }
        if n != 0 {
            *ctl.eintr.borrow_mut() = Some(Rng::new(c.rng.u64()));
        }
        run(&mut w, Mode::Rough, &ctl, ["short reads", "interrupted reads", "short and interrupted reads"][n as usize].into())?;
        c.count("short reads delivered", ctl.shortened.get());
        c.count("interruptions delivered", ctl.interrupted.get());
    }
    // Every operation fails in turn.
    let (most, work) = if c.thorough { (120, 8_000_000) } else { (60, 8_000_000) };
    let cap = (work / ops.max(1)).clamp(20, most);
    let points: Vec<u64> = if ops <= cap {
        (0..ops).collect()
    } else {
        let mut p: Vec<u64> = (0..10).collect();
        p.extend((10..cap).map(|_| c.rng.below(ops)));
        p
    };
    if ops <= cap {
        c.hit("workloads with every operation failed");
    }
    for k in points {
        let fault = *c.rng.pick(&[
            ErrorKind::Other,
            ErrorKind::TimedOut,
            ErrorKind::UnexpectedEof,
            ErrorKind::PermissionDenied,
            ErrorKind::NotFound,
            ErrorKind::WouldBlock,
            ErrorKind::BrokenPipe,
            ErrorKind::InvalidInput,
            ErrorKind::Interrupted,
        ]);
        // An interruption that never ends may be retried for ever.
        let (until, how) = match c.rng.below(3) {
            _ if fault == ErrorKind::Interrupted => (k + 1, "once"),
            0 => (k + 1, "once"),
            1 => (k + 2 + c.rng.below(20), "for a while"),
            _ => (u64::MAX, "for good"),
        };
        let ctl = Ctl::new();
        ctl.fail.set(Some((k, until)));
        ctl.fail_kind.set(fault);
        ctl.set_budget(4 * ops + 1000);
        let (errors, results) = run(&mut w, Mode::Faulty, &ctl, format!("device operation {k} of {ops} failing {how} with {fault:?}"))?;
        mdv::ensure!(ctl.faults.get() > 0, "harness: no fault was delivered at {k} of {ops}");
        c.hit("faults injected");
        c.hit_dyn(format!("{fault:?}"));
        c.hit_dyn(format!("failing {how}"));
        c.count("calls that reported the error", errors);
        c.count("calls that gave the right result", results);
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C23",
            level: "fault_enumeration",
            rule: "One workload per case (opening and reading a RAID6 array; opening, reading and listing an ext4 file system; the latter on the former), run without faults, with short and interrupted reads, and then with device operations failing from each point in turn (each if there are at most 60, otherwise the first ten and 50 random ones), once, for a while or for good, with nine kinds of error. Every result of every call is compared with what is stored. Non-trivial: all; distinct by geometry and number of operations.",
            quick: 900,
            thorough: 22_500,
            case_cpu_s: 180,
            required: &[
                "faults injected", "workloads with every operation failed", "short reads delivered", "interruptions delivered",
                "calls that reported the error", "calls that gave the right result",
            ],
            assumptions: &["Devices report failures with kinds of error other than InvalidData, as operating systems do"],
            ..Spec::default()
        },
        case,
    )
}
