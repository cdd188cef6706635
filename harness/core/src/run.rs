//! The runner every check shares.
//!
//! A check is a function from a seeded `Case` to a verdict. The runner forks a
//! worker process (so that an abort, a stack overflow or runaway memory in the
//! code under test cannot take the verdict with it), runs the cases on all
//! cores, and turns what happened into exactly one of: held on everything
//! explored (exit 0), violated (exit 1 and a VIOLATION line), inconclusive
//! (exit 2).
use crate::rng::{mix, Fnv, Rng};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// Number of cases per tier.
    pub quick: u64,
    pub thorough: u64,
    /// Coverage counters that must be non-zero, or the run observed too little
    /// to say anything and is inconclusive.
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// CPU seconds one case may use before it counts as not making progress
    /// (normal cases use well under a second).
    pub case_cpu_s: u64,
    pub max_threads: usize,
}

impl Default for Spec {
    fn default() -> Self {
        Spec {
            id: "",
            level: "exploration",
            rule: "",
            quick: 1000,
            thorough: 20000,
            required: &[],
            assumptions: &[],
            case_cpu_s: 60,
            max_threads: 8,
        }
    }
}

#[derive(Debug)]
pub enum Stop {
    Violation { sig: String, msg: String },
    Inconclusive(String),
}

impl Stop {
    pub fn v(msg: impl Into<String>) -> Stop {
        Stop::Violation {
            sig: String::new(),
            msg: msg.into(),
        }
    }
}

pub type Verdict = Result<(), Stop>;
pub type CaseFn = fn(&mut Case) -> Verdict;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Stop::v(format!($($arg)*)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Stop::v(format!(
                "{}: observed {:?}, expected {:?}", format!($($arg)*), a, b)));
        }
    }};
}

#[derive(Default)]
pub struct Cov {
    counts: BTreeMap<&'static str, u64>,
    dynamic: BTreeMap<String, u64>,
    fps: HashSet<u64>,
    evaluations: u64,
    samples: Vec<(u64, String)>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub scratch: &'a Path,
    cov: &'a mut Cov,
    nontrivial: bool,
    fp: Fnv,
    sample: Option<String>,
}

impl Case<'_> {
    pub fn hit(&mut self, name: &'static str) {
        *self.cov.counts.entry(name).or_default() += 1;
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.cov.counts.entry(name).or_default() += n;
    }
    pub fn hit_dyn(&mut self, name: String) {
        *self.cov.dynamic.entry(name).or_default() += 1;
    }
    /// Something about the case that makes it a different case.
    pub fn fp(&mut self, v: u64) {
        self.fp = self.fp.u64(v);
    }
    pub fn fp_bytes(&mut self, b: &[u8]) {
        self.fp = self.fp.bytes(b);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.verbose || self.index < 4 {
            let s = f();
            if self.verbose {
                println!("case {}: {}", self.index, s);
            }
            self.sample = Some(s);
        }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  {}", f());
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static COIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Whether the clones of this case's devices share one position, as those of a
/// file do.
pub fn like_files() -> bool {
    COIN.get()
}

/// Prefix of a panic that a monitor raises because a budget of device
/// operations ran out: the code under test does not make progress.
pub const BUDGET: &str = "MDV-BUDGET";

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "(non-string panic payload)".into())
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("core/")
        || loc.starts_with("src/")
        || loc.contains("/verif/harness/")
        || loc.starts_with("harness/")
}

/// Runs `f` (calls into the code under test), turning a panic that starts
/// outside the harness into a violation.
pub fn guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((String::new(), payload(p.as_ref())));
            if msg.starts_with(BUDGET) {
                Err(Stop::v(format!("no bounded progress: {msg}")))
            } else if is_harness(&loc) {
                Err(Stop::Inconclusive(format!("harness panic at {loc}: {msg}")))
            } else {
                Err(Stop::v(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

// ---------------------------------------------------------------- main

struct Env {
    seed: u64,
    thorough: bool,
    verif: PathBuf,
}

impl Env {
    fn get() -> Env {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let verif = std::env::var_os("MDV_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from);
        Env {
            seed,
            thorough,
            verif,
        }
    }
    fn tier(&self) -> &'static str {
        if self.thorough {
            "thorough"
        } else {
            "quick"
        }
    }
}

pub fn main(spec: Spec, f: CaseFn) -> ! {
    let env = Env::get();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("--child") => child(&spec, &env, f, Path::new(&args[1]), None),
        Some("--one") => {
            let i = args[2].parse().unwrap();
            child(&spec, &env, f, Path::new(&args[1]), Some(i))
        }
        Some("--replay") => replay(&spec, env, f, &args[1]),
        Some("--case") => {
            let i: u64 = args[1].parse().unwrap();
            run_verbose(&spec, &env, f, i)
        }
        None => parent(&spec, &env),
        Some(a) => {
            eprintln!("unknown argument {a}");
            2
        }
    };
    std::process::exit(code)
}

fn case_rng(spec: &Spec, env: &Env, index: u64) -> Rng {
    Rng::new(mix(&[
        env.seed,
        Fnv::default().bytes(spec.id.as_bytes()).0,
        index,
    ]))
}

fn run_one<'a>(
    spec: &Spec,
    env: &Env,
    f: CaseFn,
    index: u64,
    cov: &'a mut Cov,
    scratch: &'a Path,
    verbose: bool,
) -> Verdict {
    let mut case = Case {
        rng: case_rng(spec, env, index),
        index,
        seed: env.seed,
        thorough: env.thorough,
        verbose,
        scratch,
        cov,
        nontrivial: false,
        fp: Fnv::default(),
        sample: None,
    };
    COIN.set(mix(&[env.seed, 77, index]) & 1 == 1);
    if COIN.get() {
        case.hit("case with devices whose clones share one position, if any");
    }
    let v = guarded(|| f(&mut case));
    let (nt, fp, sample) = (case.nontrivial, case.fp.0, case.sample.take());
    cov.evaluations += 1;
    if nt {
        cov.fps.insert(fp);
    }
    if let Some(mut s) = sample {
        if s.len() > 600 {
            s = s.chars().take(600).collect::<String>() + "...";
        }
        cov.samples.push((index, s));
    }
    v
}

fn run_verbose(spec: &Spec, env: &Env, f: CaseFn, index: u64) -> i32 {
    install_hook();
    let scratch = std::env::temp_dir().join(format!("mdv-{}-{}", spec.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let mut cov = Cov::default();
    let v = run_one(spec, env, f, index, &mut cov, &scratch, true);
    let _ = fs::remove_dir_all(&scratch);
    match v {
        Ok(()) => {
            println!("case {index}: held");
            0
        }
        Err(Stop::Violation { sig, msg }) => {
            println!("case {index}: VIOLATED [{sig}] {msg}");
            1
        }
        Err(Stop::Inconclusive(m)) => {
            println!("case {index}: inconclusive: {m}");
            2
        }
    }
}

fn replay(spec: &Spec, mut env: Env, f: CaseFn, path: &str) -> i32 {
    let text = fs::read_to_string(path).expect("replay file");
    let num = |key: &str| -> Option<u64> {
        let at = text.find(&format!("\"{key}\":"))? + key.len() + 3;
        let rest = text[at..].trim_start();
        let end = rest.find(|c: char| !c.is_ascii_digit())?;
        rest[..end].parse().ok()
    };
    env.seed = num("seed").expect("seed in replay file");
    env.thorough = text.contains("\"tier\": \"thorough\"");
    run_verbose(spec, &env, f, num("case").expect("case in replay file"))
}

// ---------------------------------------------------------------- worker process

const IDLE: u64 = u64::MAX;

struct Slot {
    case: AtomicU64,
    cpu_start_ms: AtomicU64,
    tid: AtomicU64,
}

fn thread_cpu_ms(pthread: libc::pthread_t) -> Option<u64> {
    unsafe {
        let mut clock: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(pthread, &mut clock) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000)
    }
}

fn limit(resource: libc::__rlimit_resource_t, v: u64) {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: v,
            rlim_max: v,
        };
        libc::setrlimit(resource, &l);
    }
}

const HANG: i32 = 98;

fn child(spec: &Spec, env: &Env, f: CaseFn, dir: &Path, only: Option<u64>) -> i32 {
    limit(libc::RLIMIT_CORE, 0);
    if std::env::var_os("MDV_NO_RLIMIT").is_none() {
        limit(libc::RLIMIT_AS, 6 << 30);
    }
    install_hook();
    let start = Instant::now();
    let wall = Duration::from_secs(if env.thorough { 1500 } else { 400 });
    let total = match only {
        Some(_) => 1,
        None => {
            let scale: f64 = std::env::var("MDV_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0);
            let n = if env.thorough { spec.thorough } else { spec.quick };
            ((n as f64 * scale) as u64).max(1)
        }
    };
    let threads = if only.is_some() {
        1
    } else {
        std::thread::available_parallelism()
            .map_or(4, |n| n.get())
            .min(spec.max_threads)
            .min(total as usize)
            .max(1)
    };
    let inflight = fs::File::create(dir.join("inflight")).unwrap();
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            case: AtomicU64::new(IDLE),
            cpu_start_ms: AtomicU64::new(0),
            tid: AtomicU64::new(0),
        })
        .collect();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let bad: Mutex<Vec<(u64, Stop)>> = Mutex::new(vec![]);
    let known: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let known_sigs = known_findings(env, spec.id);
    let cov_all: Mutex<Cov> = Mutex::new(Cov::default());
    let cut = AtomicBool::new(false);

    std::thread::scope(|s| {
        for t in 0..threads {
            let (slots, next, stop, done, bad, cov_all, inflight, cut, known, known_sigs) = (
                &slots, &next, &stop, &done, &bad, &cov_all, &inflight, &cut, &known, &known_sigs,
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let me = unsafe { libc::pthread_self() };
                    slots[t].tid.store(me as u64, SeqCst);
                    let scratch = dir.join(format!("t{t}"));
                    fs::create_dir_all(&scratch).unwrap();
                    let mut cov = Cov::default();
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        if start.elapsed() > wall {
                            cut.store(true, SeqCst);
                            break;
                        }
                        let n = next.fetch_add(1, SeqCst);
                        if n >= total {
                            break;
                        }
                        let i = only.unwrap_or(n);
                        slots[t]
                            .cpu_start_ms
                            .store(thread_cpu_ms(me).unwrap_or(0), SeqCst);
                        slots[t].case.store(i, SeqCst);
                        mark(inflight, t, i + 1);
                        let v = run_one(spec, env, f, i, &mut cov, &scratch, false);
                        mark(inflight, t, 0);
                        slots[t].case.store(IDLE, SeqCst);
                        match v {
                            Ok(()) => {}
                            Err(Stop::Violation { sig, msg })
                                if !sig.is_empty() && known_sigs.contains(&sig) =>
                            {
                                known.lock().unwrap().entry(sig).or_insert((i, msg));
                            }
                            Err(e) => {
                                bad.lock().unwrap().push((i, e));
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    let mut all = cov_all.lock().unwrap();
                    all.evaluations += cov.evaluations;
                    for (k, v) in cov.counts {
                        *all.counts.entry(k).or_default() += v;
                    }
                    for (k, v) in cov.dynamic {
                        *all.dynamic.entry(k).or_default() += v;
                    }
                    all.fps.extend(cov.fps);
                    all.samples.extend(cov.samples);
                    drop(all);
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // Watchdog: CPU time, not wall time, so a loaded machine raises nothing.
        while done.load(SeqCst) < threads as u64 {
            std::thread::sleep(Duration::from_millis(20));
            for slot in &slots {
                let case = slot.case.load(SeqCst);
                let tid = slot.tid.load(SeqCst);
                if case == IDLE || tid == 0 {
                    continue;
                }
                let begun = slot.cpu_start_ms.load(SeqCst);
                if let Some(now) = thread_cpu_ms(tid as libc::pthread_t) {
                    if slot.case.load(SeqCst) == case
                        && slot.cpu_start_ms.load(SeqCst) == begun
                        && now.saturating_sub(begun) > spec.case_cpu_s * 1000
                    {
                        let _ = fs::write(dir.join("hang"), case.to_string());
                        unsafe { libc::_exit(HANG) }
                    }
                }
            }
        }
    });

    let cov = cov_all.into_inner().unwrap();
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|(i, _)| *i);
    let violation = bad
        .iter()
        .find(|(_, s)| matches!(s, Stop::Violation { .. }));
    let missing: Vec<&str> = spec
        .required
        .iter()
        .copied()
        .filter(|k| cov.counts.get(k).copied().unwrap_or(0) == 0)
        .collect();
    let (code, status) = if let Some((i, Stop::Violation { sig, msg })) = violation {
        (1, format!("violation\n{i}\n{sig}\n{msg}"))
    } else if let Some((i, Stop::Inconclusive(m))) = bad.first() {
        (2, format!("inconclusive\ncase {i}: {m}"))
    } else if only.is_none() && !missing.is_empty() && !shipped() {
        (
            2,
            format!("inconclusive\nnothing observed for {}", missing.join(", ")),
        )
    } else {
        (0, "held\n".to_string())
    };
    if only.is_none() {
        if shipped() {
            println!("cases in the shipped build: {}", cov.evaluations);
        }
        for (sig, (i, msg)) in known.into_inner().unwrap() {
            println!(
                "KNOWN-FINDING: property={} [{sig}] case {i}: {}",
                spec.id,
                first_line(&msg)
            );
        }
        write_evidence(
            spec,
            env,
            &cov,
            start.elapsed(),
            (code == 1) as u64,
            threads,
            cut.load(SeqCst),
            &missing,
        );
    }
    fs::write(dir.join("status"), status).unwrap();
    code
}

fn mark(file: &fs::File, slot: usize, v: u64) {
    unsafe {
        libc::pwrite(
            file.as_raw_fd(),
            (&v as *const u64).cast(),
            8,
            (slot * 8) as libc::off_t,
        );
    }
}

// ---------------------------------------------------------------- parent process

fn parent(spec: &Spec, env: &Env) -> i32 {
    let dir = std::env::temp_dir().join(format!("mdv-{}-{}", spec.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let _ = fs::create_dir_all(env.verif.join("evidence"));
    let start = Instant::now();
    let code = supervise(spec, env, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    code
}

struct Ended {
    code: Option<i32>,
    signal: Option<i32>,
    timed_out: bool,
}

fn spawn(dir: &Path, args: &[String], secs: u64) -> Ended {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stderr(fs::File::create(dir.join("stderr")).unwrap())
        .spawn()
        .unwrap();
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return Ended {
                code: st.code(),
                signal: st.signal(),
                timed_out: false,
            };
        }
        if Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            return Ended {
                code: None,
                signal: None,
                timed_out: true,
            };
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn supervise(spec: &Spec, env: &Env, dir: &Path, start: Instant) -> i32 {
    let d = dir.to_string_lossy().into_owned();
    let wall = if env.thorough { 3000 } else { 700 };
    let e = spawn(dir, &["--child".into(), d.clone()], wall);
    let status = fs::read_to_string(dir.join("status")).unwrap_or_default();
    let mut lines = status.lines();
    match (lines.next(), e.code) {
        (Some("held"), Some(0)) => {
            println!(
                "{}: held on everything explored ({} tier, seed {}, {:.1} s); evidence/{}.json",
                spec.id,
                env.tier(),
                env.seed,
                start.elapsed().as_secs_f64(),
                spec.id
            );
            0
        }
        (Some("violation"), Some(1)) => {
            let case = lines.next().unwrap_or("0").parse().unwrap_or(0);
            let sig = lines.next().unwrap_or("").to_string();
            let msg = lines.collect::<Vec<_>>().join("\n");
            report(spec, env, case, &sig, &msg)
        }
        (Some("inconclusive"), _) => {
            println!(
                "{}: INCONCLUSIVE: {}",
                spec.id,
                lines.collect::<Vec<_>>().join(" ")
            );
            2
        }
        _ => {
            if e.timed_out {
                println!("{}: INCONCLUSIVE: the worker did not finish in {wall} s", spec.id);
                return 2;
            }
            died(spec, env, dir, &d, e, start)
        }
    }
}

/// The worker process itself died. Re-run the cases that were in flight, each
/// alone in a process of its own; only a death that repeats is a violation.
fn died(spec: &Spec, env: &Env, dir: &Path, d: &str, e: Ended, start: Instant) -> i32 {
    let mut cases: Vec<u64> = if e.code == Some(HANG) {
        fs::read_to_string(dir.join("hang"))
            .ok()
            .and_then(|s| s.parse().ok())
            .into_iter()
            .collect()
    } else {
        fs::read(dir.join("inflight"))
            .unwrap_or_default()
            .chunks_exact(8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .filter(|v| *v != 0)
            .map(|v| v - 1)
            .collect()
    };
    cases.dedup();
    let first_err = tail(&dir.join("stderr"));
    for case in cases.iter().copied() {
        let mut seen = Vec::new();
        for _ in 0..2 {
            let _ = fs::remove_file(dir.join("status"));
            let r = spawn(
                dir,
                &["--one".into(), d.to_string(), case.to_string()],
                spec.case_cpu_s * 5 + 60,
            );
            let what = if r.code == Some(HANG) {
                format!(
                    "no bounded progress: the case used more than {} s of CPU",
                    spec.case_cpu_s
                )
            } else if let Some(s) = r.signal.filter(|s| *s != libc::SIGKILL) {
                format!("the process died with signal {s}: {}", tail(&dir.join("stderr")))
            } else if r.code == Some(1) {
                fs::read_to_string(dir.join("status")).unwrap_or_default()
            } else {
                break;
            };
            seen.push(what);
        }
        if seen.len() == 2 {
            let msg = seen[0].trim_start_matches("violation\n").to_string();
            let cov = Cov {
                evaluations: case + 1,
                ..Cov::default()
            };
            write_evidence(spec, env, &cov, start.elapsed(), 1, 1, true, &[]);
            return report(spec, env, case, "", &msg);
        }
    }
    println!(
        "{}: INCONCLUSIVE: the worker ended with code {:?} signal {:?} (cases {cases:?}): {}",
        spec.id, e.code, e.signal, first_err
    );
    2
}

fn tail(p: &Path) -> String {
    let s = fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).replace('\n', " ");
    let n = s.len().saturating_sub(600);
    let n = (n..s.len()).find(|i| s.is_char_boundary(*i)).unwrap_or(0);
    s[n..].to_string()
}

fn report(spec: &Spec, env: &Env, case: u64, sig: &str, msg: &str) -> i32 {
    let dir = env.verif.join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{case}.json", spec.id, env.tier(), env.seed));
    let _ = fs::write(
        &path,
        format!(
            "{{\n \"property\": {},\n \"seed\": {},\n \"tier\": \"{}\",\n \"case\": {},\n \"build\": {},\n \"signature\": {},\n \"observed\": {},\n \"replay\": {}\n}}\n",
            quote(spec.id),
            env.seed,
            env.tier(),
            case,
            quote(if shipped() { "shipped" } else { "debug" }),
            quote(sig),
            quote(msg),
            quote(&format!("./check.sh {} --replay {}", spec.id, path.display()))
        ),
    );
    println!("{}: case {case}: {msg}", spec.id);
    println!("VIOLATION property={} replay={}", spec.id, path.display());
    1
}

/// Whether this is the build that users have, which runs a part of the cases.
pub fn shipped() -> bool {
    std::env::var_os("MDV_BUILD").is_some_and(|b| b == "shipped")
}

fn known_findings(env: &Env, id: &str) -> HashSet<String> {
    // One per line: "known: property=C06 sig=<signature> <what fails>".
    // "fixed:" lines suppress nothing.
    fs::read_to_string(env.verif.join("KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (p, rest) = rest.split_once(' ')?;
            let sig = rest.strip_prefix("sig=")?.split(' ').next()?;
            (p == id).then(|| sig.to_string())
        })
        .collect()
}

fn first_line(s: &str) -> &str {
    s.lines().next().unwrap_or("")
}

// ---------------------------------------------------------------- evidence

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    spec: &Spec,
    env: &Env,
    cov: &Cov,
    wall: Duration,
    violations: u64,
    threads: usize,
    cut: bool,
    missing: &[&str],
) {
    let mut samples = cov.samples.clone();
    samples.sort();
    samples.truncate(4);
    let list = |xs: Vec<String>| xs.join(", ");
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{{}}},\n  \"observed_kinds\": {{{}}},\n  \"required_but_unseen\": [{}],\n  \"cases_in_the_shipped_build_too\": {},\n  \"cut_short_by_deadline\": {},\n  \"threads\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        quote(spec.id),
        env.tier(),
        env.seed,
        spec.level,
        cov.evaluations,
        cov.fps.len(),
        quote(spec.rule),
        list(samples.iter().map(|(i, s)| quote(&format!("case {i}: {s}"))).collect()),
        list(cov.counts.iter().map(|(k, v)| format!("{}: {v}", quote(k))).collect()),
        list(cov.dynamic.iter().map(|(k, v)| format!("{}: {v}", quote(k))).collect()),
        list(missing.iter().map(|s| quote(s)).collect()),
        std::env::var("MDV_SHIPPED").ok().and_then(|n| n.trim().parse::<u64>().ok()).unwrap_or(0),
        cut,
        threads,
        list(spec.assumptions.iter().map(|s| quote(s)).collect()),
        wall.as_secs_f64(),
        violations
    );
    let path = env.verif.join("evidence").join(format!("{}.json", spec.id));
    let tmp = path.with_extension("json.tmp");
    if let Ok(mut f) = fs::File::create(&tmp) {
        let _ = f.write_all(o.as_bytes());
        let _ = fs::rename(&tmp, &path);
    }
}
