//! Runs the md-recover program itself on image files (C12, C13).
use crate::mixed::{Set, Super};
use crate::run::{Case, Stop, Verdict};
use mdv_core::rng::Rng;
use mdv_core::sparse::Sparse;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, FileExt, MetadataExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Kind {
    Opens(Super),
    Fails(&'static str),
}

#[derive(Clone, Debug)]
pub struct Item {
    /// Appears in the file's path and nowhere else; empty for a path that is as it is.
    pub token: String,
    pub path: PathBuf,
    pub kind: Kind,
}

pub struct Board {
    pub dir: PathBuf,
    pub items: Vec<Item>,
}

pub struct Output {
    pub status: std::process::ExitStatus,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub log: Vec<String>,
}

/// A legal file name that says which file it is.
fn name(r: &mut Rng, token: &str, suffix: &str) -> OsString {
    let odd: &[&[u8]] = &[b"", b"", b"", b" a b", b"'", b"\"q\"", b"\n", b"\xff\xfe", b"\xc3\xa9", b"$(x)", b"\\", b"\x1b[0m", b": ", b"#{}", b"*"];
    let mut n = vec![];
    n.extend_from_slice(*r.pick(odd));
    n.extend_from_slice(token.as_bytes());
    n.extend_from_slice(*r.pick(odd));
    n.extend_from_slice(suffix.as_bytes());
    OsString::from_vec(n)
}

fn write(path: &Path, s: &Sparse) {
    let f = fs::File::create(path).unwrap();
    f.set_len(s.size).unwrap();
    for page in s.pages_written() {
        if page < s.size {
            let n = (s.size - page).min(4096) as usize;
            f.write_all_at(&s.get(page, n), page).unwrap();
        }
    }
}

impl Board {
    pub fn new(c: &Case, what: &str) -> Board {
        let dir = c.scratch.join(what);
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        Board { dir, items: vec![] }
    }

    fn token(&self) -> String {
        format!("dev{:03}x", self.items.len())
    }

    fn add(&mut self, r: &mut Rng, suffix: &str, kind: Kind) -> PathBuf {
        let token = self.token();
        let mut path = self.dir.join(name(r, &token, suffix));
        if r.chance(1, 6) {
            // The directory's name says which it is, and the file's is that of others.
            path = self.dir.join(name(r, &token, ""));
            fs::create_dir(&path).unwrap();
            path.push(format!("image{suffix}"));
        }
        self.items.push(Item { token, path: path.clone(), kind });
        path
    }

    pub fn image(&mut self, r: &mut Rng, s: &Sparse, what: Super) {
        // A block size has to divide the size, as block devices' does.
        let bs: Vec<_> = [("", 512), ("", 512), (".bs512", 512), (".bs1024", 1024), (".bs4096", 4096)]
            .into_iter()
            .filter(|(_, b)| s.size % b == 0)
            .map(|b| b.0)
            .collect();
        let bs = if bs.is_empty() { "" } else { *r.pick(&bs) };
        let odd = *r.pick(&["", "", "", ".short", ".eintr"]);
        let suffix = format!("{bs}{odd}");
        let path = self.add(r, &suffix, Kind::Opens(what.clone()));
        if !r.chance(1, 6) {
            return write(&path, s);
        }
        // Links to it, each a device of its own.
        let real = self.dir.join(format!("real{}{suffix}", self.items.len()));
        write(&real, s);
        let link = |r: &mut Rng, path: PathBuf| {
            if r.chance(2, 3) {
                symlink(&real, path).unwrap();
            } else {
                fs::hard_link(&real, path).unwrap();
            }
        };
        link(r, path);
        if r.bool() {
            let path = self.add(r, &suffix, Kind::Opens(what));
            link(r, path);
        }
    }

    /// A path that looks like something else, and that cannot be opened as a device.
    pub fn odd(&mut self, r: &mut Rng) {
        let path = *r.pick(&["-", "-", "--", "-h", "--help", "-V", "-o", "--output=x", "@x", "~", "*", "$HOME", ".", "..", "/", "//"]);
        self.items.push(Item { token: String::new(), path: path.into(), kind: Kind::Fails("odd") });
    }

    pub fn set(&mut self, c: &mut Case, set: &Set) {
        for (m, s) in set.members.iter().zip(&set.supers) {
            self.image(&mut c.rng, &m.storage, s.clone());
        }
    }

    /// Something that cannot be opened as a device.
    pub fn failing(&mut self, r: &mut Rng) -> &'static str {
        let what = *r.pick(&["missing", "directory", "dangling link", "link loop", "below a file", "character device", "not a block device", "not permitted", "unreadable", "name too long"]);
        match what {
            "missing" => {
                self.add(r, "", Kind::Fails(what));
            }
            "directory" => fs::create_dir(self.add(r, "", Kind::Fails(what))).unwrap(),
            "dangling link" => symlink("nowhere", self.add(r, "", Kind::Fails(what))).unwrap(),
            "link loop" => {
                let p = self.add(r, "", Kind::Fails(what));
                symlink(p.file_name().unwrap(), &p).unwrap();
            }
            "below a file" => {
                let p = self.add(r, "", Kind::Fails(what));
                fs::write(&p, b"x").unwrap();
                self.items.last_mut().unwrap().path = p.join("x");
            }
            "character device" => symlink("/dev/null", self.add(r, "", Kind::Fails(what))).unwrap(),
            "not a block device" => fs::write(self.add(r, ".noioctl", Kind::Fails(what)), [0; 20000]).unwrap(),
            "not permitted" => fs::write(self.add(r, ".eacces", Kind::Fails(what)), [0; 20000]).unwrap(),
            "unreadable" => {
                let n = 12288 + r.below(200_000);
                write(&self.add(r, ".eio", Kind::Fails(what)), &Sparse::new(n / 512 * 512));
            }
            _ => {
                let p = self.add(r, "", Kind::Fails(what));
                let long: String = "n".repeat(300);
                let token = &self.items.last().unwrap().token;
                let token = if p.parent() == Some(&self.dir) { token } else { "" };
                self.items.last_mut().unwrap().path = p.with_file_name(format!("{token}{long}"));
            }
        }
        what
    }

    /// Paths as given on the command line: absolute, or relative to the directory.
    pub fn args(&self, r: &mut Rng, order: &[usize]) -> Vec<OsString> {
        let arg = |i: &usize| {
            let p = &self.items[*i].path;
            if self.items[*i].token.is_empty() {
                return p.clone().into_os_string();
            }
            match r.below(3) {
                0 => p.strip_prefix(&self.dir).unwrap().into(),
                1 => Path::new(".").join(p.strip_prefix(&self.dir).unwrap()).into_os_string(),
                _ => p.clone().into_os_string(),
            }
        };
        order.iter().map(arg).collect()
    }

    pub fn run(&self, paths: &[OsString], extra: &[&OsStr], env: &[(&str, &str)]) -> Result<Output, Stop> {
        let root = PathBuf::from(std::env::var_os("MDV_ROOT").expect("MDV_ROOT"));
        let log = self.dir.with_extension("log");
        let _ = fs::remove_file(&log);
        let mut cmd = Command::new(root.join(".build/target").join(if crate::run::shipped() { "shipped" } else { "debug" }).join("md-recover"));
        cmd.current_dir(&self.dir)
            .env_clear()
            .env("LD_PRELOAD", root.join(".build/libmdvpreload.so"))
            .env("MDV_LOG", &log)
            .envs(env.iter().copied())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .args(extra);
        // Only needed before what looks like an option.
        if paths.len() % 2 == 0 || paths.iter().any(|p| p.as_bytes().starts_with(b"-") && p != "-") {
            cmd.arg("--");
        }
        cmd.args(paths);
        let mut child = cmd.spawn().map_err(|e| Stop::Inconclusive(format!("md-recover did not start: {e}")))?;
        fn drain(mut from: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
            std::thread::spawn(move || {
                let mut b = vec![];
                let _ = from.by_ref().take(64 << 20).read_to_end(&mut b);
                b
            })
        }
        let out = drain(child.stdout.take().unwrap());
        let err = drain(child.stderr.take().unwrap());
        let start = Instant::now();
        let mut nap = Duration::from_micros(300);
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s;
            }
            if start.elapsed() > Duration::from_secs(120) {
                let _ = child.kill();
                let _ = child.wait();
                return Err(Stop::v(format!("md-recover did not finish in two minutes: {cmd:?}")));
            }
            std::thread::sleep(nap);
            nap = (nap * 3 / 2).min(Duration::from_millis(20));
        };
        let (stdout, stderr) = (out.join().unwrap(), err.join().unwrap());
        let log = fs::read_to_string(&log).unwrap_or_default().lines().map(String::from).collect::<Vec<_>>();
        if log.is_empty() {
            return Err(Stop::Inconclusive(format!("the interposer recorded nothing: {}", String::from_utf8_lossy(&stderr))));
        }
        if status.signal() == Some(24) {
            return Err(Stop::v(format!("md-recover used 30 s of CPU time: {cmd:?}")));
        }
        if let Some(s) = status.signal() {
            return Err(Stop::v(format!("md-recover was ended by signal {s}: {cmd:?}: {:.600}", String::from_utf8_lossy(&stderr))));
        }
        if status.code() == Some(101) || String::from_utf8_lossy(&stderr).contains("panicked at") {
            return Err(Stop::v(format!("md-recover panicked: {cmd:?}: {:.600}", String::from_utf8_lossy(&stderr))));
        }
        Ok(Output { status, stdout, stderr, log })
    }

    /// Everything there is to change, by path.
    pub fn snapshot(&self) -> BTreeMap<PathBuf, (Vec<u64>, Vec<u8>)> {
        let mut out = BTreeMap::new();
        let mut dirs = vec![self.dir.clone()];
        while let Some(d) = dirs.pop() {
            let m = fs::symlink_metadata(&d).unwrap();
            out.insert(d.clone(), (vec![m.ino(), m.mode().into(), m.mtime() as u64, m.mtime_nsec() as u64], vec![]));
            for e in fs::read_dir(&d).unwrap() {
                let p = e.unwrap().path();
                let m = fs::symlink_metadata(&p).unwrap();
                if m.is_dir() {
                    dirs.push(p);
                    continue;
                }
                let content = if m.is_symlink() {
                    fs::read_link(&p).unwrap().as_os_str().as_bytes().to_vec()
                } else {
                    fs::read(&p).unwrap()
                };
                let meta = vec![
                    m.ino(), m.mode().into(), m.nlink(), m.uid().into(), m.size(),
                    m.mtime() as u64, m.mtime_nsec() as u64, m.ctime() as u64, m.ctime_nsec() as u64,
                ];
                out.insert(p, (meta, content));
            }
        }
        out
    }

    pub fn remove(self) {
        let _ = fs::remove_dir_all(&self.dir);
        let _ = fs::remove_file(self.dir.with_extension("log"));
    }
}

/// How often each token is in a text.
pub fn tokens(text: &str) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    let mut rest = text;
    while let Some(at) = rest.find("dev") {
        let t = &rest[at..];
        let b = t.as_bytes();
        if b.len() >= 7 && b[3..6].iter().all(u8::is_ascii_digit) && b[6] == b'x' {
            *out.entry(t[..7].to_string()).or_default() += 1;
            rest = &t[7..];
        } else {
            rest = &t[3..];
        }
    }
    out
}


/// Runs `deep`, and a crash of it is a violation.
pub fn deep(c: &mut Case, what: &str) -> Verdict {
    let root = PathBuf::from(std::env::var_os("MDV_ROOT").expect("MDV_ROOT"));
    let out = Command::new(root.join(".build/target/plain/deep"))
        .args([what, &c.rng.u32().to_string()])
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Stop::Inconclusive(format!("running deep: {e}")))?;
    let text = String::from_utf8_lossy(&out.stdout);
    let last = text.lines().last().unwrap_or("");
    if last == "ok" {
        c.count("long stretches walked by an unoptimised build", 1);
        return Ok(());
    }
    let err = String::from_utf8_lossy(&out.stderr);
    if last.starts_with("violated") || err.contains("overflowed its stack") {
        let err: String = err.chars().take(300).collect();
        return Err(Stop::v(format!("unoptimised, with 2 MiB of stack: {last} {}", err.trim().replace('\n', " "))));
    }
    Err(Stop::Inconclusive(format!("deep ended with {}: {last}", out.status)))
}
