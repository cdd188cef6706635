//! A block read from any of the devices is that block, or an error.
#![allow(suspicious_runtime_symbol_definitions)]
use mdv::run::{self, Case, Spec, Verdict};
use mdv_core::libc;
use mdv_core::sparse::Sparse;
use mdv::sut::block_device::*;
use mdv::sut::md::MdDevice;
use mdv::{Ctl, TestDevice};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom};
use std::os::unix::fs::FileExt;
use std::os::fd::AsRawFd;

thread_local! {
    /// Block devices this thread pretends its files are: inode to (bytes,
    /// physical block size).
    static FAKE: RefCell<HashMap<u64, (u64, u32)>> = RefCell::default();
}

/// Stands in for the C library's: answers the two size queries for the files
/// this check made, and refuses everything else as a regular file would.
#[no_mangle]
pub extern "C" fn ioctl(fd: libc::c_int, req: libc::c_ulong, arg: *mut libc::c_void) -> libc::c_int {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if fault(fd, &[Fault::Ioctl]).is_some() {
        return errno(libc::EIO) as libc::c_int;
    }
    let ino = if unsafe { libc::fstat(fd, &mut st) } == 0 { st.st_ino } else { 0 };
    let fake = FAKE.with(|f| f.borrow().get(&ino).copied());
    const BLKPBSZGET: libc::c_ulong = 0x127b;
    const BLKSSZGET: libc::c_ulong = 0x1268;
    const BLKGETSIZE64: libc::c_ulong = 0x8008_1272;
    match (req, fake) {
        (BLKPBSZGET | BLKSSZGET, Some((_, bs))) => {
            unsafe { *arg.cast::<u32>() = bs };
            0
        }
        (BLKGETSIZE64, Some((size, _))) => {
            unsafe { *arg.cast::<u64>() = size };
            0
        }
        _ => {
            unsafe { *libc::__errno_location() = libc::ENOTTY };
            -1
        }
    }
}

/// What the system does to one file, once.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    /// The call fails.
    Read,
    Seek,
    Dup,
    Ioctl,
    /// The call is interrupted.
    Interrupted,
    /// The call gives less than was asked for.
    Short,
}

thread_local! {
    /// The inode, the fault, and how many such calls work before it.
    static FAULT: std::cell::Cell<Option<(u64, Fault, u32)>> = const { std::cell::Cell::new(None) };
}

/// Whether this call on `fd` is the one to fail.
fn fault(fd: libc::c_int, which: &[Fault]) -> Option<Fault> {
    let (ino, kind, after) = FAULT.with(|f| f.get())?;
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if !which.contains(&kind) || unsafe { libc::fstat(fd, &mut st) } != 0 || st.st_ino != ino {
        return None;
    }
    FAULT.with(|f| f.set(if after == 0 { None } else { Some((ino, kind, after - 1)) }));
    (after == 0).then_some(kind)
}

fn errno(e: libc::c_int) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// How many bytes to ask the system for instead of `n`, or what to return.
fn reading(fd: libc::c_int, n: usize) -> Result<usize, isize> {
    match fault(fd, &[Fault::Read, Fault::Interrupted, Fault::Short]) {
        Some(Fault::Read) => Err(errno(libc::EIO)),
        Some(Fault::Interrupted) => Err(errno(libc::EINTR)),
        Some(Fault::Short) if n > 1 => Ok(n / 2),
        _ => Ok(n),
    }
}

/// Stand in for the C library's, and fail when asked to.
#[no_mangle]
pub extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: usize) -> isize {
    match reading(fd, n) {
        Ok(n) => unsafe { libc::syscall(libc::SYS_read, fd, buf, n) as isize },
        Err(r) => r,
    }
}

#[no_mangle]
pub extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: usize, at: i64) -> isize {
    match reading(fd, n) {
        Ok(n) => unsafe { libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize },
        Err(r) => r,
    }
}

#[no_mangle]
pub extern "C" fn lseek64(fd: libc::c_int, at: i64, whence: libc::c_int) -> i64 {
    match fault(fd, &[Fault::Seek]) {
        Some(_) => errno(libc::EIO) as i64,
        None => unsafe { libc::syscall(libc::SYS_lseek, fd, at, whence) },
    }
}

#[no_mangle]
pub extern "C" fn fcntl(fd: libc::c_int, cmd: libc::c_int, arg: usize) -> libc::c_int {
    if cmd == libc::F_DUPFD_CLOEXEC && fault(fd, &[Fault::Dup]).is_some() {
        return errno(libc::EMFILE) as libc::c_int;
    }
    unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as libc::c_int }
}

/// The file's contents and size change behind an open device, and the system's
/// calls fail now and then.
fn troubled<D: BlockDevice + Read + Seek>(
    c: &mut Case,
    what: &'static str,
    mut dev: D,
    path: &std::path::Path,
    bytes: &mut Sparse,
    bs: u32,
) -> Verdict {
    let b = bs as usize;
    let f = File::options().write(true).open(path).unwrap();
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::fstat(f.as_raw_fd(), &mut st) };
    for step in 0..12 {
        match c.rng.below(8) {
            0 => {
                // More of it, or less.
                let unit = if what == "native" { 512 } else { 1 };
                let size = if c.rng.bool() { bytes.size + c.rng.below(4 * u64::from(bs)) } else { c.rng.below(bytes.size + 1) };
                let size = size / unit * unit;
                f.set_len(size).unwrap();
                let mut now = Sparse::new(size);
                for page in bytes.pages_written() {
                    if page < size {
                        let n = (size - page).min(4096).min(bytes.size - page) as usize;
                        now.write(page, &bytes.get(page, n));
                    }
                }
                *bytes = now;
                FAKE.with(|m| {
                    if let Some(f) = m.borrow_mut().get_mut(&st.st_ino) {
                        f.0 = size;
                    }
                });
                c.hit("sizes changed");
            }
            1 if bytes.size > 0 => {
                let at = c.rng.below(bytes.size);
                let n = (1 + c.rng.below(3 * u64::from(bs))).min(bytes.size - at).min(8192) as usize;
                let new = c.rng.bytes(n);
                f.write_all_at(&new, at).unwrap();
                bytes.write(at, &new);
                c.hit("contents changed");
            }
            _ => {}
        }
        let count = bytes.size / u64::from(bs);
        let kinds = [Fault::Read, Fault::Seek, Fault::Dup, Fault::Ioctl, Fault::Interrupted, Fault::Short];
        let kind = *c.rng.pick(&kinds);
        if c.rng.bool() {
            FAULT.with(|f| f.set(Some((st.st_ino, kind, c.rng.below(3) as u32))));
        }
        let armed = FAULT.with(|f| f.get()).is_some();
        let block = if c.rng.chance(1, 5) { count } else { c.rng.below(count.max(1)) };
        let mut buf = vec![0xEE; b];
        let blocks = dev.block_count();
        let clone = dev.try_clone().map(|_| ());
        let r = dev.read_block(BlockNumber(block), &mut buf);
        let failed = armed && FAULT.with(|f| f.replace(None)).is_none();
        let harmless = !failed || matches!(kind, Fault::Interrupted | Fault::Short);
        if failed {
            c.hit("system calls failed");
            // Which of them the program makes is its own business.
            c.hit_dyn(match kind {
                Fault::Read => "reads failed",
                Fault::Seek => "seeks failed",
                Fault::Dup => "clones failed",
                Fault::Ioctl => "size queries failed",
                Fault::Interrupted => "reads interrupted",
                Fault::Short => "reads cut short",
            }.to_string());
        }
        let tell = || format!("{what}: step {step}, {} bytes in blocks of {bs}, fault {:?}", bytes.size, failed.then_some(kind));
        match &blocks {
            Ok(n) => mdv::ensure_eq!(n.0, count, "{}: block count", tell()),
            Err(e) => mdv::ensure!(!harmless, "{}: block count: {e}", tell()),
        }
        mdv::ensure!(clone.is_ok() || !harmless, "{}: try_clone: {:?}", tell(), clone);
        match &r {
            Ok(n) => {
                mdv::ensure!(block < count, "{}: block {block} of {count} was read", tell());
                mdv::ensure_eq!(*n, b, "{}: block {block}: bytes read", tell());
                mdv::ensure!(buf == bytes.get(block * u64::from(bs), b), "{}: block {block} of {count} read back wrong", tell());
            }
            Err(e) => mdv::ensure!(!harmless || block >= count, "{}: block {block} of {count}: {e}", tell()),
        }
    }
    Ok(())
}

/// `spots`: bytes where a large device has contents. `shared`: whether clones
/// share their byte position.
fn exercise<D: BlockDevice + Read + Seek>(
    c: &mut Case,
    what: &'static str,
    dev: D,
    bytes: &Sparse,
    spots: &[u64],
    bs: u32,
    shared: bool,
) -> Verdict {
    let count = bytes.size / u64::from(bs);
    let b = bs as usize;
    mdv::ensure_eq!(dev.block_size().map(|x| x.0).ok(), Some(bs), "{what}: block size");
    mdv::ensure_eq!(dev.block_count().map(|x| x.0).ok(), Some(count), "{what}: block count of {} bytes in blocks of {bs}", bytes.size);
    let clone = match dev.try_clone() {
        Ok(d) => d,
        Err(e) => return Err(run::Stop::v(format!("{what}: try_clone: {e}"))),
    };
    let mut devs = [dev, clone];
    // A new device is at its start.
    let mut buf = vec![0; c.rng.usize_below(100)];
    let n = match devs[0].read(&mut buf) {
        Ok(n) => n,
        Err(e) => return Err(run::Stop::v(format!("{what}: first read: {e}"))),
    };
    mdv::ensure!(n > 0 || buf.is_empty() || bytes.size == 0, "{what}: first read: nothing read");
    mdv::ensure!(n as u64 <= bytes.size && buf[..n] == bytes.get(0, n), "{what}: first {n} bytes");
    let steps = if c.index % 3000 < 4 { 5000 } else { 24 };
    if steps > 24 {
        c.hit("5000 operations on one device");
    }
    for step in 0..steps {
        let w = c.rng.usize_below(2);
        let block = match c.rng.below(6) {
            0 => count,
            1 => count + 1,
            2 => c.rng.edgy64(),
            3 => count.saturating_sub(1),
            4 if !spots.is_empty() => (*c.rng.pick(spots) / u64::from(bs)).saturating_sub(c.rng.below(2)),
            _ => c.rng.below(count + 1),
        };
        let len = match c.rng.below(4) {
            0 => b + c.rng.usize_below(3 * b + 1),
            1 => c.rng.usize_below(b + 1),
            _ => b,
        };
        let mut buf = vec![0xEE; len];
        let r = devs[w].read_block(BlockNumber(block), &mut buf);
        let ok = block < count && len >= b;
        match (&r, ok) {
            (Ok(n), true) => {
                mdv::ensure_eq!(*n, b, "{what}: step {step}: bytes of block {block} of {count} read into {len}");
                let at = block * u64::from(bs);
                if at >> 32 > 0 {
                    c.hit(match what {
                        "file" => "file: block beyond 4 GiB",
                        "native" => "native: block beyond 4 GiB",
                        _ => "member: block beyond 4 GiB",
                    });
                }
                if block >> 32 > 0 {
                    c.hit(match what {
                        "file" => "file: block number beyond 2^32",
                        "native" => "native: block number beyond 2^32",
                        _ => "member: block number beyond 2^32",
                    });
                }
                mdv::ensure!(
                    buf[..b] == bytes.get(at, b),
                    "{what}: step {step}: block {block} of {count} (blocks of {bs}) read back wrong"
                );
                c.hit_dyn(format!("{what}: block read"));
                if len > b {
                    c.hit_dyn(format!("{what}: block read into a larger buffer"));
                }
            }
            (Err(_), false) => c.hit_dyn(format!("{what}: impossible block read refused")),
            _ => {
                return Err(run::Stop::v(format!(
                    "{what}: step {step}: reading block {block} of {count} (blocks of {bs}, {} bytes) into {len} bytes gave {r:?}",
                    bytes.size
                )))
            }
        }
        // Byte-wise use in between: positions are the reader's own.
        let w = if shared { w } else { c.rng.usize_below(2) };
        let at = if !spots.is_empty() && c.rng.bool() { c.rng.pick(spots).saturating_sub(c.rng.below(9)) } else { c.rng.below(bytes.size + 1) };
        let len = c.rng.usize_below(2 * b + 1);
        let mut buf = vec![0; len];
        let how = match c.rng.below(4) {
            0 => SeekFrom::End(at as i64 - bytes.size as i64),
            1 => {
                let from = c.rng.below(bytes.size + 1);
                let p = devs[w].seek(SeekFrom::Start(from));
                mdv::ensure!(matches!(p, Ok(p) if p == from), "{what}: seek to {from} gave {p:?}");
                SeekFrom::Current(at as i64 - from as i64)
            }
            _ => SeekFrom::Start(at),
        };
        let p = devs[w].seek(how);
        mdv::ensure!(matches!(p, Ok(p) if p == at), "{what}: seek to {at} ({how:?}) gave {p:?}");
        let mut n = 0;
        while n < len {
            match devs[w].read(&mut buf[n..]) {
                Ok(0) => break,
                Ok(k) => n += k,
                Err(e) => return Err(run::Stop::v(format!("{what}: reading at {at}: {e}"))),
            }
        }
        let want = bytes.get(at, len.min((bytes.size - at) as usize));
        mdv::ensure!(
            buf[..n] == want,
            "{what}: {len} bytes at {at} of {} read back wrong ({n} bytes)",
            bytes.size
        );
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    let kind = c.index % 4;
    let bs = if kind == 2 {
        *c.rng.pick(&[512u32, 4096])
    } else {
        *c.rng.pick(&[1u32, 7, 32, 512, 512, 1024, 1024, 4096, 4096, 520, 520, 65536])
    };
    let large = kind > 0 && c.rng.chance(1, 4);
    let mut len = match c.rng.below(4) {
        _ if large => (1 << 30) + c.rng.scaled((1 << 43) - (1 << 31)),
        0 => c.rng.below(3) * u64::from(bs),
        1 => c.rng.below(3000),
        _ => c.rng.below(40) * u64::from(bs) + if c.rng.bool() { c.rng.below(u64::from(bs)) } else { 0 },
    };
    if kind == 3 {
        // A reader ends with the last whole block.
        len = len / u64::from(bs) * u64::from(bs);
    }
    if kind == 2 {
        // Block devices are whole 512-byte sectors.
        len = len / 512 * 512;
    }
    let mut bytes = Sparse::new(len);
    let mut spots = vec![];
    if large {
        for _ in 0..12 {
            let at = match c.rng.below(5) {
                0 => 0,
                1 => len - 1,
                2 => 1 << c.rng.range(12, 43),
                3 => u64::from(bs) << c.rng.range(28, 33),
                _ => c.rng.below(len),
            };
            let at = at.min(len - 1).saturating_sub(c.rng.below(8200));
            let n = (len - at).min(8192) as usize;
            bytes.write(at, &c.rng.bytes(n));
            spots.push(at + c.rng.below(n as u64));
        }
    } else {
        bytes.write(0, &c.rng.bytes(len as usize));
    }
    c.fp(len);
    c.fp(u64::from(bs));
    if len >= u64::from(bs) {
        c.nontrivial();
    }
    c.describe(|| format!("{} of {len} bytes in blocks of {bs}", ["memory", "file", "native", "member"][kind as usize]));
    if kind == 0 {
        let d = InMemoryBlockDevice::new(bytes.get(0, len as usize), BlockSize(bs));
        exercise(c, "memory", d, &bytes, &spots, bs, false)?;
        c.hit("memory devices");
        return Ok(());
    }
    if kind == 3 {
        let d = TestDevice::new(bytes.clone(), bs, &Ctl::new());
        let d = match MdDevice::from_block_device(d, Some("a member")) {
            Ok(d) => d,
            Err(e) => return Err(run::Stop::v(format!("a member of {len} bytes did not open: {e}"))),
        };
        exercise(c, "member", BlockDeviceReader::new(d), &bytes, &spots, bs, false)?;
        c.hit("members of an array");
        return Ok(());
    }
    let path = c.scratch.join("image");
    let f = File::create(&path).unwrap();
    f.set_len(len).expect("a sparse scratch file");
    for page in bytes.pages_written() {
        let at = page;
        let n = (len - at).min(4096) as usize;
        f.write_all_at(&bytes.get(at, n), at).unwrap();
    }
    drop(f);
    let r = if kind == 1 {
        let d = if c.rng.bool() {
            FileBlockDevice::open_path(&path, BlockSize(bs)).unwrap()
        } else {
            FileBlockDevice::from_file(File::open(&path).unwrap(), BlockSize(bs))
        };
        let other = d.try_clone().expect("a second handle");
        exercise(c, "file", d, &bytes, &spots, bs, true)
            .and_then(|()| troubled(c, "file", other, &path, &mut bytes, bs))
    } else {
        let f = File::open(&path).unwrap();
        let mut st: libc::stat = unsafe { std::mem::zeroed() };
        unsafe { libc::fstat(f.as_raw_fd(), &mut st) };
        // Without an answer to the size queries there is no device.
        let no = NativeBlockDevice::from_file(File::open(&path).unwrap());
        mdv::ensure!(
            no.block_size().is_err() && no.block_count().is_err(),
            "a regular file passed for a block device"
        );
        FAKE.with(|m| m.borrow_mut().insert(st.st_ino, (len, bs)));
        let d = if c.rng.bool() {
            NativeBlockDevice::open_path(&path).unwrap()
        } else {
            NativeBlockDevice::from_file(f)
        };
        let other = d.try_clone().expect("a second handle");
        let r = exercise(c, "native", d, &bytes, &spots, bs, true)
            .and_then(|()| troubled(c, "native", other, &path, &mut bytes, bs));
        FAKE.with(|m| m.borrow_mut().clear());
        r
    };
    FAULT.with(|f| f.set(None));
    r?;
    c.hit(if kind == 1 { "file devices" } else { "native devices" });
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C28",
            rule: "One in-memory, file or (with the size queries answered by a stand-in) native block device, or a reader over an array member, per case, 0-40 blocks of 1-65536 bytes and a partial last block at times, or sparse and up to 8 TiB; 24 block reads (now and then 5000) through it and a clone, at, around and far past the end, into buffers smaller, equal and larger than a block, with byte-wise seeks and reads in between. Files and native devices then change in contents and size while they are open, and single system calls on them fail, are interrupted or fall short. Non-trivial: it has a block. Distinct by size and block size.",
            quick: 200_000,
            thorough: 5_000_000,
            required: &[
                "memory devices", "members of an array", "file devices", "native devices", "file: block beyond 4 GiB", "member: block beyond 4 GiB", "member: block number beyond 2^32", "native: block beyond 4 GiB",
                "5000 operations on one device", "sizes changed", "contents changed", "system calls failed",
                "file: block number beyond 2^32", "native: block number beyond 2^32",
            ],
            assumptions: &["Clones of a file share its position, so byte-wise use seeks first"],
            ..Spec::default()
        },
        case,
    )
}
