//! The byte-wise reader over a block device is the device's bytes, at the
//! position it says it is.
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use mdv::{Ctl, Sparse, TestDevice};
use std::io::{ErrorKind, IoSliceMut, Read, Seek, SeekFrom};

fn case(c: &mut Case) -> Verdict {
    if c.index % 30_000 == 78 {
        mdv::cli::deep(c, "reader")?;
    }
    let bs = *c.rng.pick(&[1u32, 2, 3, 7, 32, 512, 512, 4096, 4096, 520, 65536]);
    let size = match c.rng.below(5) {
        0 => c.rng.below(4) * u64::from(bs),
        1 => c.rng.below(20_000),
        2 => c.rng.below(1 << 20),
        3 => (1 << 32) + c.rng.below(1 << 34),
        _ => c.rng.scaled(i64::MAX as u64 >> 1),
    };
    let s = Sparse::garbage(size, c.rng.u64());
    // Whole blocks only: a partial last block is not part of the device.
    let end = size / u64::from(bs) * u64::from(bs);
    let ctl = Ctl::new();
    let dev = TestDevice::new(s.clone(), bs, &ctl);
    let bad = dev.bad.clone();
    c.fp(size);
    c.fp(u64::from(bs));
    if end > 0 {
        c.nontrivial();
    }
    c.describe(|| format!("{size} bytes in blocks of {bs}"));
    // Reader and the position it must be at.
    let mut readers = vec![(BlockDeviceReader::new(dev), 0u64)];
    let steps = if c.index % 500 == 3 { 3000 } else { 60 };
    if steps > 60 {
        c.hit("3000 operations on one device");
    }
    for step in 0..steps {
        let w = c.rng.usize_below(readers.len());
        let all = readers.len();
        let (r, at) = &mut readers[w];
        match c.rng.below(12) {
            0..=4 => {
                let len = match c.rng.below(4) {
                    0 => c.rng.usize_below(3),
                    1 => c.rng.usize_below(2 * bs as usize + 2),
                    2 => bs as usize,
                    _ => c.rng.usize_below(20_000),
                };
                let mut buf = vec![0xEE; len];
                let n = match r.read(&mut buf) {
                    Ok(n) => n,
                    Err(e) => {
                        return Err(run::Stop::v(format!(
                            "step {step}: reading {len} bytes at {at} of {end}: {e}"
                        )))
                    }
                };
                mdv::ensure!(n <= len, "read {n} bytes into {len}");
                if len == 0 || *at >= end {
                    mdv::ensure_eq!(n, 0, "step {step}: bytes read at {at} of {end} into {len}");
                    c.hit("read at the end");
                } else {
                    mdv::ensure!(
                        n > 0 && n as u64 <= end - *at,
                        "step {step}: {n} bytes read at {at} of {end} into {len}"
                    );
                    mdv::ensure!(
                        buf[..n] == s.get(*at, n),
                        "step {step}: {n} bytes at {at} of {end} (blocks of {bs}) read back wrong"
                    );
                    mdv::ensure!(
                        buf[n..].iter().all(|b| *b == 0xEE),
                        "step {step}: bytes past the {n} reported were written"
                    );
                    c.count("bytes compared", n as u64);
                }
                *at += n as u64;
            }
            5 => {
                let len = c.rng.usize_below(4 * bs as usize + 50).min(200_000);
                let mut buf = vec![0; len];
                let fits = end.saturating_sub(*at) >= len as u64;
                match (r.read_exact(&mut buf), fits) {
                    (Ok(()), true) => {
                        mdv::ensure!(
                            buf == s.get(*at, len),
                            "step {step}: {len} bytes at {at} of {end} (blocks of {bs}) read back wrong"
                        );
                        *at += len as u64;
                        c.hit("read_exact");
                    }
                    (Err(_), false) => {
                        // Where that leaves the reader is not specified.
                        *at = r.seek(SeekFrom::Start(*at)).unwrap_or(*at);
                        c.hit("read_exact past the end refused");
                    }
                    (r, _) => {
                        return Err(run::Stop::v(format!(
                            "step {step}: read_exact of {len} bytes at {at} of {end} gave {r:?}"
                        )))
                    }
                }
            }
            6..=8 => {
                let near = end.saturating_add(c.rng.below(3 * u64::from(bs) + 3));
                let target = match c.rng.below(6) {
                    // Where a position cut short would be taken for this one.
                    5 => *at ^ (1 << c.rng.range(8, 48)),
                    0 => c.rng.range(0, end),
                    1 => near,
                    2 => c.rng.below(u64::from(bs) * 3),
                    3 => end.saturating_sub(c.rng.below(u64::from(bs) * 2 + 1)),
                    _ => c.rng.edgy64() >> 1,
                };
                // None when no i64 offset leads from there to the target.
                let from = |x: u64| i64::try_from(i128::from(target) - i128::from(x)).ok();
                let (pos, want) = match (c.rng.below(4), from(end), from(*at)) {
                    (1, Some(d), _) => (SeekFrom::End(d), Some(target)),
                    (2, _, Some(d)) => (SeekFrom::Current(d), Some(target)),
                    (3, _, _) => {
                        let d = c.rng.edgy64() as i64;
                        if c.rng.bool() {
                            (SeekFrom::End(d), end.checked_add_signed(d))
                        } else {
                            (SeekFrom::Current(d), at.checked_add_signed(d))
                        }
                    }
                    _ => (SeekFrom::Start(target), Some(target)),
                };
                let got = r.seek(pos);
                match (&got, want) {
                    (Ok(g), Some(w)) if *g == w => {
                        *at = w;
                        c.hit("seek");
                    }
                    (Err(_), None) => c.hit("impossible seek refused"),
                    // Positions no file offset can express may be refused.
                    (Err(_), Some(w)) if w > i64::MAX as u64 => {}
                    _ => {
                        return Err(run::Stop::v(format!(
                            "step {step}: {pos:?} from {at} of {end} gave {got:?}, expected {want:?}"
                        )))
                    }
                }
            }
            9 => {
                let p = r.stream_position();
                mdv::ensure!(
                    matches!(p, Ok(p) if p == *at),
                    "step {step}: position given as {p:?}, expected {at}"
                );
                let got = (r.block_size().map(|b| b.0).ok(), r.block_count().map(|b| b.0).ok());
                mdv::ensure_eq!(
                    got,
                    (Some(bs), Some(end / u64::from(bs))),
                    "block size and count"
                );
                if end > 0 {
                    let b = c.rng.below(end / u64::from(bs));
                    let mut buf = vec![0; bs as usize];
                    let n = r.read_block(BlockNumber(b), &mut buf);
                    mdv::ensure!(
                        matches!(n, Ok(n) if n == bs as usize)
                            && buf == s.get(b * u64::from(bs), bs as usize),
                        "block {b} read back wrong ({n:?})"
                    );
                    c.hit("block read through the reader");
                }
            }
            11 if *at <= end && (end - *at) / u64::from(bs) < 200_000 && end - *at < 1 << 19 && c.rng.chance(1, 40) => {
                let mut buf = vec![0x77; c.rng.usize_below(3)];
                let kept = buf.len();
                let want = (end - *at) as usize;
                match r.read_to_end(&mut buf) {
                    Ok(n) => mdv::ensure_eq!(n, want, "step {step}: bytes from {at} to the end, {end}"),
                    Err(e) => return Err(run::Stop::v(format!("step {step}: read_to_end at {at} of {end}: {e}"))),
                }
                mdv::ensure!(
                    buf[kept..] == s.get(*at, want) && buf[..kept].iter().all(|b| *b == 0x77),
                    "step {step}: the bytes from {at} to the end, {end} (blocks of {bs}), read back wrong"
                );
                *at = end;
                c.hit("read_to_end");
                if want as u64 / u64::from(bs) > 1 << 16 {
                    c.hit("more than 65536 blocks in a row");
                }
            }
            11 if c.rng.chance(1, 3) => match c.rng.below(3) {
                0 => {
                    let r = r.rewind();
                    mdv::ensure!(r.is_ok(), "step {step}: rewinding from {at} of {end} gave {r:?}");
                    *at = 0;
                    c.hit("rewind");
                }
                1 => {
                    let near = c.rng.below(8 * u64::from(bs) + 8) as i64 - 4 * i64::from(bs);
                    let d = if c.rng.bool() { near } else { c.rng.edgy64() as i64 };
                    let want = at.checked_add_signed(d);
                    let got = r.seek_relative(d);
                    match (&got, want) {
                        (Ok(()), Some(w)) => *at = w,
                        (Err(_), None) => {}
                        (Err(_), Some(w)) if w > i64::MAX as u64 => {}
                        _ => return Err(run::Stop::v(format!("step {step}: moving by {d} from {at} of {end} gave {got:?}, to {want:?}"))),
                    }
                    c.hit("relative seek");
                }
                _ => {
                    let lens: Vec<_> = (0..c.rng.below(5)).map(|_| c.rng.usize_below(bs as usize + 40).min(5000)).collect();
                    let mut bufs: Vec<_> = lens.iter().map(|n| vec![0xEE; *n]).collect();
                    let mut slices: Vec<_> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                    let got = r.read_vectored(&mut slices);
                    let room: usize = lens.iter().sum();
                    let n = match got {
                        Ok(n) if (n > 0 || room == 0 || *at >= end) && n <= room && n as u64 <= end.saturating_sub(*at) => n,
                        _ => return Err(run::Stop::v(format!("step {step}: reading at {at} of {end} into buffers of {lens:?} gave {got:?}"))),
                    };
                    let all = bufs.concat();
                    mdv::ensure!(
                        all[..n] == s.get(*at, n) && all[n..].iter().all(|b| *b == 0xEE),
                        "step {step}: {n} bytes at {at} of {end} (blocks of {bs}) read back wrong in buffers of {lens:?}"
                    );
                    *at += n as u64;
                    c.hit("vectored read");
                }
            },
            10 if all < 4 => {
                let clone = match r.try_clone() {
                    Ok(x) => x,
                    Err(e) => return Err(run::Stop::v(format!("try_clone: {e}"))),
                };
                let at = *at;
                readers.push((clone, at));
                c.hit("clones used independently");
            }
            11 if *at < end && end - *at < 1 << 19 && (end - *at) / u64::from(bs) < 200 && c.rng.bool() => {
                // Whichever call of the device fails, what comes is the bytes or an error.
                let (now, after) = (ctl.ops.get(), c.rng.below(5));
                ctl.fail.set(Some((now + after, now + after + 1 + c.rng.below(2))));
                ctl.fail_kind.set(*c.rng.pick(&[ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::NotFound, ErrorKind::UnexpectedEof]));
                let faults = ctl.faults.get();
                let want = (end - *at) as usize;
                let mut all = vec![];
                let whole = c.rng.bool();
                let got = if whole {
                    r.read_to_end(&mut all)
                } else {
                    all.resize(c.rng.usize_below(want) + 1, 0);
                    r.read(&mut all)
                };
                ctl.fail.set(None);
                let failed = ctl.faults.get() > faults;
                let what = || format!("step {step}: reading from {at} of {end} (blocks of {bs}) with call {after} of the device failing ({failed}) gave {got:?}");
                match got {
                    Ok(n) => {
                        mdv::ensure!(if whole { n == want } else { n > 0 && n <= all.len() }, "{}", what());
                        mdv::ensure!(all[..n] == s.get(*at, n), "{}: other bytes than those of the device", what());
                        *at += n as u64;
                    }
                    Err(ref e) if failed && e.kind() != ErrorKind::Interrupted => {
                        c.hit(if whole { "failed read_to_end" } else { "failed call under a read" });
                        // A read that fails keeps its place; one of many may have moved on.
                        let p = r.stream_position();
                        match p {
                            Ok(p) if p == *at || whole && p > *at && p <= end => {}
                            _ => return Err(run::Stop::v(format!("{}; then the position is {p:?}", what()))),
                        }
                        if whole {
                            let p = r.stream_position().unwrap_or(*at);
                            let moved = (p - *at) as usize;
                            mdv::ensure!(
                                moved == all.len() && all == s.get(*at, moved),
                                "{}; then the position is {p}, {} bytes were given", what(), all.len()
                            );
                            *at = p;
                        }
                    }
                    Err(_) => return Err(run::Stop::v(what())),
                }
            }
            _ => {
                // A read error loses nothing: the same bytes come afterwards.
                if *at < end {
                    bad.borrow_mut().push((0, u64::MAX));
                    // As a device gives them, or one that turns out to be shorter than it said.
                    let kind = *c.rng.pick(&[
                        None, None, Some(ErrorKind::UnexpectedEof), Some(ErrorKind::UnexpectedEof), Some(ErrorKind::InvalidInput),
                        Some(ErrorKind::InvalidData), Some(ErrorKind::TimedOut), Some(ErrorKind::WouldBlock), Some(ErrorKind::NotFound),
                    ]);
                    ctl.bad_kind.set(kind);
                    if kind == Some(ErrorKind::UnexpectedEof) {
                        c.hit("device ended early");
                    }
                    let mut buf = [0; 64];
                    let e = r.read(&mut buf);
                    mdv::ensure!(e.is_err(), "an unreadable block read as {e:?}");
                    bad.borrow_mut().clear();
                    let p = r.stream_position();
                    mdv::ensure!(
                        matches!(p, Ok(p) if p == *at),
                        "after a failed read at {at} the position is {p:?}"
                    );
                    c.hit("failed read keeps its place");
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C11",
            rule: "One device per case (block sizes 1-65536, sizes up to 2^62, not always whole blocks) and a random history of 60 operations (now and then 3000) on up to four clones of a reader: reads of every size, read_exact, seeks of each kind (to, around and past the end, relative, rewinding, impossible ones), vectored reads, reads to the end, now and then 100000 blocks at once by an unoptimised build, positions, block reads, clones, reads that fail because some call of the device does. Each result is checked against the device's bytes. Non-trivial: the device has a block. Distinct by size and block size.",
            quick: 120_000,
            thorough: 3_000_000,
            required: &["3000 operations on one device", "long stretches walked by an unoptimised build", "rewind", "relative seek", "vectored read", "failed read_to_end", "failed call under a read", "bytes compared", "read at the end", "read_exact", "read_exact past the end refused", "seek", "impossible seek refused", "block read through the reader", "clones used independently", "failed read keeps its place", "device ended early", "read_to_end", "more than 65536 blocks in a row"],
            ..Spec::default()
        },
        case,
    )
}
