//! A RAID6 array reads back what the kernel would have read.
use mdv::mdx::*;
use mdv::md::{Plan, RAID6_LAYOUTS};
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use mdv::sut::md::MdArray;
use mdv::Ctl;
use std::collections::HashSet;
use std::io::{Read, Seek, SeekFrom};

fn case(c: &mut Case) -> Verdict {
    if c.index % 1000 == 501 {
        return whole(c);
    }
    let max = match c.rng.below(4) {
        0 => 1 << 9,
        1 => 1 << 14,
        2 => 1 << 34,
        _ => 1 << 44,
    };
    let mut plan = Plan::random(&mut c.rng, 6, max);
    plan.layout = RAID6_LAYOUTS[c.index as usize % RAID6_LAYOUTS.len()];
    describe_plan(c, &plan);
    c.nontrivial();
    c.describe(|| brief(&plan));
    let mut members = plan.members();
    let mut rows = pick_rows(&mut c.rng, &plan, 14);
    // Sectors whose numbers differ in one bit only.
    let mut pairs = vec![];
    for _ in 0..4 {
        let all: Vec<u64> = rows.iter().flat_map(|row| logical(&plan, *row)).collect();
        let s = *c.rng.pick(&all);
        let t = s ^ (1 << c.rng.range(6, 44));
        if t < plan.sectors() {
            pairs.push((s, t));
            rows.push(plan.locate(t).dev_sector);
        }
    }
    rows.sort_unstable();
    rows.dedup();
    for row in &rows {
        plan.write_row(&mut members, *row);
    }
    let ctl = Ctl::new();
    let ord = order(&mut c.rng, members.len());
    let bs = block_sizes(&mut c.rng, members.len());
    if c.rng.chance(1, 3) {
        // A flaky transport that still delivers everything.
        *ctl.short.borrow_mut() = Some(c.rng.clone());
        *ctl.eintr.borrow_mut() = Some(c.rng.clone());
    }
    let devs = open_members(&members, &ord, &bs, &ctl)?;
    let mut array = MdArray::open(devs);
    mdv::ensure_eq!(must(array.block_size(), "block_size")?.0, 512, "block size");
    let count = must(array.block_count(), "block_count")?.0;
    mdv::ensure_eq!(count, plan.sectors(), "capacity in sectors of {}", brief(&plan));
    let mut sectors: Vec<u64> = rows.iter().flat_map(|row| logical(&plan, *row)).collect();
    c.rng.shuffle(&mut sectors);
    let all = sectors.len();
    for (s, t) in &pairs {
        // Read one after the other, by the same handle.
        for x in [s, t, s] {
            sectors.push(*x);
        }
        c.hit("sectors whose numbers differ in one bit");
        if s ^ t >= 1 << 32 {
            c.hit("sectors whose numbers are alike in 32 bits");
        }
    }
    let mut clone = must(array.try_clone(), "try_clone")?;
    for (k, s) in sectors.iter().enumerate() {
        let got = match if k < all { k % 4 } else { 0 } {
            0 => {
                let a = must(read(&mut array, *s), "read_block")?;
                c.hit("read with a sector-sized buffer");
                a
            }
            1 => {
                c.hit("read through a clone");
                must(read(&mut clone, *s), "read_block on a clone")?
            }
            2 => {
                let len = 512 + c.rng.usize_below(9000);
                let mut buf = vec![0x5a; len];
                let n = must(array.read_block(BlockNumber(*s), &mut buf), "read_block with a larger buffer")?;
                mdv::ensure_eq!(n, 512, "bytes read into a buffer of {len}");
                c.hit("read with a larger buffer");
                mdv::ensure!(
                    buf[512..].iter().all(|b| *b == 0x5a),
                    "a read into a buffer of {len} bytes changed bytes beyond the sector"
                );
                buf.truncate(512);
                buf
            }
            _ => {
                let mut second = must(clone.try_clone(), "try_clone of a clone")?;
                c.hit("read through a clone");
                must(read(&mut second, *s), "read_block on a clone of a clone")?
            }
        };
        same_sector(&plan, *s, &got, "read_block")?;
        c.count("sectors compared", 1);
    }
    // Byte-wise, across sectors and (when both rows are written) chunks.
    let written: HashSet<u64> = sectors.iter().copied().collect();
    let mut reader = BlockDeviceReader::new(clone);
    for _ in 0..6 {
        let s = *c.rng.pick(&sectors);
        let mut end = s + 1;
        while written.contains(&end) && end - s < 5 {
            end += 1;
        }
        if end - s > 1 {
            c.hit("byte-wise across sectors");
        }
        let from = s * 512 + c.rng.below(512);
        let len = 1 + c.rng.below(end * 512 - from) as usize;
        let mut buf = vec![0; len];
        must(reader.seek(SeekFrom::Start(from)), "seek")?;
        must(reader.read_exact(&mut buf), "read_exact")?;
        let whole: Vec<u8> = (s..end).flat_map(|x| plan.content(x)).collect();
        let at = (from - s * 512) as usize;
        if buf != whole[at..at + len] {
            return Err(Stop::v(format!(
                "{len} bytes at byte {from} of {} read back wrong",
                brief(&plan)
            )));
        }
        c.count("bytes compared byte-wise", len as u64);
    }
    c.count("interrupted reads survived", ctl.interrupted.get());
    if plan.data_offset.iter().any(|o| *o > 0) {
        c.hit("non-zero data offset");
    }
    if plan.spares > 0 {
        c.hit("spares present");
    }
    if plan.index.windows(2).any(|w| w[0] + 1 != w[1]) {
        c.hit("device table permuted");
    }
    if plan.per_dev > 1 << 32 {
        c.hit("over 2^32 sectors per device");
    }
    Ok(())
}

/// The whole of an array, more than 65536 sectors, through one handle; then
/// parts of it again.
fn whole(c: &mut Case) -> Verdict {
    let mut plan = Plan::random(&mut c.rng, 6, 1 << 14);
    plan.chunk = *c.rng.pick(&[8, 16, 64, 128, 1024]);
    plan.tail %= u64::from(plan.chunk);
    let chunks = 66_000 / u64::from(plan.chunk) / plan.data_disks() + 1 + c.rng.below(20);
    plan.per_dev = chunks * u64::from(plan.chunk);
    describe_plan(c, &plan);
    c.nontrivial();
    c.describe(|| format!("all of {}", brief(&plan)));
    let mut members = plan.members();
    for row in 0..plan.per_dev {
        plan.write_row(&mut members, row);
    }
    let ctl = Ctl::new();
    let ord = order(&mut c.rng, members.len());
    let bs = block_sizes(&mut c.rng, members.len());
    let mut array = MdArray::open(open_members(&members, &ord, &bs, &ctl)?);
    let count = must(array.block_count(), "block_count")?.0;
    mdv::ensure_eq!(count, plan.sectors(), "capacity in sectors of {}", brief(&plan));
    let reader = must(array.try_clone(), "try_clone")?;
    let forth = c.rng.bool();
    for k in 0..count {
        let s = if forth { k } else { count - 1 - k };
        let got = must(read(&mut array, s), "read_block")?;
        same_sector(&plan, s, &got, "read_block of one after another")?;
    }
    for _ in 0..500 {
        let s = c.rng.below(count);
        let got = must(read(&mut array, s), "read_block")?;
        same_sector(&plan, s, &got, "read_block after the whole was read")?;
    }
    let mut reader = BlockDeviceReader::new(reader);
    let mut buf = vec![];
    must(reader.read_to_end(&mut buf), "read_to_end")?;
    mdv::ensure_eq!(buf.len() as u64, count * 512, "bytes of the whole of {}", brief(&plan));
    for s in 0..count {
        same_sector(&plan, s, &buf[s as usize * 512..][..512], "read_to_end")?;
    }
    c.count("sectors compared", 2 * count);
    c.hit("a whole array of more than 65536 sectors");
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C06",
            rule: "One complete RAID6 array per case, as mdadm and the kernel would have written it (every layout in turn; superblock 0.90 LE/BE, 1.0, 1.1, 1.2; 4-24 devices; spares; per-device data offsets; permuted device tables; device sizes up to 2^44 sectors; member block sizes 512-4096), opened in a shuffled order; each sector carries its own number. Non-trivial: all cases; distinct by geometry, version and offsets.",
            quick: 22_400,
            thorough: 560_000,
            required: &[
                "sectors compared",
                "read with a larger buffer",
                "byte-wise across sectors",
                "non-zero data offset",
                "spares present",
                "device table permuted",
                "over 2^32 sectors per device",
                "interrupted reads survived",
                "sectors whose numbers are alike in 32 bits",
                "a whole array of more than 65536 sectors",
            ],
            assumptions: &["The array is quiescent (no reshape or recovery), and every member is present"],
            ..Spec::default()
        },
        case,
    )
}
