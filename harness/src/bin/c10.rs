//! Capacity and the ends of an array.
use mdv::md::{Plan, Ver};
use mdv::mdx::*;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use mdv::sut::md::MdArray;
use mdv::{Ctl, Sparse};
use std::io::{Read, Seek, SeekFrom};

fn case(c: &mut Case) -> Verdict {
    if c.index % 24 == 0 {
        return overflow(c);
    }
    if c.index % 24 == 12 {
        return nowhere(c);
    }
    if c.index % 3 == 2 {
        return arbitrary(c);
    }
    let max = *c.rng.pick(&[1 << 7, 1 << 9, 1 << 14, 1 << 34, 1 << 45]);
    let level = if c.index % 3 == 1 { 5 } else { 6 };
    let plan = Plan::random(&mut c.rng, level, max);
    describe_plan(c, &plan);
    c.nontrivial();
    c.describe(|| brief(&plan));
    let mut members = plan.members();
    let last_row = plan.per_dev - 1;
    if level == 6 {
        plan.write_row(&mut members, 0);
        plan.write_row(&mut members, last_row);
        // Rows that a careless read past the end would take for data.
        for m in members.iter_mut() {
            let end = m.data_start + plan.per_dev * 512;
            let limit = match plan.ver {
                Ver::V1(0) | Ver::V0Le | Ver::V0Be => plan.tail * 512,
                _ => 4096,
            };
            let room = m.storage.size.saturating_sub(end).min(limit).min(1 << 20);
            if room > 0 {
                m.storage.write(end, &vec![0; room as usize]);
            }
        }
    }
    let ctl = Ctl::new();
    let ord = order(&mut c.rng, members.len());
    let bs = block_sizes(&mut c.rng, members.len());
    let mut array = MdArray::open(open_members(&members, &ord, &bs, &ctl)?);
    mdv::ensure_eq!(must(array.block_size(), "block_size")?.0, 512, "block size");
    let total = must(array.block_count(), "block_count")?.0;
    mdv::ensure_eq!(total, plan.sectors(), "capacity of {}", brief(&plan));
    c.hit(if level == 6 { "RAID6 capacity" } else { "RAID5 capacity" });
    if plan.tail > 0 {
        c.hit("sizes that are no multiple of the chunk size");
    }
    if level == 5 {
        return Ok(());
    }
    // The last row holds the last sector, whatever the layout.
    let last = logical(&plan, last_row).max().unwrap();
    mdv::ensure_eq!(last, total - 1, "harness: last logical sector");
    same_sector(&plan, last, &must(read(&mut array, last), "reading the last sector")?, "last sector")?;
    same_sector(&plan, 0, &must(read(&mut array, 0), "reading the first sector")?, "first sector")?;
    c.hit("last sector read");
    let chunk = u64::from(plan.chunk);
    let mut beyond = vec![
        total,
        total + 1,
        total + chunk,
        total + chunk * plan.data_disks(),
        u64::MAX,
        u64::MAX / 512,
        u64::MAX / 512 + 1,
        1 << 63,
        (1 << 55) - 1,
        1 << 55,
    ];
    for _ in 0..8 {
        let far = c.rng.scaled(u64::MAX - total);
        beyond.push(total + far);
    }
    for s in beyond {
        if s < total {
            continue;
        }
        let r = read(&mut array, s);
        mdv::ensure!(
            r.is_err(),
            "reading sector {s} of {} succeeded, beyond its capacity of {total}",
            brief(&plan)
        );
        c.hit("read past the end refused");
    }
    for len in [0, 1, 511] {
        let r = array.read_block(BlockNumber(0), &mut vec![0; len]);
        mdv::ensure!(r.is_err(), "reading a sector into {len} bytes gave {r:?}");
        c.hit("short buffer refused");
    }
    // The same through the byte-wise reader.
    let Some(bytes) = total.checked_mul(512).filter(|b| *b < 1 << 62) else {
        return Ok(());
    };
    let mut reader = BlockDeviceReader::new(array);
    mdv::ensure_eq!(must(reader.seek(SeekFrom::End(0)), "seek to the end")?, bytes, "size in bytes");
    mdv::ensure_eq!(must(reader.read(&mut [0; 100]), "reading at the end")?, 0, "bytes at the end");
    let back = 1 + c.rng.below(512);
    must(reader.seek(SeekFrom::End(-(back as i64))), "seek")?;
    let mut tail = vec![];
    must(reader.read_to_end(&mut tail), "reading to the end")?;
    mdv::ensure!(
        tail == plan.content(last)[512 - back as usize..],
        "the last {back} bytes of {} read back wrong ({} bytes)",
        brief(&plan),
        tail.len()
    );
    c.hit("read to the end byte-wise");
    Ok(())
}

/// A complete array that records an impossible size: it has no end, so there is
/// nothing to read before it.
fn overflow(c: &mut Case) -> Verdict {
    let mut plan = Plan::random(&mut c.rng, 6, 1 << 12);
    plan.ver = Ver::V1(c.rng.below(3) as u32);
    if plan.ver == Ver::V1(0) {
        plan.data_offset.fill(0);
    }
    if plan.n == 3 {
        plan.n = 4;
        plan.spares = 0;
        plan.index = (0..4).collect();
        plan.data_offset.resize(4, plan.data_offset[0]);
    }
    describe_plan(c, &plan);
    c.nontrivial();
    let mut members = plan.members();
    plan.write_row(&mut members, 0);
    let most = u64::MAX / plan.data_disks();
    let chunk = u64::from(plan.chunk);
    // The first size whose product does not fit, the last size there is, and between.
    let least = (most / chunk + 1) * chunk;
    let size = match c.rng.below(3) {
        0 => least,
        1 => u64::MAX,
        _ => least + c.rng.below(u64::MAX - least),
    };
    c.fp(size);
    c.describe(|| format!("{} recording {size} sectors per device", brief(&plan)));
    for (who, m) in members.iter_mut().enumerate() {
        let Ver::V1(minor) = plan.ver else { unreachable!() };
        let mut v = plan.v1(who, minor, m.storage.size);
        v.size = size;
        m.storage.write(mdv::md::v1_offset(minor, m.storage.size), &v.encode());
    }
    let ctl = Ctl::new();
    let ord = order(&mut c.rng, members.len());
    let bs = block_sizes(&mut c.rng, members.len());
    let mut array = MdArray::open(open_members(&members, &ord, &bs, &ctl)?);
    let count = array.block_count().ok().map(|b| b.0);
    mdv::ensure!(count.is_none(), "a capacity of {count:?} was made up for {size} sectors per device");
    for s in [0, 1, plan.sectors() - 1, most, u64::MAX, c.rng.edgy64()] {
        let r = read(&mut array, s);
        mdv::ensure!(r.is_err(), "sector {s} of an array without a capacity was read");
    }
    c.hit("no capacity, nothing read");
    Ok(())
}

/// An array whose members, all or some, record that their data is at a place
/// they do not have, while the data is where it was.
fn nowhere(c: &mut Case) -> Verdict {
    let max = *c.rng.pick(&[1 << 7, 1 << 14, 1 << 34]);
    let mut plan = Plan::random(&mut c.rng, 6, max);
    if !matches!(plan.ver, Ver::V1(_)) {
        plan.ver = Ver::V1(1 + c.rng.below(2) as u32);
    }
    let Ver::V1(minor) = plan.ver else { unreachable!() };
    let rows = [0, plan.per_dev - 1, c.rng.below(plan.per_dev)];
    let mut members = plan.members();
    for row in rows {
        plan.write_row(&mut members, row);
    }
    let all = c.rng.chance(2, 3);
    let mut moved = vec![];
    for (who, m) in members.iter_mut().enumerate() {
        if m.slot.is_none() || !(all || c.rng.bool()) {
            continue;
        }
        let mut v = plan.v1(who, minor, m.storage.size);
        let end = m.storage.size / 512;
        v.data_offset = match c.rng.below(4) {
            // The same place, if the top bits are lost on the way to bytes.
            0 | 1 => v.data_offset | (1 + c.rng.below(511)) << 55,
            2 => end + c.rng.scaled(1 << 50),
            _ => u64::MAX - c.rng.scaled(1 << 50),
        };
        m.storage.write(mdv::md::v1_offset(minor, m.storage.size), &v.encode());
        moved.push(m.slot);
        c.fp(v.data_offset);
    }
    describe_plan(c, &plan);
    c.nontrivial();
    c.describe(|| format!("{}, the data of {moved:?} nowhere", brief(&plan)));
    let ctl = Ctl::new();
    let ord = order(&mut c.rng, members.len());
    let bs = block_sizes(&mut c.rng, members.len());
    let mut array = MdArray::open(open_members(&members, &ord, &bs, &ctl)?);
    for row in rows {
        for s in logical(&plan, row).collect::<Vec<_>>() {
            match read(&mut array, s) {
                Ok(got) if all => {
                    mdv::ensure!(false, "sector {s} was read from an array none of whose members has data: {:x?}...", &got[..16]);
                }
                Ok(got) => {
                    same_sector(&plan, s, &got, "with the data of some members nowhere")?;
                    c.hit("read although some members' data is nowhere");
                }
                Err(_) if all => c.hit("data nowhere refused"),
                Err(_) => {}
            }
        }
    }
    Ok(())
}

/// Any superblock: the capacity is data devices x size per device, or unknown.
fn arbitrary(c: &mut Case) -> Verdict {
    let mut v = mdv::md::V1::random(&mut c.rng);
    v.features &= !4;
    v.level = *c.rng.pick(&[5, 6, 6, 5, 0, 1, 4, 10]);
    v.layout = c.rng.below(7) as u32;
    if c.rng.bool() {
        v.raid_disks = c.rng.below(6) as u32;
    }
    let size = 1 << 20;
    let mut s = Sparse::new(size);
    s.write(4096, &v.encode());
    c.fp(v.size ^ u64::from(v.raid_disks) << 40);
    c.fp(u64::from(v.level) << 32 | u64::from(v.layout));
    c.nontrivial();
    c.describe(|| format!("level {} layout {} devices {} size {}", v.level, v.layout, v.raid_disks, v.size));
    let ctl = Ctl::new();
    let devs = vec![must(open_dev(s, 512, &ctl), "opening a device")?];
    let mut array = MdArray::open(devs);
    let parity = match (v.level, v.layout) {
        (5, 0..=5) => Some(1u32),
        (6, 0..=5) => Some(2),
        _ => None,
    };
    let want = parity
        .and_then(|p| v.raid_disks.checked_sub(p))
        .and_then(|d| {
            let rest = v.size.checked_rem(u64::from(v.chunk))?;
            u64::from(d).checked_mul(v.size - rest)
        });
    let got = array.block_count().ok().map(|b| b.0);
    match want {
        Some(w) => mdv::ensure_eq!(got, Some(w), "capacity of {v:?}"),
        None => mdv::ensure!(
            got.is_none(),
            "a capacity of {got:?} was made up for {v:?}"
        ),
    }
    c.hit(if want.is_some() { "any capacity" } else { "no capacity to give" });
    // One member of a parity array is never enough to read from.
    if v.raid_disks > 1 || parity.is_none() {
        let at = c.rng.edgy64();
        let r = read(&mut array, at);
        mdv::ensure!(r.is_err(), "reading sector {at} from one lone member succeeded: {v:?}");
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C10",
            rule: "One complete RAID6 or RAID5 array, or one arbitrary version 1 superblock, per case: capacity against data devices x sectors per device, the first and last sectors, sectors past the end up to 2^64-1, buffers that are too small, the byte-wise view of the end, and arrays whose members record that their data is where they have nothing. Non-trivial: all; distinct by geometry.",
            quick: 480_000,
            thorough: 12_000_000,
            required: &["RAID6 capacity", "RAID5 capacity", "last sector read", "read past the end refused", "short buffer refused", "read to the end byte-wise", "any capacity", "no capacity to give", "no capacity, nothing read", "data nowhere refused", "read although some members' data is nowhere", "sizes that are no multiple of the chunk size"],
            assumptions: &["The driver uses whole chunks of each device only (raid5_size)"],
            ..Spec::default()
        },
        case,
    )
}
