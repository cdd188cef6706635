//! A RAID6 read never hands out data it has reason to distrust.
use mdv::md::{Member, Plan, Ver, RAID6_LAYOUTS};
use mdv::mdx::*;
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::block_device::BlockDevice;
use mdv::sut::md::MdArray;
use mdv::{Ctl, Rng, TestDevice};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Rewrites the superblock of member `who` as `alter` says.
fn resuper(plan: &Plan, m: &mut Member, who: usize, alter: impl FnOnce(&mut Plan)) {
    let mut p = plan.clone();
    alter(&mut p);
    let (at, sb) = p.superblock(who, m.storage.size);
    m.storage.write(at, &sb);
}

/// Gives member `who` the superblock of member `of` (its place in the array).
fn impersonate(plan: &Plan, members: &mut [Member], who: usize, of: usize) {
    let size = members[who].storage.size;
    let (at, sb) = match plan.ver {
        Ver::V1(m) => {
            let mut v = plan.v1(who, m, size);
            v.dev_number = plan.index[of];
            (mdv::md::v1_offset(m, size), v.encode())
        }
        _ => {
            let mut v = plan.v0(who);
            v.this_disk = v.disks[of];
            (mdv::md::v0_offset(size), v.encode(plan.ver == Ver::V0Be))
        }
    };
    members[who].storage.write(at, &sb);
}

/// Gives members `whose` version 1 superblocks with slot `slot` of the role table changed.
fn retable(plan: &Plan, members: &mut [Member], whose: &[usize], slot: usize, role: u32, events: u64) {
    for who in whose {
        let Ver::V1(m) = plan.ver else { return };
        let size = members[*who].storage.size;
        let mut v = plan.v1(*who, m, size);
        v.roles[plan.index[slot] as usize] = role as u16;
        v.events += events;
        members[*who].storage.write(mdv::md::v1_offset(m, size), &v.encode());
    }
}

/// A known finding: while an array's layout is being changed, sectors the change
/// has not reached yet are read as if it had.
fn reshape(c: &mut Case) -> Verdict {
    let mut plan = Plan::random(&mut c.rng, 6, 1 << 14);
    plan.layout = 0;
    plan.n = 5;
    plan.spares = 0;
    plan.chunk = 128;
    plan.per_dev = 1024;
    plan.tail = 0;
    plan.ver = Ver::V1(2);
    plan.index = (0..5).collect();
    plan.data_offset = vec![2048; 5];
    let mut new = plan.clone();
    new.layout = 2;
    let mut members = plan.members();
    // Three of the eight stripes are done.
    let done = 3 * plan.data_disks() * 128;
    for row in 0..plan.per_dev {
        if row / 128 < 3 { &new } else { &plan }.write_row(&mut members, row);
    }
    for (who, m) in members.iter_mut().enumerate() {
        let mut v = plan.v1(who, 2, m.storage.size);
        v.features = 4;
        v.new_level = 6;
        v.new_layout = 2;
        v.new_chunk = 128;
        v.delta_disks = 0;
        v.reshape_position = done;
        m.storage.write(4096, &v.encode());
    }
    let ctl = Ctl::new();
    let devs = open_members(&members, &[0, 1, 2, 3, 4], &[512; 5], &ctl)?;
    let mut array = MdArray::open(devs);
    let mut wrong = None;
    for s in 0..plan.sectors() {
        if let Ok(b) = read(&mut array, s) {
            match same_sector(&plan, s, &b, "layout being changed from left-asymmetric to left-symmetric") {
                Ok(()) => {}
                Err(e) if s < done => return Err(e),
                Err(_) => wrong = wrong.or(Some(s)),
            }
        }
    }
    match wrong {
        None => Ok(()),
        Some(s) => Err(Stop::Violation {
            sig: "reshape-old-part".into(),
            msg: format!(
                "5-device RAID6 whose layout is being changed from left-asymmetric to left-symmetric, done up to sector {done}: sector {s}, still in the old layout, is read from where the new layout would have it, without an error"
            ),
        }),
    }
}

enum Expect {
    /// Every read of the rows named must fail.
    Fail,
    /// Every read must fail or be exact.
    FailOrExact,
}

/// Silent damage to the row in which another member cannot be read: nothing
/// is left to tell what that member held.
fn also_damaged(c: &mut Case, members: &mut [Member], lost: usize, q: Option<usize>, row: u64) {
    let who = c.rng.usize_below(members.len());
    if who != lost && Some(who) != q {
        let at = members[who].data_start + row * 512 + c.rng.below(512);
        members[who].storage.xor_byte(at, 1 + c.rng.below(255) as u8);
        c.hit("unreadable and damaged in one row");
    }
}

/// Damage that sums of a sector's words do not tell.
fn alike(r: &mut Rng, b: &mut [u8]) {
    let w = *r.pick(&[1usize, 2, 4, 8, 16, 64]);
    let words = 512 / w;
    let i = r.usize_below(words);
    let j = (i + 1 + r.usize_below(words - 1)) % words;
    let swap = r.bool();
    for k in 0..w {
        if swap {
            b.swap(i * w + k, j * w + k);
        } else if k == w / 2 {
            let x = 1 << r.below(8);
            b[i * w + k] ^= x;
            b[j * w + k] ^= x;
        }
    }
}

fn case(c: &mut Case) -> Verdict {
    if c.index == 0 {
        return reshape(c);
    }
    let max = *c.rng.pick(&[1 << 9, 1 << 14, 1 << 34]);
    let mut plan = Plan::random(&mut c.rng, 6, max);
    plan.layout = RAID6_LAYOUTS[c.index as usize % RAID6_LAYOUTS.len()];
    if plan.n > 12 {
        plan.n = 12;
        plan.spares = 0;
        plan.index.truncate(12);
        plan.data_offset.truncate(12);
    }
    describe_plan(c, &plan);
    c.nontrivial();
    let mut members = plan.members();
    let rows = pick_rows(&mut c.rng, &plan, 8);
    for row in &rows {
        plan.write_row(&mut members, *row);
    }
    let victim_row = *c.rng.pick(&rows);
    // What the row is about: often something plain.
    let mut held: HashMap<u64, [u8; 512]> = HashMap::new();
    let plain = c.rng.chance(1, 3);
    let (a, b) = (plan.content(c.rng.below(plan.sectors())), [c.rng.u8(); 512]);
    for s in logical(&plan, victim_row) {
        let own = plan.content(s);
        let what = if plain { *c.rng.pick(&[own, [0; 512], [0; 512], [0xff; 512], a, a, b]) } else { own };
        held.insert(s, what);
    }
    if plain {
        let row = plan.row_data(victim_row, |s| held[&s]);
        for slot in 0..plan.n {
            let b = plan.row_sector(&row, slot);
            let m = &mut members[slot as usize];
            m.storage.write(m.data_start + victim_row * 512, &b);
        }
        let p = plan.row_sector(&row, row.p);
        if row.data.iter().any(|(_, d)| *d == p) {
            c.hit("data equal to the parity");
        }
    }
    let sound: Vec<_> = members.iter().map(|m| m.storage.clone()).collect();
    let (n, data) = (plan.n as usize, plan.data_disks());
    let chunk = u64::from(plan.chunk);
    let stripe = victim_row / chunk;
    let first = stripe * data * chunk + victim_row % chunk;
    let pl = plan.locate(first);
    let total = members.len();
    let kind = c.index / 14 % 17;
    let mut keep: Vec<usize> = (0..total).collect();
    let mut bad: Vec<(usize, u64, u64)> = vec![];
    let mut extra: Vec<Member> = vec![];
    let mut only_row = Some(victim_row);
    // Damage that comes when the row was read already.
    let mut late = false;
    let mut what: &'static str;
    let expect = match kind {
        // Damage in a data or P sector of the row.
        0 | 1 | 2 => {
            what = match kind {
                0 => "one bit of data or P flipped",
                1 => "one sector of data or P overwritten",
                _ => "several sectors of a row damaged",
            };
            // All data of the row lost, as after a lost write or on a drive that gives zeros.
            let lost = kind == 2 && c.rng.chance(1, 4);
            let filling = *c.rng.pick(&[None, None, Some(0u8), Some(0xff)]);
            let members_hit: Vec<usize> = match kind {
                2 if lost => (0..n).filter(|s| Some(*s as u32) != pl.q && *s as u32 != pl.p).collect(),
                2 => {
                    let mut v: Vec<usize> = (0..n).filter(|s| Some(*s as u32) != pl.q).collect();
                    c.rng.shuffle(&mut v);
                    v.truncate(2 + c.rng.usize_below((n - 3).max(1)));
                    v
                }
                _ => {
                    let v: Vec<usize> = (0..n).filter(|s| Some(*s as u32) != pl.q).collect();
                    vec![*c.rng.pick(&v)]
                }
            };
            let mut sum = [0u8; 512];
            for who in &members_hit {
                let at = members[*who].data_start + victim_row * 512;
                let before = members[*who].storage.get(at, 512);
                let mut after = before.clone();
                match kind {
                    0 if c.rng.chance(1, 4) => {
                        what = "parts of a sector changed alike or swapped";
                        alike(&mut c.rng, &mut after);
                        c.hit(what);
                    }
                    0 => {
                        let at = match c.rng.below(4) {
                            0 => c.rng.usize_below(8),
                            1 => 504 + c.rng.usize_below(8),
                            _ => c.rng.usize_below(512),
                        };
                        after[at] ^= 1 << c.rng.below(8);
                    }
                    1 => match filling {
                        Some(b) => after.fill(b),
                        None => c.rng.fill(&mut after),
                    },
                    _ if lost => after.fill(filling.unwrap_or(0)),
                    _ => {
                        let from = c.rng.usize_below(512);
                        let len = 1 + if c.rng.bool() { 0 } else { c.rng.usize_below(512 - from) };
                        c.rng.fill(&mut after[from..from + len]);
                    }
                }
                for i in 0..512 {
                    sum[i] ^= before[i] ^ after[i];
                }
                members[*who].storage.write(at, &after);
            }
            if sum.iter().all(|b| *b == 0) {
                // The damage cancels out in P: not detectable this way.
                return Ok(());
            }
            if lost {
                c.hit("all data of a row overwritten");
            }
            late = c.rng.chance(1, 3);
            if late { Expect::FailOrExact } else { Expect::Fail }
        }
        3 => {
            what = "Q damaged";
            let who = pl.q.unwrap() as usize;
            let at = members[who].data_start + victim_row * 512;
            let b = c.rng.bytes(512);
            members[who].storage.write(at, &b);
            Expect::FailOrExact
        }
        4 => {
            what = "a member missing";
            let k = 1 + c.rng.usize_below(3);
            for _ in 0..k {
                let who = c.rng.usize_below(n);
                keep.retain(|x| *x != who);
            }
            only_row = None;
            Expect::Fail
        }
        5 => {
            what = "two devices claiming one slot";
            let (a, b) = (c.rng.usize_below(n), c.rng.usize_below(n));
            if a == b {
                return Ok(());
            }
            impersonate(&plan, &mut members, b, a);
            only_row = None;
            Expect::Fail
        }
        6 => {
            what = "unreadable sectors";
            let who = c.rng.usize_below(n);
            let at = members[who].data_start + victim_row * 512;
            bad.push((who, at, at + 512));
            if c.rng.bool() {
                also_damaged(c, &mut members[..n], who, pl.q.map(|q| q as usize), victim_row);
            }
            Expect::FailOrExact
        }
        7 => {
            what = "superblocks that disagree about the geometry";
            let who = c.rng.usize_below(total);
            let alter = c.rng.below(6);
            let layout = *c.rng.pick(&RAID6_LAYOUTS);
            let ver = plan.ver;
            let cap = if matches!(ver, Ver::V1(_)) { u64::MAX } else { 1 << 32 };
            let before = plan.clone();
            let mut same = false;
            resuper(&plan, &mut members[who], who, |p| {
                match alter {
                    0 => p.layout = layout,
                    1 => p.chunk *= 2,
                    2 => p.n -= 1,
                    3 => p.per_dev = (p.per_dev + u64::from(p.chunk)).min(cap),
                    // Less than a chunk.
                    4 => p.tail ^= 2,
                    _ => p.level = 5,
                }
                same = p.layout == before.layout
                    && p.chunk == before.chunk
                    && p.n == before.n
                    && p.per_dev == before.per_dev
                    && p.tail == before.tail
                    && p.level == before.level;
            });
            if same {
                return Ok(());
            }
            only_row = None;
            Expect::Fail
        }
        8 => {
            what = "unsupported level or layout";
            let level = *c.rng.pick(&[0u32, 1, 4, 10, 6, 6, u32::MAX]);
            let layout = if level == 6 { *c.rng.pick(&[6u32, 7, 11, 15, 21, 0x100]) } else { plan.layout };
            for (who, m) in members.iter_mut().enumerate() {
                resuper(&plan, m, who, |p| {
                    p.level = level;
                    p.layout = layout;
                });
            }
            only_row = None;
            Expect::Fail
        }
        9 => {
            what = "a member with no superblock";
            let who = c.rng.usize_below(n);
            let size = members[who].storage.size;
            let (at, _) = plan.superblock(who, size);
            members[who].storage.write(at, &[0; 512]);
            only_row = None;
            Expect::Fail
        }
        10 => {
            what = "a member replaced by one of another array";
            let who = c.rng.usize_below(n);
            let mut other = plan.clone();
            other.uuid = c.rng.array();
            other.seed = c.rng.u64();
            let mut om = other.members();
            for row in &rows {
                other.write_row(&mut om, *row);
            }
            members[who] = om.swap_remove(who);
            only_row = None;
            Expect::FailOrExact
        }
        12 => {
            what = "two identical copies of a member";
            for _ in 0..1 + c.rng.below(2) {
                let m = members[c.rng.usize_below(n)].clone();
                extra.push(m);
            }
            only_row = None;
            Expect::Fail
        }
        13 => {
            what = "a second copy of members with other contents";
            let mut other = plan.clone();
            other.seed = c.rng.u64();
            let mut om = other.members();
            for row in &rows {
                other.write_row(&mut om, *row);
            }
            om.truncate(n);
            if c.rng.bool() {
                c.rng.shuffle(&mut om);
                om.truncate(1 + c.rng.usize_below(n));
            }
            extra = om;
            only_row = None;
            Expect::Fail
        }
        14 => {
            what = "a member recorded as faulty or spare by all";
            if !matches!(plan.ver, Ver::V1(_)) {
                return Ok(());
            }
            let who = c.rng.usize_below(n);
            let role = *c.rng.pick(&[mdv::md::FAULTY, mdv::md::SPARE, mdv::md::JOURNAL]);
            let all: Vec<usize> = (0..total).collect();
            retable(&plan, &mut members, &all, who, role, 0);
            only_row = None;
            Expect::Fail
        }
        15 => {
            what = "a stale member that the others record as faulty";
            if !matches!(plan.ver, Ver::V1(_)) {
                return Ok(());
            }
            let who = c.rng.usize_below(n);
            let others: Vec<usize> = (0..total).filter(|w| *w != who).collect();
            let role = if c.rng.bool() { mdv::md::FAULTY } else { mdv::md::SPARE };
            let events = 1 + c.rng.below(100);
            retable(&plan, &mut members, &others, who, role, events);
            if c.rng.bool() {
                // What it holds is from before it failed.
                for row in &rows {
                    let at = members[who].data_start + row * 512;
                    let b = c.rng.bytes(512);
                    members[who].storage.write(at, &b);
                }
            }
            only_row = None;
            Expect::FailOrExact
        }
        16 => {
            what = "a member that says it is a spare";
            if plan.spares == 0 || !matches!(plan.ver, Ver::V1(_)) {
                return Ok(());
            }
            let who = c.rng.usize_below(n);
            let spare = n + c.rng.usize_below(plan.spares as usize);
            impersonate(&plan, &mut members, who, spare);
            only_row = None;
            Expect::Fail
        }
        _ => {
            what = "a member cut short";
            if !matches!(plan.ver, Ver::V1(1) | Ver::V1(2)) {
                return Ok(());
            }
            let who = c.rng.usize_below(n);
            let at = members[who].data_start + victim_row * 512;
            let s = &mut members[who].storage;
            s.size = (at / 512 * 512).max(16384);
            if s.size > at {
                return Ok(());
            }
            if c.rng.bool() {
                also_damaged(c, &mut members[..n], who, pl.q.map(|q| q as usize), victim_row);
            }
            only_row = None;
            Expect::FailOrExact
        }
    };
    c.hit_dyn(what.to_string());
    c.describe(|| format!("{}: {what}", brief(&plan)));
    c.rng.shuffle(&mut keep);
    let ctl = Ctl::new();
    let (mut devs, mut cells) = (vec![], vec![]);
    // Unreadable and cut off parts concern whole blocks of a member.
    let sizes = if matches!(kind, 6 | 11) { vec![512; total] } else { block_sizes(&mut c.rng, total) };
    // Copies of members go anywhere among the others.
    let originals = members.len();
    members.extend(extra);
    for who in originals..members.len() {
        let at = c.rng.usize_below(keep.len() + 1);
        keep.insert(at, who);
    }
    for who in &keep {
        let bs = sizes[*who % originals];
        let cell = Rc::new(RefCell::new(if late { &sound[*who] } else { &members[*who].storage }.clone()));
        cells.push((*who, cell.clone()));
        let d = TestDevice::shared(cell, bs, &ctl);
        for (w, a, b) in &bad {
            if w == who {
                d.bad.borrow_mut().push((*a, *b));
            }
        }
        devs.push(Rc::new(must(
            mdv::sut::md::MdDevice::from_block_device(d, None::<&str>),
            "opening a member",
        )?));
    }
    let mut array = MdArray::open(devs);
    if matches!(kind, 7) {
        mdv::ensure!(
            array.block_count().is_err(),
            "{what}: the capacity of {} was given as {:?}",
            brief(&plan),
            array.block_count()
        );
    }
    if late {
        for _ in 0..1 + c.rng.below(4) {
            let s = (first + c.rng.below(data) * chunk).min(plan.sectors() - 1);
            let b = must(read(&mut array, s), "reading a row before its damage")?;
            mdv::ensure!(held.get(&s).is_none_or(|h| b == h), "sector {s} of {} read back wrong", brief(&plan));
        }
        for (who, cell) in &cells {
            *cell.borrow_mut() = members[*who].storage.clone();
        }
        c.hit("damaged after it was read");
    }
    let mut order: Vec<u64> = rows.clone();
    c.rng.shuffle(&mut order);
    for row in order {
        let hit = only_row.is_none_or(|r| r == row);
        for s in logical(&plan, row) {
            let r = read(&mut array, s);
            match (&r, hit, &expect) {
                (Ok(_), true, Expect::Fail) => {
                    return Err(Stop::v(format!(
                        "{what} (row {victim_row}): reading logical sector {s} of {} succeeded",
                        brief(&plan)
                    )))
                }
                (Ok(b), _, _) => {
                    match held.get(&s) {
                        Some(h) => mdv::ensure!(b == h, "{what} (row {victim_row}): sector {s} of {} read back wrong", brief(&plan)),
                        None => same_sector(&plan, s, b, what)?,
                    }
                    c.hit("read still exact");
                }
                (Err(_), true, _) => {
                    c.hit("read refused");
                    match kind {
                        12 => c.hit("reads refused for two identical copies of a member"),
                        13 => c.hit("reads refused for a second copy of members with other contents"),
                        14 => c.hit("reads refused for a member recorded as faulty or spare by all"),
                        _ => {}
                    }
                }
                (Err(e), false, _) => {
                    return Err(Stop::v(format!(
                        "{what} in row {victim_row} only: reading logical sector {s} (row {row}) of {} failed: {e}",
                        brief(&plan)
                    )))
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C07",
            level: "fault_enumeration",
            rule: "One damaged RAID6 array per case: each of seventeen kinds of damage (bit flips and overwrites of data or P, several damaged sectors, Q, members missing, in the slot of another, copied, copied with other contents, unreadable, truncated, foreign, without a superblock, recorded as faulty or spare by all or only by the others, or saying to be a spare, superblocks that disagree about the geometry, unsupported levels and layouts) with each of the fourteen layouts in turn. Every sector of the damaged row and of undamaged rows is read. Non-trivial: all; distinct by geometry.",
            quick: 75_000,
            thorough: 1_875_000,
            required: &[
                "unreadable and damaged in one row",
                "read refused", "read still exact", "reads refused for two identical copies of a member",
                "reads refused for a second copy of members with other contents",
                "reads refused for a member recorded as faulty or spare by all",
                "all data of a row overwritten", "data equal to the parity", "damaged after it was read",
                "parts of a sector changed alike or swapped",
            ],
            assumptions: &["Damage to several sectors of a row that cancels out in P is not detectable by P and is not generated"],
            ..Spec::default()
        },
        case,
    )
}
