//! MD members and arrays on instrumented devices.
use crate::dev::{Ctl, TestDevice};
use crate::md::{Member, Plan};
use crate::run::{Case, Stop, Verdict};
use crate::sut::block_device::{BlockDevice, BlockNumber};
use crate::sut::md::superblock::Superblock;
use crate::sut::md::{MdArray, MdDevice, MdDeviceSuperblock};
use mdv_core::rng::Rng;
use mdv_core::sparse::Sparse;
use std::io;
use std::rc::Rc;

pub type Dev = MdDevice<TestDevice>;
pub type Array = MdArray<TestDevice>;

pub fn sb(d: &Dev) -> Option<&dyn Superblock> {
    match d.superblock.as_ref() {
        MdDeviceSuperblock::Superblock(s) => Some(s.as_ref()),
        _ => None,
    }
}

pub fn open_dev(s: Sparse, bs: u32, ctl: &Rc<Ctl>) -> io::Result<Dev> {
    MdDevice::from_block_device(TestDevice::new(s, bs, ctl), None::<&str>)
}

pub fn must<T>(r: io::Result<T>, what: &str) -> Result<T, Stop> {
    r.map_err(|e| Stop::v(format!("{what}: {e} ({:?})", e.kind())))
}

/// The members, opened, in the given order.
pub fn open_members(members: &[Member], order: &[usize], bs: &[u32], ctl: &Rc<Ctl>) -> Result<Vec<Dev>, Stop> {
    order
        .iter()
        .map(|i| {
            must(
                open_dev(members[*i].storage.clone(), bs[*i], ctl),
                "opening a member",
            )
        })
        .collect()
}

pub fn order(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n).collect();
    r.shuffle(&mut o);
    o
}

pub fn block_sizes(r: &mut Rng, n: usize) -> Vec<u32> {
    // Blocks may be smaller than sectors, too.
    let one = *r.pick(&[512u32, 512, 512, 512, 4096, 4096, 256]);
    let mixed = r.chance(1, 4);
    (0..n)
        .map(|_| if mixed { *r.pick(&[512, 1024, 2048, 4096, 128]) } else { one })
        .collect()
}

/// Rows (sectors of each member) that a case writes and reads.
pub fn pick_rows(r: &mut Rng, plan: &Plan, want: usize) -> Vec<u64> {
    let mut rows = vec![0, plan.per_dev - 1, u64::from(plan.chunk) - 1];
    if plan.per_dev > u64::from(plan.chunk) {
        rows.push(u64::from(plan.chunk));
    }
    while rows.len() < want {
        rows.push(match r.below(3) {
            // Early stripes, where each parity rotation shows.
            0 => r.below(plan.per_dev.min(u64::from(plan.chunk) * (u64::from(plan.n) * 3))),
            1 => r.below(plan.per_dev),
            _ => {
                let row = r.below(plan.rows());
                row * u64::from(plan.chunk) + if r.bool() { 0 } else { u64::from(plan.chunk) - 1 }
            }
        });
    }
    rows.sort_unstable();
    rows.dedup();
    rows
}

/// The logical sectors of a row.
pub fn logical(plan: &Plan, row: u64) -> impl Iterator<Item = u64> {
    let (chunk, data) = (u64::from(plan.chunk), plan.data_disks());
    let (stripe, off) = (row / chunk, row % chunk);
    (0..data).map(move |dd| (stripe * data + dd) * chunk + off)
}

pub fn read(a: &mut Array, sector: u64) -> io::Result<Vec<u8>> {
    let mut buf = vec![0xa5; 512];
    let n = a.read_block(BlockNumber(sector), &mut buf)?;
    if n != 512 {
        return Err(io::Error::other(format!("read_block returned {n}")));
    }
    Ok(buf)
}

pub fn same_sector(plan: &Plan, sector: u64, got: &[u8], what: &str) -> Verdict {
    let want = plan.content(sector);
    if got == want {
        return Ok(());
    }
    let seen = u64::from_le_bytes(got[..8].try_into().unwrap());
    let bad = got.iter().zip(&want).filter(|(a, b)| a != b).count();
    Err(Stop::v(format!(
        "{what}: logical sector {sector} of {} read back wrong: {bad} of 512 bytes differ; it holds what was written to sector {seen:#x}",
        brief(plan)
    )))
}

pub fn brief(p: &Plan) -> String {
    format!(
        "[level {} layout {} devices {}+{} chunk {} per-device {}+{} {:?} offsets {:?}]",
        p.level,
        p.layout,
        p.n,
        p.spares,
        p.chunk,
        p.per_dev,
        p.tail,
        p.ver,
        &p.data_offset[..p.data_offset.len().min(4)]
    )
}

pub fn describe_plan(c: &mut Case, p: &Plan) {
    c.fp(u64::from(p.layout) << 32 | u64::from(p.n) << 8 | u64::from(p.spares));
    c.fp(u64::from(p.chunk) ^ p.per_dev << 20);
    c.fp_bytes(format!("{:?}{:?}", p.ver, p.data_offset).as_bytes());
    c.hit_dyn(format!("{:?}", p.ver));
    c.hit_dyn(format!("layout {}", p.layout));
}
