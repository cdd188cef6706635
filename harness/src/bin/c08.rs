//! The order in which members are given, and whether other arrays share them,
//! changes nothing.
use mdv::mdx::*;
use mdv::mixed;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::block_device::BlockDevice;
use mdv::sut::md::MdArray;
use std::rc::Rc;

type Seen = (mixed::Report, Option<u64>, Vec<Option<Vec<u8>>>);

fn case(c: &mut Case) -> Verdict {
    let set = mixed::generate(c);
    describe_plan(c, &set.plan);
    c.fp_bytes(format!("{:?}", set.touched).as_bytes());
    c.nontrivial();
    c.describe(|| format!("{}, altered: {:?}", brief(&set.plan), set.touched));
    let devs = mixed::open(&set, true)?;
    let ids: Vec<_> = devs.iter().map(|d| d.id.clone()).collect();
    let mut sectors: Vec<u64> = set.rows.iter().flat_map(|r| logical(&set.plan, *r)).collect();
    sectors.push(set.plan.sectors());
    let mut first: Option<(Vec<usize>, Seen)> = None;
    for k in 0..8 {
        let mut ord: Vec<usize> = (0..devs.len()).collect();
        match k {
            0 => {}
            1 => ord.reverse(),
            2 => {
                let by = c.rng.usize_below(devs.len());
                ord.rotate_left(by);
            }
            _ => c.rng.shuffle(&mut ord),
        }
        // The same devices as before, or freshly opened ones.
        let (devs, ids) = if k % 2 == 0 {
            (devs.clone(), ids.clone())
        } else {
            let d = mixed::open(&set, true)?;
            let ids = d.iter().map(|d| d.id.clone()).collect();
            (d, ids)
        };
        let mut array = MdArray::open(ord.iter().map(|i| Rc::clone(&devs[*i])));
        let seen: Seen = (
            mixed::observed(&array.diagnose(), &ids)?,
            array.block_count().ok().map(|b| b.0),
            sectors.iter().map(|s| read(&mut array, *s).ok()).collect(),
        );
        c.count("orders compared", 1);
        if seen.2.iter().any(|r| r.is_some()) {
            c.hit("readable array");
        }
        if !seen.0.is_empty() {
            c.hit("array with problems");
        }
        match &first {
            None => first = Some((ord, seen)),
            Some((o, f)) => {
                mdv::ensure!(
                    f.0 == seen.0,
                    "diagnosis of {} altered in {:?} depends on the order: {o:?} gives {:?}, {ord:?} gives {:?}",
                    brief(&set.plan),
                    set.touched,
                    f.0,
                    seen.0
                );
                mdv::ensure!(
                    f.1 == seen.1,
                    "capacity of {} altered in {:?} depends on the order: {o:?} gives {:?}, {ord:?} gives {:?}",
                    brief(&set.plan),
                    set.touched,
                    f.1,
                    seen.1
                );
                for (k, s) in sectors.iter().enumerate() {
                    mdv::ensure!(
                        f.2[k] == seen.2[k],
                        "what sector {s} of {} altered in {:?} reads as depends on the order: {o:?} {}, {ord:?} {}",
                        brief(&set.plan),
                        set.touched,
                        if f.2[k].is_some() { "reads" } else { "fails" },
                        if seen.2[k].is_some() { "reads (differently)" } else { "fails" }
                    );
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C08",
            rule: "One set of devices per case: an array whose superblocks may have been altered in any field, with blank, too small and copied devices among them; opened in eight orders (identity, reversed, rotated, shuffled; same and freshly opened devices) and compared in diagnosis, capacity and reads. Non-trivial: all; distinct by geometry and alterations.",
            quick: 90_000,
            thorough: 2_250_000,
            required: &["orders compared", "altered: one role, differently", "readable array", "array with problems"],
            assumptions: &[],
            ..Spec::default()
        },
        case,
    )
}
