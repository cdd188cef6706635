//! A diagnosis reports exactly the disagreements there are.
use mdv::mdx::*;
use mdv::mixed;
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::md::{MdArray, MdDeviceId};
use std::collections::HashSet;

fn case(c: &mut Case) -> Verdict {
    if c.index % 64 == 63 {
        return identities(c);
    }
    let set = mixed::generate(c);
    describe_plan(c, &set.plan);
    c.fp_bytes(format!("{:?}", set.touched).as_bytes());
    c.nontrivial();
    c.describe(|| format!("{}, altered: {:?}", brief(&set.plan), set.touched));
    // Labels do not identify a device: they may be absent, or all the same.
    let devs = mixed::open(&set, c.index % 2 == 0)?;
    let ids: Vec<_> = devs.iter().map(|d| d.id.clone()).collect();
    let mut ord: Vec<usize> = (0..devs.len()).collect();
    c.rng.shuffle(&mut ord);
    let array = MdArray::open(ord.iter().map(|i| devs[*i].clone()));
    let got = mixed::observed(&array.diagnose(), &ids)?;
    let want = mixed::expected(&set.supers);
    for f in [
        "too small", "no superblock", "uuid", "name", "algorithm", "size", "chunk", "devices",
        "reshape", "events", "index", "roles",
    ] {
        match (got.get(f), want.get(f)) {
            (None, None) => c.count("fields without a problem", 1),
            (Some(g), Some(w)) if g == w => c.hit_dyn(format!("problem: {f}")),
            (g, w) => {
                return Err(Stop::v(format!(
                    "diagnosis of {} altered in {:?}, {f}: observed {g:?}, expected {w:?}",
                    brief(&set.plan),
                    set.touched
                )))
            }
        }
    }
    if want.is_empty() {
        c.hit("nothing wrong, nothing reported");
    } else {
        c.hit("problems reported exactly");
    }
    let again = mixed::observed(&array.diagnose(), &ids)?;
    mdv::ensure!(again == got, "a second diagnosis differs from the first");
    Ok(())
}

/// Devices are told apart however many threads open them.
fn identities(c: &mut Case) -> Verdict {
    let threads = 8;
    let each = 200;
    let start = std::sync::Barrier::new(threads);
    let all: Vec<Vec<MdDeviceId>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    (0..each).map(|_| MdDeviceId::new(Some("same"))).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let set: HashSet<&MdDeviceId> = all.iter().flatten().collect();
    mdv::ensure_eq!(set.len(), threads * each, "distinct devices among those opened");
    c.count("device identities told apart", set.len() as u64);
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C09",
            rule: "One set of devices per case: an array whose superblocks may have been altered in any field, with blank, too small and copied devices among them, diagnosed and compared, field by field, value by value and device by device, with what the generator did. One case in 64 creates device identities on eight threads. Non-trivial: all others; distinct by geometry and alterations.",
            quick: 160_000,
            thorough: 4_000_000,
            required: &["problems reported exactly", "nothing wrong, nothing reported", "device identities told apart"],
            assumptions: &["Array names that differ only after their first NUL byte are not generated"],
            ..Spec::default()
        },
        case,
    )
}
