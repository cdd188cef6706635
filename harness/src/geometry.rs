//! C04 and C05: where a logical sector lives, against the kernel's formula and
//! against conservation over whole windows of stripes.
use crate::md::{locate, Place};
use crate::run::{Case, Stop, Verdict};
use std::collections::HashSet;

type Compute = fn(u32, u64, u32, u32) -> Option<Option<Place>>;

/// `compute(layout, sector, chunk, n)`: None when the layout is unsupported,
/// Some(None) when the geometry is refused.
pub fn case(c: &mut Case, level: u32, layouts: &[u32], compute: Compute) -> Verdict {
    let parity = if level == 6 { 2 } else { 1 };
    let min = parity + 1 + (level == 6) as u32;
    let layout = layouts[c.index as usize % layouts.len()];
    c.hit_dyn(format!("layout {layout}"));
    if c.index % 16 == 15 {
        // Geometries with no place for data: refused, not computed.
        let (sector, chunk) = (c.rng.edgy64(), c.rng.edgy32());
        let n = c.rng.below(u64::from(parity) + 1) as u32;
        for (n, chunk) in [(n, chunk), (min + n, 0), (n, 0)] {
            crate::ensure_eq!(
                compute(layout, sector, chunk, n).flatten(),
                None,
                "level {level} layout {layout}, {n} devices, chunk {chunk}"
            );
        }
        c.hit("degenerate geometry refused");
        return Ok(());
    }
    let n = match c.rng.below(5) {
        0 => min,
        1 | 2 => min + c.rng.below(8) as u32,
        3 => min + c.rng.below(200) as u32,
        _ if c.rng.chance(1, 4) => c.rng.edgy32().max(min),
        _ => min + c.rng.below(0xff00 - u64::from(min)) as u32,
    };
    let chunk = match c.rng.below(4) {
        0 => 1 + c.rng.below(16) as u32,
        1 | 2 => 1u32 << c.rng.below(22),
        _ => (c.rng.edgy32()).max(1),
    };
    c.fp(u64::from(layout) << 32 | u64::from(n));
    c.fp(u64::from(chunk));
    c.nontrivial();
    let samples = 200;
    for k in 0..samples {
        let sector = match k % 4 {
            0 => c.rng.edgy64(),
            1 => c.rng.u64() >> c.rng.below(64),
            // Around chunk and stripe boundaries.
            _ => {
                let stripe = u64::from(chunk) * u64::from(n - parity);
                let rows = c.rng.below(u64::from(n) * 4 + 4);
                stripe
                    .saturating_mul(rows)
                    .saturating_add(c.rng.below(stripe + 1))
                    .saturating_sub(c.rng.below(2))
            }
        };
        let want = locate(level, layout, n, chunk, sector);
        let got = compute(layout, sector, chunk, n)
            .ok_or_else(|| Stop::v(format!("level {level} layout {layout} is not supported")))?;
        crate::ensure_eq!(
            got,
            Some(want),
            "level {level} layout {layout}, {n} devices, chunk {chunk} sectors, logical sector {sector}"
        );
        c.count("sectors located", 1);
    }
    c.describe(|| format!("level {level} layout {layout}, {n} devices, chunk {chunk}: {samples} sectors"));
    // Conservation over a window of whole stripes: every (device, sector) is
    // exactly one of one logical sector, P, or Q.
    if n <= 40 {
        let small = 1 + c.rng.below(5) as u32;
        let data = u64::from(n - parity);
        let first = c.rng.below(1 << 30);
        let stripes = u64::from(n) * 2 + 1;
        let mut seen = HashSet::new();
        for stripe in first..first + stripes {
            for off in 0..u64::from(small) {
                let mut pq = None;
                for dd in 0..data {
                    let sector = (stripe * data + dd) * u64::from(small) + off;
                    let Some(Some(pl)) = compute(layout, sector, small, n) else {
                        return Err(Stop::v(format!("sector {sector} not located")));
                    };
                    crate::ensure!(
                        seen.insert((pl.data, pl.dev_sector)),
                        "level {level} layout {layout}, {n} devices: two logical sectors at device {} sector {}",
                        pl.data,
                        pl.dev_sector
                    );
                    match pq {
                        None => pq = Some((pl.p, pl.q)),
                        Some(x) => crate::ensure_eq!(
                            (pl.p, pl.q),
                            x,
                            "parity devices within one stripe (sector {sector})"
                        ),
                    }
                }
                let (p, q) = pq.unwrap();
                let at = stripe * u64::from(small) + off;
                for parity_dev in std::iter::once(p).chain(q) {
                    crate::ensure!(
                        seen.insert((parity_dev, at)),
                        "level {level} layout {layout}, {n} devices: parity overlaps data at device {parity_dev} sector {at}"
                    );
                }
            }
        }
        crate::ensure_eq!(
            seen.len() as u64,
            stripes * u64::from(small) * u64::from(n),
            "places used in the window"
        );
        crate::ensure!(
            seen.iter().all(|(d, _)| *d < n),
            "a device number is out of range"
        );
        c.hit("windows conserved");
    }
    Ok(())
}
