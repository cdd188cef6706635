use mdv::md::{Place, RAID6_LAYOUTS};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::md::{raid6::Raid6Algorithm, units::*};

fn compute(layout: u32, sector: u64, chunk: u32, n: u32) -> Option<Option<Place>> {
    let a = Raid6Algorithm::from_layout(layout)?;
    Some(
        a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n))
            .map(|(s, p, q, d)| Place {
                dev_sector: s.0,
                data: d.0,
                p: p.0,
                q: Some(q.0),
            }),
    )
}

fn case(c: &mut Case) -> Verdict {
    if c.index == 0 {
        for layout in (0..300).chain([0xffff, 0x1_0000, u32::MAX]) {
            mdv::ensure_eq!(
                Raid6Algorithm::from_layout(layout).is_some(),
                RAID6_LAYOUTS.contains(&layout),
                "layout {layout} accepted as a RAID6 layout"
            );
        }
        c.hit("unknown layouts refused");
    }
    mdv::geometry::case(c, 6, &RAID6_LAYOUTS, compute)
}

fn main() {
    run::main(
        Spec {
            id: "C05",
            rule: "One RAID6 layout, device count and chunk size per case (all fourteen kernel layouts in turn), 200 sector numbers over the whole u64 range and around chunk and stripe boundaries, plus every sector of a window of 2n+1 stripes; non-trivial: the geometry has data devices. Distinct by (layout, devices, chunk).",
            quick: 280_000,
            thorough: 7_000_000,
            required: &["sectors located", "windows conserved", "degenerate geometry refused", "unknown layouts refused"],
            assumptions: &["The kernel's raid5_compute_sector(), transcribed in harness/core/src/md.rs, is the reference"],
            ..Spec::default()
        },
        case,
    )
}
