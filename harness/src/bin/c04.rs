use mdv::md::{Place, RAID5_LAYOUTS};
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::md::{raid5::Raid5Algorithm, units::*};

fn compute(layout: u32, sector: u64, chunk: u32, n: u32) -> Option<Option<Place>> {
    let a = Raid5Algorithm::from_layout(layout)?;
    Some(
        a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n))
            .map(|(s, p, d)| Place {
                dev_sector: s.0,
                data: d.0,
                p: p.0,
                q: None,
            }),
    )
}

fn case(c: &mut Case) -> Verdict {
    if c.index == 0 {
        // Layouts the kernel does not define for this level have no algorithm.
        for layout in (6..300).chain([0xffff, 0x1_0000, u32::MAX]) {
            mdv::ensure!(
                Raid5Algorithm::from_layout(layout).is_none(),
                "layout {layout} is not a RAID5 layout but was accepted"
            );
        }
        c.hit("unknown layouts refused");
    }
    mdv::geometry::case(c, 5, &RAID5_LAYOUTS, compute)
}

fn main() {
    run::main(
        Spec {
            id: "C04",
            rule: "One RAID5 layout, device count and chunk size per case (all six kernel layouts in turn), 200 sector numbers over the whole u64 range and around chunk and stripe boundaries, plus every sector of a window of 2n+1 stripes; non-trivial: the geometry has data devices. Distinct by (layout, devices, chunk).",
            quick: 360_000,
            thorough: 9_000_000,
            required: &["sectors located", "windows conserved", "degenerate geometry refused"],
            assumptions: &["The kernel's raid5_compute_sector(), transcribed in harness/core/src/md.rs, is the reference"],
            ..Spec::default()
        },
        case,
    )
}
