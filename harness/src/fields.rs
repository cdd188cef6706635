//! C02, C03: comparing decoded values.
use crate::md::locate;
use crate::run::{Case, Verdict};
use crate::sut::md::algorithm::MdAlgorithm;
use crate::sut::md::superblock::{MdDeviceRole, Superblock};
use crate::sut::md::units::*;
use mdv_core::md::{RAID5_LAYOUTS, RAID6_LAYOUTS};

pub fn events(e: &MetadataEventCount) -> u64 {
    e.0
}

/// The algorithm is the one of (level, layout): the same refusal, or the same
/// placement of sectors.
pub fn algorithm(c: &mut Case, got: &MdAlgorithm, level: u32, layout: u32) -> Verdict {
    let supported = match level {
        5 => RAID5_LAYOUTS.contains(&layout),
        6 => RAID6_LAYOUTS.contains(&layout),
        _ => false,
    };
    let (n, chunk) = (7u32, 8u32);
    match got {
        MdAlgorithm::Unsupported { level: l, layout: y } => {
            crate::ensure!(!supported, "level {level} layout {layout} was called unsupported");
            crate::ensure_eq!((*l, *y), (level, layout), "level and layout");
            c.hit("unsupported algorithm");
        }
        MdAlgorithm::Raid5(_) | MdAlgorithm::Raid6(_) if !supported => {
            crate::ensure!(false, "level {level} layout {layout} was taken for {got:?}");
        }
        MdAlgorithm::Raid5(a) => {
            crate::ensure_eq!(level, 5, "level of {got:?}");
            for s in (0..n as u64 * 9).map(|k| k * u64::from(chunk)) {
                let p = locate(5, layout, n, chunk, s);
                let got = a
                    .compute_sector(SectorNumber(s), SectorCount(chunk), DeviceCount(n))
                    .map(|(a, b, c)| (a.0, b.0, c.0));
                crate::ensure_eq!(got, Some((p.dev_sector, p.p, p.data)), "level 5 layout {layout} sector {s}");
            }
            c.hit("supported algorithm");
        }
        MdAlgorithm::Raid6(a) => {
            crate::ensure_eq!(level, 6, "level of {got:?}");
            for s in (0..n as u64 * 9).map(|k| k * u64::from(chunk)) {
                let p = locate(6, layout, n, chunk, s);
                let got = a
                    .compute_sector(SectorNumber(s), SectorCount(chunk), DeviceCount(n))
                    .map(|(a, b, c, d)| (a.0, b.0, c.0, d.0));
                crate::ensure_eq!(
                    got,
                    Some((p.dev_sector, p.p, p.q.unwrap(), p.data)),
                    "level 6 layout {layout} sector {s}"
                );
            }
            c.hit("supported algorithm");
        }
    }
    Ok(())
}

pub fn roles(c: &mut Case, got: &[MdDeviceRole], want: &[u32]) -> Verdict {
    crate::ensure_eq!(got.len(), want.len(), "roles reported");
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        crate::ensure_eq!(
            g.device_number().map(|d| d.0),
            (*w <= 0xfeff).then_some(*w),
            "device number of role {w:#x} (entry {i})"
        );
        crate::ensure_eq!(
            (g.is_spare(), g.is_faulty(), g.is_journal()),
            (*w == 0xffff, *w == 0xfffe, *w == 0xfffd),
            "spare, faulty, journal of role {w:#x} (entry {i})"
        );
        if *w <= 0xfeff || (0xfffd..=0xffff).contains(w) {
            crate::ensure!(
                g.is_valid() && !g.is_invalid(),
                "role {w:#x} (entry {i}) was called invalid"
            );
        } else if *w <= 0xffff {
            crate::ensure!(
                !g.is_valid() && g.is_invalid(),
                "reserved role {w:#x} (entry {i}) was called valid"
            );
        }
        c.count("roles compared", 1);
    }
    Ok(())
}

fn shown<S: Superblock>(s: &S) -> Vec<String> {
    vec![
        format!("valid {}", s.valid()),
        format!("version {}.{}", s.major_version(), s.minor_version()),
        format!("array {:?} {:?}", s.array_uuid(), s.array_name()),
        format!("algorithm {:?}", s.algorithm()),
        format!("sectors per device {:?}", s.sectors_per_device().0),
        format!("chunk size {:?}", s.chunk_size().0),
        format!("devices {:?}", s.raid_device_count().0),
        format!("reshape {:?}", s.reshape_status()),
        format!("data offset {:?}", s.data_offset().0),
        format!("device number {:?}", s.device_role_index()),
        format!("events {:?}", s.event_count().0),
        format!("roles {:?}", s.device_roles()),
    ]
}

/// A superblock says the same things through a `Box`.
pub fn boxed<S: Superblock + 'static>(s: S) -> Verdict {
    let bare = shown(&s);
    let boxed: Box<dyn Superblock> = Box::new(s);
    crate::ensure_eq!(shown(&boxed), bare, "fields of the same superblock in a box");
    Ok(())
}
