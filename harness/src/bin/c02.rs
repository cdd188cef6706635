//! Every field of a version 1 superblock is reported as it is on disk.
use mdv::md::V1;
use mdv::mdx::*;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::md::superblock::{ArrayUuid, Superblock, SuperblockVersion1};
use mdv::{fields, Ctl, Sparse};
use std::os::unix::ffi::OsStrExt;

fn case(c: &mut Case) -> Verdict {
    let mut v = V1::random(&mut c.rng);
    if c.rng.chance(1, 3) {
        v.level = 6;
        v.layout = *c.rng.pick(&mdv::md::RAID6_LAYOUTS);
    }
    let bytes = v.encode();
    c.fp_bytes(&bytes);
    c.nontrivial();
    let minor = c.rng.below(3) as u32;
    let size = (1 << 16) + c.rng.below(1 << 30) / 512 * 512;
    let mut s = Sparse::garbage(size, c.rng.u64());
    s.write(mdv::md::v1_offset(minor, size), &bytes);
    let d = must(open_dev(s, 512, &Ctl::new()), "opening a device")?;
    let Some(sb) = sb(&d) else {
        return Err(mdv::Stop::v(format!("no version 1.{minor} superblock found")));
    };
    c.describe(|| format!("{v:?}"));
    mdv::ensure_eq!((sb.major_version(), sb.minor_version()), (1, minor), "version");
    mdv::ensure_eq!(sb.array_uuid(), ArrayUuid::Long(v.uuid), "array uuid");
    let name = sb.array_name().map(|n| n.as_bytes().to_vec()).unwrap_or_default();
    // Whether the padding after the name is shown is a matter of taste.
    let len = v.name.iter().position(|b| *b == 0).unwrap_or(32);
    mdv::ensure!(
        name.len() <= 32 && name.len() >= len && v.name.starts_with(&name),
        "array name {name:?}, on disk {:?}",
        v.name
    );
    fields::algorithm(c, &sb.algorithm(), v.level, v.layout)?;
    mdv::ensure_eq!(sb.sectors_per_device().0, v.size, "sectors per device");
    mdv::ensure_eq!(sb.chunk_size().0, v.chunk, "chunk size in sectors");
    mdv::ensure_eq!(sb.raid_device_count().0, v.raid_disks, "raid devices");
    mdv::ensure_eq!(sb.data_offset().0, v.data_offset, "data offset");
    mdv::ensure_eq!(sb.device_role_index() as u64, u64::from(v.dev_number), "device number");
    mdv::ensure_eq!(fields::events(&sb.event_count()), v.events, "event count");
    fields::roles(c, &sb.device_roles(), &v.visible_roles())?;
    match (sb.reshape_status(), v.features & 4 != 0) {
        (None, false) => c.hit("no reshape"),
        (Some(r), true) => {
            fields::algorithm(c, &r.new_algorithm, v.new_level, v.new_layout)?;
            mdv::ensure_eq!(r.reshape_position.0, v.reshape_position, "reshape position");
            mdv::ensure_eq!(r.delta_devices.0, v.delta_disks, "change in devices");
            mdv::ensure_eq!(r.new_chunk_size.0, v.new_chunk, "new chunk size");
            mdv::ensure_eq!(r.new_offset, v.new_offset, "new offset");
            c.hit("reshape");
        }
        (r, want) => {
            return Err(mdv::Stop::v(format!(
                "reshape status {r:?} when the feature bit says {want}"
            )))
        }
    }
    // Fields of which only one reading is meant, by feature bit.
    let one = must(SuperblockVersion1::read(&bytes[..], minor), "SuperblockVersion1::read")?;
    let on = |bit: u32| v.features & bit != 0;
    mdv::ensure_eq!(one.bitmap_offset(), on(1).then_some(v.bitmap_offset), "bitmap offset");
    mdv::ensure_eq!(one.recovery_offset(), on(2).then_some(v.recovery_offset), "recovery offset");
    mdv::ensure_eq!(one.journal_tail(), on(512).then_some(v.recovery_offset), "journal tail");
    let ppl = one.ppl_info().map(|p| (p.offset().read(), p.size().read()));
    let (lo, hi) = (v.bitmap_offset as u16, (v.bitmap_offset >> 16) as u16);
    mdv::ensure_eq!(ppl, on(1024).then_some((lo as i16, hi)), "partial parity log");
    mdv::ensure_eq!(one.data_offset().0, v.data_offset, "data offset");
    if v.max_dev > 1920 {
        c.hit("role table larger than the superblock");
    }
    if c.index % 16 == 0 {
        fields::boxed(one)?;
        c.hit("read through a box");
    }
    c.count("superblocks compared", 1);
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C02",
            rule: "One version 1 superblock per case with every field drawn at random (extremes included), placed as 1.0, 1.1 or 1.2 and read back through device discovery. Non-trivial: all; distinct by superblock bytes.",
            quick: 600_000,
            thorough: 15_000_000,
            required: &["superblocks compared", "read through a box", "reshape", "no reshape", "roles compared", "role table larger than the superblock", "supported algorithm", "unsupported algorithm"],
            assumptions: &["md_p.h's struct mdp_superblock_1, transcribed in harness/core/src/md.rs, is the reference"],
            ..Spec::default()
        },
        case,
    )
}
