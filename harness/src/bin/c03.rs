//! Every field of a version 0.90 superblock, of either byte order, is reported
//! as it is on disk, in the units the rest of the program uses.
use mdv::md::V0;
use mdv::mdx::*;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::md::superblock::{ArrayUuid, SuperblockVersion0};
use mdv::{fields, Ctl, Sparse};

fn case(c: &mut Case) -> Verdict {
    let v = V0::random(&mut c.rng);
    let big = c.index % 2 == 1;
    let bytes = v.encode(big);
    c.fp_bytes(&bytes);
    c.nontrivial();
    let size = (1 << 16) + c.rng.below(1 << 30) / 512 * 512;
    let mut s = Sparse::garbage(size, c.rng.u64());
    s.write(mdv::md::v0_offset(size), &bytes);
    let d = must(open_dev(s, 512, &Ctl::new()), "opening a device")?;
    let Some(sb) = sb(&d) else {
        return Err(mdv::Stop::v("no version 0.90 superblock found"));
    };
    c.describe(|| format!("big endian: {big}, {v:?}"));
    mdv::ensure_eq!((sb.major_version(), sb.minor_version()), (0, v.minor), "version");
    let flat: Vec<u8> = v.uuid.iter().flat_map(|w| w.to_le_bytes()).collect();
    let uuid = if v.minor < 90 {
        c.hit("short uuid");
        ArrayUuid::Short(flat[..4].try_into().unwrap())
    } else {
        c.hit("long uuid");
        ArrayUuid::Long(flat[..].try_into().unwrap())
    };
    mdv::ensure_eq!(sb.array_uuid(), uuid, "array uuid");
    mdv::ensure_eq!(sb.array_name(), None, "array name");
    fields::algorithm(c, &sb.algorithm(), v.level, v.layout)?;
    mdv::ensure_eq!(sb.sectors_per_device().0, u64::from(v.size_kib) * 2, "sectors per device");
    mdv::ensure_eq!(sb.chunk_size().0, v.chunk / 512, "chunk size in sectors");
    mdv::ensure_eq!(sb.raid_device_count().0, v.raid_disks, "raid devices");
    mdv::ensure_eq!(sb.data_offset().0, 0, "data offset");
    mdv::ensure_eq!(
        sb.device_role_index() as u64,
        u64::from(v.this_disk.number),
        "device number"
    );
    mdv::ensure_eq!(fields::events(&sb.event_count()), v.events, "event count");
    fields::roles(c, &sb.device_roles(), &v.visible_roles())?;
    match (sb.reshape_status(), v.minor >= 91) {
        (None, false) => c.hit("no reshape"),
        (Some(r), true) => {
            fields::algorithm(c, &r.new_algorithm, v.new_level, v.new_layout)?;
            mdv::ensure_eq!(r.reshape_position.0, v.reshape_position, "reshape position");
            mdv::ensure_eq!(r.delta_devices.0, v.delta_disks, "change in devices");
            mdv::ensure_eq!(r.new_chunk_size.0, v.new_chunk / 512, "new chunk size in sectors");
            c.hit("reshape");
        }
        (r, want) => {
            return Err(mdv::Stop::v(format!(
                "reshape status {r:?} of a version 0.{} superblock (expected one: {want})",
                v.minor
            )))
        }
    }
    if c.index % 16 < 2 {
        fields::boxed(must(SuperblockVersion0::read(&bytes[..]), "SuperblockVersion0::read")?)?;
        c.hit("read through a box");
    }
    c.hit(if big { "big endian" } else { "little endian" });
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C03",
            rule: "One version 0.x superblock per case with every field drawn at random (extremes included), little and big endian in turn, minor versions 0.36 to 0.92, placed on a device and read back through discovery. Non-trivial: all; distinct by superblock bytes.",
            quick: 600_000,
            thorough: 15_000_000,
            required: &["big endian", "little endian", "read through a box", "short uuid", "long uuid", "reshape", "no reshape", "roles compared", "supported algorithm", "unsupported algorithm"],
            assumptions: &["md_p.h's struct mdp_superblock_s, transcribed in harness/core/src/md.rs, is the reference; 64-bit counters are stored most significant word first on big-endian hosts"],
            ..Spec::default()
        },
        case,
    )
}
