//! Every field of a block group descriptor is reported as it is on disk.
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::ext4::block_group::{BlockGroupDescriptor, Flags};

/// struct ext4_group_desc of fs/ext4/ext4.h: a field, the place and width of its
/// low part, and the place of its high part (0: none), which is as wide.
const FIELDS: &[(&str, usize, usize, usize)] = &[
    ("block_bitmap", 0x00, 4, 0x20),
    ("inode_bitmap", 0x04, 4, 0x24),
    ("inode_table", 0x08, 4, 0x28),
    ("free_blocks_count", 0x0c, 2, 0x2c),
    ("free_inodes_count", 0x0e, 2, 0x2e),
    ("used_dirs_count", 0x10, 2, 0x30),
    ("flags", 0x12, 2, 0),
    ("exclude_bitmap", 0x14, 4, 0x34),
    ("block_bitmap_csum", 0x18, 2, 0x38),
    ("inode_bitmap_csum", 0x1a, 2, 0x3a),
    ("itable_unused", 0x1c, 2, 0x32),
    ("checksum", 0x1e, 2, 0),
];

fn part(b: &[u8], at: usize, width: usize) -> u64 {
    let at = at.min(b.len());
    b[at..(at + width).min(b.len())].iter().rev().fold(0, |a, x| a << 8 | u64::from(*x))
}

fn case(c: &mut Case) -> Verdict {
    for _ in 0..40 {
        let size = *c.rng.pick(&[32usize, 32, 64, 64, 64, 128, 256, 512, 1024]);
        let mut b = vec![0; size];
        if c.rng.bool() {
            c.rng.fill(&mut b);
        } else {
            for _ in 0..1 + c.rng.below(3) {
                let (_, low, w, high) = *c.rng.pick(FIELDS);
                let at = if high > 0 && size >= 64 && c.rng.bool() { high } else { low };
                match c.rng.below(3) {
                    0 => b[at..at + w].fill(0xff),
                    1 => b[at + w - 1] |= 0x80,
                    _ => b[at + c.rng.usize_below(w)] |= 1 << c.rng.below(8),
                }
            }
        }
        c.nontrivial();
        c.fp_bytes(&b);
        let shown = b.clone();
        c.describe(move || format!("descriptor {shown:02x?}"));
        let d = BlockGroupDescriptor::new(&b[..]);
        let got: [u64; 12] = [
            d.block_bitmap_block().into(),
            d.inode_bitmap_block().into(),
            d.inode_table_block().into(),
            u32::from(d.free_block_count()).into(),
            d.free_inode_count().into(),
            d.used_directories_count().into(),
            d.flags().bits().into(),
            d.exclude_bitmap_block().into(),
            d.block_bitmap_checksum().into(),
            d.inode_bitmap_checksum().into(),
            d.unused_inode_count().into(),
            d.checksum().into(),
        ];
        for ((name, low, w, high), got) in FIELDS.iter().zip(got) {
            let mut want = part(&b, *low, *w);
            if *high > 0 && size >= 64 {
                want |= part(&b, *high, *w) << (8 * w);
            }
            mdv::ensure_eq!(got, want, "{name} of a descriptor of {size} bytes");
        }
        for (f, bit) in [(Flags::INODE_NOT_IN_USE, 1u16), (Flags::BLOCK_BITMAP_NOT_IN_USE, 2), (Flags::INODE_TABLE_ZEROED, 4)] {
            mdv::ensure_eq!(d.flags().contains(f), part(&b, 0x12, 2) as u16 & bit != 0, "flag {f:?}");
        }
        c.count("descriptors compared", 1);
        c.hit(match size {
            32 => "32-byte descriptors",
            64 => "64-byte descriptors",
            _ => "larger descriptors",
        });
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C26",
            rule: "40 block group descriptors per case, of 32 to 1024 bytes: every field random, or all zero but a few all ones or a single bit; every accessor compared. Non-trivial: all; distinct by descriptor bytes.",
            quick: 600_000,
            thorough: 15_000_000,
            required: &["descriptors compared", "32-byte descriptors", "64-byte descriptors", "larger descriptors"],
            assumptions: &["fs/ext4/ext4.h's struct ext4_group_desc, transcribed in this check, is the reference"],
            ..Spec::default()
        },
        case,
    )
}
