//! A member's superblock is found where the format puts it, and nowhere else.
use mdv::md::{v0_offset, v1_offset, Ver, MAGIC, V0, V1, VERS};
use mdv::mdx::*;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::md::superblock::ArrayUuid;
use mdv::sut::md::MdDeviceSuperblock;
use mdv::{Ctl, Rng, Sparse};

#[derive(Clone, Debug, PartialEq)]
struct Found {
    major: u32,
    minor: u32,
    uuid: Vec<u8>,
}

fn uuid(u: &ArrayUuid) -> Vec<u8> {
    match u {
        ArrayUuid::Short(u) => u.to_vec(),
        ArrayUuid::Long(u) => u.to_vec(),
    }
}

/// What a reader of the format finds in the 4 KiB at `at`, if anything.
fn v1_at(s: &Sparse, minor: u32) -> Option<Found> {
    let b = s.get(v1_offset(minor, s.size), 256);
    let w = |at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
    (w(0) == MAGIC && w(4) == 1).then(|| Found {
        major: 1,
        minor,
        uuid: b[16..32].to_vec(),
    })
}

enum V0Found {
    No,
    Yes(Found),
    /// A descriptor in use holds a role number the format reserves.
    Doubtful(Found),
}

fn v0_at(s: &Sparse) -> V0Found {
    if s.size < 65536 {
        return V0Found::No;
    }
    let b = s.get(v0_offset(s.size), 4096);
    for big in [false, true] {
        let w = |i: usize| {
            let x: [u8; 4] = b[4 * i..4 * i + 4].try_into().unwrap();
            if big {
                u32::from_be_bytes(x)
            } else {
                u32::from_le_bytes(x)
            }
        };
        if w(0) != MAGIC || w(1) != 0 {
            continue;
        }
        let words: Vec<usize> = if w(2) < 90 { vec![5] } else { vec![5, 13, 14, 15] };
        let f = Found {
            major: 0,
            minor: w(2),
            uuid: words.iter().flat_map(|i| w(*i).to_le_bytes()).collect(),
        };
        let reserved = (0..w(9).min(27) as usize)
            .map(|i| w(128 + 32 * i + 3))
            .any(|r| (0xff00..0xfffd).contains(&r));
        return if reserved { V0Found::Doubtful(f) } else { V0Found::Yes(f) };
    }
    V0Found::No
}

fn size(r: &mut Rng) -> u64 {
    let s = match r.below(8) {
        0 => r.below(16384),
        1 => 12288 - 2 + r.below(5),
        2 => 12288 + r.below(60000),
        3 => 65536 + r.below(9) * 32768 + r.below(3) * 512,
        4 => 65536 + r.below(1 << 20),
        5 => (1 << 20) + r.below(1 << 30),
        6 => (r.below(1 << 20) + 1) * 65536 + *r.pick(&[0, 512, 4096, 8192, 65535, 65024]),
        _ => 12288 + r.scaled(1 << 55),
    };
    s.min((1 << 62) - 1)
}

fn case(c: &mut Case) -> Verdict {
    let bs = *c.rng.pick(&[512u32, 512, 4096, 1024, 2048, 520]);
    let raw = size(&mut c.rng);
    // A device is a whole number of its blocks.
    let total = raw / u64::from(bs) * u64::from(bs);
    let mut s = if c.rng.chance(1, 3) {
        Sparse::garbage(total, c.rng.u64())
    } else {
        Sparse::new(total)
    };
    let big_enough = total >= 12288;
    let mut kinds = vec![];
    // At most one genuine superblock most of the time; sometimes stale ones too.
    let want = match c.rng.below(6) {
        0 => 0,
        5 => 2 + c.rng.usize_below(3),
        _ => 1,
    };
    if big_enough {
        let mut spots: Vec<Ver> = VERS.to_vec();
        c.rng.shuffle(&mut spots);
        if c.index % 2 == 0 {
            let v = VERS[c.index as usize / 2 % VERS.len()];
            spots.retain(|x| *x != v);
            spots.insert(0, v);
        }
        let mut taken: Vec<u64> = vec![];
        for v in spots {
            if kinds.len() == want {
                break;
            }
            let v0 = !matches!(v, Ver::V1(_));
            if v0 && total < 65536 {
                continue;
            }
            let (at, bytes) = match v {
                Ver::V1(m) => (v1_offset(m, total), V1::random(&mut c.rng).encode()),
                _ => (v0_offset(total), {
                    let mut sb = V0::random(&mut c.rng);
                    sb.minor = *c.rng.pick(&[90, 90, 91, 36, 89]);
                    sb.encode(v == Ver::V0Be)
                }),
            };
            if taken.iter().any(|t| t.abs_diff(at) < 4096) || at + 4096 > total {
                continue;
            }
            taken.push(at);
            s.write(at, &bytes);
            kinds.push(v);
        }
        // Decoys: superblocks that are not one, or not in a place for one.
        if c.rng.chance(1, 2) {
            let mut sb = if c.rng.bool() {
                V1::random(&mut c.rng).encode()
            } else {
                V0::random(&mut c.rng).encode(c.rng.bool())
            };
            let spots = [
                0,
                4096,
                v1_offset(0, total),
                if total >= 65536 { v0_offset(total) } else { 0 },
            ];
            let at = match c.rng.below(4) {
                // In place, but broken.
                0 | 1 => {
                    let field = if c.rng.bool() { 0 } else { 4 };
                    let bit = c.rng.below(32);
                    sb[field + bit as usize / 8] ^= 1 << (bit % 8);
                    c.hit("decoy: damaged magic or version");
                    *c.rng.pick(&spots)
                }
                // Intact, but out of place.
                2 => {
                    c.hit("decoy: intact, a few sectors off");
                    (*c.rng.pick(&spots)).saturating_add_signed(
                        *c.rng.pick(&[-4096i64, -1024, -512, 512, 1024, 4096, 8192, 65536]),
                    )
                }
                _ => c.rng.below(total),
            };
            if !taken.iter().any(|t| t.abs_diff(at) < 4096) && at + 4096 <= total {
                s.write(at, &sb);
            }
        }
    }
    // What is there, from the bytes alone.
    let mut found: Vec<Found> = vec![];
    let mut may: Vec<Found> = vec![];
    if big_enough {
        for m in [2, 1, 0] {
            found.extend(v1_at(&s, m));
        }
        match v0_at(&s) {
            V0Found::Yes(f) => found.push(f),
            V0Found::Doubtful(f) => may.push(f),
            V0Found::No => {}
        }
    }
    let ctl = Ctl::new();
    if c.rng.chance(1, 4) {
        *ctl.short.borrow_mut() = Some(c.rng.clone());
        *ctl.eintr.borrow_mut() = Some(c.rng.clone());
        c.hit("short and interrupted reads");
    }
    c.fp(total);
    c.fp_bytes(format!("{kinds:?}{bs}").as_bytes());
    if big_enough {
        c.nontrivial();
    }
    c.describe(|| format!("device of {total} bytes in blocks of {bs}, superblocks placed: {kinds:?}"));
    let d = must(open_dev(s.clone(), bs, &ctl), "opening a readable device")?;
    match d.superblock.as_ref() {
        MdDeviceSuperblock::TooSmall => {
            mdv::ensure!(!big_enough, "a device of {total} bytes was called too small");
            c.hit("too small");
        }
        MdDeviceSuperblock::Missing => {
            mdv::ensure!(big_enough, "a device of {total} bytes was not called too small");
            mdv::ensure!(
                found.is_empty(),
                "no superblock found on a device of {total} bytes that holds {found:?}"
            );
            c.hit("no superblock");
        }
        MdDeviceSuperblock::Superblock(sb) => {
            let got = Found {
                major: sb.major_version(),
                minor: sb.minor_version(),
                uuid: uuid(&sb.array_uuid()),
            };
            mdv::ensure!(
                found.contains(&got) || may.contains(&got),
                "found {got:?} on a device of {total} bytes that holds {found:?}"
            );
            c.hit(match (got.major, got.minor) {
                (1, 0) => "found 1.0",
                (1, 1) => "found 1.1",
                (1, _) => "found 1.2",
                _ => "found 0.90",
            });
            if found.len() > 1 {
                c.hit("several superblocks present");
            }
            if total > 1 << 41 {
                c.hit("found on a device over 2 TiB");
            }
        }
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C01",
            rule: "One device per case: sizes around every threshold (12 KiB, 64 KiB and its multiples, up to 2^55 bytes), block sizes 512-4096, zero or garbage background, zero to four genuine superblocks (0.90 LE/BE, 1.0, 1.1, 1.2 in turn), decoys with damaged magic or version or in the wrong place, reads short and interrupted in a quarter of the cases. Non-trivial: the device can hold a superblock. Distinct by size, block size and what was placed.",
            quick: 1_200_000,
            thorough: 30_000_000,
            required: &[
                "too small",
                "no superblock",
                "found 1.0",
                "found 1.1",
                "found 1.2",
                "found 0.90",
                "several superblocks present",
                "found on a device over 2 TiB",
                "decoy: damaged magic or version",
                "decoy: intact, a few sectors off",
                "short and interrupted reads",
            ],
            assumptions: &["When a device holds several genuine superblocks, any of them is an acceptable answer"],
            ..Spec::default()
        },
        case,
    )
}
