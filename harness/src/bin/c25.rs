//! Text from an ext4 file system compares as the bytes it is.
use mdv::run::{self, Case, Spec, Stop, Verdict};
use mdv::sut::ext4::string::Ext4String;
use mdv::Rng;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn text(r: &mut Rng) -> Vec<u8> {
    let len = *r.pick(&[0usize, 1, 1, 2, 3, 4, 8, 16, 255]);
    let len = if r.bool() { r.usize_below(len + 1) } else { len };
    let style = r.below(5);
    let mut v: Vec<u8> = vec![];
    while v.len() < len {
        match style {
            0 => v.push(b'a' + r.below(3) as u8),
            1 => v.push(r.u8()),
            // Bytes that are parts of UTF-8 sequences, whole or not.
            2 => v.push(*r.pick(&[0x80, 0xbf, 0xc3, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xff, 0xfe, b'a'])),
            3 => v.extend("\u{fffd}é€🦀a\u{301}".chars().nth(r.usize_below(6)).unwrap().to_string().bytes()),
            _ => v.push(*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])),
        }
    }
    v
}

fn tweak(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    match r.below(6) {
        0 => {}
        1 => v.push(r.u8()),
        2 => {
            v.pop();
        }
        3 if !v.is_empty() => {
            let at = r.usize_below(v.len());
            v[at] = v[at].wrapping_add(*r.pick(&[1, 0x80, 0x20, 0xff]));
        }
        4 => {
            // What a lossy conversion makes of it.
            v = String::from_utf8_lossy(&v).into_owned().into_bytes();
        }
        _ => {
            let at = r.usize_below(v.len() + 1);
            v.insert(at, *r.pick(&[0x80, 0xff, 0, b'a']));
        }
    }
    v
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn cut(b: &[u8]) -> &[u8] {
    &b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]
}

fn case(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let mut raw = vec![text(r)];
    for _ in 0..12 {
        let base = r.usize_below(raw.len());
        let v = if r.chance(1, 3) { text(r) } else { tweak(r, &raw[base].clone()) };
        raw.push(v);
    }
    let raws = raw.clone();
    for v in &raws {
        c.fp_bytes(v);
        c.fp(v.len() as u64);
    }
    c.nontrivial();
    c.describe(|| format!("{raws:?}"));
    let borrowed: Vec<_> = raws.iter().map(|v| Ext4String::from_null_terminated_bytes(v)).collect();
    let owned: Vec<_> = borrowed.iter().map(|s| s.to_owned()).collect();
    let bytes: Vec<&[u8]> = raws.iter().map(|v| cut(v)).collect();
    for (i, b) in bytes.iter().enumerate() {
        let (s, o) = (&borrowed[i], &owned[i]);
        mdv::ensure_eq!(<&[u8]>::from(s), *b, "bytes of the text stored as {:x?}", raws[i]);
        mdv::ensure_eq!(<&[u8]>::from(o), *b, "bytes of an owned copy of the text stored as {:x?}", raws[i]);
        mdv::ensure_eq!((s.len(), s.is_empty()), (b.len(), b.is_empty()), "length of {b:x?}");
        mdv::ensure_eq!(s.to_str_lossy(), String::from_utf8_lossy(b), "lossy form of {b:x?}");
        mdv::ensure_eq!(s.to_string(), String::from_utf8_lossy(b), "display of {b:x?}");
        let conv = String::try_from(s);
        match (std::str::from_utf8(b), conv) {
            (Ok(w), Ok(g)) => {
                mdv::ensure_eq!(g, w, "string form of {b:x?}");
                c.hit("valid UTF-8");
                let back = Ext4String::from(w);
                mdv::ensure!(back == *s, "the text {w:?} is not equal to its own bytes");
                let string = w.to_string();
                mdv::ensure!(Ext4String::from(&string) == *s, "the text {w:?} is not equal to its own bytes");
            }
            (Err(_), Err(_)) => c.hit("invalid UTF-8"),
            (w, g) => {
                return Err(Stop::v(format!("converting {b:x?} to a string gave {g:?}, expected {w:?}")))
            }
        }
    }
    for i in 0..bytes.len() {
        for j in 0..bytes.len() {
            let (x, y) = (bytes[i], bytes[j]);
            mdv::ensure_eq!(borrowed[i] == borrowed[j], x == y, "equality of {x:x?} and {y:x?}");
            mdv::ensure_eq!(owned[i] == owned[j], x == y, "equality of owned {x:x?} and {y:x?}");
            mdv::ensure_eq!(borrowed[i] != borrowed[j], x != y, "inequality of {x:x?} and {y:x?}");
            mdv::ensure_eq!(borrowed[i].cmp(&borrowed[j]), x.cmp(y), "order of {x:x?} and {y:x?}");
            mdv::ensure_eq!(owned[i].cmp(&owned[j]), x.cmp(y), "order of owned {x:x?} and {y:x?}");
            mdv::ensure_eq!(borrowed[i].partial_cmp(&borrowed[j]), Some(x.cmp(y)), "partial order of {x:x?} and {y:x?}");
            mdv::ensure_eq!(borrowed[i] < borrowed[j], x < y, "{x:x?} before {y:x?}");
            if x == y {
                mdv::ensure_eq!(hash(&borrowed[i]), hash(&borrowed[j]), "hashes of equal texts {x:x?}");
                mdv::ensure_eq!(hash(&owned[i]), hash(&owned[j]), "hashes of equal owned texts {x:x?}");
            } else if String::from_utf8_lossy(x) == String::from_utf8_lossy(y) {
                c.hit("distinct texts that look the same");
            }
            c.count("pairs compared", 1);
        }
    }
    // As keys: distinct texts stay distinct, equal ones are found.
    let want: BTreeMap<&[u8], usize> = bytes.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    let hashed: HashMap<_, _> = borrowed.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect();
    let sorted: BTreeMap<_, _> = owned.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect();
    mdv::ensure_eq!(hashed.len(), want.len(), "distinct texts kept by a hash map of {bytes:x?}");
    mdv::ensure_eq!(sorted.len(), want.len(), "distinct texts kept by a sorted map of {bytes:x?}");
    for (k, v) in &want {
        let s = Ext4String::from_null_terminated_bytes(k);
        mdv::ensure_eq!(hashed.get(&s), Some(v), "looking up {k:x?} in a hash map");
        mdv::ensure_eq!(sorted.get(&s.to_owned()), Some(v), "looking up {k:x?} in a sorted map");
        c.hit("looked up");
    }
    let order: Vec<&[u8]> = sorted.keys().map(<&[u8]>::from).collect();
    mdv::ensure_eq!(order, want.keys().copied().collect::<Vec<_>>(), "order of a sorted map");
    // Not found when absent.
    let absent = tweak(&mut c.rng, bytes[0]);
    let absent = cut(&absent);
    let probe = Ext4String::from_null_terminated_bytes(absent);
    let set: HashSet<_> = borrowed.iter().cloned().collect();
    let tree: BTreeSet<_> = borrowed.iter().cloned().collect();
    mdv::ensure_eq!(set.contains(&probe), want.contains_key(absent), "{absent:x?} in a hash set");
    mdv::ensure_eq!(tree.contains(&probe), want.contains_key(absent), "{absent:x?} in a sorted set");
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C25",
            rule: "Thirteen byte strings per case, random ones and mutations of each other (valid UTF-8, parts of sequences, bytes that a lossy conversion conflates, terminators inside), each made into a text as stored; every pair compared by ==, ordering and hash and all used as map keys, against the byte strings themselves. Non-trivial: all. Distinct by the strings.",
            quick: 300_000,
            thorough: 7_500_000,
            required: &["valid UTF-8", "invalid UTF-8", "distinct texts that look the same", "pairs compared", "looked up"],
            ..Spec::default()
        },
        case,
    )
}
