//! Sets of devices whose superblocks may disagree about anything, and what a
//! diagnosis of them has to say (C08, C09).
use crate::dev::Ctl;
use crate::mdx::{must, Dev};
use crate::run::{Case, Stop};
use crate::sut::md::algorithm::MdAlgorithm;
use crate::sut::md::diagnosis::Diagnosis;
use crate::sut::md::superblock::{ArrayUuid, MdDeviceRole, ReshapeStatus};
use crate::sut::md::{MdDevice, MdDeviceId};
use crate::TestDevice;
use mdv_core::md::{v0_offset, v1_offset, Member, Plan, Ver, RAID5_LAYOUTS, RAID6_LAYOUTS, V0, V1};
use mdv_core::rng::Rng;
use mdv_core::sparse::Sparse;
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Super {
    V1(V1, u32),
    V0(V0, bool),
    Missing,
    TooSmall,
}

pub struct Set {
    pub plan: Plan,
    pub supers: Vec<Super>,
    pub members: Vec<Member>,
    pub rows: Vec<u64>,
    pub touched: Vec<&'static str>,
}

pub fn generate(c: &mut Case) -> Set {
    let level = *c.rng.pick(&[6, 6, 6, 5]);
    let mut plan = Plan::random(&mut c.rng, level, 1 << 12);
    // The command line checks store members in files, and reads them whole.
    for o in &mut plan.data_offset {
        *o = (*o).min(2048);
    }
    if plan.n > 8 {
        plan.n = 8;
        plan.spares = 0;
        plan.index.truncate(8);
        plan.data_offset.truncate(8);
    }
    let mut members = plan.members();
    let rows = vec![0, plan.per_dev - 1];
    for row in &rows {
        plan.write_row(&mut members, *row);
    }
    let mut supers: Vec<Super> = (0..members.len())
        .map(|who| match plan.ver {
            Ver::V1(m) => Super::V1(plan.v1(who, m, members[who].storage.size), m),
            v => Super::V0(plan.v0(who), v == Ver::V0Be),
        })
        .collect();
    let mut touched = vec![];
    let changes = match c.rng.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 1 + c.rng.below(6),
    };
    for _ in 0..changes {
        let who = c.rng.usize_below(supers.len());
        let what = alter(&mut c.rng, &mut supers, who);
        touched.push(what);
        c.hit_dyn(format!("altered: {what}"));
        if c.rng.chance(1, 3) {
            // Another device agrees with the altered one.
            let other = c.rng.usize_below(supers.len());
            let made = match (&supers[who], &supers[other]) {
                (Super::V1(a, _), Super::V1(b, minor)) => Some(Super::V1(
                    V1 { dev_number: b.dev_number, data_offset: b.data_offset, super_offset: b.super_offset, ..a.clone() },
                    *minor,
                )),
                (Super::V0(a, big), Super::V0(b, _)) => {
                    Some(Super::V0(V0 { this_disk: b.this_disk, ..a.clone() }, *big))
                }
                _ => None,
            };
            if let Some(m) = made {
                supers[other] = m;
                c.hit("two devices altered alike");
            }
        }
    }
    // Members that have different ideas about one of them.
    if c.rng.chance(1, 8) {
        let k = c.rng.u64();
        for s in &mut supers {
            match s {
                Super::V1(v, _) if !v.roles.is_empty() && c.rng.bool() => {
                    let i = (k % v.roles.len() as u64) as usize;
                    v.roles[i] = *c.rng.pick(&[0, 1, 9, 0xffff, 0xfffe, 0xfffd, RESERVED]);
                }
                Super::V0(v, _) if v.nr_disks > 0 && c.rng.bool() => {
                    let i = (k % u64::from(v.nr_disks.min(27))) as usize;
                    v.disks[i].raid_disk = *c.rng.pick(&[0, 1, 9, 0xffff, 0xfffe]);
                }
                _ => {}
            }
        }
        touched.push("one role, differently");
        c.hit("altered: one role, differently");
    }
    // Some more devices that carry nothing, and copies of a member.
    if c.rng.chance(1, 6) {
        supers.push(Super::Missing);
        members.push(Member {
            slot: None,
            storage: Sparse::new(1 << 20),
            data_start: 0,
        });
        touched.push("a blank device");
    }
    if c.rng.chance(1, 6) {
        supers.push(Super::TooSmall);
        members.push(Member {
            slot: None,
            storage: Sparse::new(c.rng.below(12288)),
            data_start: 0,
        });
        touched.push("a device too small");
    }
    if c.rng.chance(1, 6) {
        let who = c.rng.usize_below(supers.len());
        supers.push(supers[who].clone());
        let copy = members[who].clone();
        members.push(copy);
        touched.push("a copy of a device");
    }
    for (s, m) in supers.iter().zip(&mut members) {
        let size = m.storage.size;
        match s {
            Super::V1(v, minor) => m.storage.write(v1_offset(*minor, size), &v.encode()),
            Super::V0(v, big) => m.storage.write(v0_offset(size), &v.encode(*big)),
            Super::Missing if size >= 12288 => {
                // Wipe whatever the array generator put there.
                for at in [0, 4096, v1_offset(0, size)] {
                    m.storage.write(at, &[0; 8]);
                }
                if size >= 65536 {
                    m.storage.write(v0_offset(size), &[0; 8]);
                }
            }
            _ => {}
        }
    }
    Set {
        plan,
        supers,
        members,
        rows,
        touched,
    }
}

/// A role number that means nothing. Only one, for reports do not show which.
const RESERVED: u16 = 0xff42;

fn alter(r: &mut Rng, supers: &mut [Super], who: usize) -> &'static str {
    // The role table decides who is where: altered more often than the rest.
    let what = match r.below(16) {
        13.. => 10,
        w => w,
    };
    if what == 12 {
        supers[who] = Super::Missing;
        return "superblock wiped";
    }
    match &mut supers[who] {
        Super::V1(v, _) => match what {
            0 => {
                v.uuid = r.array();
                "uuid"
            }
            1 => {
                // A different name, not the same name with different padding.
                let i = r.usize_below(8);
                v.name[i] = b'A' + r.below(26) as u8;
                "name"
            }
            2 => {
                v.layout = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 10, 20, 77]);
                "layout"
            }
            3 => {
                v.level = *r.pick(&[5, 6, 0, 1]);
                "level"
            }
            4 => {
                v.size += 1 + r.scaled(1 << 40);
                "size"
            }
            5 => {
                v.chunk = 8 << r.below(8);
                "chunk size"
            }
            6 => {
                v.raid_disks = r.below(12) as u32;
                "device count"
            }
            7 => {
                v.features |= 4;
                v.new_level = 6;
                v.new_layout = r.below(4) as u32;
                v.reshape_position = r.below(3) * 4096;
                v.delta_disks = r.below(2) as u32;
                v.new_chunk = 64 << r.below(2);
                "reshape"
            }
            8 => {
                v.events = v.events.wrapping_add(1 + r.below(3));
                "event count"
            }
            9 => {
                v.dev_number = r.below(u64::from(v.max_dev) + 2) as u32;
                "device number"
            }
            10 => {
                let i = r.usize_below(v.roles.len());
                v.roles[i] = *r.pick(&[0, 1, 2, 3, 0xffff, 0xfffe, 0xfffe, 0xfffd, 9, RESERVED]);
                "roles"
            }
            _ => {
                v.roles.push(0xffff);
                v.max_dev += 1;
                "length of the role table"
            }
        },
        Super::V0(v, big) => match what {
            0 => {
                v.uuid[r.usize_below(4)] = r.u32();
                "uuid"
            }
            1 => {
                *big = !*big;
                "byte order"
            }
            2 => {
                v.layout = r.below(7) as u32;
                "layout"
            }
            3 => {
                v.level = *r.pick(&[5, 6, 0, 1]);
                "level"
            }
            4 => {
                v.size_kib = v.size_kib.wrapping_add(1 + r.below(9) as u32);
                "size"
            }
            5 => {
                v.chunk = 4096 << r.below(8);
                "chunk size"
            }
            6 => {
                v.raid_disks = r.below(12) as u32;
                "device count"
            }
            7 => {
                v.minor = 91;
                v.new_level = 6;
                v.new_layout = r.below(4) as u32;
                v.reshape_position = r.below(3) * 4096;
                v.delta_disks = r.below(2) as u32;
                v.new_chunk = 65536 << r.below(2);
                "reshape"
            }
            8 => {
                v.events += 1 + r.below(3);
                "event count"
            }
            9 => {
                v.this_disk.number = r.below(u64::from(v.nr_disks) + 2) as u32;
                "device number"
            }
            10 => {
                let i = r.usize_below(v.nr_disks as usize);
                v.disks[i].raid_disk = *r.pick(&[0, 1, 2, 3, 0xffff, 0xfffe, 9]);
                "roles"
            }
            _ => {
                v.nr_disks += 1;
                "length of the role table"
            }
        },
        _ => "nothing",
    }
}

pub fn open(set: &Set, label: bool) -> Result<Vec<Rc<Dev>>, Stop> {
    let ctl = Ctl::new();
    set.members
        .iter()
        .enumerate()
        .map(|(i, m)| {
            let name = label.then(|| format!("d{i}"));
            must(
                MdDevice::from_block_device(TestDevice::new(m.storage.clone(), 512, &ctl), name),
                "opening a device",
            )
            .map(Rc::new)
        })
        .collect()
}

/// Field name to key to devices; a field that is not there has no problem.
pub type Report = BTreeMap<&'static str, BTreeMap<String, Vec<usize>>>;

pub fn expected(supers: &[Super]) -> Report {
    let mut rep: Report = BTreeMap::new();
    let mut put = |f: &'static str, key: String, i: usize| {
        rep.entry(f).or_default().entry(key).or_default().push(i);
    };
    for (i, s) in supers.iter().enumerate() {
        match s {
            Super::TooSmall => put("too small", String::new(), i),
            Super::Missing => put("no superblock", String::new(), i),
            Super::V1(v, _) => {
                put("uuid", hex(&v.uuid), i);
                put("name", hex(strip(&v.name)), i);
                put("algorithm", format!("{}/{}", v.level, v.layout), i);
                put("size", v.size.to_string(), i);
                put("chunk", v.chunk.to_string(), i);
                put("devices", v.raid_disks.to_string(), i);
                put(
                    "reshape",
                    if v.features & 4 == 0 {
                        "none".into()
                    } else {
                        format!(
                            "{}/{} at {} by {} chunk {}",
                            v.new_level, v.new_layout, v.reshape_position, v.delta_disks, v.new_chunk
                        )
                    },
                    i,
                );
                put("events", v.events.to_string(), i);
                put("index", v.dev_number.to_string(), i);
                put("roles", format!("{:?}", v.visible_roles().iter().map(|r| kind(*r)).collect::<Vec<_>>()), i);
            }
            Super::V0(v, _) => {
                let u: Vec<u8> = v.uuid.iter().flat_map(|w| w.to_le_bytes()).collect();
                put("uuid", hex(&u), i);
                put("algorithm", format!("{}/{}", v.level, v.layout), i);
                put("size", (u64::from(v.size_kib) * 2).to_string(), i);
                put("chunk", (v.chunk / 512).to_string(), i);
                put("devices", v.raid_disks.to_string(), i);
                put(
                    "reshape",
                    if v.minor < 91 {
                        "none".into()
                    } else {
                        format!(
                            "{}/{} at {} by {} chunk {}",
                            v.new_level, v.new_layout, v.reshape_position, v.delta_disks, v.new_chunk / 512
                        )
                    },
                    i,
                );
                put("events", v.events.to_string(), i);
                put("index", v.this_disk.number.to_string(), i);
                put("roles", format!("{:?}", v.visible_roles().iter().map(|r| kind(*r)).collect::<Vec<_>>()), i);
            }
        }
    }
    rep.retain(|f, m| match *f {
        "too small" | "no superblock" => true,
        "index" => {
            m.retain(|_, ids| ids.len() > 1);
            !m.is_empty()
        }
        _ => m.len() > 1,
    });
    rep
}

fn kind(r: u32) -> String {
    match r {
        0xff00..=0xfffc => "invalid".into(),
        0xffff => "spare".into(),
        0xfffe => "faulty".into(),
        0xfffd => "journal".into(),
        r => r.to_string(),
    }
}

fn strip(name: &[u8]) -> &[u8] {
    let n = name.iter().position(|b| *b == 0).unwrap_or(name.len());
    &name[..n]
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn algo(a: &MdAlgorithm) -> String {
    match a {
        MdAlgorithm::Unsupported { level, layout } => format!("{level}/{layout}"),
        MdAlgorithm::Raid5(x) => {
            let l = RAID5_LAYOUTS
                .iter()
                .find(|l| crate::sut::md::raid5::Raid5Algorithm::from_layout(**l).as_ref() == Some(x));
            format!("5/{}", l.map_or("?".into(), |l| l.to_string()))
        }
        MdAlgorithm::Raid6(x) => {
            let l = RAID6_LAYOUTS
                .iter()
                .find(|l| crate::sut::md::raid6::Raid6Algorithm::from_layout(**l).as_ref() == Some(x));
            format!("6/{}", l.map_or("?".into(), |l| l.to_string()))
        }
    }
}

pub fn observed(d: &Diagnosis, ids: &[Rc<MdDeviceId>]) -> Result<Report, Stop> {
    let who = |id: &Rc<MdDeviceId>| -> Result<usize, Stop> {
        ids.iter()
            .position(|x| x == id)
            .ok_or_else(|| Stop::v(format!("the diagnosis names a device that was not given: {id:?}")))
    };
    let mut rep: Report = BTreeMap::new();
    // Of any kind of map and set, so that the kind is free to change.
    fn set<'a, S>(
        rep: &mut Report,
        f: &'static str,
        s: &'a Option<S>,
        who: &dyn Fn(&Rc<MdDeviceId>) -> Result<usize, Stop>,
    ) -> Result<(), Stop>
    where
        &'a S: IntoIterator<Item = &'a Rc<MdDeviceId>>,
    {
        if let Some(s) = s {
            let mut v = s.into_iter().map(who).collect::<Result<Vec<_>, _>>()?;
            v.sort_unstable();
            rep.insert(f, [(String::new(), v)].into());
        }
        Ok(())
    }
    set(&mut rep, "too small", &d.device_too_small_problem, &who)?;
    set(&mut rep, "no superblock", &d.missing_superblock_problem, &who)?;
    fn map<'a, M, K: 'a, V: 'a>(
        rep: &mut Report,
        f: &'static str,
        m: &'a Option<M>,
        who: &dyn Fn(&Rc<MdDeviceId>) -> Result<usize, Stop>,
        key: impl Fn(&K) -> String,
    ) -> Result<(), Stop>
    where
        &'a M: IntoIterator<Item = (&'a K, &'a V)>,
        &'a V: IntoIterator<Item = &'a Rc<MdDeviceId>>,
    {
        if let Some(m) = m {
            let mut out: BTreeMap<String, Vec<usize>> = BTreeMap::new();
            for (k, ids) in m {
                let mut v = ids.into_iter().map(who).collect::<Result<Vec<_>, _>>()?;
                v.sort_unstable();
                if out.insert(key(k), v).is_some() {
                    return Err(Stop::v(format!("{f}: {} is reported twice", key(k))));
                }
            }
            rep.insert(f, out);
        }
        Ok(())
    }
    let rep = &mut rep;
    map(rep, "uuid", &d.array_uuid_problem, &who, |u| match u {
        ArrayUuid::Short(u) => hex(u),
        ArrayUuid::Long(u) => hex(u),
    })?;
    map(rep, "name", &d.array_name_problem, &who, |n| hex(strip(n.as_bytes())))?;
    map(rep, "algorithm", &d.algorithm_problem, &who, algo)?;
    map(rep, "size", &d.size_problem, &who, |s| s.0.to_string())?;
    map(rep, "chunk", &d.chunk_size_problem, &who, |s| s.0.to_string())?;
    map(rep, "devices", &d.device_count_problem, &who, |s| s.0.to_string())?;
    map(rep, "reshape", &d.reshape_problem, &who, |s: &Option<ReshapeStatus>| match s {
        None => "none".into(),
        Some(s) => format!(
            "{} at {} by {} chunk {}",
            algo(&s.new_algorithm),
            s.reshape_position.0,
            s.delta_devices.0,
            s.new_chunk_size.0
        ),
    })?;
    map(rep, "events", &d.event_count_problem, &who, |e| e.0.to_string())?;
    map(rep, "index", &d.device_role_index_problem, &who, |e| e.to_string())?;
    map(rep, "roles", &d.device_roles_problem, &who, |r: &Vec<MdDeviceRole>| {
        format!(
            "{:?}",
            r.iter()
                .map(|r| match r.device_number() {
                    Some(d) => d.0.to_string(),
                    None if r.is_spare() => "spare".into(),
                    None if r.is_faulty() => "faulty".into(),
                    None if r.is_journal() => "journal".into(),
                    None => "invalid".into(),
                })
                .collect::<Vec<String>>()
        )
    })?;
    Ok(std::mem::take(rep))
}
