//! Linux MD on-disk formats and geometry, written from the kernel's
//! definitions (drivers/md/md.c, raid5.c, md_p.h), independently of the code
//! under test.
use crate::rng::{mix, Rng};
use crate::sparse::Sparse;
use std::sync::{Arc, Mutex};

pub const MAGIC: u32 = 0xa92b_4efc;
pub const SPARE: u32 = 0xffff;
pub const FAULTY: u32 = 0xfffe;
pub const JOURNAL: u32 = 0xfffd;

pub const RAID5_LAYOUTS: [u32; 6] = [0, 1, 2, 3, 4, 5];
pub const RAID6_LAYOUTS: [u32; 14] = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Place {
    pub dev_sector: u64,
    pub data: u32,
    pub p: u32,
    pub q: Option<u32>,
}

/// raid5_compute_sector() of the kernel. Callers keep the numbers small enough
/// for u64.
pub fn locate(level: u32, layout: u32, n: u32, chunk: u32, sector: u64) -> Place {
    let n = u64::from(n);
    let chunk = u64::from(chunk);
    let data_disks = n - if level == 6 { 2 } else { 1 };
    let chunk_number = sector / chunk;
    let offset = sector % chunk;
    let stripe = chunk_number / data_disks;
    let mut dd = chunk_number % data_disks;
    let mut stripe2 = stripe;
    let (pd, qd): (u64, Option<u64>);
    if level == 5 {
        qd = None;
        match layout {
            0 => {
                pd = data_disks - stripe2 % n;
                if dd >= pd {
                    dd += 1;
                }
            }
            1 => {
                pd = stripe2 % n;
                if dd >= pd {
                    dd += 1;
                }
            }
            2 => {
                pd = data_disks - stripe2 % n;
                dd = (pd + 1 + dd) % n;
            }
            3 => {
                pd = stripe2 % n;
                dd = (pd + 1 + dd) % n;
            }
            4 => {
                pd = 0;
                dd += 1;
            }
            5 => pd = data_disks,
            _ => panic!("core: layout {layout}"),
        }
    } else {
        let q: u64;
        match layout {
            0 | 1 | 8 | 9 => {
                pd = match layout {
                    0 => n - 1 - stripe2 % n,
                    9 => {
                        stripe2 += 1;
                        n - 1 - stripe2 % n
                    }
                    _ => stripe2 % n,
                };
                if pd == n - 1 {
                    dd += 1; // Q D D D P
                    q = 0;
                } else {
                    q = pd + 1;
                    if dd >= pd {
                        dd += 2; // D D P Q D
                    }
                }
            }
            2 | 3 => {
                pd = if layout == 2 {
                    n - 1 - stripe2 % n
                } else {
                    stripe2 % n
                };
                q = (pd + 1) % n;
                dd = (pd + 2 + dd) % n;
            }
            4 => {
                pd = 0;
                q = 1;
                dd += 2;
            }
            5 => {
                pd = data_disks;
                q = data_disks + 1;
            }
            10 => {
                pd = n - 1 - stripe2 % n;
                q = (pd + n - 1) % n;
                dd = (pd + 1 + dd) % n;
            }
            16 | 17 => {
                pd = if layout == 16 {
                    data_disks - stripe2 % (n - 1)
                } else {
                    stripe2 % (n - 1)
                };
                if dd >= pd {
                    dd += 1;
                }
                q = n - 1;
            }
            18 | 19 => {
                pd = if layout == 18 {
                    data_disks - stripe2 % (n - 1)
                } else {
                    stripe2 % (n - 1)
                };
                dd = (pd + 1 + dd) % (n - 1);
                q = n - 1;
            }
            20 => {
                pd = 0;
                dd += 1;
                q = n - 1;
            }
            _ => panic!("core: layout {layout}"),
        }
        qd = Some(q);
    }
    Place {
        dev_sector: stripe * chunk + offset,
        data: dd as u32,
        p: pd as u32,
        q: qd.map(|q| q as u32),
    }
}

// ---------------------------------------------------------------- version 1

#[derive(Clone, Debug)]
pub struct V1 {
    pub magic: u32,
    pub major: u32,
    pub features: u32,
    pub pad0: u32,
    pub uuid: [u8; 16],
    pub name: [u8; 32],
    pub ctime: u64,
    pub level: u32,
    pub layout: u32,
    pub size: u64,
    pub chunk: u32,
    pub raid_disks: u32,
    pub bitmap_offset: u32,
    pub new_level: u32,
    pub reshape_position: u64,
    pub delta_disks: u32,
    pub new_layout: u32,
    pub new_chunk: u32,
    pub new_offset: u32,
    pub data_offset: u64,
    pub data_size: u64,
    pub super_offset: u64,
    pub recovery_offset: u64,
    pub dev_number: u32,
    pub cnt_corrected_read: u32,
    pub device_uuid: [u8; 16],
    pub devflags: u8,
    pub bblog_shift: u8,
    pub bblog_size: u16,
    pub bblog_offset: u32,
    pub utime: u64,
    pub events: u64,
    pub resync_offset: u64,
    pub max_dev: u32,
    pub roles: Vec<u16>,
}

impl V1 {
    pub fn random(r: &mut Rng) -> V1 {
        let mut name = [0u8; 32];
        let n = r.usize_below(33);
        for b in name.iter_mut().take(n) {
            *b = 1 + r.below(255) as u8;
        }
        let roles: Vec<u16> = (0..r.scaled(2500)).map(|_| rand_role(r)).collect();
        let mut v = V1 {
            magic: MAGIC,
            major: 1,
            features: r.u32() & 0x1fff,
            pad0: 0,
            uuid: r.array(),
            name,
            ctime: r.u64(),
            level: *r.pick(&[5, 6, 6, 6, 0, 1, 4, 10, 0xffff_ffff, 0xffff_fffc]),
            layout: *r.pick(&[
                0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 21, 0x102, 0x10002,
                0xffff_ffff,
            ]),
            size: r.edgy64(),
            chunk: r.edgy32(),
            raid_disks: r.edgy32(),
            bitmap_offset: r.u32(),
            new_level: *r.pick(&[5, 6, 4, 0]),
            reshape_position: r.edgy64(),
            delta_disks: r.edgy32(),
            new_layout: r.below(22) as u32,
            new_chunk: r.edgy32(),
            new_offset: r.u32(),
            data_offset: r.edgy64(),
            data_size: r.edgy64(),
            super_offset: r.edgy64(),
            recovery_offset: r.edgy64(),
            dev_number: r.edgy32(),
            cnt_corrected_read: r.u32(),
            device_uuid: r.array(),
            devflags: r.u8(),
            bblog_shift: r.u8(),
            bblog_size: r.u16(),
            bblog_offset: r.u32(),
            utime: r.u64(),
            events: r.edgy64(),
            resync_offset: r.u64(),
            max_dev: if r.chance(1, 6) {
                r.edgy32()
            } else {
                roles.len() as u32
            },
            roles,
        };
        // Fields that agree with each other, or hold little, as real ones often do.
        if r.chance(1, 4) {
            thin(r, &mut v.uuid);
            thin(r, &mut v.device_uuid);
        }
        match r.below(6) {
            0 => v.name = [0; 32],
            1 => v.name = r.array(),
            2 => {
                let end = r.usize_below(33);
                v.name[end..].fill(*r.pick(b" \0\n\x7fA"));
            }
            _ => {}
        }
        if r.chance(1, 4) {
            for f in [&mut v.ctime, &mut v.size, &mut v.reshape_position, &mut v.data_offset, &mut v.data_size,
                &mut v.super_offset, &mut v.recovery_offset, &mut v.utime, &mut v.events, &mut v.resync_offset]
            {
                if r.bool() {
                    *f = *r.pick(&[0, 0, 1, u64::MAX]);
                }
            }
            for f in [&mut v.level, &mut v.layout, &mut v.chunk, &mut v.raid_disks, &mut v.bitmap_offset, &mut v.new_level,
                &mut v.delta_disks, &mut v.new_layout, &mut v.new_chunk, &mut v.new_offset, &mut v.dev_number, &mut v.cnt_corrected_read]
            {
                if r.bool() {
                    *f = *r.pick(&[0, 0, 1, u32::MAX]);
                }
            }
        }
        if r.chance(1, 4) {
            v.new_level = v.level;
            v.new_layout = v.layout;
            v.new_chunk = v.chunk;
            v.delta_disks = *r.pick(&[0, 0, 1, u32::MAX]);
            v.data_size = v.size;
            v.utime = v.ctime;
        }
        v
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0u8; 4096];
        let mut p32 = |at: usize, v: u32| b[at..at + 4].copy_from_slice(&v.to_le_bytes());
        p32(0, self.magic);
        p32(4, self.major);
        p32(8, self.features);
        p32(12, self.pad0);
        p32(72, self.level);
        p32(76, self.layout);
        p32(88, self.chunk);
        p32(92, self.raid_disks);
        p32(96, self.bitmap_offset);
        p32(100, self.new_level);
        p32(112, self.delta_disks);
        p32(116, self.new_layout);
        p32(120, self.new_chunk);
        p32(124, self.new_offset);
        p32(160, self.dev_number);
        p32(164, self.cnt_corrected_read);
        p32(188, self.bblog_offset);
        p32(220, self.max_dev);
        let mut p64 = |at: usize, v: u64| b[at..at + 8].copy_from_slice(&v.to_le_bytes());
        p64(64, self.ctime);
        p64(80, self.size);
        p64(104, self.reshape_position);
        p64(128, self.data_offset);
        p64(136, self.data_size);
        p64(144, self.super_offset);
        p64(152, self.recovery_offset);
        p64(192, self.utime);
        p64(200, self.events);
        p64(208, self.resync_offset);
        b[16..32].copy_from_slice(&self.uuid);
        b[32..64].copy_from_slice(&self.name);
        b[168..184].copy_from_slice(&self.device_uuid);
        b[184] = self.devflags;
        b[185] = self.bblog_shift;
        b[186..188].copy_from_slice(&self.bblog_size.to_le_bytes());
        for (i, r) in self.roles.iter().enumerate().take(1920) {
            b[256 + 2 * i..258 + 2 * i].copy_from_slice(&r.to_le_bytes());
        }
        let len = (256 + 2 * self.max_dev as usize).min(4096);
        let mut sum = 0u64;
        for c in b[..len].chunks(4) {
            sum += if c.len() == 4 {
                u64::from(u32::from_le_bytes(c.try_into().unwrap()))
            } else {
                u64::from(u16::from_le_bytes(c.try_into().unwrap()))
            };
        }
        let csum = ((sum & 0xffff_ffff) + (sum >> 32)) as u32;
        b[216..220].copy_from_slice(&csum.to_le_bytes());
        b
    }

    /// The roles a reader can see: as many as max_dev says and 4 KiB holds.
    pub fn visible_roles(&self) -> Vec<u32> {
        let n = (self.max_dev as usize).min(1920);
        (0..n)
            .map(|i| self.roles.get(i).copied().map_or(0, u32::from))
            .collect()
    }
}

pub fn rand_role(r: &mut Rng) -> u16 {
    match r.below(8) {
        0 => SPARE as u16,
        1 => FAULTY as u16,
        2 => JOURNAL as u16,
        3 => r.u16(),
        _ => r.below(32) as u16,
    }
}

// ---------------------------------------------------------------- version 0.90

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Desc {
    pub number: u32,
    pub major: u32,
    pub minor: u32,
    pub raid_disk: u32,
    pub state: u32,
}

#[derive(Clone, Debug)]
pub struct V0 {
    pub magic: u32,
    pub major: u32,
    pub minor: u32,
    pub patch: u32,
    pub uuid: [u32; 4],
    pub ctime: u32,
    pub level: u32,
    /// KiB per device, as on disk.
    pub size_kib: u32,
    pub nr_disks: u32,
    pub raid_disks: u32,
    pub md_minor: u32,
    pub utime: u32,
    pub state: u32,
    pub counts: [u32; 4],
    pub events: u64,
    pub cp_events: u64,
    pub recovery_cp: u32,
    pub reshape_position: u64,
    pub new_level: u32,
    pub delta_disks: u32,
    pub new_layout: u32,
    /// Bytes.
    pub new_chunk: u32,
    pub layout: u32,
    /// Bytes.
    pub chunk: u32,
    pub disks: Vec<Desc>,
    pub this_disk: Desc,
}

/// Clears parts of a UUID.
fn thin(r: &mut Rng, uuid: &mut [u8; 16]) {
    for _ in 0..1 + r.below(3) {
        let (a, b) = *r.pick(&[(0, 4), (4, 16), (4, 8), (8, 12), (12, 16), (0, 16), (0, 8), (8, 16), (1, 16), (0, 15)]);
        uuid[a..b].fill(*r.pick(&[0, 0, 0, 0xff]));
    }
}

impl V0 {
    pub fn random(r: &mut Rng) -> V0 {
        let nr = r.below(28) as u32;
        let disk = |r: &mut Rng, i: u32| Desc {
            number: i,
            major: r.u32(),
            minor: r.u32(),
            raid_disk: match r.below(6) {
                0 => SPARE,
                1 => r.below(0xfeff) as u32,
                _ => r.below(27) as u32,
            },
            state: r.below(8) as u32,
        };
        let mut disks: Vec<Desc> = (0..27).map(|i| disk(r, i)).collect();
        if r.chance(1, 3) {
            // Remains of former members, which mean nothing.
            for d in &mut disks[nr as usize..] {
                d.number = r.u32();
                d.raid_disk = *r.pick(&[0xff00, 0xfffc, 0xff80, 0xfffe, 0xffff_ffff, 0]);
            }
        }
        let this = r.below(27) as u32;
        let mut v = V0 {
            magic: MAGIC,
            major: 0,
            minor: *r.pick(&[90, 90, 90, 91, 91, 92, 89, 36, 0]),
            patch: r.below(4) as u32,
            uuid: [r.u32(), r.u32(), r.u32(), r.u32()],
            ctime: r.u32(),
            level: *r.pick(&[5, 6, 6, 6, 0, 1, 4, 10, 0xffff_ffff]),
            size_kib: r.edgy32(),
            nr_disks: nr,
            raid_disks: r.edgy32(),
            md_minor: r.u32(),
            utime: r.u32(),
            state: r.u32(),
            counts: [r.u32(), r.u32(), r.u32(), r.u32()],
            events: r.edgy64(),
            cp_events: r.edgy64(),
            recovery_cp: r.u32(),
            reshape_position: r.edgy64(),
            new_level: *r.pick(&[5, 6, 0]),
            delta_disks: r.edgy32(),
            new_layout: r.below(22) as u32,
            new_chunk: (r.below(1 << 23) as u32) << 9,
            layout: r.below(22) as u32,
            chunk: (r.below(1 << 23) as u32) << 9,
            disks,
            this_disk: disk(r, this),
        };
        if r.chance(1, 4) {
            let mut flat = [0u8; 16];
            r.fill(&mut flat);
            thin(r, &mut flat);
            for (w, b) in v.uuid.iter_mut().zip(flat.chunks_exact(4)) {
                *w = u32::from_le_bytes(b.try_into().unwrap());
            }
        }
        if r.chance(1, 4) {
            for f in [&mut v.events, &mut v.cp_events, &mut v.reshape_position] {
                if r.bool() {
                    *f = *r.pick(&[0, 0, 1, u64::MAX]);
                }
            }
            for f in [&mut v.ctime, &mut v.level, &mut v.size_kib, &mut v.raid_disks, &mut v.md_minor, &mut v.utime, &mut v.state,
                &mut v.recovery_cp, &mut v.new_level, &mut v.delta_disks, &mut v.new_layout, &mut v.new_chunk, &mut v.layout, &mut v.chunk]
            {
                if r.bool() {
                    *f = *r.pick(&[0, 0, 512, 0xffff_fe00]);
                }
            }
        }
        if r.chance(1, 4) {
            v.new_level = v.level;
            v.new_layout = v.layout;
            v.new_chunk = v.chunk;
            v.delta_disks = *r.pick(&[0, 0, 1, u32::MAX]);
            v.cp_events = v.events;
            v.raid_disks = v.nr_disks;
            v.counts = [v.nr_disks; 4];
        }
        if r.chance(1, 4) {
            v.this_disk = v.disks[r.usize_below(27)];
        }
        v
    }

    pub fn encode(&self, big: bool) -> Vec<u8> {
        let mut w = vec![0u32; 1024];
        w[0] = self.magic;
        w[1] = self.major;
        w[2] = self.minor;
        w[3] = self.patch;
        w[4] = 0;
        w[5] = self.uuid[0];
        w[6] = self.ctime;
        w[7] = self.level;
        w[8] = self.size_kib;
        w[9] = self.nr_disks;
        w[10] = self.raid_disks;
        w[11] = self.md_minor;
        w[12] = 0;
        w[13] = self.uuid[1];
        w[14] = self.uuid[2];
        w[15] = self.uuid[3];
        w[32] = self.utime;
        w[33] = self.state;
        w[34..38].copy_from_slice(&self.counts);
        let mut w64 = |at: usize, v: u64| {
            let (lo, hi) = (v as u32, (v >> 32) as u32);
            if big {
                w[at] = hi;
                w[at + 1] = lo;
            } else {
                w[at] = lo;
                w[at + 1] = hi;
            }
        };
        w64(39, self.events);
        w64(41, self.cp_events);
        w64(44, self.reshape_position);
        w[43] = self.recovery_cp;
        w[46] = self.new_level;
        w[47] = self.delta_disks;
        w[48] = self.new_layout;
        w[49] = self.new_chunk;
        w[64] = self.layout;
        w[65] = self.chunk;
        let mut desc = |at: usize, d: &Desc| {
            w[at] = d.number;
            w[at + 1] = d.major;
            w[at + 2] = d.minor;
            w[at + 3] = d.raid_disk;
            w[at + 4] = d.state;
        };
        for (i, d) in self.disks.iter().enumerate().take(27) {
            desc(128 + 32 * i, d);
        }
        desc(992, &self.this_disk);
        let sum: u64 = w.iter().map(|x| u64::from(*x)).sum();
        w[38] = ((sum & 0xffff_ffff) + (sum >> 32)) as u32;
        w.iter()
            .flat_map(|x| if big { x.to_be_bytes() } else { x.to_le_bytes() })
            .collect()
    }

    pub fn visible_roles(&self) -> Vec<u32> {
        self.disks
            .iter()
            .take((self.nr_disks as usize).min(27))
            .map(|d| d.raid_disk)
            .collect()
    }
}

// ---------------------------------------------------------------- placement

pub fn v1_offset(minor: u32, size: u64) -> u64 {
    match minor {
        0 => (((size >> 9) - 16) & !7) << 9,
        1 => 0,
        2 => 4096,
        _ => panic!("core: minor {minor}"),
    }
}

pub fn v0_offset(size: u64) -> u64 {
    (size & !65535) - 65536
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ver {
    V0Le,
    V0Be,
    V1(u32),
}

pub const VERS: [Ver; 5] = [Ver::V0Le, Ver::V0Be, Ver::V1(0), Ver::V1(1), Ver::V1(2)];

// ---------------------------------------------------------------- whole arrays

/// An array as mdadm would have created it.
#[derive(Clone, Debug)]
pub struct Plan {
    pub level: u32,
    pub layout: u32,
    pub n: u32,
    /// Sectors.
    pub chunk: u32,
    /// Sectors of data per device, in whole chunks.
    pub per_dev: u64,
    /// Sectors of a chunk that is not whole, which the superblock counts and
    /// the driver leaves unused.
    pub tail: u64,
    pub ver: Ver,
    /// Sectors, by slot (then spares). Always 0 for 0.90 and 1.0.
    pub data_offset: Vec<u64>,
    /// Device table index by slot (then spares): the index a device's own
    /// superblock carries, which is not its slot.
    pub index: Vec<u32>,
    pub spares: u32,
    pub uuid: [u8; 16],
    pub events: u64,
    pub seed: u64,
    /// Extra bytes at the end of each device.
    pub slack: u64,
}

#[derive(Clone)]
pub struct Member {
    pub slot: Option<u32>,
    pub storage: Sparse,
    pub data_start: u64,
}

impl Plan {
    /// A valid, quiescent array. `max_sectors` bounds the data per device.
    pub fn random(r: &mut Rng, level: u32, max_sectors: u64) -> Plan {
        let layout = if level == 6 {
            *r.pick(&RAID6_LAYOUTS)
        } else {
            *r.pick(&RAID5_LAYOUTS)
        };
        let ver = *r.pick(&VERS);
        let v0 = !matches!(ver, Ver::V1(_));
        // 0.90 counts KiB in 32 bits.
        let max_sectors = if v0 { max_sectors.min(1 << 32) } else { max_sectors };
        // Three-device RAID6 is out of the ordinary but well defined.
        let min = match level {
            6 => 4 - u32::from(r.chance(1, 16)),
            _ => 3,
        };
        let n = min
            + match r.below(4) {
                0 => 0,
                1 => r.below(3),
                2 => r.below(9),
                _ => r.below(20),
            } as u32;
        let spares = if r.chance(1, 3) { r.below(3) as u32 } else { 0 };
        // Chunks are powers of two of at least 4 KiB for parity levels.
        let chunk = match r.below(8) {
            // mdadm's default, and larger.
            0 if max_sectors >= 1024 => 1024,
            1 if max_sectors >= 1 << 20 => 2048 << r.below(9),
            _ => 8u32 << r.below(5),
        };
        let rows = r.range(1, (max_sectors / u64::from(chunk)).max(1));
        let per_dev = rows * u64::from(chunk);
        // mdadm rounds per-device sizes to the chunk size, the driver does too.
        let tail = if r.chance(1, 6) {
            r.below(u64::from(chunk)) & !1
        } else {
            0
        };
        let total = (n + spares) as usize;
        let has_offset = matches!(ver, Ver::V1(1) | Ver::V1(2));
        let same = r.bool();
        let offset = |r: &mut Rng| match r.below(12) {
            // mdadm's defaults for small and large members.
            0 => 2048,
            1 => 262_144,
            2 => (1 << 32) - 8 + r.below(16),
            3 => 16 + r.below(1 << 40),
            _ => 16 + r.below(300),
        };
        let base = offset(r);
        let data_offset = (0..total)
            .map(|_| match (has_offset, same) {
                (false, _) => 0,
                (true, true) => base,
                (true, false) => offset(r),
            })
            .collect();
        // Device table indices: usually the identity, sometimes with holes and
        // out of order, as after replacing failed members.
        let table = if v0 { 27 } else { total as u32 + r.below(6) as u32 };
        let mut index: Vec<u32> = (0..table).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut index);
        }
        index.truncate(total);
        if v0 {
            // 0.90 identifies active members by slot: number == raid_disk.
            index = (0..total as u32).collect();
        } else if r.chance(1, 12) {
            // Many members have come and gone.
            let last = *r.pick(&[256, 384, 1000, 1919 - total as u32]);
            for i in &mut index {
                *i += r.below(u64::from(last)) as u32 / table * table;
            }
        }
        let (n, spares, index) = if v0 && total > 27 {
            (24, 0, (0..24).collect())
        } else {
            (n, spares, index)
        };
        Plan {
            level,
            layout,
            n,
            chunk,
            per_dev,
            tail,
            ver,
            data_offset,
            index,
            spares,
            uuid: r.array(),
            events: r.below(1 << 40),
            seed: r.u64(),
            slack: r.below(200) * 512,
        }
    }

    pub fn data_disks(&self) -> u64 {
        u64::from(self.n) - if self.level == 6 { 2 } else { 1 }
    }

    pub fn sectors(&self) -> u64 {
        self.per_dev * self.data_disks()
    }

    pub fn rows(&self) -> u64 {
        self.per_dev / u64::from(self.chunk)
    }

    /// Bytes 0..8 hold the sector's number, the rest is pseudo-random: a read
    /// identifies exactly which sector it observed.
    pub fn content(&self, sector: u64) -> [u8; 512] {
        let mut b = [0u8; 512];
        Rng::new(mix(&[self.seed, sector])).fill(&mut b);
        b[..8].copy_from_slice(&sector.to_le_bytes());
        b
    }

    pub fn locate(&self, sector: u64) -> Place {
        locate(self.level, self.layout, self.n, self.chunk, sector)
    }

    pub fn roles(&self) -> Vec<u32> {
        let len = self.index.iter().copied().max().map_or(0, |m| m + 1) as usize;
        let mut roles = vec![FAULTY; len];
        for (who, ix) in self.index.iter().enumerate() {
            roles[*ix as usize] = if (who as u32) < self.n {
                who as u32
            } else {
                SPARE
            };
        }
        roles
    }

    pub fn v1(&self, who: usize, minor: u32, size: u64) -> V1 {
        let roles = self.roles();
        let mut name = [0u8; 32];
        name[..9].copy_from_slice(b"host:data");
        let off = self.data_offset[who];
        V1 {
            magic: MAGIC,
            major: 1,
            features: 0,
            pad0: 0,
            uuid: self.uuid,
            name,
            ctime: 1_600_000_000,
            level: self.level,
            layout: self.layout,
            size: self.per_dev + self.tail,
            chunk: self.chunk,
            raid_disks: self.n,
            bitmap_offset: 0,
            new_level: 0,
            reshape_position: 0,
            delta_disks: 0,
            new_layout: 0,
            new_chunk: 0,
            new_offset: 0,
            data_offset: off,
            data_size: self.per_dev + self.tail,
            super_offset: v1_offset(minor, size) / 512,
            recovery_offset: 0,
            dev_number: self.index[who],
            cnt_corrected_read: 0,
            device_uuid: Rng::new(mix(&[self.seed, 77, who as u64])).array(),
            devflags: 0,
            bblog_shift: 0,
            bblog_size: 0,
            bblog_offset: 0,
            utime: 1_600_000_001,
            events: self.events,
            resync_offset: u64::MAX,
            max_dev: roles.len() as u32,
            roles: roles.iter().map(|r| *r as u16).collect(),
        }
    }

    pub fn v0(&self, who: usize) -> V0 {
        let total = self.n + self.spares;
        let disks: Vec<Desc> = (0..27)
            .map(|i| {
                if i < total {
                    Desc {
                        number: i,
                        major: 8,
                        minor: 16 * i + 1,
                        raid_disk: i,
                        state: if i < self.n { 6 } else { 0 },
                    }
                } else {
                    Desc::default()
                }
            })
            .collect();
        let u = |i: usize| u32::from_le_bytes(self.uuid[4 * i..4 * i + 4].try_into().unwrap());
        V0 {
            magic: MAGIC,
            major: 0,
            minor: 90,
            patch: 0,
            uuid: [u(0), u(1), u(2), u(3)],
            ctime: 1_600_000_000,
            level: self.level,
            size_kib: ((self.per_dev + self.tail) / 2) as u32,
            nr_disks: total,
            raid_disks: self.n,
            md_minor: 0,
            utime: 1_600_000_001,
            state: 1,
            counts: [self.n, total, 0, self.spares],
            events: self.events,
            cp_events: self.events,
            recovery_cp: u32::MAX,
            reshape_position: 0,
            new_level: 0,
            delta_disks: 0,
            new_layout: 0,
            new_chunk: 0,
            layout: self.layout,
            chunk: self.chunk * 512,
            this_disk: disks[who],
            disks,
        }
    }

    pub fn device_size(&self, who: usize) -> u64 {
        let data_end = (self.data_offset[who] + self.per_dev + self.tail) * 512;
        let s = match self.ver {
            Ver::V0Le | Ver::V0Be => data_end.next_multiple_of(65536) + 65536,
            Ver::V1(0) => data_end.next_multiple_of(4096) + 12288,
            Ver::V1(_) => data_end.next_multiple_of(4096).max(16384),
        };
        s + self.slack
    }

    /// The superblock of device `who`, encoded, and where it goes.
    pub fn superblock(&self, who: usize, size: u64) -> (u64, Vec<u8>) {
        match self.ver {
            Ver::V0Le => (v0_offset(size), self.v0(who).encode(false)),
            Ver::V0Be => (v0_offset(size), self.v0(who).encode(true)),
            Ver::V1(m) => (v1_offset(m, size), self.v1(who, m, size).encode()),
        }
    }

    pub fn members(&self) -> Vec<Member> {
        (0..(self.n + self.spares) as usize)
            .map(|who| {
                let size = self.device_size(who);
                let mut storage = Sparse::new(size);
                let (at, sb) = self.superblock(who, size);
                storage.write(at, &sb);
                Member {
                    slot: ((who as u32) < self.n).then_some(who as u32),
                    storage,
                    data_start: self.data_offset[who] * 512,
                }
            })
            .collect()
    }

    /// Writes the whole row (data, P and, for RAID6, Q) at `dev_sector`.
    pub fn write_row(&self, members: &mut [Member], dev_sector: u64) {
        let data = self.row_data(dev_sector, |logical| self.content(logical));
        for slot in 0..self.n {
            let b = self.row_sector(&data, slot);
            let m = &mut members[slot as usize];
            m.storage.write(m.data_start + dev_sector * 512, &b);
        }
    }

    /// The data of a row by the member slot that holds it, and where P and Q are.
    pub fn row_data(&self, dev_sector: u64, content: impl Fn(u64) -> [u8; 512]) -> Row {
        let chunk = u64::from(self.chunk);
        let (stripe, off) = (dev_sector / chunk, dev_sector % chunk);
        let mut row = Row { data: vec![], p: 0, q: None };
        for dd in 0..self.data_disks() {
            let logical = (stripe * self.data_disks() + dd) * chunk + off;
            let pl = self.locate(logical);
            assert_eq!(pl.dev_sector, dev_sector);
            row.data.push((pl.data, content(logical)));
            (row.p, row.q) = (pl.p, pl.q);
        }
        row
    }

    /// What the member in a slot holds of a row.
    pub fn row_sector(&self, row: &Row, slot: u32) -> [u8; 512] {
        if let Some((_, d)) = row.data.iter().find(|(s, _)| *s == slot) {
            return *d;
        }
        let mut b = [0u8; 512];
        if slot == row.p {
            for (_, d) in &row.data {
                for i in 0..512 {
                    b[i] ^= d[i];
                }
            }
            return b;
        }
        assert_eq!(row.q, Some(slot));
        // Syndrome order: from the device after Q (or from 0 when Q is last).
        let start = if slot == self.n - 1 { 0 } else { slot + 1 };
        let mut g = 1u8;
        for k in 0..self.n {
            let other = (start + k) % self.n;
            if other == row.p || other == slot {
                continue;
            }
            let d = &row.data.iter().find(|(s, _)| *s == other).unwrap().1;
            for i in 0..512 {
                b[i] ^= gf_mul(g, d[i]);
            }
            g = gf_mul(g, 2);
        }
        b
    }

    /// The members of an array that stores `image`, made as they are read.
    pub fn striped(&self, image: &Sparse) -> Vec<Member> {
        let image = Arc::new(Mutex::new(image.clone()));
        let size = image.lock().unwrap().size;
        let mut members = self.members();
        for (slot, m) in members.iter_mut().enumerate().take(self.n as usize) {
            let (plan, image, start) = (self.clone(), image.clone(), m.data_start);
            let source = move |page: u64| {
                let mut out = vec![0u8; 4096].into_boxed_slice();
                for (i, sector) in out.chunks_exact_mut(512).enumerate() {
                    let at = page + i as u64 * 512;
                    if at < start || at - start >= plan.per_dev * 512 {
                        continue;
                    }
                    let row = plan.row_data((at - start) / 512, |logical| {
                        let mut b = [0; 512];
                        if logical * 512 < size {
                            let mut s = image.lock().unwrap();
                            s.keep(logical * 512, 512);
                            s.read(logical * 512, &mut b);
                        }
                        b
                    });
                    sector.copy_from_slice(&plan.row_sector(&row, slot as u32));
                }
                out
            };
            let mut s = Sparse::derived(m.storage.size, Arc::new(source));
            let (at, sb) = self.superblock(slot, s.size);
            s.write(at, &sb);
            m.storage = s;
        }
        members
    }
}

pub struct Row {
    pub data: Vec<(u32, [u8; 512])>,
    pub p: u32,
    pub q: Option<u32>,
}

fn gf_mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1d } else { 0 };
        b >>= 1;
    }
    r
}
