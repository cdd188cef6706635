//! Nothing on a member makes the RAID code panic, loop or read without end.
use mdv::md::{v0_offset, v1_offset, Plan, Ver, V0, V1};
use mdv::mdx::*;
use mdv::run::{self, Case, Spec, Verdict};
use mdv::sut::block_device::{BlockDevice, BlockDeviceReader, BlockNumber};
use mdv::sut::md::{MdArray, MdDevice};
use mdv::{Ctl, Rng, Sparse, TestDevice};
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;

#[global_allocator]
static MEMORY: mdv::alloc::Counting = mdv::alloc::Counting;

fn mutate(r: &mut Rng, b: &mut [u8]) {
    for _ in 0..r.below(6) {
        let at = if r.bool() { r.usize_below(256) } else { r.usize_below(b.len()) };
        match r.below(3) {
            0 => b[at] ^= 1 << r.below(8),
            1 => {
                let v = r.edgy32().to_le_bytes();
                let at = (at & !3).min(b.len() - 4);
                if at >= 8 {
                    b[at..at + 4].copy_from_slice(&v);
                }
            }
            _ => {
                let v = r.edgy64().to_le_bytes();
                let at = (at & !7).min(b.len() - 8);
                if at >= 8 {
                    b[at..at + 8].copy_from_slice(&v);
                }
            }
        }
    }
}

fn case(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    let ctl = Ctl::new();
    let count = 1 + r.usize_below(8);
    let style = r.below(3);
    let level = *r.pick(&[5, 6, 6]);
    let plan = Plan::random(r, level, 1 << 10);
    let mut base = plan.members();
    if plan.level == 6 {
        plan.write_row(&mut base, 0);
    }
    let shared_v1 = V1::random(r);
    let mut stores = vec![];
    for i in 0..count {
        let mut s = match style {
            0 if i < base.len() => base[i].storage.clone(),
            1 => Sparse::garbage(r.scaled(1 << 40) / 512 * 512, r.u64()),
            _ => Sparse::new(r.scaled(1 << 60) / 512 * 512),
        };
        let size = s.size;
        for _ in 0..r.below(3) {
            let ver = *r.pick(&mdv::md::VERS);
            let (at, mut bytes) = match ver {
                Ver::V1(m) if size >= 12288 => {
                    let mut v = if r.bool() { V1::random(r) } else { shared_v1.clone() };
                    if r.bool() {
                        v.level = 6;
                        v.layout = r.below(22) as u32;
                        v.raid_disks = *r.pick(&[0, 1, 2, 3, 4, 5, 0xff00, 1 << 22, u32::MAX / 64, u32::MAX]);
                        v.chunk = *r.pick(&[0, 1, 8, 1024, u32::MAX]);
                        v.dev_number = r.below(4) as u32;
                        v.data_offset = *r.pick(&[0, 16, 2048, u64::MAX, 1 << 55, u64::MAX / 512]);
                    }
                    (v1_offset(m, size), v.encode())
                }
                Ver::V0Le | Ver::V0Be if size >= 65536 => {
                    (v0_offset(size), V0::random(r).encode(ver == Ver::V0Be))
                }
                _ => continue,
            };
            mutate(r, &mut bytes);
            s.write(at, &bytes);
        }
        if style == 0 && r.bool() && i < base.len() {
            let (at, mut bytes) = plan.superblock(i, size);
            mutate(r, &mut bytes);
            s.write(at, &bytes);
        }
        stores.push(s);
    }
    for s in &stores {
        c.fp(s.size);
    }
    c.fp(style);
    c.nontrivial();
    c.describe(|| format!("{count} devices, style {style}, sizes {:?}", stores.iter().map(|s| s.size).collect::<Vec<_>>()));
    let before = ctl.bytes.get();
    mdv::alloc::start();
    let v = exercise(c, &stores, &ctl);
    let (read, held) = (ctl.bytes.get() - before, mdv::alloc::peak());
    v?;
    let copies: u64 = stores.iter().map(|s| s.resident_bytes()).sum();
    mdv::ensure!(
        held <= (16 << 20) + 16 * read + 2 * copies,
        "{held} bytes of memory were in use at once, with {read} bytes read in all"
    );
    c.count("memory measurements", 1);
    Ok(())
}

fn exercise(c: &mut Case, stores: &[Sparse], ctl: &Rc<Ctl>) -> Verdict {
    let mut devs = vec![];
    for s in stores {
        ctl.set_budget(200);
        ctl.byte_budget.set(ctl.bytes.get() + (1 << 16));
        let bs = *c.rng.pick(&[512, 512, 4096, 128]);
        let dev = TestDevice::new(s.clone(), bs, ctl);
        if c.rng.chance(1, 6) {
            let far = c.rng.edgy64();
            let claim = *c.rng.pick(&[far, u64::MAX, u64::MAX / u64::from(bs), u64::MAX / u64::from(bs) + 1]);
            dev.claim.set(Some(claim));
            c.hit(if claim.checked_mul(u64::from(bs)).is_some() { "another size claimed" } else { "an impossible size claimed" });
        }
        let d = match MdDevice::from_block_device(dev, None::<&str>) {
            Ok(d) => Rc::new(d),
            Err(_) => {
                c.hit("device refused");
                continue;
            }
        };
        if let Some(sb) = sb(&d) {
            c.hit("superblock decoded");
            // Every accessor, whatever the bytes.
            let text = format!(
                "{} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {:?} {}",
                sb.array_uuid(),
                sb.array_name(),
                sb.algorithm(),
                sb.sectors_per_device(),
                sb.chunk_size(),
                sb.raid_device_count(),
                sb.reshape_status(),
                sb.data_offset(),
                sb.event_count(),
                sb.device_role_index(),
                sb.device_roles(),
                sb.valid()
            );
            mdv::ensure!(text.len() < 1 << 20, "the decoded superblock takes {} bytes to print", text.len());
            mdv::ensure!(sb.device_roles().len() <= 1920, "{} roles in one superblock", sb.device_roles().len());
        }
        devs.push(d);
    }
    let n = devs.len() as u64;
    ctl.set_budget(40 * n + 40);
    ctl.byte_budget.set(ctl.bytes.get() + (n << 16));
    let mut array = MdArray::open(devs.clone());
    let text = format!("{:#?}", array.diagnose());
    c.count("diagnosis bytes printed", text.len() as u64);
    let _ = array.block_size();
    let cap = array.block_count();
    let cap_n = cap.as_ref().ok().map(|b| b.0);
    if cap.is_ok() {
        c.hit("capacity known");
    }
    for k in 0..12 {
        let s = match (k % 3, cap_n) {
            (0, Some(n)) => n.saturating_sub(c.rng.below(3)),
            (1, Some(n)) if n > 0 => c.rng.below(n),
            _ => c.rng.edgy64(),
        };
        let len = *c.rng.pick(&[512usize, 512, 4096, 0, 511, 513]);
        ctl.set_budget(80 * n + 40);
        ctl.byte_budget.set(ctl.bytes.get() + 8192 * n + 4096);
        match array.read_block(BlockNumber(s), &mut vec![0; len]) {
            Ok(_) => c.hit("reads that worked"),
            Err(_) => c.hit("reads refused"),
        }
    }
    if let Ok(clone) = array.try_clone() {
        let mut reader = BlockDeviceReader::new(clone);
        for _ in 0..6 {
            ctl.set_budget(160 * n + 80);
            ctl.byte_budget.set(u64::MAX);
            let d = c.rng.edgy64();
            let _ = match c.rng.below(3) {
                0 => reader.seek(SeekFrom::Start(d)),
                1 => reader.seek(SeekFrom::End(d as i64)),
                _ => reader.seek(SeekFrom::Current(d as i64)),
            };
            let _ = reader.read(&mut [0; 700]);
        }
        c.hit("byte-wise reads");
    }
    // A member's own block view.
    for d in &devs {
        ctl.set_budget(200);
        if let Ok(mut d) = d.try_clone() {
            let _ = (d.block_count(), d.read_block(BlockNumber(c.rng.edgy64()), &mut [0; 4096]));
        }
    }
    Ok(())
}

fn main() {
    run::main(
        Spec {
            id: "C22",
            rule: "One set of one to eight hostile members per case: genuine superblocks with random and extreme fields, mutated bytes and words, members of one array with some superblocks mutated, garbage, absurd device sizes, devices that claim a size they do not have, blocks of 128 to 4096 bytes. Discovery, every accessor, diagnosis (printed), capacity and twelve reads each run under a budget of device operations, and the memory they hold is measured. Non-trivial: all; distinct by sizes and style. A panic, abort, overflow, exhausted budget or runaway CPU is a violation.",
            quick: 60_000,
            thorough: 1_500_000,
            required: &["superblock decoded", "capacity known", "reads that worked", "reads refused", "byte-wise reads", "diagnosis bytes printed", "another size claimed", "an impossible size claimed", "memory measurements"],
            assumptions: &["Built with overflow checks and debug assertions on", "Memory is out of proportion when more than 16 MiB and sixteen times the bytes read are in use at once"],
            case_cpu_s: 30,
            ..Spec::default()
        },
        case,
    )
}
