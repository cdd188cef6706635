//! A block device whose every operation is observed, and which can be told to
//! misbehave.
use crate::sut::block_device::{BlockCount, BlockDevice, BlockNumber, BlockSize};
use mdv_core::rng::Rng;
use mdv_core::run::{like_files, BUDGET};
use mdv_core::sparse::Sparse;
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Seek, SeekFrom};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read { pos: u64, len: usize },
    ReadBlock { block: u64, len: usize },
    Seek { to: u64 },
    BlockSize,
    BlockCount,
    Clone,
}

/// Shared by every clone of a device, and by every device given the same one.
pub struct Ctl {
    pub ops: Cell<u64>,
    pub bytes: Cell<u64>,
    pub budget: Cell<u64>,
    pub byte_budget: Cell<u64>,
    /// Operation indices (counting from 0, over everything sharing this Ctl)
    /// from the first to before the second fail.
    pub fail: Cell<Option<(u64, u64)>>,
    pub fail_kind: Cell<ErrorKind>,
    /// What reading an unreadable range gives, if not EIO.
    pub bad_kind: Cell<Option<ErrorKind>>,
    /// Set when a fault was delivered.
    pub faults: Cell<u64>,
    pub short: RefCell<Option<Rng>>,
    pub eintr: RefCell<Option<Rng>>,
    pub interrupted: Cell<u64>,
    pub shortened: Cell<u64>,
    pub log: RefCell<Option<Vec<(u32, Op)>>>,
    next_dev: Cell<u32>,
}

impl Ctl {
    pub fn new() -> Rc<Ctl> {
        Rc::new(Ctl {
            ops: Cell::new(0),
            bytes: Cell::new(0),
            budget: Cell::new(u64::MAX),
            byte_budget: Cell::new(u64::MAX),
            fail: Cell::new(None),
            fail_kind: Cell::new(ErrorKind::Other),
            bad_kind: Cell::new(None),
            faults: Cell::new(0),
            short: RefCell::new(None),
            eintr: RefCell::new(None),
            interrupted: Cell::new(0),
            shortened: Cell::new(0),
            log: RefCell::new(None),
            next_dev: Cell::new(0),
        })
    }

    pub fn set_budget(&self, more: u64) {
        self.budget.set(self.ops.get() + more);
    }

    pub fn take_log(&self) -> Vec<(u32, Op)> {
        self.log.borrow_mut().take().unwrap_or_default()
    }

    fn unreadable(&self) -> io::Error {
        self.bad_kind.get().map_or_else(|| io::Error::from_raw_os_error(5), io::Error::from)
    }

    fn step(&self, dev: u32, op: Op) -> io::Result<()> {
        let n = self.ops.get();
        self.ops.set(n + 1);
        if n >= self.budget.get() || self.bytes.get() > self.byte_budget.get() {
            panic!(
                "{BUDGET}: {} device operations, {} bytes read",
                n + 1,
                self.bytes.get()
            );
        }
        if let Some(l) = self.log.borrow_mut().as_mut() {
            l.push((dev, op));
        }
        if let Some((a, b)) = self.fail.get() {
            if n >= a && n < b {
                self.faults.set(self.faults.get() + 1);
                return Err(self.fail_kind.get().into());
            }
        }
        Ok(())
    }
}

pub struct TestDevice {
    pub data: Rc<RefCell<Sparse>>,
    pub bs: u32,
    pos: Rc<Cell<u64>>,
    /// Clones share one position, which reading blocks moves, as of files.
    like_file: bool,
    pub ctl: Rc<Ctl>,
    pub dev: u32,
    /// Byte ranges that cannot be read.
    pub bad: Rc<RefCell<Vec<(u64, u64)>>>,
    /// How many blocks it says it has, if not as many as there are.
    pub claim: Rc<Cell<Option<u64>>>,
}

impl TestDevice {
    pub fn new(data: Sparse, bs: u32, ctl: &Rc<Ctl>) -> TestDevice {
        Self::shared(Rc::new(RefCell::new(data)), bs, ctl)
    }

    pub fn shared(data: Rc<RefCell<Sparse>>, bs: u32, ctl: &Rc<Ctl>) -> TestDevice {
        let dev = ctl.next_dev.get();
        ctl.next_dev.set(dev + 1);
        TestDevice {
            data,
            bs,
            pos: Rc::default(),
            like_file: like_files(),
            ctl: ctl.clone(),
            dev,
            bad: Rc::default(),
            claim: Rc::default(),
        }
    }

    fn size(&self) -> u64 {
        self.data.borrow().size
    }

    fn keep(&self, off: u64, len: u64) {
        if self.data.borrow().is_derived() {
            self.data.borrow_mut().keep(off, len);
        }
    }

    fn first_bad(&self, from: u64, to: u64) -> Option<u64> {
        self.bad
            .borrow()
            .iter()
            .filter(|(a, b)| *a < to && *b > from)
            .map(|(a, _)| (*a).max(from))
            .min()
    }
}

impl BlockDevice for TestDevice {
    fn block_size(&self) -> io::Result<BlockSize> {
        self.ctl.step(self.dev, Op::BlockSize)?;
        Ok(BlockSize(self.bs))
    }

    fn block_count(&self) -> io::Result<BlockCount> {
        self.ctl.step(self.dev, Op::BlockCount)?;
        Ok(BlockCount(self.claim.get().unwrap_or(self.size() / u64::from(self.bs))))
    }

    fn read_block(&mut self, block_number: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        self.ctl.step(
            self.dev,
            Op::ReadBlock {
                block: block_number.0,
                len: buf.len(),
            },
        )?;
        let bs = self.bs as usize;
        if buf.len() < bs {
            return Err(ErrorKind::InvalidInput.into());
        }
        let start = block_number
            .0
            .checked_mul(u64::from(self.bs))
            .ok_or(ErrorKind::InvalidInput)?;
        let end = start
            .checked_add(u64::from(self.bs))
            .ok_or(ErrorKind::InvalidInput)?;
        if self.like_file {
            self.pos.set(end.min(self.size().max(start)));
        }
        if end > self.size() {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        if self.first_bad(start, end).is_some() {
            self.ctl.faults.set(self.ctl.faults.get() + 1);
            return Err(self.ctl.unreadable());
        }
        self.ctl.bytes.set(self.ctl.bytes.get() + bs as u64);
        self.keep(start, bs as u64);
        self.data.borrow().read(start, &mut buf[..bs]);
        Ok(bs)
    }

    fn try_clone(&self) -> io::Result<Self> {
        self.ctl.step(self.dev, Op::Clone)?;
        Ok(TestDevice {
            data: self.data.clone(),
            bs: self.bs,
            pos: if self.like_file { self.pos.clone() } else { Rc::new(Cell::new(self.pos.get())) },
            like_file: self.like_file,
            ctl: self.ctl.clone(),
            dev: self.dev,
            bad: self.bad.clone(),
            claim: self.claim.clone(),
        })
    }
}

impl Read for TestDevice {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let pos = self.pos.get();
        self.ctl.step(
            self.dev,
            Op::Read {
                pos,
                len: buf.len(),
            },
        )?;
        if let Some(r) = self.ctl.eintr.borrow_mut().as_mut() {
            if r.chance(1, 4) {
                self.ctl.interrupted.set(self.ctl.interrupted.get() + 1);
                return Err(ErrorKind::Interrupted.into());
            }
        }
        let mut n = (buf.len() as u64).min(self.size().saturating_sub(pos)) as usize;
        if n > 1 {
            if let Some(r) = self.ctl.short.borrow_mut().as_mut() {
                if r.chance(3, 4) {
                    n = 1 + r.usize_below(n);
                    self.ctl.shortened.set(self.ctl.shortened.get() + 1);
                }
            }
        }
        if n > 0 {
            if let Some(bad) = self.first_bad(pos, pos + n as u64) {
                n = (bad - pos) as usize;
                if n == 0 {
                    self.ctl.faults.set(self.ctl.faults.get() + 1);
                    return Err(self.ctl.unreadable());
                }
            }
        }
        self.ctl.bytes.set(self.ctl.bytes.get() + n as u64);
        self.keep(pos, n as u64);
        self.data.borrow().read(pos, &mut buf[..n]);
        self.pos.set(pos + n as u64);
        Ok(n)
    }
}

impl Seek for TestDevice {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let to = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.size().checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.get().checked_add_signed(d),
        }
        // As lseek(): an offset must fit in i64.
        .filter(|p| *p <= i64::MAX as u64)
        .ok_or(ErrorKind::InvalidInput)?;
        self.ctl.step(self.dev, Op::Seek { to })?;
        self.pos.set(to);
        Ok(to)
    }
}
