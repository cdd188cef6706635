//! A block device over a sparse image, and helpers that read through the crate.
pub use super::ext4::*;
pub use super::md;
pub use super::md::{Desc, Plan, Ver, V0, V1};
pub use super::rng::Rng;
pub use super::sparse::Sparse;
pub use crate::block_device::*;
pub use crate::ext4::{Ext4File, Ext4Fs};
pub use crate::md::{MdArray, MdDevice};
pub use std::io::{self, Read, Seek, SeekFrom};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone)]
pub struct Dev {
    pub data: Rc<RefCell<Sparse>>,
    pub bs: u32,
    pub pos: u64,
    /// Reads of this byte fail this many times.
    pub bad: Rc<Cell<Option<(u64, u32)>>>,
    pub reads: Rc<Cell<u64>>,
}

impl Dev {
    pub fn new(data: Sparse, bs: u32) -> Dev {
        Dev { data: Rc::new(RefCell::new(data)), bs, pos: 0, bad: Rc::default(), reads: Rc::default() }
    }

    fn get(&mut self, at: u64, buf: &mut [u8]) -> io::Result<()> {
        self.reads.set(self.reads.get() + 1);
        assert!(self.reads.get() < 20_000_000, "reads without end");
        if let Some((b, n)) = self.bad.get() {
            if n > 0 && b >= at && b < at + buf.len() as u64 {
                self.bad.set(Some((b, n - 1)));
                return Err(io::Error::other("bad sector"));
            }
        }
        self.data.borrow().read(at, buf);
        Ok(())
    }
}

impl BlockDevice for Dev {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(self.bs))
    }

    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.data.borrow().size / u64::from(self.bs)))
    }

    fn read_block(&mut self, block_number: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        let bs = self.bs as usize;
        if buf.len() < bs {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        let at = u64::from(block_number) * u64::from(self.bs);
        if at + u64::from(self.bs) > self.data.borrow().size {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        self.get(at, &mut buf[..bs])?;
        Ok(bs)
    }

    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = self.data.borrow().size.saturating_sub(self.pos);
        let n = (buf.len() as u64).min(left) as usize;
        if n > 0 {
            let at = self.pos;
            self.get(at, &mut buf[..n])?;
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Dev {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.pos = match pos {
            SeekFrom::Start(p) => p,
            SeekFrom::End(o) => self.data.borrow().size.checked_add_signed(o).ok_or(io::ErrorKind::InvalidInput)?,
            SeekFrom::Current(o) => self.pos.checked_add_signed(o).ok_or(io::ErrorKind::InvalidInput)?,
        };
        Ok(self.pos)
    }
}

pub fn member(data: Sparse) -> MdDevice<Dev> {
    MdDevice::from_block_device(Dev::new(data, 512), None::<&str>).unwrap()
}

pub fn array(members: &[md::Member], order: &[usize]) -> MdArray<Dev> {
    MdArray::open(order.iter().map(|i| member(members[*i].storage.clone())).collect::<Vec<_>>())
}

pub fn sector(a: &mut MdArray<Dev>, n: u64) -> io::Result<Vec<u8>> {
    let mut buf = vec![0x5a; 512];
    let got = a.read_block(BlockNumber(n), &mut buf)?;
    assert_eq!(got, 512);
    Ok(buf)
}

/// Reads a regular file to its end.
pub fn contents(fs: &mut Ext4Fs<Dev>, ino: u32) -> io::Result<Vec<u8>> {
    let bs = fs.block_size();
    let Ext4File::RegularFile(mut f) = fs.open_file(crate::verif::ext4::units::InodeNumber(ino))? else {
        panic!("not a regular file")
    };
    let mut out = vec![];
    let mut buf = vec![0x5a; bs];
    loop {
        let n = f.read_next_block(&mut buf)?;
        if n == 0 {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..n]);
    }
}

/// Lists a directory to its end.
pub fn listing(fs: &mut Ext4Fs<Dev>, ino: u32) -> io::Result<Vec<Entry>> {
    let Ext4File::Directory(mut d) = fs.open_file(crate::verif::ext4::units::InodeNumber(ino))? else {
        panic!("not a directory")
    };
    let mut out = vec![];
    while let Some(e) = d.read_next_entry()? {
        let name = e.name();
        out.push(Entry {
            name: <&[u8]>::from(&name).to_vec(),
            ino: u32::from(e.inode()),
            ftype: u8::from(e.file_type()),
        });
    }
    Ok(out)
}

pub fn stored(fs: &Fs, f: &FileRec) -> Vec<u8> {
    (0..f.size.div_ceil(fs.geo.bs)).flat_map(|b| fs.expected(f, b)).collect()
}
