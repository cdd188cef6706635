//! Adapters between the ext4 writer and the code under test.
use crate::ext4::{DirRec, Entry, FileRec, Fs};
use crate::run::{Case, Stop, Verdict};
use crate::sut::block_device::BlockDevice;
use crate::sut::ext4::inode::FileType;
use crate::sut::ext4::units::InodeNumber;
use crate::sut::ext4::{Ext4Directory, Ext4File, Ext4Fs, Ext4RegularFile};
use crate::{Ctl, Rng, Sparse, TestDevice};
use std::io::{self, Read, Seek};
use std::rc::Rc;

pub type Sut = Ext4Fs<TestDevice>;

pub fn bs(rng: &mut Rng) -> u32 {
    *rng.pick(&[512, 512, 4096, 1, 1024])
}

pub fn open_data(data: Sparse, bs: u32, ctl: &Rc<Ctl>) -> io::Result<Sut> {
    Ext4Fs::open(TestDevice::new(data, bs, ctl))
}

pub fn open(rng: &mut Rng, fs: &Fs, ctl: &Rc<Ctl>) -> Result<Sut, Stop> {
    let bs = bs(rng);
    let s = open_data(fs.data.clone(), bs, ctl)
        .map_err(|e| Stop::v(format!("opening a valid file system failed: {e:?}; {}", crate::ext4::brief(&fs.geo))))?;
    if s.block_size() as u64 != fs.geo.bs {
        return Err(Stop::v(format!("block size {} reported, {} stored", s.block_size(), fs.geo.bs)));
    }
    Ok(s)
}

pub fn ext4_file<D: BlockDevice + Read + Seek>(s: &mut Ext4Fs<D>, ino: u32) -> io::Result<Ext4File<D>> {
    s.open_file(InodeNumber(ino))
}

pub fn regular<D: BlockDevice + Read + Seek>(s: &mut Ext4Fs<D>, f: &FileRec) -> Result<Ext4RegularFile<D>, Stop> {
    match ext4_file(s, f.ino) {
        Ok(Ext4File::RegularFile(r)) => {
            if r.file_size_bytes() != f.size {
                return Err(Stop::v(format!(
                    "inode {}: size {} reported, {} stored", f.ino, r.file_size_bytes(), f.size)));
            }
            Ok(r)
        }
        Ok(Ext4File::Directory(_)) => Err(Stop::v(format!("inode {}: a regular file opened as a directory", f.ino))),
        Ok(Ext4File::Unsupported(t)) => Err(Stop::v(format!("inode {}: a regular file reported as unsupported {t:?}", f.ino))),
        Err(e) => Err(Stop::v(format!("inode {}: opening the regular file failed: {e:?}", f.ino))),
    }
}

pub fn directory<D: BlockDevice + Read + Seek>(s: &mut Ext4Fs<D>, ino: u32) -> Result<Ext4Directory<D>, Stop> {
    match ext4_file(s, ino) {
        Ok(Ext4File::Directory(d)) => Ok(d),
        Ok(Ext4File::RegularFile(_)) => Err(Stop::v(format!("inode {ino}: a directory opened as a regular file"))),
        Ok(Ext4File::Unsupported(t)) => Err(Stop::v(format!("inode {ino}: a directory reported as unsupported {t:?}"))),
        Err(e) => Err(Stop::v(format!("inode {ino}: opening the directory failed: {e:?}"))),
    }
}

/// Reads one file block by block, each checked against the stored content.
pub struct Reader<'a, D: BlockDevice + Read + Seek> {
    pub file: Ext4RegularFile<D>,
    pub rec: &'a FileRec,
    pub fs: &'a Fs,
    pub block: u64,
    pub done: bool,
}

impl<'a, D: BlockDevice + Read + Seek> Reader<'a, D> {
    pub fn new(s: &mut Ext4Fs<D>, fs: &'a Fs, rec: &'a FileRec) -> Result<Self, Stop> {
        Ok(Reader { file: regular(s, rec)?, rec, fs, block: 0, done: false })
    }

    /// One read; checks it; an I/O error is handed back.
    pub fn step(&mut self, rng: &mut Rng) -> Result<io::Result<()>, Stop> {
        let bs = self.fs.geo.bs as usize;
        let extra = match rng.below(4) {
            0 => rng.usize_below(3000),
            1 => bs,
            _ => 0,
        };
        let fill = rng.u8();
        let mut buf = vec![fill; bs + extra];
        let n = match self.file.read_next_block(&mut buf) {
            Ok(n) => n,
            Err(e) => return Ok(Err(e)),
        };
        let want = self.fs.expected(self.rec, self.block);
        let who = || {
            format!(
                "inode {} (size {}, depth {}, {} extents) block {}",
                self.rec.ino, self.rec.size, self.rec.depth, self.rec.exts.len(), self.block
            )
        };
        if n != want.len() {
            return Err(Stop::v(format!("{}: {n} bytes read, the file has {} there", who(), want.len())));
        }
        if buf[..n] != want[..] {
            let at = (0..n).find(|i| buf[*i] != want[*i]).unwrap();
            let kind = if self.rec.phys(self.block).is_none() { " (unwritten: has to read as zeros)" } else { "" };
            return Err(Stop::v(format!("{}{kind}: wrong data from byte {at}", who())));
        }
        if n == 0 {
            self.done = true;
        } else {
            self.block += 1;
        }
        Ok(Ok(()))
    }

    pub fn finish(&mut self, rng: &mut Rng) -> Verdict {
        while !self.done {
            if let Err(e) = self.step(rng)? {
                return Err(Stop::v(format!(
                    "inode {} (size {}, depth {}, extents {:?}): reading block {} failed: {e:?}",
                    self.rec.ino, self.rec.size, self.rec.depth, &self.rec.exts[..self.rec.exts.len().min(6)], self.block
                )));
            }
        }
        Ok(())
    }
}

/// An entry's type as the program names it: 0x80 more if it is not the type
/// of the number stored, so that it never equals that.
fn named_type<T: Copy + PartialEq + From<FileType> + Into<FileType> + Into<u8>>(t: T) -> u8 {
    let raw: u8 = t.into();
    let kind: FileType = t.into();
    let named = match kind {
        FileType::RegularFile => 1,
        FileType::Directory => 2,
        FileType::CharacterDevice => 3,
        FileType::BlockDevice => 4,
        FileType::Fifo => 5,
        FileType::Socket => 6,
        FileType::SymbolicLink => 7,
        FileType::Unknown(v) if v == 0 || v > 7 => v,
        FileType::Unknown(_) => return raw ^ 0x80,
    };
    if named == raw && T::from(kind) == t { raw } else { raw ^ 0x80 }
}

pub fn entry<D: BlockDevice + Read + Seek>(d: &mut Ext4Directory<D>) -> io::Result<Option<Entry>> {
    Ok(d.read_next_entry()?.map(|e| {
        let name = e.name();
        Entry {
            name: <&[u8]>::from(&name).to_vec(),
            ino: u32::from(e.inode()),
            ftype: named_type(e.file_type()),
        }
    }))
}

pub fn show(e: &Entry) -> String {
    format!("{:?} (inode {}, type {})", String::from_utf8_lossy(&e.name), e.ino, e.ftype)
}

/// Checks one step of a listing against entry `at`; true at the end.
pub fn check_entry(dir: &DirRec, at: usize, got: Option<Entry>) -> Result<bool, Stop> {
    let want = dir.entries.get(at);
    if got.as_ref() == want {
        return Ok(want.is_none());
    }
    let s = |e: Option<&Entry>| e.map_or("the end".into(), show);
    Err(Stop::v(format!(
        "directory inode {}: entry {at} of {} listed as {}, stored as {}",
        dir.file.ino, dir.entries.len(), s(got.as_ref()), s(want)
    )))
}

pub fn list<D: BlockDevice + Read + Seek>(s: &mut Ext4Fs<D>, dir: &DirRec) -> Verdict {
    let mut d = directory(s, dir.file.ino)?;
    for at in 0.. {
        let got = entry(&mut d).map_err(|e| {
            Stop::v(format!("directory inode {}: listing failed at entry {at} of {}: {e:?}", dir.file.ino, dir.entries.len()))
        })?;
        if check_entry(dir, at, got)? {
            break;
        }
    }
    Ok(())
}

/// Bytes of data a case may have, so that small and large blocks cost the same.
pub fn max_blocks(c: &mut Case, fs: &Fs, bytes: u64) -> u64 {
    let cap = if c.rng.chance(1, 12) { bytes * 8 } else { bytes };
    (cap / fs.geo.bs).clamp(2, fs.geo.blocks / 8)
}
