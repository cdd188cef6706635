use std::collections::HashMap;
use std::sync::Arc;

/// Gives the bytes of a page (by its offset) that was never written to.
pub type Source = Arc<dyn Fn(u64) -> Box<[u8]> + Send + Sync>;

const PAGE: u64 = 4096;

/// A byte store of any size up to 2^64-1 that only keeps the pages written to.
/// Unwritten bytes are a deterministic pattern (or zero).
#[derive(Clone, Default)]
pub struct Sparse {
    pub size: u64,
    pub pattern: Option<u64>,
    pages: HashMap<u64, Box<[u8]>>,
    source: Option<Source>,
}

impl Sparse {
    pub fn new(size: u64) -> Self {
        Sparse {
            size,
            pattern: None,
            pages: HashMap::new(),
            source: None,
        }
    }

    /// Unwritten bytes read as pseudo-random garbage derived from `seed`.
    pub fn garbage(size: u64, seed: u64) -> Self {
        Sparse {
            size,
            pattern: Some(seed),
            pages: HashMap::new(),
            source: None,
        }
    }

    /// Unwritten pages come from elsewhere.
    pub fn derived(size: u64, source: Source) -> Self {
        Sparse {
            source: Some(source),
            ..Self::new(size)
        }
    }

    /// Keeps the pages of a range, when making them again would be slow.
    pub fn keep(&mut self, off: u64, len: u64) {
        if len == 0 {
            return;
        }
        for page in off / PAGE..=(off + len - 1) / PAGE {
            if !self.pages.contains_key(&page) {
                let b = self.blank(page);
                self.pages.insert(page, b);
            }
        }
    }

    pub fn is_derived(&self) -> bool {
        self.source.is_some()
    }

    fn blank(&self, page: u64) -> Box<[u8]> {
        if let Some(s) = &self.source {
            return s(page * PAGE);
        }
        match self.pattern {
            None => vec![0; PAGE as usize].into_boxed_slice(),
            Some(seed) => {
                let mut r = crate::rng::Rng::new(crate::rng::mix(&[seed, page]));
                r.bytes(PAGE as usize).into_boxed_slice()
            }
        }
    }

    pub fn write(&mut self, mut off: u64, mut data: &[u8]) {
        while !data.is_empty() {
            let page = off / PAGE;
            let at = (off % PAGE) as usize;
            let n = data.len().min(PAGE as usize - at);
            if !self.pages.contains_key(&page) {
                let b = self.blank(page);
                self.pages.insert(page, b);
            }
            self.pages.get_mut(&page).unwrap()[at..at + n].copy_from_slice(&data[..n]);
            off += n as u64;
            data = &data[n..];
        }
    }

    pub fn read(&self, mut off: u64, mut buf: &mut [u8]) {
        while !buf.is_empty() {
            let page = off / PAGE;
            let at = (off % PAGE) as usize;
            let n = buf.len().min(PAGE as usize - at);
            match self.pages.get(&page) {
                Some(p) => buf[..n].copy_from_slice(&p[at..at + n]),
                None if self.pattern.is_none() && self.source.is_none() => buf[..n].fill(0),
                None => buf[..n].copy_from_slice(&self.blank(page)[at..at + n]),
            }
            off += n as u64;
            buf = &mut buf[n..];
        }
    }

    pub fn get(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        self.read(off, &mut v);
        v
    }

    pub fn xor_byte(&mut self, off: u64, mask: u8) {
        let b = self.get(off, 1)[0] ^ mask;
        self.write(off, &[b]);
    }

    pub fn pages_written(&self) -> impl Iterator<Item = u64> + '_ {
        self.pages.keys().map(|p| p * PAGE)
    }

    pub fn resident_bytes(&self) -> u64 {
        self.pages.len() as u64 * PAGE
    }
}
