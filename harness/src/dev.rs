//! An in-memory block device with a sparse store, an operation log, fault injection,
//! short transfers and a write journal. It behaves like a file opened read-write on a
//! block device: its length is fixed, seeking past the end is allowed, reading there
//! returns 0 bytes and writing there fails.

use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

pub const PAGE: u64 = 512;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Write { off: u64, data: Vec<u8> },
    Flush,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OpKind {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Fault {
    /// index of the device operation that fails (counted from the arming of the fault)
    pub at: u64,
    /// fails from then on instead of once
    pub persistent: bool,
    /// for writes: how much of the data still gets to the device before the error
    pub partial: u32,
    /// the kind of error reported
    pub kind: Option<io::ErrorKind>,
}

#[derive(Clone)]
pub struct Dev {
    pub len: u64,
    pub fill: u64,
    pages: BTreeMap<u64, Arc<[u8; PAGE as usize]>>,
    pub pos: u64,
    /// Operation counters.
    pub n_read: u64,
    pub n_write: u64,
    pub n_seek: u64,
    pub n_flush: u64,
    /// Operations since the fault was armed.
    pub n_ops: u64,
    pub kinds: Option<Vec<OpKind>>,
    /// Byte ranges written [start, end), if recording.
    pub ranges: Option<Vec<(u64, u64)>>,
    pub journal: Option<Vec<Ev>>,
    pub fault: Option<Fault>,
    pub fault_hits: u64,
    pub fault_kind: Option<OpKind>,
    /// A write or flush failed.
    pub hard_fault: bool,
    /// Cyclic pattern of transfer limits; 0 stands for an interrupted call.
    pub chunks: Vec<u32>,
    chunk_i: usize,
    pub oob_writes: u64,
    /// Byte ranges [start, end) that cannot be read until they are written.
    pub no_read: Vec<(u64, u64)>,
    /// Byte ranges [start, end) that cannot be written.
    pub no_write: Vec<(u64, u64)>,
    pub bad_kind: Option<io::ErrorKind>,
    /// Accesses of defective ranges.
    pub bad_hits: u64,
    pub first_hit: Option<(OpKind, u64)>,
}

impl fmt::Debug for Dev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Dev(len {}, {} pages)", self.len, self.pages.len())
    }
}

/// Background byte of an untouched device.
pub fn fill_byte(fill: u64, off: u64) -> u8 {
    if fill == 0 {
        return 0;
    }
    let mut x = fill.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (off / 8).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 31;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^= x >> 29;
    (x >> (8 * (off % 8))) as u8
}

impl Dev {
    pub fn new(len: u64, fill: u64) -> Self {
        Dev {
            len,
            fill,
            pages: BTreeMap::new(),
            pos: 0,
            n_read: 0,
            n_write: 0,
            n_seek: 0,
            n_flush: 0,
            n_ops: 0,
            kinds: None,
            ranges: None,
            journal: None,
            fault: None,
            fault_hits: 0,
            fault_kind: None,
            hard_fault: false,
            chunks: Vec::new(),
            chunk_i: 0,
            oob_writes: 0,
            no_read: Vec::new(),
            no_write: Vec::new(),
            bad_kind: None,
            bad_hits: 0,
            first_hit: None,
        }
    }

    pub fn from_bytes(b: &[u8]) -> Self {
        let mut d = Dev::new(b.len() as u64, 0);
        d.poke(0, b);
        d
    }

    fn page_bytes(&self, p: u64) -> [u8; PAGE as usize] {
        match self.pages.get(&p) {
            Some(b) => **b,
            None => {
                let mut b = [0u8; PAGE as usize];
                if self.fill != 0 {
                    for (i, v) in b.iter_mut().enumerate() {
                        *v = fill_byte(self.fill, p * PAGE + i as u64);
                    }
                }
                b
            }
        }
    }

    /// Reads without touching any counter (reading past the end gives zeros).
    pub fn peek(&self, off: u64, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        let mut o = off;
        let end = off.saturating_add(n as u64);
        while o < end {
            let p = o / PAGE;
            let b = self.page_bytes(p);
            let s = (o % PAGE) as usize;
            let e = (PAGE as usize).min(s + (end - o) as usize);
            out.extend_from_slice(&b[s..e]);
            o += (e - s) as u64;
        }
        out
    }

    /// Writes without touching any counter. Ignores the length.
    pub fn poke(&mut self, off: u64, data: &[u8]) {
        let mut o = off;
        let mut d = data;
        while !d.is_empty() {
            let p = o / PAGE;
            let s = (o % PAGE) as usize;
            let n = (PAGE as usize - s).min(d.len());
            let mut b = self.page_bytes(p);
            b[s..s + n].copy_from_slice(&d[..n]);
            self.pages.insert(p, Arc::new(b));
            o += n as u64;
            d = &d[n..];
        }
    }

    pub fn to_vec(&self) -> Vec<u8> {
        self.peek(0, self.len as usize)
    }

    /// Byte ranges [start, end) in which the two devices differ (same length and fill assumed),
    /// merged and ascending.
    pub fn diff(&self, other: &Dev) -> Vec<(u64, u64)> {
        assert_eq!(self.len, other.len);
        assert_eq!(self.fill, other.fill);
        let mut pages: Vec<u64> = self.pages.keys().chain(other.pages.keys()).copied().collect();
        pages.sort_unstable();
        pages.dedup();
        let mut out: Vec<(u64, u64)> = vec![];
        for p in pages {
            if let (Some(a), Some(b)) = (self.pages.get(&p), other.pages.get(&p)) {
                if Arc::ptr_eq(a, b) || a == b {
                    continue;
                }
            }
            let a = self.page_bytes(p);
            let b = other.page_bytes(p);
            for i in 0..PAGE as usize {
                if a[i] != b[i] {
                    let o = p * PAGE + i as u64;
                    if o >= self.len {
                        continue;
                    }
                    match out.last_mut() {
                        Some(l) if l.1 == o => l.1 = o + 1,
                        _ => out.push((o, o + 1)),
                    }
                }
            }
        }
        out
    }

    /// The 512-byte pieces that were ever written, by position.
    pub fn touched(&self) -> Vec<(u64, [u8; PAGE as usize])> {
        self.pages.iter().filter(|(p, _)| **p * PAGE < self.len).map(|(p, b)| (p * PAGE, **b)).collect()
    }

    pub fn same(&self, other: &Dev) -> bool {
        self.len == other.len && self.diff(other).is_empty()
    }

    /// Starts counting operations from 0 and recording their kinds.
    pub fn arm(&mut self, fault: Option<Fault>) {
        self.n_ops = 0;
        self.fault = fault;
        self.fault_hits = 0;
        self.fault_kind = None;
        self.hard_fault = false;
    }

    pub fn disarm(&mut self) {
        self.fault = None;
        self.chunks.clear();
    }

    /// Changes the length of the device (a resized disk). New space shows the fill.
    pub fn resize(&mut self, len: u64) {
        if len < self.len {
            let first_gone = len.div_ceil(PAGE);
            let gone: Vec<u64> = self.pages.range(first_gone..).map(|(k, _)| *k).collect();
            for g in gone {
                self.pages.remove(&g);
            }
        }
        self.len = len;
    }

    fn enter(&mut self, k: OpKind) -> io::Result<()> {
        let i = self.n_ops;
        self.n_ops += 1;
        if self.n_ops > 50_000_000 {
            panic!("runaway loop: over 50 million device operations");
        }
        match k {
            OpKind::Read => self.n_read += 1,
            OpKind::Write => self.n_write += 1,
            OpKind::Seek => self.n_seek += 1,
            OpKind::Flush => self.n_flush += 1,
        }
        if let Some(v) = &mut self.kinds {
            v.push(k);
        }
        if let Some(f) = &self.fault {
            if i == f.at || (f.persistent && i > f.at) {
                self.fault_hits += 1;
                if self.fault_kind.is_none() {
                    self.fault_kind = Some(k);
                }
                if matches!(k, OpKind::Write | OpKind::Flush) {
                    self.hard_fault = true;
                }
                return Err(io::Error::new(f.kind.unwrap_or(io::ErrorKind::Other), "injected fault"));
            }
        }
        Ok(())
    }

    /// Declares everything outside these ascending, disjoint ranges defective.
    pub fn only(&mut self, good: &[(u64, u64)]) {
        let mut v = vec![];
        let mut at = 0;
        for (a, b) in good {
            if *a > at {
                v.push((at, *a));
            }
            at = at.max(*b);
        }
        if at < self.len {
            v.push((at, self.len));
        }
        self.no_read = v.clone();
        self.no_write = v;
    }

    pub fn sound(&mut self) {
        self.no_read.clear();
        self.no_write.clear();
        self.bad_kind = None;
    }

    /// How many of the `n` bytes at the current position can be transferred before a
    /// defective range begins.
    fn good(&mut self, k: OpKind, n: u64) -> io::Result<u64> {
        let v = if k == OpKind::Read { &self.no_read } else { &self.no_write };
        let (p, mut end) = (self.pos, self.pos + n);
        for (a, b) in v {
            if *a < end && *b > p {
                end = (*a).max(p);
            }
        }
        if end < self.pos + n {
            self.bad_hits += 1;
            self.first_hit.get_or_insert((k, end));
        }
        if end == p {
            return Err(io::Error::new(self.bad_kind.unwrap_or(io::ErrorKind::Other), "defective block"));
        }
        Ok(end - p)
    }

    fn heal(&mut self, a: u64, b: u64) {
        let old = std::mem::take(&mut self.no_read);
        for (s, e) in old {
            if e <= a || s >= b {
                self.no_read.push((s, e));
                continue;
            }
            if s < a {
                self.no_read.push((s, a));
            }
            if e > b {
                self.no_read.push((b, e));
            }
        }
    }

    fn limit(&mut self, n: usize) -> io::Result<usize> {
        if self.chunks.is_empty() {
            return Ok(n);
        }
        let c = self.chunks[self.chunk_i % self.chunks.len()] as usize;
        self.chunk_i += 1;
        if c == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        Ok(n.min(c))
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.enter(OpKind::Read)?;
        if buf.is_empty() || self.pos >= self.len {
            return Ok(0);
        }
        let n = self.limit(buf.len())?;
        let mut n = (n as u64).min(self.len - self.pos) as usize;
        if !self.no_read.is_empty() {
            n = self.good(OpKind::Read, n as u64)? as usize;
        }
        let d = self.peek(self.pos, n);
        buf[..n].copy_from_slice(&d);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let r = self.enter(OpKind::Write);
        if let Err(e) = r {
            let part = self.fault.as_ref().map_or(0, |f| f.partial as usize).min(buf.len());
            let part = part.min(self.len.saturating_sub(self.pos) as usize);
            if part > 0 {
                let p = self.pos;
                self.poke(p, &buf[..part]);
            }
            return Err(e);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.limit(buf.len())?;
        if self.pos >= self.len {
            self.oob_writes += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "write past the end of the device"));
        }
        let mut n = (n as u64).min(self.len - self.pos) as usize;
        if !self.no_write.is_empty() {
            n = self.good(OpKind::Write, n as u64)? as usize;
        }
        let p = self.pos;
        if !self.no_read.is_empty() {
            self.heal(p, p + n as u64);
        }
        self.poke(p, &buf[..n]);
        if let Some(r) = &mut self.ranges {
            r.push((p, p + n as u64));
        }
        if let Some(j) = &mut self.journal {
            j.push(Ev::Write { off: p, data: buf[..n].to_vec() });
        }
        self.pos += n as u64;
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        self.enter(OpKind::Flush)?;
        if let Some(j) = &mut self.journal {
            j.push(Ev::Flush);
        }
        Ok(())
    }
}

impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.enter(OpKind::Seek)?;
        let n = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        // like lseek: negative or more than an off_t can hold is invalid
        if n < 0 || n > i64::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
