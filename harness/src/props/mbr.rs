//! MBR: C17 (codec) and C18 (device operations).

use crate::dev::{Dev, Ev, Fault};
use crate::gen::*;
use crate::refgpt::le32;
use crate::runner::{lib, Ctx, Cx};
use gpt::mbr::{self, MBRError, PartRecord, ProtectiveMBR};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rec(pub [u8; 8], pub u32, pub u32);

impl Rec {
    fn parse(b: &[u8]) -> Rec {
        Rec(b[0..8].try_into().unwrap(), le32(&b[8..]), le32(&b[12..]))
    }
    fn bytes(&self) -> [u8; 16] {
        let mut b = [0; 16];
        b[..8].copy_from_slice(&self.0);
        b[8..12].copy_from_slice(&self.1.to_le_bytes());
        b[12..].copy_from_slice(&self.2.to_le_bytes());
        b
    }
    fn record(&self) -> PartRecord {
        PartRecord {
            boot_indicator: self.0[0],
            start_head: self.0[1],
            start_sector: self.0[2],
            start_track: self.0[3],
            os_type: self.0[4],
            end_head: self.0[5],
            end_sector: self.0[6],
            end_track: self.0[7],
            lb_start: self.1,
            lb_size: self.2,
        }
    }
}

fn rec() -> BoxedStrategy<Rec> {
    prop_oneof![
        3 => (any::<[u8; 8]>(), edge32(), edge32()).prop_map(|(a, b, c)| Rec(a, b, c)),
        1 => Just(Rec([0; 8], 0, 0)),
        1 => edge32().prop_map(|n| Rec([0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF], 1, n)),
    ]
    .boxed()
}

/// A buffer of some length whose signature may be right.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Buf {
    len: u32,
    fill: u64,
    patches: Vec<(u16, u8)>,
    /// bytes 510 and 511
    sig: [u8; 2],
}

impl Buf {
    fn bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = (0..self.len as u64).map(|i| crate::dev::fill_byte(self.fill, i)).collect();
        if !v.is_empty() {
            for (i, b) in &self.patches {
                let i = *i as usize % v.len().min(600);
                v[i] = *b;
            }
        }
        for (i, b) in self.sig.iter().enumerate() {
            if let Some(x) = v.get_mut(510 + i) {
                *x = *b;
            }
        }
        v
    }
}

fn sig() -> BoxedStrategy<[u8; 2]> {
    prop_oneof![
        8 => Just([0x55, 0xAA]),
        1 => Just([0xAA, 0x55]),
        1 => any::<u8>().prop_map(|b| [0x55, b]),
        1 => any::<u8>().prop_map(|b| [b, 0xAA]),
        1 => any::<[u8; 2]>(),
    ]
    .boxed()
}

fn buf(len: BoxedStrategy<u32>) -> BoxedStrategy<Buf> {
    (len, prop_oneof![1 => Just(0u64), 4 => any::<u64>()], proptest::collection::vec((any::<u16>(), any::<u8>()), 0..8), sig())
        .prop_map(|(len, fill, patches, sig)| Buf { len, fill, patches, sig })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    Boot { fill: u64, at: u16, b: u8 },
    Sig([u8; 4]),
    Part(u64, Rec),
}

fn sig4() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![
        4 => any::<[u8; 4]>(),
        2 => proptest::array::uniform4(prop_oneof![Just(0u8), Just(0xFF)]),
        2 => Just([0; 4]),
        1 => (crate::dict::int(), any::<bool>()).prop_map(|(n, be)| if be { (n as u32).to_be_bytes() } else { (n as u32).to_le_bytes() }),
    ]
    .boxed()
}

fn set() -> BoxedStrategy<Set> {
    prop_oneof![
        1 => (any::<u64>(), any::<u16>(), any::<u8>()).prop_map(|(fill, at, b)| Set::Boot { fill, at, b }),
        1 => sig4().prop_map(Set::Sig),
        2 => (prop_oneof![4 => 0u64..4, 2 => 4u64..7, 1 => edge64()], rec()).prop_map(|(i, r)| Set::Part(i, r)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Codec {
    big: bool,
    /// none: a freshly made MBR of that size
    from: Result<Buf, Option<u32>>,
    sets: Vec<Set>,
}

fn boot(fill: u64, at: u16, b: u8) -> [u8; 440] {
    let mut v = [0u8; 440];
    for (i, x) in v.iter_mut().enumerate() {
        *x = crate::dev::fill_byte(fill, i as u64);
    }
    v[at as usize % 440] = b;
    v
}

/// The 512 bytes as the library reports them field by field.
fn check_fields(m: &ProtectiveMBR, want: &[u8]) -> Result<(), String> {
    ensure!(m.bootcode()[..] == want[..440], "bootcode differs from bytes 0..440");
    ensure!(m.disk_signature()[..] == want[440..444], "disk signature {:?} differs from bytes 440..444", m.disk_signature());
    for i in 0..4 {
        let e = Rec::parse(&want[446 + 16 * i..]).record();
        let p = lib("partition", || m.partition(i))?;
        ensure!(p == Some(e), "partition {i} is {p:?} instead of {e:?}");
    }
    for i in [4usize, 5, 100, usize::MAX] {
        ensure!(lib("partition", || m.partition(i))?.is_none(), "there is a partition {i}");
    }
    let b = lib("to_bytes", || m.to_bytes())?;
    if b[..] != want[..512] {
        let i = (0..512).find(|i| b[*i] != want[*i]).unwrap();
        return Err(format!("byte {i} serialises as {:#x} instead of {:#x}", b[i], want[i]));
    }
    Ok(())
}

fn fresh_bytes(n: Option<u32>) -> Vec<u8> {
    let mut w = vec![0u8; 512];
    let r = Rec([0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF], 1, n.unwrap_or(u32::MAX));
    w[446..462].copy_from_slice(&r.bytes());
    w[510] = 0x55;
    w[511] = 0xAA;
    w
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("A case is a buffer (any length, arbitrary contents, right or wrong signature) or a fresh protective MBR, followed by setters. Non-trivial: the buffer has the block size (then the outcome depends on its bytes only), or a fresh MBR.");
    let strat = || {
        let len = prop_oneof![
            5 => Just(512u32),
            4 => Just(4096u32),
            2 => 500u32..520,
            1 => 4090u32..4100,
            1 => 0u32..10_000,
        ]
        .boxed();
        (
            any::<bool>(),
            prop_oneof![4 => buf(len).prop_map(Ok), 1 => proptest::option::of(edge32()).prop_map(Err)],
            proptest::collection::vec(set(), 0..6),
        )
            .prop_map(|(big, from, sets)| Codec {
                // mostly the block size of the buffer
                big: match &from {
                    Ok(b) if b.fill % 8 != 0 => b.len > 2000,
                    _ => big,
                },
                from,
                sets,
            })
    };
    ctx.explore("codec", ctx.cases(1_600_000, 40_000_000), strat, |c, cx| {
        let (mut m, mut want) = match &c.from {
            Ok(b) => {
                let bytes = b.bytes();
                let r = lib("from_bytes", || ProtectiveMBR::from_bytes(&bytes, lbs(c.big)))?;
                let right_len = bytes.len() == if c.big { 4096 } else { 512 };
                if right_len {
                    cx.nt("block-sized buffer");
                }
                let ok = right_len && bytes[510..512] == [0x55, 0xAA];
                match r {
                    Ok(m) => {
                        ensure!(
                            ok,
                            "a buffer of {} bytes with signature {:x?} is accepted for block size {}",
                            bytes.len(),
                            bytes.get(510..512),
                            lbs(c.big)
                        );
                        (m, bytes[..512].to_vec())
                    }
                    Err(e) => {
                        ensure!(!ok, "a correct buffer of {} bytes is refused: {e:?}", bytes.len());
                        let kind = match e {
                            MBRError::InvalidMBRLength => !right_len,
                            MBRError::InvalidMBRSignature => right_len,
                            _ => false,
                        };
                        ensure!(kind, "a buffer of {} bytes is refused with {e:?}", bytes.len());
                        return Ok(());
                    }
                }
            }
            Err(n) => {
                cx.nt("fresh MBR");
                let m = match n {
                    Some(n) => ProtectiveMBR::with_lb_size(*n),
                    None => ProtectiveMBR::new(),
                };
                let r = PartRecord::new_protective(*n);
                ensure!(r.os_type == 0xEE && r.lb_start == 1 && r.lb_size == n.unwrap_or(u32::MAX), "new_protective({n:?}) is {r:?}");
                // the record of UEFI 2.10, table 5-4
                let w = fresh_bytes(*n);
                ensure!(r.to_bytes()[..] == w[446..462], "new_protective({n:?}) has the bytes {:x?}", r.to_bytes());
                let ee = (0..4).filter(|i| m.partition(*i).is_some_and(|p| p.os_type == 0xEE)).count();
                ensure!(ee == 1, "a fresh protective MBR has {ee} protective records");
                if n.is_none() {
                    ensure!(ProtectiveMBR::default().to_bytes() == m.to_bytes(), "default() and new() differ");
                }
                (m, w)
            }
        };
        check_fields(&m, &want)?;
        for (i, s) in c.sets.iter().enumerate() {
            match s {
                Set::Boot { fill, at, b } => {
                    let v = boot(*fill, *at, *b);
                    lib("set_bootcode", || {
                        m.set_bootcode(v);
                    })?;
                    want[..440].copy_from_slice(&v);
                }
                Set::Sig(v) => {
                    lib("set_disk_signature", || {
                        m.set_disk_signature(*v);
                    })?;
                    want[440..444].copy_from_slice(v);
                }
                Set::Part(k, r) => {
                    let k = *k as usize;
                    let old = lib("set_partition", || m.set_partition(k, r.record()))?;
                    if k < 4 {
                        let o = 446 + 16 * k;
                        let e = Rec::parse(&want[o..]).record();
                        ensure!(old == Some(e), "set_partition({k}) returns {old:?} instead of {e:?}");
                        want[o..o + 16].copy_from_slice(&r.bytes());
                    } else {
                        cx.label("invalid partition index");
                        ensure!(old.is_none(), "set_partition({k}) returns {old:?}");
                    }
                }
            }
            check_fields(&m, &want).map_err(|e| format!("after setter {i}: {e}"))?;
        }
        // and parses back
        let mut full = m.to_bytes().to_vec();
        full.resize(if c.big { 4096 } else { 512 }, 0x11);
        let back = lib("from_bytes", || ProtectiveMBR::from_bytes(&full, lbs(c.big)))?.map_err(|e| format!("own bytes refused: {e:?}"))?;
        check_fields(&back, &want).map_err(|e| format!("parsed back: {e}"))
    });
    let strat = || {
        (
            rec(),
            prop_oneof![6 => Just(16usize), 1 => 0usize..16, 1 => 17usize..600].prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n)),
        )
    };
    ctx.explore("records", ctx.cases(800_000, 28_000_000), strat, |(r, b), cx| {
        let p = r.record();
        ensure!(p.to_bytes() == r.bytes(), "{p:?} serialises as {:x?} instead of {:x?}", p.to_bytes(), r.bytes());
        let q = lib("PartRecord::from_bytes", || PartRecord::from_bytes(&r.bytes()))?;
        ensure!(q.as_ref().ok() == Some(&p), "{:x?} parses as {q:?}", r.bytes());
        let q = lib("PartRecord::from_bytes", || PartRecord::from_bytes(b))?;
        if b.len() == 16 {
            cx.nt("record");
            let e = Rec::parse(b).record();
            ensure!(q.as_ref().ok() == Some(&e), "{b:x?} parses as {q:?} instead of {e:?}");
            ensure!(q.unwrap().to_bytes()[..] == b[..], "{b:x?} does not serialise back");
        } else {
            ensure!(matches!(q, Err(MBRError::InvalidPartitionLength)), "{} bytes parse as {q:?}", b.len());
        }
        ensure!(PartRecord::zero().to_bytes() == [0; 16], "the zero record is not all zero");
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    /// read LBA 0 into the MBR in hand, if it parses
    Load(bool),
    New(Option<u32>),
    Set(Set),
    Overwrite,
    Conservative,
    ReadBoot,
    WriteBoot { fill: u64, at: u16, b: u8 },
    ReadSig,
    WriteSig([u8; 4]),
    Move(u64),
    /// something else changes the device
    Poke(u16, u8),
    /// a device operation of the next function fails (this one, or from this one on), a
    /// failing write after some bytes
    Arm { at: u8, persistent: bool, partial: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Device {
    len: u64,
    fill: u64,
    pos: u64,
    sig: [u8; 2],
    mbr: Option<u32>,
    ops: Vec<MOp>,
    chunks: Vec<u32>,
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("A case is a device of any length with arbitrary contents, a stream position and up to 12 MBR operations on it. Non-trivial: at least one writing operation succeeded on a device that holds data.");
    let strat = || {
        let pos = || prop_oneof![3 => 0u64..600, 2 => 0u64..10_000, 1 => edge64().prop_map(|v| v & (i64::MAX as u64))];
        let ops = prop_oneof![
            2 => any::<bool>().prop_map(MOp::Load),
            1 => proptest::option::of(edge32()).prop_map(MOp::New),
            2 => set().prop_map(MOp::Set),
            2 => Just(MOp::Overwrite),
            2 => Just(MOp::Conservative),
            1 => Just(MOp::ReadBoot),
            2 => (prop_oneof![1 => Just(0u64), 5 => any::<u64>()], any::<u16>(), prop_oneof![1 => Just(0u8), 5 => any::<u8>()]).prop_map(|(fill, at, b)| MOp::WriteBoot { fill, at, b }),
            1 => Just(MOp::ReadSig),
            2 => sig4().prop_map(MOp::WriteSig),
            1 => pos().prop_map(MOp::Move),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| MOp::Poke(a, b)),
            2 => (0u8..8, any::<bool>(), prop_oneof![Just(0u16), 0u16..600]).prop_map(|(at, persistent, partial)| MOp::Arm { at, persistent, partial }),
        ];
        (
            prop_oneof![4 => 512u64..10_000, 2 => 4000u64..5000, 2 => 0u64..600, 1 => Just(512u64), 1 => Just(4096u64), 1 => Just(1u64 << 50)],
            prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
            pos(),
            sig(),
            proptest::option::of(edge32()),
            proptest::collection::vec(ops, 1..12),
            prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(1u32..70, 1..4)],
        )
            .prop_map(|(len, fill, pos, sig, mbr, ops, chunks)| Device { len, fill, pos, sig, mbr, ops, chunks })
    };
    ctx.explore("device operations", ctx.cases(600_000, 21_000_000), strat, device);
}

fn device(c: &Device, cx: &mut Cx) -> Result<(), String> {
    let mut d = Dev::new(c.len, c.fill);
    if c.len >= 512 {
        d.poke(510, &c.sig);
    }
    d.chunks = c.chunks.clone();
    d.pos = c.pos;
    let mut m = match c.mbr {
        Some(n) => ProtectiveMBR::with_lb_size(n),
        None => ProtectiveMBR::new(),
    };
    // model: expected bytes of the MBR in hand and of the device
    let mut mem = m.to_bytes().to_vec();
    let mut want = d.clone();
    let mut wrote = false;
    let mut fault = None;
    for (i, op) in c.ops.iter().enumerate() {
        let pos = d.pos;
        d.n_write = 0;
        d.journal = Some(vec![]);
        if let MOp::Arm { at, persistent, partial } = op {
            fault = Some(Fault { at: *at as u64, persistent: *persistent, partial: *partial as u32, kind: None });
            continue;
        }
        let memory_only = matches!(op, MOp::Move(_) | MOp::Poke(..) | MOp::New(_) | MOp::Set(_));
        d.arm(if memory_only { None } else { fault.take() });
        let at = |m: String| format!("operation {i} ({op:?}): {m}");
        // (success, expected success)
        let mut reads_only = false;
        let (ok, expect): (bool, bool) = match op {
            MOp::Load(big) => {
                reads_only = true;
                let n = if *big { 4096 } else { 512 };
                let r = lib("from_disk", || ProtectiveMBR::from_disk(&mut d, lbs(*big)))?;
                let b = want.peek(0, 512);
                let good = c.len >= n && b[510..] == [0x55, 0xAA];
                match r {
                    Ok(x) => {
                        ensure!(good, "{}", at("accepted".into()));
                        check_fields(&x, &b).map_err(at)?;
                        m = x;
                        mem = b;
                        (true, true)
                    }
                    Err(_) => (false, good),
                }
            }
            MOp::New(n) => {
                m = match n {
                    Some(n) => ProtectiveMBR::with_lb_size(*n),
                    None => ProtectiveMBR::new(),
                };
                mem = m.to_bytes().to_vec();
                (true, true)
            }
            MOp::Set(s) => {
                match s {
                    Set::Boot { fill, at, b } => {
                        let v = boot(*fill, *at, *b);
                        m.set_bootcode(v);
                        mem[..440].copy_from_slice(&v);
                    }
                    Set::Sig(v) => {
                        m.set_disk_signature(*v);
                        mem[440..444].copy_from_slice(v);
                    }
                    Set::Part(k, r) => {
                        lib("set_partition", || m.set_partition(*k as usize, r.record()))?;
                        if *k < 4 {
                            let o = 446 + 16 * *k as usize;
                            mem[o..o + 16].copy_from_slice(&r.bytes());
                        }
                    }
                }
                (true, true)
            }
            MOp::Overwrite => {
                let r = lib("overwrite_lba0", || m.overwrite_lba0(&mut d))?;
                if let Ok(n) = &r {
                    ensure!(*n == 512, "{}", at(format!("reports {n} bytes")));
                    want.poke(0, &mem);
                }
                (r.is_ok(), c.len >= 512)
            }
            MOp::Conservative => {
                let r = lib("update_conservative", || m.update_conservative(&mut d))?;
                if let Ok(n) = &r {
                    ensure!(*n == 66, "{}", at(format!("reports {n} bytes")));
                    want.poke(446, &mem[446..512]);
                }
                (r.is_ok(), c.len >= 512)
            }
            MOp::ReadBoot => {
                reads_only = true;
                let r = lib("read_bootcode", || mbr::read_bootcode(&mut d))?;
                if let Ok(b) = &r {
                    ensure!(b[..] == want.peek(0, 440)[..], "{}", at("other bytes than those on the device".into()));
                }
                (r.is_ok(), c.len >= 440)
            }
            MOp::WriteBoot { fill, at, b } => {
                let v = boot(*fill, *at, *b);
                let r = lib("write_bootcode", || mbr::write_bootcode(&mut d, &v))?;
                if r.is_ok() {
                    want.poke(0, &v);
                }
                (r.is_ok(), c.len >= 440)
            }
            MOp::ReadSig => {
                reads_only = true;
                let r = lib("read_disk_signature", || mbr::read_disk_signature(&mut d))?;
                if let Ok(b) = &r {
                    ensure!(b[..] == want.peek(440, 4)[..], "{}", at(format!("returns {b:x?}")));
                }
                (r.is_ok(), c.len >= 444)
            }
            MOp::WriteSig(v) => {
                let r = lib("write_disk_signature", || mbr::write_disk_signature(&mut d, v))?;
                if r.is_ok() {
                    want.poke(440, v);
                }
                (r.is_ok(), c.len >= 444)
            }
            MOp::Move(p) => {
                let _ = d.seek(SeekFrom::Start(*p));
                continue;
            }
            MOp::Poke(a, b) => {
                if (*a as u64) < c.len {
                    d.poke(*a as u64, &[*b]);
                    want.poke(*a as u64, &[*b]);
                }
                continue;
            }
            MOp::Arm { .. } => continue,
        };
        let hit = d.fault_hits > 0;
        d.fault = None;
        if hit {
            cx.label("a device operation failed");
            // success is only right if everything was done nevertheless
            ensure!(!ok || (expect && !d.hard_fault), "{}", at("succeeded although a device operation failed".into()));
        } else {
            ensure!(ok == expect, "{}", at(if ok { "succeeded on this device".into() } else { "failed".into() }));
        }
        let writer = matches!(op, MOp::Overwrite | MOp::Conservative | MOp::WriteBoot { .. } | MOp::WriteSig(_));
        if ok {
            ensure!(d.pos == pos, "{}", at(format!("moved the stream position from {pos} to {}", d.pos)));
            let diff = d.diff(&want);
            ensure!(diff.is_empty(), "{}", at(format!("wrong bytes at {:?}", &diff[..diff.len().min(4)])));
            if writer {
                let tail = d.journal.as_ref().map_or(&[][..], |j| &j[..]).iter().rev().take_while(|e| !matches!(e, Ev::Flush)).count();
                ensure!(tail == 0, "{}", at(format!("returned with {tail} writes not flushed")));
                wrote = true;
                cx.label("written");
            }
        } else {
            cx.label("failed");
            if !writer {
                ensure!(d.same(&want), "{}", at("a failed read changed the device".into()));
            } else {
                // how much got written before the end of the device is not specified, where is
                let lo = if matches!(op, MOp::Conservative) { 446 } else if matches!(op, MOp::WriteSig(_)) { 440 } else { 0 };
                let hi = if matches!(op, MOp::WriteBoot { .. }) { 440 } else if matches!(op, MOp::WriteSig(_)) { 444 } else { 512 };
                let diff = d.diff(&want);
                ensure!(diff.iter().all(|(a, b)| *a >= lo && *b <= hi), "{}", at(format!("a failed write changed bytes {diff:?}")));
                want = d.clone();
            }
        }
        if reads_only || matches!(op, MOp::New(_) | MOp::Set(_)) {
            ensure!(d.n_write == 0, "{}", at("wrote to the device".into()));
        }
        check_fields(&m, &mem).map_err(|e| at(format!("the MBR in memory: {e}")))?;
    }
    if wrote && c.fill != 0 {
        cx.nt("written over data");
    }
    Ok(())
}
