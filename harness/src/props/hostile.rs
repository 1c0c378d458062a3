//! C16: arbitrary device contents.

use crate::alloc::measure;
use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::props::faults::{hit, strike, Hit};
use crate::props::small::{raw_entry, Raw};
use crate::refgpt::{crc32, RefHeader};
use crate::runner::{lib, Ctx, Cx};
use gpt::mbr::{self, PartRecord, ProtectiveMBR};
use gpt::partition::file_read_partitions;
use gpt::{header, GptDisk};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A header with arbitrary fields; how its checksums are made.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Head {
    /// false: at LBA 1; true: at the last block
    at_end: bool,
    sig: bool,
    rev: u32,
    hsize: u32,
    my: u64,
    alt: u64,
    first: u64,
    last: u64,
    guid: G,
    start: u64,
    num: u32,
    size: u32,
    seal: bool,
    seal_array: bool,
    entries: Vec<(u16, Raw)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Image {
    Noise { len: u64, fill: u64, patches: Vec<(u32, Vec<u8>)> },
    Heads { big: bool, blocks: u64, tail: u16, fill: u64, heads: Vec<Head> },
    /// a real table, damaged; headers made consistent again
    Damaged { h: Hist, hits: Vec<(bool, u32, u16, Hit)>, reseal: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    image: Image,
    cfg: Cfg,
    big: bool,
    ops: Vec<Op>,
    pos: u64,
}

fn small_lba() -> BoxedStrategy<u64> {
    prop_oneof![5 => 0u64..120, 2 => 0u64..4000, 2 => edge64()].boxed()
}

fn head() -> impl Strategy<Value = Head> {
    (
        (any::<bool>(), proptest::bool::weighted(0.97), prop_oneof![6 => Just(0x10000u32), 1 => any::<u32>()], prop_oneof![6 => Just(92u32), 1 => edge32()]),
        (
            prop_oneof![4 => Just(0u64), 2 => small_lba()],
            prop_oneof![4 => Just(0u64), 2 => small_lba()],
            small_lba(),
            prop_oneof![2 => small_lba(), 2 => (0u64..60).prop_map(|d| u64::MAX - d), 3 => 50u64..4000],
            guid(),
        ),
        (
            prop_oneof![5 => Just(2u64), 4 => 0u64..60, 2 => small_lba()],
            prop_oneof![4 => Just(128u32), 4 => 0u32..300, 1 => 300u32..5000, 1 => edge32()],
            prop_oneof![8 => Just(128u32), 1 => edge32(), 1 => Just(0u32), 1 => 0u32..1000],
        ),
        (proptest::bool::weighted(0.97), proptest::bool::weighted(0.93)),
        proptest::collection::vec((prop_oneof![5 => 0u16..3, 1 => 0u16..200], raw_entry()), 0..8),
    )
        .prop_map(|((at_end, sig, rev, hsize), (my, alt, first, last, guid), (start, num, size), (seal, seal_array), entries)| Head {
            at_end,
            sig,
            rev,
            hsize,
            my,
            alt,
            first,
            last,
            guid,
            start,
            num,
            size,
            seal,
            seal_array,
            entries,
        })
}

impl Head {
    fn put(&self, d: &mut Dev, lb: u64) {
        let blocks = d.len / lb;
        if blocks < 2 {
            return;
        }
        let at = if self.at_end { blocks - 1 } else { 1 };
        let other = if self.at_end { 1 } else { blocks - 1 };
        let mut num = self.num;
        let aoff = self.start as u128 * lb as u128;
        // entry counts of many megabytes are only kept where the device ends soon
        if num > 5000 && aoff + (4 << 20) <= d.len as u128 {
            num %= 5000;
        }
        let alen = num as u128 * self.size as u128;
        let mut h = RefHeader {
            sig: if self.sig { *b"EFI PART" } else { *b"EFI TRAP" },
            revision: self.rev,
            header_size: self.hsize,
            crc: 5,
            reserved: 0,
            my_lba: if self.my == 0 { at } else { self.my },
            alt_lba: if self.alt == 0 { other } else { self.alt },
            first_usable: self.first,
            last_usable: self.last,
            guid: self.guid.0,
            part_start: self.start,
            num,
            size: self.size,
            crc_parts: 77,
        };
        let inside = aoff + alen <= d.len as u128 && alen <= 1 << 21;
        if inside {
            let mut o = aoff as u64;
            for (gap, raw) in &self.entries {
                o += 128 * *gap as u64;
                if o as u128 + 128 > aoff + alen {
                    break;
                }
                d.poke(o, &raw.bytes());
                o += 128;
            }
            if self.seal_array {
                h.crc_parts = crc32(&d.peek(aoff as u64, alen as usize));
            }
        }
        let b = if self.seal { h.sealed() } else { h.encode() };
        d.poke(at * lb, &b);
    }
}

/// Makes the checksums of whatever headers are there right.
fn reseal(d: &mut Dev, lb: u64) {
    let blocks = d.len / lb;
    if blocks < 2 {
        return;
    }
    for at in [1, blocks - 1] {
        let b = d.peek(at * lb, 92);
        if &b[..8] != b"EFI PART" {
            continue;
        }
        let mut h = RefHeader::parse(&b);
        let (o, n) = (h.part_start as u128 * lb as u128, h.array_bytes() as u128);
        if o + n <= d.len as u128 {
            if n > 1 << 21 {
                h.num %= 5000;
            }
            h.crc_parts = crc32(&d.peek(o as u64, h.array_bytes().min(1 << 24) as usize));
        }
        d.poke(at * lb, &h.sealed());
    }
}

impl Image {
    pub fn big(&self, or: bool) -> bool {
        match self {
            Image::Noise { .. } => or,
            Image::Heads { big, .. } => *big,
            Image::Damaged { h, .. } => h.geo.big,
        }
    }
    pub fn device(&self, cx: &mut Cx) -> Result<Dev, String> {
        Ok(match self {
            Image::Noise { len, fill, patches } => {
                let mut d = Dev::new(*len, *fill);
                for (at, b) in patches {
                    if *len > 0 {
                        let at = *at as u64 % len;
                        let n = (b.len() as u64).min(len - at);
                        d.poke(at, &b[..n as usize]);
                    }
                }
                d
            }
            Image::Heads { big, blocks, tail, fill, heads } => {
                let lb = if *big { 4096 } else { 512 };
                let mut d = Dev::new(blocks * lb + *tail as u64 % lb, *fill);
                for h in heads {
                    h.put(&mut d, lb);
                }
                // an array may have been written over an earlier header
                for h in heads {
                    if h.seal && h.seal_array && h.guid.0[0] % 2 == 0 {
                        reseal(&mut d, lb);
                        break;
                    }
                }
                d
            }
            Image::Damaged { h, hits, reseal: again } => {
                let mut d = match run(h, cx, Opts::default(), &mut |_, _| Ok(()))? {
                    Some(mut g) => {
                        let _ = lib("write_inplace", || g.write_inplace())?;
                        g.take_device()
                    }
                    None => h.geo.dev(),
                };
                let lb = h.geo.lb();
                for (end, at, n, how) in hits {
                    // within the 40 blocks at either end
                    let span = (40 * lb).min(d.len);
                    let o = *at as u64 % span;
                    let o = if *end { d.len - span + o } else { o };
                    let n = (*n as u64 % 200).max(1).min(d.len - o);
                    strike(&mut d, o, n, how);
                }
                if *again {
                    reseal(&mut d, lb);
                }
                d
            }
        })
    }
}

pub fn image() -> BoxedStrategy<Image> {
    let mut p = Profile::general();
    p.geo = geo_small();
    p.max_ops = 5;
    prop_oneof![
        1 => (
            prop_oneof![4 => 0u64..6000, 2 => 6000u64..100_000, 1 => edge64().prop_map(|v| v & ((1 << 62) - 1))],
            any::<u64>(),
            proptest::collection::vec((any::<u32>(), proptest::collection::vec(any::<u8>(), 0..20)), 0..4)
        )
            .prop_map(|(len, fill, patches)| Image::Noise { len, fill, patches }),
        6 => (
            any::<bool>(),
            prop_oneof![5 => 2u64..200, 1 => 0u64..10, 1 => 200u64..5000, 1 => (13u32..50).prop_map(|e| 1u64 << e)],
            prop_oneof![3 => Just(0u16), 1 => any::<u16>()],
            prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
            proptest::collection::vec(head(), 1..3),
        )
            .prop_map(|(big, blocks, tail, fill, heads)| Image::Heads { big, blocks, tail, fill, heads }),
        3 => (
            hist(&p),
            proptest::collection::vec((any::<bool>(), prop_oneof![1 => any::<u32>(), 2 => (0u32..92).prop_map(|o| 512 + o), 1 => (0u32..92).prop_map(|o| 4096 + o)], any::<u16>(), hit()), 0..4),
            proptest::bool::weighted(0.8),
        )
            .prop_map(|(h, hits, reseal)| Image::Damaged { h, hits, reseal }),
    ]
    .boxed()
}

/// Asks a disk everything it can be asked.
fn query(g: &GptDisk<Dev>, big: bool) -> Result<(), String> {
    lib("querying", || {
        let _ = g.header();
        let _ = g.primary_header();
        let _ = g.backup_header();
        let _ = g.guid();
        let _ = g.logical_block_size();
        let free = g.find_free_sectors();
        let _ = free.len();
        let _ = g.calculate_alignment();
        let _ = g.find_next_partition_id();
        let _ = format!("{g:?}");
        let _ = format!("{}", g.header());
        for p in g.partitions().values() {
            let _ = (p.is_used(), p.bytes_len(lbs(big)).is_ok(), p.bytes_start(lbs(big)).is_ok(), p.sectors_len().is_ok());
            let _ = format!("{p} {p:?}");
        }
        let _ = g.clone();
    })
}

/// Whatever is done for a device may take this much memory: the device's length and what a
/// table of that length takes when decoded.
fn bounds(len: u64) -> (u64, u64) {
    (len.saturating_add(1 << 16), len.saturating_mul(8).saturating_add(2 << 20))
}

fn measured<T>(what: &str, len: u64, f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let (r, largest, peak) = measure(f);
    let r = r?;
    let (l, p) = bounds(len);
    ensure!(largest <= l, "{what} asked for {largest} bytes of memory on a device of {len} bytes");
    ensure!(peak <= p, "{what} used {peak} bytes of memory on a device of {len} bytes");
    Ok(r)
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("A case is a device image (noise of any length; one or two headers with right checksums and arbitrary fields, arrays and entries; a real table damaged at random and sealed again), a configuration and up to 5 edits and writes if it opens. Non-trivial: opening succeeds, or a header is found valid.");
    ctx.assume("arrays of more than a few megabytes that lie completely inside the device are not generated");
    let strat = || {
        let mut p = Profile::general();
        p.wild = true;
        (
            image(),
            (any::<bool>(), proptest::bool::weighted(0.15), any::<bool>(), any::<bool>())
                .prop_map(|(change, only_valid, ro, w)| Cfg { writable: change || w, only_valid, ro_backup: ro, change }),
            any::<bool>(),
            proptest::collection::vec(prop_oneof![3 => op(&p), 1 => Just(Op::Write)], 0..6),
            prop_oneof![2 => Just(0u64), 1 => edge64().prop_map(|v| v & (i64::MAX as u64))],
        )
            .prop_map(|(image, cfg, big, ops, pos)| Hostile { image, cfg, big, ops, pos })
    };
    ctx.explore("images", ctx.cases(60_000, 2_100_000), strat, one);
}

fn one(c: &Hostile, cx: &mut Cx) -> Result<(), String> {
    let mut d = c.image.device(cx)?;
    d.n_ops = 0;
    let big = c.image.big(c.big);
    let lb: u64 = if big { 4096 } else { 512 };
    let len = d.len;
    d.pos = c.pos;

    // readers on their own
    let h = measured("read_header_from_arbitrary_device", len, || {
        lib("read_header_from_arbitrary_device", || header::read_header_from_arbitrary_device(&mut d.clone(), lbs(big)))
    })?;
    if let Ok(h) = &h {
        cx.nt("valid primary header");
        // an array of huge length inside a huge device takes long but is no fault
        let sane = h.num_parts <= 5000 || h.part_start as u128 * lb as u128 + (16 << 20) > len as u128;
        if sane {
            measured("file_read_partitions", len, || lib("file_read_partitions", || file_read_partitions(&mut d.clone(), h, lbs(big)).is_ok()))?;
        }
        let _ = format!("{h} {h:?}");
    }
    measured("MBR readers", len, || {
        lib("MBR readers", || {
            let mut d = d.clone();
            let m = ProtectiveMBR::from_disk(&mut d, lbs(big));
            let _ = mbr::read_bootcode(&mut d).is_ok();
            let _ = mbr::read_disk_signature(&mut d).is_ok();
            if let Ok(m) = m {
                let _ = format!("{m:?}");
                for i in 0..5 {
                    let _ = m.partition(i);
                }
                let _ = m.update_conservative(&mut d).is_ok();
                let _ = m.overwrite_lba0(&mut d).is_ok();
            }
        })
    })?;

    // the same bytes as buffers of any length
    for n in [c.pos % 4200, len % 513, lb - 1, lb, lb + 1, 0, 15, 16, 17, 510, 511, 512] {
        let b = d.peek(0, n.min(len) as usize);
        lib(&format!("MBR from {} bytes", b.len()), || {
            let _ = ProtectiveMBR::from_bytes(&b, lbs(big)).map(|m| m.to_bytes()).is_ok();
            let _ = PartRecord::from_bytes(&b).map(|r| r.to_bytes()).is_ok();
        })?;
    }

    // open, and create
    let g = measured("opening", len, || open(d.clone(), c.cfg, big))?;
    let made = measured("creating", len, || create(d.clone(), c.cfg, big, None))?;
    if let Ok(g) = &made {
        query(g, big)?;
        cx.label("created");
    }
    let Ok(mut g) = g else {
        cx.label("refused");
        return Ok(());
    };
    cx.nt("opened");
    query(&g, big)?;
    let geo = Geo { big, blocks: (len / lb).max(1), tail: (len % lb) as u16, fill: 0, old: 0 };
    for (i, o) in c.ops.iter().enumerate() {
        let s = Snap::of(&g);
        let cop = concrete(o, &s, &geo, c.cfg, &g)?;
        match &cop {
            COp::Reopen { .. } => {
                let dev = g.device_ref().clone();
                match measured("reopening", len, || open(dev, c.cfg, big))? {
                    Ok(n) => g = n,
                    Err(_) => {
                        cx.label("not reopened");
                        return Ok(());
                    }
                }
            }
            op => {
                let out = measured("an operation", len, || apply(&mut g, op)).map_err(|e| format!("operation {i}: {e}"))?;
                match op {
                    COp::Write if out.ok() => cx.label("written back"),
                    COp::Write => cx.label("write refused"),
                    _ if out.ok() => cx.label("edited"),
                    _ => cx.label("edit refused"),
                }
            }
        }
        query(&g, big).map_err(|e| format!("after operation {i}: {e}"))?;
    }
    Ok(())
}
