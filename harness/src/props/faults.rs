//! Damage, crashes, failing and splitting devices: C10, C11, C12, C13, C14.

use crate::dev::{Dev, Ev, Fault, OpKind};
use crate::gen::*;
use crate::hist::*;
use crate::refgpt::{self, crc32, header_ok, RefCopy, RefHeader};
use crate::runner::{lib, Ctx, Cx};
use gpt::header;
use gpt::mbr::{self, ProtectiveMBR};
use gpt::GptDisk;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Runs a history, writes, and returns the device with its table. None when the history ended
/// in a refused write.
pub fn written(h: &Hist, cx: &mut Cx) -> Result<Option<(Dev, Snap)>, String> {
    let Some(mut d) = run(h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(None) };
    match lib("write_inplace", || d.write_inplace())? {
        Ok(()) => {
            let s = Snap::of(&d);
            Ok(Some((d.take_device(), s)))
        }
        Err(e) => Err(format!("write failed: {e}")),
    }
}

fn builder() -> Profile {
    Profile {
        geo: geo_small(),
        cfg: cfg_grow(),
        start: prop_oneof![2 => start_new(), 1 => start_foreign(false, true)].boxed(),
        max_ops: 5,
        w: [10, 6, 2, 0, 1, 4, 0, 1, 0],
        wild: false,
        recfg: Just(None).boxed(),
    }
}

/// Bytes to put over a region.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hit {
    /// flips these bits at a relative position
    Flip { at: u16, mask: u8 },
    Bytes { at: u16, data: Vec<u8> },
    Zero,
    Ones,
    /// one 512-byte block of the region zeroed
    ZeroBlock(u8),
    /// a single header field replaced, CRC left stale
    Field { which: u8, value: u64 },
    /// two 128-byte entries exchanged (arrays only)
    SwapEntries(u8, u8),
}

pub fn hit() -> BoxedStrategy<Hit> {
    prop_oneof![
        4 => (any::<u16>(), (0u32..8).prop_map(|b| 1u8 << b)).prop_map(|(at, mask)| Hit::Flip { at, mask }),
        2 => (any::<u16>(), 1u8..=255).prop_map(|(at, mask)| Hit::Flip { at, mask }),
        3 => (any::<u16>(), proptest::collection::vec(any::<u8>(), 1..40)).prop_map(|(at, data)| Hit::Bytes { at, data }),
        1 => Just(Hit::Zero),
        1 => Just(Hit::Ones),
        1 => any::<u8>().prop_map(Hit::ZeroBlock),
        2 => (0u8..14, edge64()).prop_map(|(which, value)| Hit::Field { which, value }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Hit::SwapEntries(a, b)),
    ]
    .boxed()
}

/// Applies it to the `len` bytes at `off` (kept inside the region).
pub fn strike(d: &mut Dev, off: u64, len: u64, h: &Hit) {
    match h {
        Hit::Flip { at, mask } => {
            let o = off + *at as u64 % len;
            let b = d.peek(o, 1)[0] ^ mask;
            d.poke(o, &[b]);
        }
        Hit::Bytes { at, data } => {
            let o = *at as u64 % len;
            let n = data.len().min((len - o) as usize);
            d.poke(off + o, &data[..n]);
        }
        Hit::Zero => d.poke(off, &vec![0; len as usize]),
        Hit::Ones => d.poke(off, &vec![0xff; len as usize]),
        Hit::ZeroBlock(b) => {
            let n = len.div_ceil(512);
            let o = (*b as u64 % n) * 512;
            d.poke(off + o, &vec![0; 512.min(len - o) as usize]);
        }
        Hit::Field { which, value } => {
            let (o, n) = [(0, 8), (8, 4), (12, 4), (16, 4), (20, 4), (24, 8), (32, 8), (40, 8), (48, 8), (56, 8), (72, 8), (80, 4), (84, 4), (88, 4)]
                [*which as usize % 14];
            if (o + n) as u64 <= len {
                d.poke(off + o as u64, &value.to_le_bytes()[..n]);
            }
        }
        Hit::SwapEntries(a, b) => {
            let n = len / 128;
            if n > 0 {
                let (x, y) = (off + *a as u64 % n * 128, off + *b as u64 % n * 128);
                let (p, q) = (d.peek(x, 128), d.peek(y, 128));
                d.poke(x, &q);
                d.poke(y, &p);
            }
        }
    }
}

/// (offset, length) of the four regions: primary header, primary array, backup header, backup
/// array. Headers as their 92 significant bytes.
fn regions(d: &Dev, geo: &Geo) -> [(u64, u64); 4] {
    let lb = geo.lb();
    let p = RefHeader::parse(&d.peek(lb, 92));
    let b = RefHeader::parse(&d.peek(geo.last() * lb, 92));
    [
        (lb, 92),
        (p.part_start * lb, p.array_bytes()),
        (geo.last() * lb, 92),
        (b.part_start * lb, b.array_bytes()),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage {
    h: Hist,
    backup: bool,
    header: Option<Hit>,
    array: Option<Hit>,
    /// damage for the other header as well (only used by the last part)
    other: Hit,
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("A case is a written table and damage to the header, the array or both of one copy. The disk must open with its table, a write must restore its bytes, a single damaged header must fail an open that asks for both, and two damaged headers must fail any open. Non-trivial: the damage changed bytes of a table with a used partition.");
    let p = || {
        let p = builder();
        p
    };
    let strat = || {
        (hist(&p()), any::<bool>(), prop_oneof![3 => (Just(true), Just(false)), 3 => (Just(false), Just(true)), 2 => (Just(true), Just(true))], hit(), hit(), hit()).prop_map(
            |(h, backup, (eh, ea), a, b, other)| Damage { h, backup, header: eh.then_some(a), array: ea.then_some(b), other },
        )
    };
    ctx.explore("damage to one copy", ctx.cases(80_000, 2_800_000), strat, |c, cx| {
        let Some((dev, s)) = written(&c.h, cx)? else { return Ok(()) };
        let geo = &c.h.geo;
        let r = regions(&dev, geo);
        let k = if c.backup { 2 } else { 0 };
        let mut bad = dev.clone();
        if let Some(h) = &c.header {
            strike(&mut bad, r[k].0, r[k].1, h);
        }
        let header_hit = !bad.same(&dev);
        if let Some(h) = &c.array {
            strike(&mut bad, r[k + 1].0, r[k + 1].1, h);
        }
        let array_hit = !dev.peek(r[k + 1].0, r[k + 1].1 as usize).eq(&bad.peek(r[k + 1].0, r[k + 1].1 as usize));
        if bad.same(&dev) {
            return Ok(());
        }
        if s.used().count() > 0 {
            cx.nt(match (c.backup, header_hit, array_hit) {
                (false, true, false) => "primary header damaged",
                (false, false, true) => "primary array damaged",
                (false, _, _) => "primary header and array damaged",
                (true, true, false) => "backup header damaged",
                (true, false, true) => "backup array damaged",
                (true, _, _) => "backup header and array damaged",
            });
        }
        let want = written_view(&s);
        let mut d = open(bad.clone(), Cfg::RW, geo.big)?.map_err(|e| format!("the disk cannot be opened from its other copy: {e:?}"))?;
        let got = table_view(d.partitions());
        ensure!(got == want, "the other copy's table is not what is reported: {}", describe_diff(&got, &want));
        ensure!(*d.guid() == s.guid, "GUID {} instead of {}", d.guid(), s.guid);
        lib("write_inplace", || d.write_inplace())?.map_err(|e| format!("the restoring write failed: {e}"))?;
        if s.nul_names() {
            return Ok(());
        }
        let diff = d.device_ref().diff(&dev);
        ensure!(diff.is_empty(), "the write did not restore the bytes at {:?}", &diff[..diff.len().min(4)]);
        // both headers asked for
        if header_hit {
            let strict = Cfg { only_valid: true, ..Cfg::RO };
            let r = open(bad.clone(), strict, geo.big)?;
            ensure!(r.is_err(), "opened with a damaged header although both were asked for");
        }
        // both headers damaged
        let mut worse = dev.clone();
        for k in [0, 2] {
            strike(&mut worse, r[k].0, r[k].1, if (k == 2) == c.backup { c.header.as_ref().unwrap_or(&c.other) } else { &c.other });
        }
        let valid = |d: &Dev, k: usize| header_ok(&d.peek(r[k].0, 92));
        if !valid(&worse, 0) && !valid(&worse, 2) {
            cx.label("both headers damaged");
            ensure!(open(worse, Cfg::RO, geo.big)?.is_err(), "opened although both headers are damaged");
        }
        // intact copies open when both are asked for
        let r = open(dev.clone(), Cfg { only_valid: true, ..Cfg::RO }, geo.big)?;
        ensure!(r.is_ok(), "two intact copies cannot be opened when both are asked for: {:?}", r.err());
        Ok(())
    });
    // the copies need not be of the same age (a write with a read-only backup, or one that was
    // interrupted): the intact one counts
    let strat = || {
        (
            hist(&p()),
            proptest::collection::vec(prop_oneof![5 => op(&p()), 1 => guid().prop_map(|g| Op::SetGuid(Some(g)))], 1..6),
            any::<[bool; 2]>(),
            prop_oneof![Just((true, false)), Just((false, true)), Just((true, true))],
            (hit(), hit()),
        )
            .prop_map(|(h, more, [newer, backup], (eh, ea), (a, b))| Ages { h, more, newer, backup, header: eh.then_some(a), array: ea.then_some(b) })
    };
    ctx.explore("copies of different age", ctx.cases(40_000, 1_400_000), strat, |c, cx| {
        let Some((mut dev, _)) = written(&c.h, cx)? else { return Ok(()) };
        let mut h2 = c.h.clone();
        h2.ops.extend(c.more.iter().cloned());
        let Some((later, _)) = written(&h2, cx)? else { return Ok(()) };
        let geo = &c.h.geo;
        let (r, r2) = (regions(&dev, geo), regions(&later, geo));
        if r != r2 {
            cx.label("the entry count changed");
            return Ok(());
        }
        for k in if c.newer { [0, 1] } else { [2, 3] } {
            dev.poke(r[k].0, &later.peek(r[k].0, r[k].1 as usize));
        }
        let k = if c.backup { 2 } else { 0 };
        let mut bad = dev.clone();
        if let Some(h) = &c.header {
            strike(&mut bad, r[k].0, r[k].1, h);
        }
        if let Some(h) = &c.array {
            strike(&mut bad, r[k + 1].0, r[k + 1].1, h);
        }
        if bad.same(&dev) || raw_copy(&bad, geo, if c.backup { geo.last() } else { 1 }).is_some() {
            return Ok(());
        }
        let Some(left) = raw_copy(&bad, geo, if c.backup { 1 } else { geo.last() }) else { return Ok(()) };
        let old = Some(&left) == raw_copy(&dev, geo, if c.backup { geo.last() } else { 1 }).as_ref();
        if !old {
            cx.nt(if c.newer != c.backup { "the older copy is left" } else { "the newer copy is left" });
        }
        let want: Vec<(u32, View)> = left.entries().iter().map(|(i, e)| (*i, View::of_ref(e))).collect();
        let mut d = open(bad.clone(), Cfg::RW, geo.big)?.map_err(|e| format!("the disk cannot be opened from its other copy: {e:?}"))?;
        let got = table_view(d.partitions());
        ensure!(got == want, "the other copy's table is not what is reported: {}", describe_diff(&got, &want));
        ensure!(guid_of(d.guid()) == left.header.guid, "GUID {} of the damaged copy", d.guid());
        ensure!((d.header().first_usable, d.header().last_usable) == (left.header.first_usable, left.header.last_usable), "usable range of the damaged copy");
        if collides(&Snap::of(&d), geo) {
            return Ok(());
        }
        lib("write_inplace", || d.write_inplace())?.map_err(|e| format!("the restoring write failed: {e}"))?;
        let (a, b) = (raw_copy(d.device_ref(), geo, 1), raw_copy(d.device_ref(), geo, geo.last()));
        let (Some(a), Some(b)) = (a, b) else { return Err("the write left a damaged copy".into()) };
        for (what, x) in [("primary", &a), ("backup", &b)] {
            ensure!(x.header.guid == left.header.guid, "the {what} copy has another GUID after the write");
            ensure!(x.array == if what == "primary" { &b } else { &a }.array, "the copies differ after the write");
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ages {
    h: Hist,
    more: Vec<Op>,
    /// the primary copy is the newer one
    newer: bool,
    /// the backup gets damaged
    backup: bool,
    header: Option<Hit>,
    array: Option<Hit>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tamper {
    h: Hist,
    more: Vec<Op>,
    /// region index and damage
    hits: Vec<(u8, Hit)>,
    /// regions replaced by those of the later table
    stale: u8,
}

/// The copy at `lba` if its header and array match their checksums, whatever else they say.
fn raw_copy(d: &Dev, geo: &Geo, lba: u64) -> Option<RefCopy> {
    let lb = geo.lb();
    let b = d.peek(lba * lb, 92);
    if !header_ok(&b) {
        return None;
    }
    let h = RefHeader::parse(&b);
    let end = h.part_start.checked_mul(lb)?.checked_add(h.array_bytes())?;
    if h.size != 128 || end > d.len {
        return None;
    }
    let array = d.peek(h.part_start * lb, h.array_bytes() as usize);
    (crc32(&array) == h.crc_parts).then_some(RefCopy { header: h, array })
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("A case is a table, a later version of it, regions of the one replaced by those of the other, and damage to any of the four regions. Headers and arrays must be accepted exactly if the bytes match their CRCs, and an opened disk must show a table whose copy is intact. Non-trivial: the bytes differ from those of a valid disk.");
    let p = || {
        let p = builder();
        p
    };
    let strat = || {
        (
            hist(&p()),
            proptest::collection::vec(op(&p()), 0..4),
            proptest::collection::vec((0u8..4, hit()), 0..4),
            prop_oneof![2 => Just(0u8), 1 => 0u8..16],
        )
            .prop_map(|(h, more, hits, stale)| Tamper { h, more, hits, stale })
    };
    ctx.explore("tampering", ctx.cases(60_000, 2_100_000), strat, |c, cx| {
        let Some((dev, _)) = written(&c.h, cx)? else { return Ok(()) };
        let geo = &c.h.geo;
        let lb = geo.lb();
        let r = regions(&dev, geo);
        let mut bad = dev.clone();
        if c.stale > 0 && !c.more.is_empty() {
            let mut h2 = c.h.clone();
            h2.ops.extend(c.more.iter().cloned());
            if let Some((later, _)) = written(&h2, cx)? {
                let r2 = regions(&later, geo);
                for k in 0..4 {
                    if c.stale >> k & 1 == 1 && r2[k] == r[k] {
                        bad.poke(r[k].0, &later.peek(r[k].0, r[k].1 as usize));
                    }
                }
                cx.label("regions of another version of the table");
            }
        }
        for (k, h) in &c.hits {
            let (o, l) = r[*k as usize % 4];
            strike(&mut bad, o, l, h);
        }
        if !bad.same(&dev) {
            cx.nt("differs from a valid disk");
        }
        // the header readers
        let ok = header_ok(&bad.peek(lb, 92));
        let got = lib("read_header_from_arbitrary_device", || {
            header::read_header_from_arbitrary_device(&mut bad.clone(), geo.lbs())
        })?;
        ensure!(got.is_ok() == ok, "primary header whose CRC {} was {}", if ok { "matches" } else { "does not match" }, if got.is_ok() { "accepted" } else { "rejected" });
        if !ok {
            cx.label("bad primary header");
        }
        // the array reader, with the original header and with the damaged device's
        for k in [0, 2] {
            let b = dev.peek(r[k].0, 92);
            let h = RefHeader::parse(&b);
            let good = crc32(&bad.peek(h.part_start * lb, h.array_bytes() as usize)) == h.crc_parts;
            if !good {
                cx.label("bad array");
            }
            let gh = as_header(&h);
            let got = lib("file_read_partitions", || gpt::partition::file_read_partitions(&mut bad.clone(), &gh, geo.lbs()))?;
            ensure!(got.is_ok() == good, "entry array whose CRC {} was {}", if good { "matches" } else { "does not match" }, if got.is_ok() { "accepted" } else { "rejected" });
        }
        // opening
        let last = geo.last();
        let valid: Vec<RefCopy> = [1, last].into_iter().filter_map(|l| raw_copy(&bad, geo, l)).collect();
        for cfg in [Cfg::RO, Cfg { only_valid: true, ..Cfg::RO }] {
            match open(bad.clone(), cfg, geo.big)? {
                Err(_) => {
                    cx.label("refused");
                }
                Ok(d) => {
                    cx.label("opened");
                    let view = table_view(d.partitions());
                    let fits = valid.iter().any(|c| {
                        c.entries().iter().map(|(i, e)| (*i, View::of_ref(e))).collect::<Vec<_>>() == view && c.header.guid == guid_of(d.guid())
                    });
                    ensure!(fits, "a table was opened that no intact copy on the device holds");
                    for (what, lba, h) in [("primary", 1, d.primary_header()), ("backup", last, d.backup_header())] {
                        if let Ok(h) = h {
                            let b = bad.peek(lba * lb, 92);
                            ensure!(header_ok(&b), "the damaged {what} header is reported as valid");
                            ensure!(as_header(&RefHeader::parse(&b)) == *h, "the {what} header is reported with other fields than stored");
                        }
                    }
                    if cfg.only_valid {
                        ensure!(header_ok(&bad.peek(lb, 92)) && header_ok(&bad.peek(last * lb, 92)), "opened although a header is damaged and both were asked for");
                    }
                }
            }
        }
        Ok(())
    });
    // every single bit of a header and of used and unused entries
    let items: Vec<(bool, u8, u32)> = [false, true]
        .into_iter()
        .flat_map(|big| {
            (0..4u8).flat_map(move |r| {
                let n = if r % 2 == 0 { 92 * 8 } else { 128 * 128 * 8 };
                let step = if r % 2 == 0 { 1 } else { 13 };
                (0..n).step_by(step).map(move |b| (big, r, b))
            })
        })
        .collect();
    ctx.enumerate("single bits", items, |(big, region, bit), cx| {
        let geo = Geo { big: *big, blocks: min_blocks(*big) + 40, tail: 0, fill: 3, old: 0 };
        let f = Foreign {
            guid: G([0x5a; 16]),
            num: 128,
            gap_p: 0,
            gap_u: 0,
            gap_l: 0,
            gap_b: 0,
            parts: (0..3).map(|i| FPart { slot: i * 3, gap: 1, len: 4, ty: G([3; 16]), guid: G([i as u8 + 1; 16]), flags: 5, name: "bit".into(), unused: false }).collect(),
            wild: vec![],
            descending: false,
            stale: None,
        };
        let mut d = geo.dev();
        let t = f.install(&geo, &mut d);
        let r = regions(&d, &geo)[*region as usize];
        strike(&mut d, r.0, r.1, &Hit::Flip { at: (bit / 8) as u16, mask: 1 << (bit % 8) });
        cx.nt("one bit flipped");
        let want: Vec<(u32, View)> = t.entries.iter().map(|(i, e)| (*i, View::of_ref(e))).collect();
        match open(d.clone(), Cfg::RO, *big)? {
            Err(_) => {}
            Ok(disk) => {
                ensure!(table_view(disk.partitions()) == want && guid_of(disk.guid()) == t.prim.guid, "bit {bit} of region {region} changes the table that is opened");
                match region {
                    0 => ensure!(disk.primary_header().is_err(), "primary header with bit {bit} flipped is reported as valid"),
                    2 => ensure!(disk.backup_header().is_err(), "backup header with bit {bit} flipped is reported as valid"),
                    _ => {}
                }
            }
        }
        if region % 2 == 1 {
            let h = if *region == 1 { &t.prim } else { &t.back };
            let sealed = RefHeader::parse(&d.peek(h.my_lba * geo.lb(), 92));
            let r = lib("file_read_partitions", || gpt::partition::file_read_partitions(&mut d.clone(), &as_header(&sealed), geo.lbs()))?;
            ensure!(r.is_err(), "array with bit {bit} flipped was accepted");
        }
        Ok(())
    });
}

pub fn as_header(h: &RefHeader) -> header::Header {
    header::Header {
        signature: "EFI PART".into(),
        revision: ((h.revision >> 16) as u16, h.revision as u16),
        header_size_le: h.header_size,
        crc32: h.crc,
        reserved: h.reserved,
        current_lba: h.my_lba,
        backup_lba: h.alt_lba,
        first_usable: h.first_usable,
        last_usable: h.last_usable,
        disk_guid: uuid::Uuid::from_bytes(h.guid),
        part_start: h.part_start,
        num_parts: h.num,
        part_size: h.size,
        crc32_parts: h.crc_parts,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crash {
    h: Hist,
    then: Vec<Op>,
    ro_backup: bool,
    /// which of the unflushed block writes reached the device
    masks: Vec<u64>,
}

/// One 512-byte piece of a write.
struct Piece {
    off: u64,
    data: Vec<u8>,
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("A case is a written table (two valid copies), a sequence of edits, the recorded writes and flushes of the next write, and random subsets. For every prefix of the recorded operations: everything before its last flush, plus all / none / all but one / only the last / random subsets of the later 512-byte pieces. Every such device is opened. Non-trivial: old and new tables differ. Each crash state counts as an evaluation in the class counts only.");
    let p = || {
        let p = builder();
        p
    };
    let strat = || {
        let q = Profile { w: [10, 6, 4, 1, 2, 6, 0, 0, 0], ..p() };
        (hist(&p()), proptest::collection::vec(op(&q), 0..4), proptest::bool::weighted(0.15), proptest::collection::vec(any::<u64>(), 1..4))
            .prop_map(|(h, then, ro_backup, masks)| Crash { h, then, ro_backup, masks })
    };
    ctx.explore("crash points", ctx.cases(8_000, 280_000), strat, |c, cx| {
        let Some((dev, old)) = written(&c.h, cx)? else { return Ok(()) };
        let geo = &c.h.geo;
        let cfg = Cfg { ro_backup: c.ro_backup, ..c.h.cfg };
        let mut d = open(dev.clone(), cfg, geo.big)?.map_err(|e| format!("opening the written table: {e:?}"))?;
        for o in &c.then {
            let s = Snap::of(&d);
            let cop = concrete(o, &s, geo, cfg, &d)?;
            apply(&mut d, &cop)?;
        }
        let new = Snap::of(&d);
        d.device_mut().journal = Some(vec![]);
        let r = lib("write_inplace", || d.write_inplace())?;
        if let Err(e) = r {
            return Err(format!("write failed: {e}"));
        }
        let journal = d.device_ref().journal.clone().unwrap();
        let ov = (old.guid, written_view(&old));
        let nv = (new.guid, written_view(&new));
        if ov != nv {
            cx.nt("table changed");
        }
        if new.num() > old.num() {
            cx.label("table grown");
        }
        if c.ro_backup {
            cx.label("backup read-only");
        }
        let check = |dev: Dev, done: bool, what: &str| -> Result<(), String> {
            let d = open(dev, Cfg::RO, geo.big)?.map_err(|e| format!("{what}: the disk cannot be opened any more: {e:?}"))?;
            let v = (*d.guid(), table_view(d.partitions()));
            if done {
                ensure!(v == nv, "{what}: the new table is not found");
            } else {
                ensure!(v == nv || v == ov, "{what}: neither the old nor the new table is found");
            }
            Ok(())
        };
        let mut base = dev.clone();
        base.journal = None;
        let mut pend: Vec<Piece> = vec![];
        let total = journal.len();
        let mut states = 0u64;
        for (i, ev) in journal.iter().enumerate() {
            match ev {
                Ev::Flush => {
                    for q in pend.drain(..) {
                        base.poke(q.off, &q.data);
                    }
                    check(base.clone(), false, &format!("crash right after device operation {i} of {total} (flush)"))?;
                    states += 1;
                }
                Ev::Write { off, data } => {
                    let before = pend.len();
                    let mut o = *off;
                    let mut rest = &data[..];
                    while !rest.is_empty() {
                        let n = ((512 - o % 512) as usize).min(rest.len());
                        pend.push(Piece { off: o, data: rest[..n].to_vec() });
                        o += n as u64;
                        rest = &rest[n..];
                    }
                    // long runs of entry writes look alike: sample their inner prefixes
                    let dense = total <= 24 || i < 4 || i + 8 > total || i % 7 == 0;
                    if !dense {
                        continue;
                    }
                    let n = pend.len();
                    let mut subsets: Vec<(String, Vec<bool>)> = vec![
                        ("all".into(), vec![true; n]),
                        ("only the last".into(), (0..n).map(|k| k >= before).collect()),
                        ("only the last piece".into(), (0..n).map(|k| k + 1 == n).collect()),
                        ("all but the first".into(), (0..n).map(|k| k != 0).collect()),
                        ("only the first".into(), (0..n).map(|k| k == 0).collect()),
                    ];
                    for (j, m) in c.masks.iter().enumerate() {
                        let mut x = m ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                        let v = (0..n)
                            .map(|_| {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                x & 0x100 != 0
                            })
                            .collect();
                        subsets.push((format!("subset {j}"), v));
                    }
                    for (name, keep) in subsets {
                        let mut s = base.clone();
                        for (q, k) in pend.iter().zip(&keep) {
                            if *k {
                                s.poke(q.off, &q.data);
                            }
                        }
                        check(s, false, &format!("crash after device operation {i} of {total}, {name} of {n} unflushed 512-byte pieces written"))?;
                        states += 1;
                    }
                }
            }
        }
        // the write has returned: whatever is unflushed may still be lost
        check(base.clone(), true, "after the write returned, unflushed writes lost")?;
        check(d.take_device(), true, "after the write returned")?;
        CRASH_STATES.fetch_add(states + 2, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    });
    ctx.rule(&format!("Crash states opened in this run: {}.", CRASH_STATES.load(std::sync::atomic::Ordering::Relaxed)));
    ctx.assume("512-byte device writes are atomic; a flush makes everything before it durable; both copies are valid and agree before the write");
}

static CRASH_STATES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    h: Hist,
    then: Vec<Op>,
    persistent: bool,
    partial: u16,
    ro_backup: bool,
    /// damage before opening, to reach the fallback paths
    damage: Option<(u8, Hit)>,
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("A case is a written table, edits, and the fault kind; the write (and the open) is repeated with every one of its device operations failing in turn. Non-trivial: at least 10 fault positions were hit and the table had changed. The classes count cases; every case covers all its fault positions.");
    let p = || {
        let p = builder();
        p
    };
    let strat = || {
        let q = Profile { w: [10, 6, 4, 1, 2, 6, 0, 0, 0], ..p() };
        (
            hist(&p()),
            proptest::collection::vec(op(&q), 0..4),
            any::<bool>(),
            prop_oneof![Just(0u16), any::<u16>()],
            proptest::bool::weighted(0.2),
            proptest::option::weighted(0.3, (0u8..4, hit())),
        )
            .prop_map(|(h, then, persistent, partial, ro_backup, damage)| FaultCase { h, then, persistent, partial, ro_backup, damage })
    };
    ctx.explore("faults", ctx.cases(8_000, 280_000), strat, |c, cx| {
        let Some((mut dev, s)) = written(&c.h, cx)? else { return Ok(()) };
        let geo = &c.h.geo;
        if let Some((k, h)) = &c.damage {
            let r = regions(&dev, geo)[*k as usize % 4];
            strike(&mut dev, r.0, r.1, h);
            cx.label("one copy damaged");
        }
        let cfg = Cfg { ro_backup: c.ro_backup, ..c.h.cfg };
        let want = (s.guid, written_view(&s));
        // faults while opening
        dev.arm(None);
        let mut d = open(dev.clone(), cfg, geo.big)?.map_err(|e| format!("opening: {e:?}"))?;
        let n_open = d.device_ref().n_ops;
        let mut hits = 0;
        for at in 0..n_open {
            // an open reads the entries one by one; faults deep inside that loop look alike
            if n_open > 60 && at > 20 && at + 20 < n_open && at % 11 != 0 {
                continue;
            }
            let mut f = dev.clone();
            f.arm(Some(Fault { at, persistent: c.persistent, partial: 0, kind: None }));
            if let Ok(o) = open(f, cfg, geo.big)? {
                let v = (*o.guid(), table_view(o.partitions()));
                ensure!(v == want, "with device operation {at} of the open failing, a different table was opened");
            }
            hits += 1;
        }
        for o in &c.then {
            let s = Snap::of(&d);
            let cop = concrete(o, &s, geo, cfg, &d)?;
            apply(&mut d, &cop)?;
        }
        let new = Snap::of(&d);
        // the fault-free write
        let mut clean = d.clone();
        clean.device_mut().arm(None);
        clean.device_mut().kinds = Some(vec![]);
        lib("write_inplace", || clean.write_inplace())?.map_err(|e| format!("fault-free write failed: {e}"))?;
        let n = clean.device_ref().n_ops;
        let kinds = clean.device_ref().kinds.clone().unwrap_or_default();
        if (new.guid, written_view(&new)) != want && n > 10 {
            cx.nt("table changed, all fault positions tried");
        }
        for at in 0..n {
            let kind = kinds.get(at as usize).copied();
            let mut f = d.clone();
            f.device_mut().arm(Some(Fault { at, persistent: c.persistent, partial: c.partial as u32, kind: None }));
            let out = apply(&mut f, &COp::Write)?;
            hits += f.device_ref().fault_hits;
            let hard = f.device_ref().hard_fault;
            if out.ok() {
                ensure!(!hard, "the write reported success although device operation {at} of {n} ({kind:?}) failed");
                let diff = f.device_ref().diff(clean.device_ref());
                ensure!(diff.is_empty(), "the write reported success with device operation {at} of {n} ({kind:?}) failing, but bytes {:?} differ from a fault-free write", &diff[..diff.len().min(4)]);
            } else {
                ensure!(Snap::of(&f).parts == new.parts && Snap::of(&f).guid == new.guid, "a failed write changed the table in memory");
            }
            // repeated on the healthy device
            f.device_mut().disarm();
            let again = apply(&mut f, &COp::Write)?;
            ensure!(again.ok(), "after device operation {at} ({kind:?}) failed, repeating the write gave {again:?}");
            let diff = f.device_ref().diff(clean.device_ref());
            ensure!(diff.is_empty(), "after device operation {at} ({kind:?}) failed, the repeated write left bytes {:?} different from a fault-free write", &diff[..diff.len().min(4)]);
        }
        if kinds.contains(&OpKind::Flush) {
            cx.label("write flushes");
        }
        // faults of flush in the consuming variant as well
        if let Some(at) = kinds.iter().rposition(|k| *k == OpKind::Flush) {
            let mut f = d.clone();
            f.device_mut().arm(Some(Fault { at: at as u64, persistent: true, partial: 0, kind: None }));
            let r = lib("write", || f.write())?;
            ensure!(r.is_err(), "write() reported success although the last flush failed");
        }
        FAULTS.fetch_add(hits, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    });
    ctx.rule(&format!("Faults injected in this run: {}.", FAULTS.load(std::sync::atomic::Ordering::Relaxed)));
}

static FAULTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chunky {
    h: Hist,
    chunks: Vec<u32>,
    pos: u64,
    boot: u8,
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("A case is a history run twice, on a plain device and on one that follows a cyclic pattern of short and interrupted transfers and starts at another stream position; results, states and bytes are compared after every operation (partition GUIDs, which are random, are set from the case). The MBR and header functions follow. Non-trivial: the pattern splits or interrupts and a table was written.");
    let p = || {
        let mut p = builder();
        p.w = [8, 5, 3, 0, 1, 5, 1, 6, 3];
        p.max_ops = 8;
        p
    };
    let strat = || {
        (
            hist(&p()),
            prop_oneof![
                2 => proptest::collection::vec(prop_oneof![2 => Just(0u32), 4 => 1u32..200, 2 => 1u32..5, 1 => 500u32..20_000], 1..7),
                1 => Just(vec![1]),
                1 => (1u32..700).prop_map(|n| vec![n]),
                1 => Just(vec![0, 1_000_000]),
            ],
            prop_oneof![2 => Just(0u64), 1 => any::<u64>().prop_map(|v| v >> 2), 1 => 0u64..40_000],
            any::<u8>(),
        )
            .prop_map(|(h, mut chunks, pos, boot)| {
                if chunks.iter().all(|c| *c == 0) {
                    chunks.push(3);
                }
                Chunky { h, chunks, pos, boot }
            })
    };
    ctx.explore("split transfers", ctx.cases(20_000, 700_000), strat, |c, cx| {
        let h = &c.h;
        let geo = &h.geo;
        let mut a = geo.dev();
        if let Start::Foreign(f) = &h.start {
            f.install(geo, &mut a);
        }
        let mut b = a.clone();
        b.chunks = c.chunks.clone();
        b.pos = c.pos;
        let guid = match &h.start {
            Start::New(Some(g)) => g.uuid(),
            _ => uuid::Uuid::from_u128(77),
        };
        let mk = |d: Dev| match &h.start {
            Start::New(_) => create(d, h.cfg, geo.big, Some(guid)),
            Start::Foreign(_) => open(d, h.cfg, geo.big),
        };
        let (ra, rb) = (mk(a)?, mk(b)?);
        let (mut a, mut b): (GptDisk<Dev>, GptDisk<Dev>) = match (ra, rb) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(x), Err(y)) => {
                ensure!(x == y, "start gave {x:?} on the plain device and {y:?} on the splitting one");
                return Ok(());
            }
            (x, y) => return Err(format!("start gave {:?} on the plain device and {:?} on the splitting one", x.err(), y.err())),
        };
        let mut wrote = false;
        for (i, o) in h.ops.iter().enumerate() {
            let s = Snap::of(&a);
            ensure!(s == Snap::of(&b), "states differ before operation {i}");
            let cop = concrete(o, &s, geo, h.cfg, &a)?;
            let (x, y) = match &cop {
                COp::Reopen { commit, .. } => {
                    let go = |d: GptDisk<Dev>| -> Result<Result<GptDisk<Dev>, E>, String> {
                        let dev = if *commit {
                            match lib("write", || d.write())? {
                                Ok(d) => d,
                                Err(e) => return Ok(Err(E::from(&e))),
                            }
                        } else {
                            d.take_device()
                        };
                        open(dev, h.cfg, geo.big)
                    };
                    match (go(a)?, go(b)?) {
                        (Ok(x), Ok(y)) => {
                            wrote |= *commit;
                            (a, b) = (x, y);
                            (Out::Done, Out::Done)
                        }
                        (Err(x), Err(y)) => {
                            ensure!(x == y, "operation {i} gave {x:?} and {y:?}");
                            return Ok(());
                        }
                        (x, y) => return Err(format!("operation {i} gave {:?} on the plain device and {:?} on the splitting one", x.err(), y.err())),
                    }
                }
                COp::SetGuid(None) => continue,
                op => {
                    let (x, y) = (apply(&mut a, op)?, apply(&mut b, op)?);
                    // random partition GUIDs: take those of the first disk
                    if let (Out::Id(i), Out::Id(j)) = (&x, &y) {
                        if i == j {
                            let (m, n) = (a.partitions().clone(), b.partitions().clone());
                            let mut n2 = n;
                            if let (Some(p), Some(q)) = (m.get(i), n2.get_mut(i)) {
                                q.part_guid = p.part_guid;
                            }
                            let _ = lib("update_partitions", || (a.update_partitions(m), b.update_partitions(n2)))?;
                        }
                    }
                    wrote |= matches!(op, COp::Write) && x.ok();
                    (x, y)
                }
            };
            ensure!(x == y, "operation {i} ({}) gave {y:?} on the splitting device", brief(&cop, &x));
            let diff = a.device_ref().diff(b.device_ref());
            ensure!(diff.is_empty(), "operation {i} ({}) left other bytes at {:?} on the splitting device", brief(&cop, &x), &diff[..diff.len().min(4)]);
            ensure!(Snap::of(&a) == Snap::of(&b), "operation {i} ({}) left another state on the splitting device", brief(&cop, &x));
        }
        if wrote {
            cx.nt("table written in pieces");
        }
        if c.chunks.contains(&0) {
            cx.label("with interruptions");
        }
        // MBR and header functions
        let (mut a, mut b) = (a.take_device(), b.take_device());
        let boot = [c.boot; 440];
        let steps: [(&str, fn(&mut Dev, &[u8; 440], gpt::disk::LogicalBlockSize) -> String); 8] = [
            ("write_bootcode", |d, b, _| format!("{:?}", mbr::write_bootcode(d, b).map_err(|e| e.kind()))),
            ("write_disk_signature", |d, b, _| format!("{:?}", mbr::write_disk_signature(d, &[b[0], 2, 3, 4]).map_err(|e| e.kind()))),
            ("update_conservative", |d, _, _| format!("{:?}", ProtectiveMBR::with_lb_size(77).update_conservative(d))),
            ("read_bootcode", |d, _, _| format!("{:?}", mbr::read_bootcode(d).map_err(|e| e.kind()))),
            ("read_disk_signature", |d, _, _| format!("{:?}", mbr::read_disk_signature(d).map_err(|e| e.kind()))),
            ("from_disk", |d, _, l| format!("{:?}", ProtectiveMBR::from_disk(d, l).map(|m| m.to_bytes()))),
            ("overwrite_lba0", |d, _, _| format!("{:?}", ProtectiveMBR::with_lb_size(78).overwrite_lba0(d))),
            ("read_header", |d, _, l| format!("{:?}", header::read_header_from_arbitrary_device(d, l))),
        ];
        for (what, f) in steps {
            let (pa, pb) = (a.pos, b.pos);
            let (x, y) = (lib(what, || f(&mut a, &boot, geo.lbs()))?, lib(what, || f(&mut b, &boot, geo.lbs()))?);
            ensure!(x == y, "{what} gave {y} on the splitting device instead of {x}");
            ensure!(a.same(&b), "{what} left other bytes on the splitting device");
            ensure!((a.pos, b.pos) == (pa, pb), "{what} moved the stream position");
        }
        let _ = BTreeMap::<u8, u8>::new();
        Ok(())
    });
    let _ = refgpt::le16;
}
