//! What is told to the caller: C33 (errors name the cause) and C34 (printed forms).

use crate::dev::{Dev, Fault};
use crate::gen::*;
use crate::hist::*;
use crate::props::edits::{first_fit, fits, size_lba};
use crate::props::faults::{as_header, written};
use crate::props::hostile::{image, Image};
use crate::refgpt::{crc32, guid_text, header_ok, RefHeader};
use crate::runner::{lib, Ctx, Cx};
use gpt::disk::LogicalBlockSize;
use gpt::header::{self, HeaderError};
use gpt::mbr::{self, MBRError, PartRecord, ProtectiveMBR};
use gpt::partition::{file_read_partitions, Partition, PartitionAttributes};
use gpt::partition_types::{OperatingSystem, Type};
use gpt::GptError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind};
use std::str::FromStr;

/// An error of the library, with the kind of an I/O error.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Err_ {
    Io(ErrorKind),
    Head(&'static str),
    HeadIo(ErrorKind),
    Other(E),
}

fn head_name(e: &HeaderError) -> Err_ {
    match e {
        HeaderError::Io(e) => Err_::HeadIo(e.kind()),
        HeaderError::InvalidGptSignature => Err_::Head("InvalidGptSignature"),
        HeaderError::InvalidCRC32Checksum => Err_::Head("InvalidCRC32Checksum"),
        HeaderError::MissingBackupLba => Err_::Head("MissingBackupLba"),
        HeaderError::BackupLbaToEarly => Err_::Head("BackupLbaToEarly"),
        HeaderError::WritingToWrongLba => Err_::Head("WritingToWrongLba"),
        HeaderError::Overflow(_) => Err_::Head("Overflow"),
        HeaderError::ToSmallForBackup => Err_::Head("ToSmallForBackup"),
        _ => Err_::Head("another"),
    }
}

fn name(e: &GptError) -> Err_ {
    match e {
        GptError::Io(e) => Err_::Io(e.kind()),
        GptError::Header(h) => head_name(h),
        e => Err_::Other(E::from(e)),
    }
}

fn mbr_name(e: &MBRError) -> Err_ {
    match e {
        MBRError::Io(e) => Err_::Io(e.kind()),
        e => Err_::Other(E::Other(format!("{e:?}"))),
    }
}

/// What is wrong with the header at this block, by the bytes.
fn fault_of(d: &Dev, at: u64, lb: u64) -> Option<Err_> {
    let o = at * lb;
    if o + 92 > d.len {
        return Some(Err_::HeadIo(ErrorKind::UnexpectedEof));
    }
    let b = d.peek(o, 92);
    if &b[..8] != b"EFI PART" {
        Some(Err_::Head("InvalidGptSignature"))
    } else if !header_ok(&b) {
        Some(Err_::Head("InvalidCRC32Checksum"))
    } else {
        None
    }
}

fn backup_fault(d: &Dev, lb: u64) -> Option<Err_> {
    if d.len < 3 * lb {
        Some(Err_::Head("ToSmallForBackup"))
    } else {
        fault_of(d, d.len / lb - 1, lb)
    }
}

/// Can the array of the header at this block be accepted?
fn array_ok(d: &Dev, at: u64, lb: u64) -> bool {
    let h = RefHeader::parse(&d.peek(at * lb, 92));
    let (o, n) = (h.part_start as u128 * lb as u128, h.array_bytes() as u128);
    h.size == 128 && o + n <= d.len as u128 && (n > 1 << 22 || crc32(&d.peek(o as u64, n as usize)) == h.crc_parts)
}

/// How the array of the header at this block fails to be read.
fn array_error(d: &Dev, at: u64, big: bool) -> Result<Option<Err_>, String> {
    let lb: u64 = if big { 4096 } else { 512 };
    if array_ok(d, at, lb) {
        return Ok(None);
    }
    let h = as_header(&RefHeader::parse(&d.peek(at * lb, 92)));
    let r = lib("file_read_partitions", || file_read_partitions(&mut d.clone(), &h, lbs(big)))?;
    Ok(r.err().map(|e| Err_::HeadIo(e.kind())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpenCase {
    image: Image,
    cfg: Cfg,
    big: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KindCase {
    h: Hist,
    then: Vec<Op>,
    what: u8,
    at: u16,
    persistent: bool,
    kind: u8,
}

/// Kinds of errors a device reports; "interrupted" is retried by the caller.
const KINDS: [ErrorKind; 12] = [
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::ConnectionReset,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Misuse {
    SizeZero { al: Al },
    LenZero { id: Id, first: u64 },
    IdZero { first: u64, len: u16 },
    MapZero { keep: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MisuseCase {
    h: Hist,
    m: Misuse,
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("A case is (a) a history of edits and writes, every refusal of which is compared with what really stands in its way; (b) a device image that is opened, the errors of the open and of the header accessors being compared with what is wrong with the bytes; (c) an operation with one or all further device operations failing with a certain kind of error; (d) arguments the documentation forbids. Non-trivial: something was refused.");
    let p = || {
        let mut p = Profile::general();
        p.start = prop_oneof![3 => start_new(), 2 => start_foreign(false, false)].boxed();
        p.cfg = (any::<bool>(), proptest::bool::weighted(0.85))
            .prop_map(|(change, writable)| Cfg { writable, only_valid: false, ro_backup: false, change })
            .boxed();
        p.w = [8, 12, 2, 0, 1, 8, 0, 3, 1];
        p
    };
    ctx.explore("edits", ctx.cases(120_000, 4_200_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut edit_error).map(|_| ())
    });
    let opens = || {
        (
            image(),
            (any::<bool>(), proptest::bool::weighted(0.3), any::<bool>()).prop_map(|(change, only_valid, ro)| Cfg {
                writable: true,
                only_valid,
                ro_backup: ro,
                change,
            }),
            any::<bool>(),
        )
            .prop_map(|(image, cfg, big)| OpenCase { image, cfg, big })
    };
    ctx.explore("opening", ctx.cases(60_000, 2_100_000), opens, open_error);
    let kinds = || {
        let mut p = Profile::general();
        p.geo = geo_small();
        p.max_ops = 4;
        let q = Profile { w: [8, 6, 4, 1, 2, 6, 0, 0, 0], ..p.clone() };
        (
            hist(&p),
            proptest::collection::vec(op(&q), 1..3),
            any::<u8>(),
            prop_oneof![4 => 0u16..12, 2 => 0u16..300],
            any::<bool>(),
            any::<u8>(),
        )
            .prop_map(|(h, then, what, at, persistent, kind)| KindCase { h, then, what, at, persistent, kind })
    };
    ctx.explore("device errors", ctx.cases(60_000, 2_100_000), kinds, device_error);
    let misuse = || {
        let mut p = Profile::general();
        p.max_ops = 5;
        (
            hist(&p),
            prop_oneof![
                align().prop_map(|al| Misuse::SizeZero { al }),
                (id(), prop_oneof![0u64..3000, edge64()]).prop_map(|(id, first)| Misuse::LenZero { id, first }),
                (0u64..3000, any::<u16>()).prop_map(|(first, len)| Misuse::IdZero { first, len }),
                any::<bool>().prop_map(|keep| Misuse::MapZero { keep }),
            ],
        )
            .prop_map(|(h, m)| MisuseCase { h, m })
    };
    ctx.explore("forbidden arguments", ctx.cases(20_000, 700_000), misuse, forbidden);
    ctx.assume("where several causes apply, any of them may be named; messages inside I/O errors are not judged, only their kind");
}

/// Could a table grown to this many entries be laid out?
fn layout(s: &Snap, geo: &Geo, num: u32) -> bool {
    let h = s.header();
    let num = num.max(128).max(h.num_parts) as u128;
    let a = (num * h.part_size as u128).div_ceil(geo.lb() as u128);
    let first = (h.first_usable as u128).max(h.current_lba.min(h.backup_lba) as u128 + 1 + a);
    let bak = geo.last();
    let Some(max) = (bak as u128).checked_sub(a + 1) else { return false };
    let last = if h.current_lba.max(h.backup_lba) == bak && h.last_usable != 0 { max.min(h.last_usable as u128) } else { max };
    first <= last
}

fn edit_error(st: &mut Step, cx: &mut Cx) -> Result<(), String> {
    let Some(s) = st.before else { return Ok(()) };
    if let (COp::Write, false) = (st.op, st.cfg.writable) {
        ensure!(*st.out == Out::Err(E::ReadOnly), "a write to a disk that is not writable gave {:?}", st.out);
        cx.nt("refused: read-only");
        return Ok(());
    }
    let Out::Err(e) = st.out else { return Ok(()) };
    if let COp::Reopen { commit, .. } = st.op {
        if *commit && !st.cfg.writable {
            ensure!(*e == E::ReadOnly, "a write to a disk that is not writable gave {e:?}");
        }
        return Ok(());
    }
    let used_id = |id: &u32| s.parts.get(id).is_some_and(used);
    // how many entries are needed, and whether there is room for the partition
    let (need, id_free, room) = match st.op {
        COp::Add { size, align, .. } => {
            let low = (1..).find(|i| !used_id(i)).unwrap();
            (low, true, first_fit(&s.free(), size_lba(*size, st.geo.lb()), *align).is_some())
        }
        COp::AddAt { id, first, len, .. } => (*id, !used_id(id), fits(&s.free(), *first, *len)),
        COp::Map(m) => (m.keys().next_back().copied().unwrap_or(0), true, true),
        COp::Write => {
            let n = s.used().count();
            ensure!(*e == E::OverflowCount && n > s.num() as usize, "a write without faults gave {e:?} ({n} of {} entries used)", s.num());
            return Ok(());
        }
        o => return Err(format!("{o:?} gave {e:?}")),
    };
    let grows = need.max(128) > s.num();
    match e {
        E::IdUsed => {
            cx.nt("refused: id in use");
            ensure!(!id_free, "reported the id as in use, but it is not");
        }
        E::NoSpace => {
            cx.nt("refused: no space");
            ensure!(!room, "reported a lack of space, but the blocks are free");
        }
        E::CountWouldChange => {
            cx.nt("refused: entry count");
            ensure!(grows && !st.cfg.change, "reported that the entry count would change; {need} of {} needed, change allowed: {}", s.num(), st.cfg.change);
        }
        E::Header(x) if x == "BackupLbaToEarly" || x == "MissingBackupLba" => {
            cx.nt("refused: grown table does not fit");
            ensure!(!layout(s, st.geo, need), "reported {x}, but a table of {} entries fits", need.max(s.num()));
        }
        e => return Err(format!("gave {e:?}, which does not apply")),
    }
    Ok(())
}

fn open_error(c: &OpenCase, cx: &mut Cx) -> Result<(), String> {
    let d = c.image.device(cx)?;
    let big = c.image.big(c.big);
    let lb: u64 = if big { 4096 } else { 512 };
    let pf = fault_of(&d, 1, lb);
    let bf = backup_fault(&d, lb);
    let r = lib("read_header_from_arbitrary_device", || header::read_header_from_arbitrary_device(&mut d.clone(), lbs(big)))?;
    let got = r.as_ref().err().map(head_name);
    ensure!(got == pf, "reading the primary header gave {got:?} instead of {pf:?}");
    if got.is_some() {
        cx.nt("header refused");
    }
    let last = (d.len / lb).max(1) - 1;
    let r = lib("open_from_device", || c.cfg.gpt(big).open_from_device(d.clone()))?;
    match r {
        Err(e) => {
            cx.nt("not opened");
            let e = name(&e);
            match &e {
                Err_::Io(_) => {
                    // an array is to blame
                    let bad = (pf.is_none() && !array_ok(&d, 1, lb)) || (bf.is_none() && !array_ok(&d, last, lb));
                    ensure!(bad, "opening gave {e:?} although no array is damaged");
                    cx.label("not opened: array");
                }
                e => {
                    ensure!(
                        Some(e) == pf.as_ref() || Some(e) == bf.as_ref(),
                        "opening gave {e:?}; the primary header has {pf:?}, the backup {bf:?}"
                    );
                    ensure!(c.cfg.only_valid || (pf.is_some() && bf.is_some()), "opening gave {e:?} although a header is valid");
                    cx.label("not opened: headers");
                }
            }
        }
        Ok(g) => {
            cx.label("opened");
            for (copy, what) in [(g.clone(), "the clone's "), (g, "the ")] {
                let p = lib("primary_header", || copy.primary_header().err().map(|e| head_name(&e)))?;
                let b = lib("backup_header", || copy.backup_header().err().map(|e| head_name(&e)))?;
                // a valid primary header whose array is damaged
                ensure!(
                    p == pf || (pf.is_none() && p.is_some() && p == array_error(&d, 1, big)?),
                    "{what}primary header is reported with {p:?} instead of {pf:?}"
                );
                ensure!(
                    b == bf || (bf.is_none() && b.is_some() && b == array_error(&d, last, big)?),
                    "{what}backup header is reported with {b:?} instead of {bf:?}"
                );
                if p.is_some() || b.is_some() {
                    cx.nt("opened with a damaged copy");
                }
            }
        }
    }
    Ok(())
}

fn device_error(c: &KindCase, cx: &mut Cx) -> Result<(), String> {
    let geo = &c.h.geo;
    let lb = geo.lbs();
    let Some((mut dev, _)) = written(&c.h, cx)? else { return Ok(()) };
    dev.arm(None);
    let cfg = Cfg { writable: true, ..c.h.cfg };
    let kind = KINDS[c.kind as usize % KINDS.len()];
    let mut g = open(dev.clone(), cfg, geo.big)?.map_err(|e| format!("opening: {e:?}"))?;
    for o in c.then.iter().skip(1) {
        let cop = concrete(o, &Snap::of(&g), geo, cfg, &g)?;
        apply(&mut g, &cop)?;
    }
    let edit = concrete(&c.then[0], &Snap::of(&g), geo, cfg, &g)?;
    let h = dev.peek(geo.lb(), 92);
    let h = as_header(&RefHeader::parse(&h));
    // the operation, as a function of the device
    let act = |d: Dev| -> Result<(Result<(), Err_>, u64, u64), String> {
        let out = std::cell::Cell::new((0, 0));
        let on = |d: &mut Dev, f: &mut dyn FnMut(&mut Dev) -> Result<(), Err_>| {
            let r = f(d);
            out.set((d.n_ops, d.fault_hits));
            r
        };
        let mut dv = d.clone();
        let r = lib("an operation on a failing device", || match c.what % 12 {
            0 => {
                // the device is lost when opening fails: lend it
                let r = cfg.gpt(geo.big).open_from_device(&mut dv);
                let r = match r {
                    Ok(g) => {
                        let mut v = vec![];
                        for e in [g.primary_header().err(), g.backup_header().err()].into_iter().flatten() {
                            v.push(head_name(&e));
                        }
                        v.into_iter().next().map_or(Ok(()), Err)
                    }
                    Err(e) => Err(name(&e)),
                };
                out.set((dv.n_ops, dv.fault_hits));
                r
            }
            1 => {
                let r = cfg.gpt(geo.big).create_from_device(&mut dv, None).map(|_| ()).map_err(|e| name(&e));
                out.set((dv.n_ops, dv.fault_hits));
                r
            }
            2 | 3 => {
                let mut n = g.with_disk_device(dv, true);
                let r = n.write_inplace().map_err(|e| name(&e));
                out.set((n.device_ref().n_ops, n.device_ref().fault_hits));
                r
            }
            4 => {
                let mut n = g.with_disk_device(dv, true);
                let r = match &edit {
                    COp::Add { name: nm, size, ty, flags, align } => n.add_partition(nm, *size, ty.clone(), *flags, *align).map(|_| ()),
                    COp::AddAt { name: nm, id, first, len, ty, flags } => n.add_partition_at(nm, *id, *first, *len, ty.clone(), *flags).map(|_| ()),
                    COp::Map(m) => n.update_partitions(m.clone()),
                    _ => n.update_partitions(n.partitions().clone()),
                }
                .map_err(|e| name(&e));
                out.set((n.device_ref().n_ops, n.device_ref().fault_hits));
                r
            }
            5 => on(&mut dv, &mut |d| header::read_header_from_arbitrary_device(d, lb).map(|_| ()).map_err(|e| head_name(&e))),
            6 => on(&mut dv, &mut |d| file_read_partitions(d, &h, lb).map(|_| ()).map_err(|e| Err_::Io(e.kind()))),
            7 => on(&mut dv, &mut |d| {
                ProtectiveMBR::new().overwrite_lba0(d).and_then(|_| ProtectiveMBR::from_disk(d, lb)).map(|_| ()).map_err(|e| mbr_name(&e))
            }),
            8 => on(&mut dv, &mut |d| ProtectiveMBR::new().update_conservative(d).map(|_| ()).map_err(|e| mbr_name(&e))),
            9 => on(&mut dv, &mut |d| {
                mbr::write_bootcode(d, &[7; 440]).and_then(|_| mbr::read_bootcode(d)).map(|_| ()).map_err(|e| Err_::Io(e.kind()))
            }),
            10 => on(&mut dv, &mut |d| {
                mbr::write_disk_signature(d, &[7; 4]).and_then(|_| mbr::read_disk_signature(d)).map(|_| ()).map_err(|e| Err_::Io(e.kind()))
            }),
            _ => on(&mut dv, &mut |d| h.clone().write_primary(d, lb).map(|_| ()).map_err(|e| head_name(&e))),
        })?;
        let (a, b) = out.get();
        Ok((r, a, b))
    };
    let (clean, n, _) = act(dev.clone())?;
    if n == 0 {
        return Ok(());
    }
    let mut d = dev.clone();
    d.arm(Some(Fault { at: c.at as u64 % n, persistent: c.persistent, partial: 0, kind: Some(kind) }));
    let (r, _, hits) = act(d)?;
    if hits == 0 {
        return Ok(());
    }
    if let Err(e) = &r {
        cx.nt("device error reported");
        let same = matches!(e, Err_::Io(k) | Err_::HeadIo(k) if *k == kind);
        ensure!(
            same || Some(e) == clean.as_ref().err(),
            "operation {} reported {e:?} when a device operation failed with {kind:?} (without the failure: {clean:?})",
            c.what % 12
        );
    } else {
        cx.label("succeeded all the same");
    }
    Ok(())
}

fn forbidden(c: &MisuseCase, cx: &mut Cx) -> Result<(), String> {
    let Some(mut g) = run(&c.h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(()) };
    let s = Snap::of(&g);
    let before = g.device_ref().clone();
    let what = format!("{:?}", c.m);
    let r = lib("", || match &c.m {
        Misuse::SizeZero { al } => g.add_partition("x", 0, Type::default(), 0, if matches!(al, Al::No) { None } else { Some(8) }).is_ok(),
        Misuse::LenZero { id, first } => {
            let id = match id {
                Id::Raw(i) => *i,
                Id::Existing(k) | Id::Free(k) => *k as u32 + 1,
                Id::Near(k) => (s.num() as i64 + *k as i64).max(1) as u32,
            };
            // a block that may be free
            let free = s.free();
            let f = match free.get(*first as usize % free.len().max(1)) {
                Some((a, n)) if first % 4 < 3 => a + first % n,
                _ => *first,
            };
            g.add_partition_at("x", id.max(1), f, 0, gpt::partition_types::BASIC, 0).is_ok()
        }
        Misuse::IdZero { first, len } => {
            // a legal place, at either end of a free run
            let free = s.free();
            let (f, n) = match free.get(*first as usize % free.len().max(1)) {
                Some((a, n)) if first % 2 == 0 => (*a, (*len as u64 % 4 + 1).min(*n)),
                Some((a, n)) => {
                    let l = (*len as u64 % 4 + 1).min(*n);
                    (a + n - l, l)
                }
                None => (*first, 1),
            };
            g.add_partition_at("x", 0, f, n, gpt::partition_types::BASIC, 0).is_ok()
        }
        Misuse::MapZero { keep } => {
            let mut m = if *keep { s.parts.clone() } else { Map::new() };
            m.insert(0, Partition::zero());
            g.update_partitions(m).is_ok()
        }
    });
    cx.nt(match (&c.m, &r) {
        (_, Ok(_)) => "refused with an error",
        (Misuse::SizeZero { .. }, _) => "size 0 panicked",
        (Misuse::LenZero { .. }, _) => "length 0 panicked",
        (Misuse::IdZero { .. }, _) => "id 0 panicked",
        (Misuse::MapZero { .. }, _) => "map with entry 0 panicked",
    });
    ensure!(r != Ok(true), "{what} was accepted");
    let now = Snap::of(&g);
    ensure!(now == s, "{what} was refused but changed the table");
    ensure!(before.same(g.device_ref()), "{what} was refused but changed the device");
    Ok(())
}

// ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shown {
    Part { ty: G, guid: G, first: u64, last: u64, flags: u64, name: String },
    Head { guid: G, crc: u32, parts: u32, lba: u64 },
    Disk(Hist),
    Mbr { rec: [u8; 16], at: u8 },
    Io { msg: String, kind: u8 },
    Os { text: String, at: u8, with: String },
    Attr { flags: u64 },
}

/// The values behind the labels, in order; the text must hold nothing else but white space.
fn values<'a>(text: &'a str, labels: &[&str]) -> Option<Vec<&'a str>> {
    let mut rest = text.strip_prefix(labels[0])?;
    let mut v = vec![];
    for l in &labels[1..] {
        // the last occurrence: a name may hold anything
        let i = rest.rfind(l)?;
        v.push(rest[..i].trim_matches(|c| c == '\t' || c == '\n' || c == ' '));
        rest = &rest[i + l.len()..];
    }
    v.push(rest.trim_matches(|c| c == '\t' || c == '\n' || c == ' '));
    Some(v)
}

const OS: [(&str, OperatingSystem); 16] = [
    ("unused", OperatingSystem::None),
    ("android", OperatingSystem::Android),
    ("atari", OperatingSystem::Atari),
    ("Ceph", OperatingSystem::Ceph),
    ("Chrome", OperatingSystem::Chrome),
    ("DragonFlyBsd", OperatingSystem::DragonFlyBsd),
    ("FreeBsd", OperatingSystem::FreeBsd),
    ("FreeDesktop", OperatingSystem::FreeDesktop),
    ("Haiku", OperatingSystem::Haiku),
    ("HP-UX", OperatingSystem::HpUnix),
    ("Linux", OperatingSystem::Linux),
    ("MacOS", OperatingSystem::MacOs),
    ("MidnightBsd", OperatingSystem::MidnightBsd),
    ("Onie", OperatingSystem::Onie),
    ("PowerPc", OperatingSystem::PowerPc),
    ("Solaris Illumos", OperatingSystem::Solaris),
];

pub fn c34(ctx: &Ctx) {
    ctx.rule("A case is a value (partition, header, disk, MBR record, error) that is printed, the values shown being compared field by field, a text that is parsed as an operating system, or attribute bits that are taken apart. Non-trivial: all but the shortest texts.");
    let s = || {
        let mut p = Profile::general();
        p.max_ops = 5;
        prop_oneof![
            6 => (guid(), guid(), edge64(), edge64(), flags(), super::super::gen::name())
                .prop_map(|(ty, guid, first, last, flags, name)| Shown::Part { ty, guid, first, last, flags, name }),
            3 => (guid(), edge32(), edge32(), edge64()).prop_map(|(guid, crc, parts, lba)| Shown::Head { guid, crc, parts, lba }),
            1 => hist(&p).prop_map(Shown::Disk),
            2 => (any::<[u8; 16]>(), 0u8..4).prop_map(|(rec, at)| Shown::Mbr { rec, at }),
            2 => ("[ -~]{0,30}", any::<u8>()).prop_map(|(msg, kind)| Shown::Io { msg, kind }),
            3 => ((0usize..16).prop_map(|i| OS[i].0.to_string()), any::<u8>(), prop_oneof![2 => Just(String::new()), 1 => "[ -~]{1,2}"])
                .prop_map(|(text, at, with)| Shown::Os { text, at, with }),
            1 => prop_oneof![any::<u64>(), flags()].prop_map(|flags| Shown::Attr { flags }),
        ]
    };
    ctx.explore("values", ctx.cases(200_000, 7_000_000), s, shown);
    ctx.assume("labels and layout of the texts are those of the current release");
}

fn shown(c: &Shown, cx: &mut Cx) -> Result<(), String> {
    match c {
        Shown::Part { ty, guid, first, last, flags, name } => {
            let p = Partition {
                part_type_guid: Type { guid: ty.uuid(), os: OperatingSystem::None },
                part_guid: guid.uuid(),
                first_lba: *first,
                last_lba: *last,
                flags: *flags,
                name: name.clone(),
            };
            let t = lib("printing a partition", || format!("{p}"))?;
            cx.nt("partition");
            let v = values(&t, &["Partition:", "Partition GUID:", "Partition Type:", "Span:", "Flags:"]).ok_or_else(|| format!("the text is {t:?}"))?;
            let want = [
                name.trim_matches(|c| c == '\t' || c == '\n' || c == ' ').to_string(),
                guid_text(&guid.0).to_lowercase(),
                guid_text(&ty.0).to_lowercase(),
                format!("{first} - {last}"),
                flags.to_string(),
            ];
            ensure!(v == want, "the text shows {v:?} instead of {want:?}");
            lib("debug form", || format!("{p:?} {p:#?}"))?;
        }
        Shown::Head { guid, crc, parts, lba } => {
            let h = header::Header {
                signature: "EFI PART".into(),
                revision: (1, 0),
                header_size_le: 92,
                crc32: *crc,
                reserved: 0,
                current_lba: *lba,
                backup_lba: lba.wrapping_add(9),
                first_usable: lba.wrapping_mul(3),
                last_usable: lba.wrapping_mul(5),
                disk_guid: guid.uuid(),
                part_start: 2,
                num_parts: 128,
                part_size: 128,
                crc32_parts: *parts,
            };
            cx.nt("header");
            let t = lib("printing a header", || format!("{h}"))?;
            let v = values(&t, &["Disk:", "CRC32:", "Table CRC:"]).ok_or_else(|| format!("the text is {t:?}"))?;
            let want = [guid_text(&guid.0).to_lowercase(), crc.to_string(), parts.to_string()];
            ensure!(v == want, "the text shows {v:?} instead of {want:?}");
            for (size, text) in [(LogicalBlockSize::Lb512, "512"), (LogicalBlockSize::Lb4096, "4096")] {
                ensure!(format!("{size}") == text, "the block size {size:?} is shown as {size}");
            }
        }
        Shown::Disk(h) => {
            let Some(g) = run(h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(()) };
            cx.nt("disk");
            let t = lib("debug form of a disk", || format!("{g:?}"))?;
            // everything of value is in it
            for (i, p) in g.partitions() {
                let e = format!("{i}: {p:?}");
                ensure!(t.contains(&e), "the debug form of the disk lacks {e}");
            }
            ensure!(t.contains(&format!("{:?}", g.guid())), "the debug form of the disk lacks its GUID");
            ensure!(t.contains(&format!("{:?}", g.header())), "the debug form of the disk lacks its header");
        }
        Shown::Mbr { rec, at } => {
            let r = lib("PartRecord::from_bytes", || PartRecord::from_bytes(rec))?.map_err(|e| format!("{e}"))?;
            let mut m = ProtectiveMBR::new();
            m.set_partition(*at as usize, r);
            cx.nt("MBR");
            let t = lib("debug form of an MBR", || format!("{m:?}"))?;
            let e = format!("{r:#?}").lines().map(str::trim).collect::<String>();
            let flat = t.lines().map(str::trim).collect::<String>();
            ensure!(flat.contains(&e), "the debug form of the MBR lacks {e}: {t}");
        }
        Shown::Io { msg, kind } => {
            let k = KINDS[*kind as usize % KINDS.len()];
            let io = || io::Error::new(k, msg.clone());
            let own = format!("{}", io());
            cx.nt("error");
            let l = lib("printing errors", || {
                vec![
                    format!("{}", GptError::from(io())),
                    format!("{}", HeaderError::from(io())),
                    format!("{}", MBRError::from(io())),
                    format!("{}", GptError::from(HeaderError::from(io()))),
                ]
            })?;
            for t in l {
                ensure!(t.contains(&own), "the text {t:?} of an error lacks {own:?}");
            }
            // different errors read differently
            let all = lib("printing errors", || {
                vec![
                    format!("{}", GptError::CreatingInitializedDisk),
                    format!("{}", GptError::NotEnoughSpace),
                    format!("{}", GptError::ReadOnly),
                    format!("{}", GptError::OverflowPartitionCount),
                    format!("{}", GptError::PartitionCountWouldChange),
                    format!("{}", GptError::PartitionIdAlreadyUsed),
                    format!("{}", GptError::from(HeaderError::InvalidGptSignature)),
                    format!("{}", GptError::from(HeaderError::InvalidCRC32Checksum)),
                    format!("{}", GptError::from(HeaderError::MissingBackupLba)),
                    format!("{}", GptError::from(HeaderError::BackupLbaToEarly)),
                    format!("{}", GptError::from(HeaderError::WritingToWrongLba)),
                    format!("{}", GptError::from(HeaderError::ToSmallForBackup)),
                    format!("{}", MBRError::InvalidMBRLength),
                    format!("{}", MBRError::InvalidMBRSignature),
                    format!("{}", MBRError::InvalidPartitionLength),
                ]
            })?;
            let set: std::collections::HashSet<&String> = all.iter().collect();
            ensure!(set.len() == all.len() && all.iter().all(|t| !t.trim().is_empty()), "two errors have the same text: {all:?}");
        }
        Shown::Attr { flags } => {
            // UEFI: bit 0 required, bit 1 no block I/O protocol, bit 2 legacy BIOS bootable
            let a = PartitionAttributes::from_bits_truncate(*flags);
            cx.nt("attributes");
            for (bit, f, what) in
                [(0, PartitionAttributes::PLATFORM, "PLATFORM"), (1, PartitionAttributes::EFI, "EFI"), (2, PartitionAttributes::BOOTABLE, "BOOTABLE")]
            {
                ensure!(f.bits() == 1 << bit, "attribute {what} is {:#x}", f.bits());
                ensure!((a.bits() & f.bits() != 0) == (flags >> bit & 1 == 1), "attributes {flags:#x}: {what} is read as {}", a.contains(f));
            }
            ensure!(a.bits() == flags & 7, "attributes {flags:#x} are taken as {:#x}", a.bits());
        }
        Shown::Os { text, at, with } => {
            let mut t = text.clone();
            if !with.is_empty() {
                let i = *at as usize % (t.len() + 1);
                t.insert_str(i, with);
            }
            cx.nt("operating system");
            let got = lib("OperatingSystem::from_str", || OperatingSystem::from_str(&t))?;
            match OS.iter().find(|(n, _)| *n == t) {
                Some((_, os)) => ensure!(got.as_ref() == Ok(os), "{t:?} is taken for {got:?}"),
                None => ensure!(got.is_err(), "{t:?} is taken for {got:?}"),
            }
        }
    }
    Ok(())
}
