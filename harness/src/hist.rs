//! Histories: a device, a configuration, a starting table (made by the library or by another
//! tool) and a sequence of operations with relative arguments. The arguments are made concrete
//! against what the disk object reports just before the operation, so that every generated
//! history shrinks and still aims at the interesting places (ends of free runs, full tables,
//! existing partitions). Properties look at every step through an observer.

use crate::dev::Dev;
use crate::gen::*;
use crate::refgpt::{self, free_runs, RefEntry, RefHeader};
use crate::runner::{lib, Cx};
use gpt::header::{Header, HeaderError};
use gpt::partition::Partition;
use gpt::partition_types::Type;
use gpt::{GptConfig, GptDisk, GptError};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use uuid::Uuid;

pub type Map = BTreeMap<u32, Partition>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cfg {
    pub writable: bool,
    pub only_valid: bool,
    pub ro_backup: bool,
    pub change: bool,
}

impl Cfg {
    pub const RW: Cfg = Cfg { writable: true, only_valid: false, ro_backup: false, change: false };
    pub const GROW: Cfg = Cfg { writable: true, only_valid: false, ro_backup: false, change: true };
    pub const RO: Cfg = Cfg { writable: false, only_valid: false, ro_backup: false, change: false };
    pub fn gpt(&self, big: bool) -> GptConfig {
        if *self == Cfg::RO && !big {
            // these are the defaults
            return GptConfig::new();
        }
        // the last value set counts, whatever was set before
        GptConfig::default()
            .writable(!self.writable)
            .only_valid_headers(!self.only_valid)
            .logical_block_size(lbs(!big))
            .readonly_backup(!self.ro_backup)
            .change_partition_count(!self.change)
            .change_partition_count(self.change)
            .writable(self.writable)
            .readonly_backup(self.ro_backup)
            .only_valid_headers(self.only_valid)
            .logical_block_size(lbs(big))
    }
}

/// A partition of a foreign table; placed in the usable range by its relative position.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FPart {
    pub slot: u16,
    pub gap: u16,
    pub len: u32,
    pub ty: G,
    pub guid: G,
    pub flags: u64,
    pub name: String,
    /// type GUID zero although other bytes are not
    pub unused: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Foreign {
    pub guid: G,
    pub num: u16,
    /// blocks between primary header and primary array
    pub gap_p: u32,
    /// between primary array and usable range
    pub gap_u: u32,
    /// between usable range and backup array
    pub gap_l: u32,
    /// between backup array and backup header
    pub gap_b: u32,
    pub parts: Vec<FPart>,
    /// entries with arbitrary extents (overlapping, outside the usable range, reversed)
    pub wild: Vec<(u16, u64, u64)>,
    /// place the partitions in descending LBA order
    pub descending: bool,
    /// the backup is that of another table (as after writes with a read-only backup)
    #[serde(default)]
    pub stale: Option<Stale>,
}

/// How a valid backup differs from the primary copy.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Stale {
    pub guid: Option<G>,
    /// fewer entries
    pub num: u16,
    /// a smaller usable range
    pub lead: u8,
    pub trail: u8,
    /// which entries it has
    pub keep: u64,
}

pub struct ForeignTable {
    pub prim: RefHeader,
    pub back: RefHeader,
    pub entries: Vec<(u32, RefEntry)>,
    pub back_entries: Vec<(u32, RefEntry)>,
}

impl ForeignTable {
    pub fn write(&self, geo: &Geo, d: &mut Dev) {
        refgpt::write_copy(d, geo.lb(), &self.prim, &self.entries);
        refgpt::write_copy(d, geo.lb(), &self.back, &self.back_entries);
    }
}

impl Foreign {
    pub fn resolve(&self, geo: &Geo) -> ForeignTable {
        let mut num = self.num.max(4) as u64;
        let (mut gp, mut gu, mut gl, mut gb) = (self.gap_p as u64, self.gap_u as u64, self.gap_l as u64, self.gap_b as u64);
        let need = |num: u64, g: u64| 4 + 2 * geo.arr(num) + g;
        for most in [255, 3, 0] {
            if need(num, gp + gu + gl + gb) > geo.blocks {
                (gp, gu, gl, gb) = (gp.min(most), gu.min(most), gl.min(most), gb.min(most));
            }
        }
        if need(num, 0) > geo.blocks {
            num = 128;
        }
        let a = geo.arr(num);
        let last = geo.last();
        let first_usable = 2 + gp + a + gu;
        let back_start = last - gb - a;
        let last_usable = back_start - gl - 1;
        let prim = RefHeader {
            sig: *b"EFI PART",
            revision: 0x10000,
            header_size: 92,
            crc: 0,
            reserved: 0,
            my_lba: 1,
            alt_lba: last,
            first_usable,
            last_usable,
            guid: self.guid.0,
            part_start: 2 + gp,
            num: num as u32,
            size: 128,
            crc_parts: 0,
        };
        let mut back = RefHeader { my_lba: last, alt_lba: 1, part_start: back_start, ..prim.clone() };
        let mut entries: BTreeMap<u32, RefEntry> = BTreeMap::new();
        let mut next = first_usable;
        let mut extents = vec![];
        for p in &self.parts {
            let f = next.saturating_add(p.gap as u64);
            if f > last_usable {
                break;
            }
            let l = (f + p.len as u64).min(last_usable);
            extents.push((f, l));
            next = l + 1;
        }
        if self.descending {
            extents.reverse();
        }
        for (p, (f, l)) in self.parts.iter().zip(extents) {
            let slot = p.slot as u32 % num as u32 + 1;
            let ty = if p.unused {
                [0; 16]
            } else if p.ty.0 == [0; 16] {
                [1; 16]
            } else {
                p.ty.0
            };
            entries.insert(
                slot,
                RefEntry { ty, guid: p.guid.0, first: f, last: l, flags: p.flags, name: pad(refgpt::name_units(&p.name)) },
            );
        }
        for (s, f, l) in &self.wild {
            let slot = *s as u32 % num as u32 + 1;
            entries.insert(
                slot,
                RefEntry { ty: [7; 16], guid: [*s as u8 | 1; 16], first: *f, last: *l, flags: 0, name: vec![0; 36] },
            );
        }
        let entries: Vec<(u32, RefEntry)> = entries.into_iter().collect();
        let mut back_entries = entries.clone();
        if let Some(o) = &self.stale {
            if let Some(g) = o.guid {
                back.guid = g.0;
            }
            back.num = back.num.min((o.num as u32).max(4));
            back.part_start = last - gb - geo.arr(back.num as u64);
            let room = back.last_usable - back.first_usable;
            back.first_usable += (o.lead as u64).min(room / 2);
            back.last_usable -= (o.trail as u64).min(room / 2);
            let mut i = 0;
            back_entries.retain(|(slot, e)| {
                i += 1;
                *slot <= back.num
                    && o.keep >> (i % 64) & 1 == 1
                    && e.first >= back.first_usable
                    && e.last <= back.last_usable
            });
        }
        ForeignTable { prim, back, entries, back_entries }
    }
    pub fn install(&self, geo: &Geo, d: &mut Dev) -> ForeignTable {
        let t = self.resolve(geo);
        t.write(geo, d);
        t
    }
}

pub fn pad(mut v: Vec<u16>) -> Vec<u16> {
    v.resize(36, 0);
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Start {
    New(Option<G>),
    Foreign(Foreign),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Size {
    Blocks(u32),
    /// size of the k-th free run, plus delta blocks, minus some bytes
    Run { k: u8, delta: i8, less: u16 },
    /// a part of the k-th free run
    Part { k: u8, of256: u8 },
    Raw(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Al {
    No,
    Pow(u8),
    N(u32),
    Raw(u64),
    Reported,
    /// a value that leaves room for exactly so many blocks at the end of a run
    Fit { k: u8, back: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Id {
    Existing(u8),
    Free(u8),
    /// entry count plus something
    Near(i8),
    Raw(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pos {
    RunStart { k: u8, off: i8 },
    RunEnd { k: u8, back: i8 },
    InPart { k: u8, off: i8 },
    Mid { k: u8, of256: u8 },
    Raw(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Len {
    N(u16),
    /// to the end of the free run the start lies in, plus something
    ToEnd(i8),
    Raw(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Touch {
    pub k: u8,
    pub name: Option<String>,
    pub flags: Option<u64>,
    pub ty: Option<Ty>,
    pub guid: Option<G>,
    pub shrink: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MapEdit {
    Same,
    Keep(u64),
    Renumber { base: Id, stride: u8 },
    Touch(Vec<Touch>),
    /// entries of type "unused", zero or with leftovers
    Unused(Vec<(Id, bool)>),
    /// n one-block partitions from that id on
    Fill { n: u16, from: Id, guid: G },
    /// exchanges the extents of two partitions
    Swap(u8, u8),
    /// a copy of an entry's GUID in another entry
    SameGuid(u8, u8),
    Wild(Vec<(Id, u64, u64)>),
    Empty,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Add { size: Size, al: Al, name: String, ty: Ty, flags: u64 },
    AddAt { id: Id, pos: Pos, len: Len, name: String, ty: Ty, flags: u64 },
    Remove(Id),
    RemoveGuid(Option<u8>, G),
    SetGuid(Option<G>),
    Map(MapEdit),
    Take,
    Write,
    Reopen { commit: bool, cfg: Option<Cfg> },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Hist {
    pub geo: Geo,
    pub cfg: Cfg,
    pub start: Start,
    pub ops: Vec<Op>,
}

/// A concrete operation.
#[derive(Clone, Debug)]
pub enum COp {
    Start,
    Add { name: String, size: u64, ty: Type, flags: u64, align: Option<u64> },
    AddAt { name: String, id: u32, first: u64, len: u64, ty: Type, flags: u64 },
    Remove(u32),
    RemoveGuid(Uuid),
    SetGuid(Option<Uuid>),
    Map(Map),
    Take,
    Write,
    Reopen { commit: bool, cfg: Cfg },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    Io,
    Header(String),
    Creating,
    Overflow,
    NoSpace,
    ReadOnly,
    OverflowCount,
    CountWouldChange,
    IdUsed,
    Other(String),
}

pub fn herr(e: &HeaderError) -> String {
    match e {
        HeaderError::Io(_) => "Io".into(),
        e => format!("{e:?}"),
    }
}

impl From<&GptError> for E {
    fn from(e: &GptError) -> E {
        match e {
            GptError::Io(_) => E::Io,
            GptError::Header(h) => E::Header(herr(h)),
            GptError::CreatingInitializedDisk => E::Creating,
            GptError::Overflow(_) => E::Overflow,
            GptError::NotEnoughSpace => E::NoSpace,
            GptError::ReadOnly => E::ReadOnly,
            GptError::OverflowPartitionCount => E::OverflowCount,
            GptError::PartitionCountWouldChange => E::CountWouldChange,
            GptError::PartitionIdAlreadyUsed => E::IdUsed,
            e => E::Other(format!("{e:?}")),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Done,
    Id(u32),
    Gone(Option<u32>),
    Taken(Map),
    Err(E),
}

impl Out {
    pub fn ok(&self) -> bool {
        !matches!(self, Out::Err(_))
    }
}

/// Everything the disk object reports.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snap {
    pub parts: Map,
    pub ph: Result<Header, String>,
    pub bh: Result<Header, String>,
    pub guid: Uuid,
}

impl Snap {
    pub fn of<D>(d: &GptDisk<D>) -> Snap {
        Snap {
            parts: d.partitions().clone(),
            ph: d.primary_header().cloned().map_err(|e| herr(&e)),
            bh: d.backup_header().cloned().map_err(|e| herr(&e)),
            guid: *d.guid(),
        }
    }
    pub fn header(&self) -> &Header {
        self.ph.as_ref().or(self.bh.as_ref()).expect("no header")
    }
    pub fn used(&self) -> impl Iterator<Item = (&u32, &Partition)> {
        self.parts.iter().filter(|(_, p)| used(p))
    }
    pub fn extents(&self) -> Vec<(u64, u64)> {
        self.used().map(|(_, p)| (p.first_lba, p.last_lba)).collect()
    }
    pub fn free(&self) -> Vec<(u64, u64)> {
        let h = self.header();
        free_runs(h.first_usable, h.last_usable, &self.extents())
    }
    pub fn num(&self) -> u32 {
        self.header().num_parts
    }
    pub fn outside(&self) -> bool {
        let h = self.header();
        self.used().any(|(_, p)| p.first_lba > p.last_lba || p.first_lba < h.first_usable || p.last_lba > h.last_usable)
    }
    pub fn overlapping(&self) -> bool {
        let mut e = self.extents();
        e.sort_unstable();
        e.windows(2).any(|w| w[1].0 <= w[0].1)
    }
    /// What a reader should find after this was written: (type, guid, first, last, flags, name)
    /// by position.
    pub fn expected(&self) -> Vec<View> {
        self.used().map(|(_, p)| View::of(p, true)).collect()
    }
    /// Does a name hold a NUL? (It is stored whole but reads back up to the NUL.)
    pub fn nul_names(&self) -> bool {
        self.used().any(|(_, p)| p.name.contains('\0'))
    }
}

pub fn used(p: &Partition) -> bool {
    !p.part_type_guid.guid.is_nil()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub ty: Uuid,
    pub guid: Uuid,
    pub first: u64,
    pub last: u64,
    pub flags: u64,
    pub name: String,
}

impl View {
    pub fn of(p: &Partition, stored: bool) -> View {
        View {
            ty: p.part_type_guid.guid,
            guid: p.part_guid,
            first: p.first_lba,
            last: p.last_lba,
            flags: p.flags,
            name: if stored { refgpt::name_readback(&p.name) } else { p.name.clone() },
        }
    }
    pub fn of_ref(e: &RefEntry) -> View {
        View {
            ty: Uuid::from_bytes(e.ty),
            guid: Uuid::from_bytes(e.guid),
            first: e.first,
            last: e.last,
            flags: e.flags,
            name: e.name_text(),
        }
    }
}

/// The table an opened disk reports, numbered.
pub fn table_view(parts: &Map) -> Vec<(u32, View)> {
    parts.iter().map(|(i, p)| (*i, View::of(p, false))).collect()
}

/// The table a reader must find after `s` was written.
pub fn written_view(s: &Snap) -> Vec<(u32, View)> {
    s.expected().into_iter().enumerate().map(|(i, v)| (i as u32 + 1, v)).collect()
}

pub fn describe_diff(got: &[(u32, View)], want: &[(u32, View)]) -> String {
    if got.len() != want.len() {
        return format!("{} entries instead of {}", got.len(), want.len());
    }
    for (g, w) in got.iter().zip(want) {
        if g != w {
            return format!("{g:?} instead of {w:?}");
        }
    }
    "equal".into()
}

pub struct Step<'a> {
    pub i: usize,
    pub geo: &'a Geo,
    pub op: &'a COp,
    pub out: &'a Out,
    /// configuration the operation ran under (for a reopen: the one before)
    pub cfg: Cfg,
    pub before: Option<&'a Snap>,
    /// none when the disk object is gone (failed open)
    pub after: Option<&'a Snap>,
    /// device before and after
    pub dev0: &'a Dev,
    pub dev1: &'a Dev,
    pub disk: Option<&'a mut GptDisk<Dev>>,
    /// a copy of the disk object from before the operation
    pub pre: Option<&'a GptDisk<Dev>>,
}

impl Step<'_> {
    pub fn wrote(&self) -> bool {
        matches!(self.op, COp::Write | COp::Reopen { commit: true, .. }) && self.out.ok()
    }
}

fn pick<T: Clone>(v: &[T], k: u8) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[k as usize % v.len()].clone())
    }
}

/// Ids that would need an entry array of many megabytes are only used where such an array
/// cannot fit the device (so that the library has to refuse them without allocating it).
fn clamp_id(id: u32, geo: &Geo) -> u32 {
    let id = id.max(1);
    if id > 3000 && 2 * geo.arr(id as u64) + 3 < geo.blocks {
        id % 3000 + 1
    } else {
        id
    }
}

fn conc_id(id: &Id, s: &Snap, geo: &Geo) -> u32 {
    let ids: Vec<u32> = s.parts.keys().copied().collect();
    let v = match id {
        Id::Existing(k) => pick(&ids, *k).unwrap_or(1),
        Id::Free(k) => {
            let free: Vec<u32> = (1..=s.num().min(2000) + 1).filter(|i| !s.parts.contains_key(i)).take(40).collect();
            pick(&free, *k).unwrap_or(1)
        }
        Id::Near(d) => (s.num() as i64 + *d as i64).clamp(1, u32::MAX as i64) as u32,
        Id::Raw(v) => *v,
    };
    clamp_id(v, geo)
}

/// Adds a signed offset, wrapping at zero to stay an LBA.
fn off(v: u64, d: i64) -> u64 {
    if d < 0 {
        v.saturating_sub(d.unsigned_abs())
    } else {
        v.saturating_add(d as u64)
    }
}

pub fn concrete<D>(op: &Op, s: &Snap, geo: &Geo, cfg: Cfg, disk: &GptDisk<D>) -> Result<COp, String>
where
    D: gpt::DiskDevice,
{
    let lb = geo.lb();
    let runs = s.free();
    Ok(match op {
        Op::Add { size, al, name, ty, flags } => {
            let size = match size {
                Size::Blocks(n) => (*n as u64).max(1) * lb,
                Size::Run { k, delta, less } => {
                    let l = pick(&runs, *k).map_or(1, |r| r.1);
                    off(l, *delta as i64).max(1).saturating_mul(lb).saturating_sub(*less as u64 % lb)
                }
                Size::Part { k, of256 } => {
                    let l = pick(&runs, *k).map_or(1, |r| r.1);
                    ((l as u128 * (*of256 as u128 + 1) / 256) as u64).max(1).saturating_mul(lb)
                }
                Size::Raw(v) => (*v).max(1),
            };
            let align = match al {
                Al::No => None,
                Al::Pow(p) => Some(1u64 << (*p % 64)),
                Al::N(n) => Some(*n as u64),
                Al::Raw(v) => Some(*v),
                Al::Reported => {
                    let a = lib("calculate_alignment", || disk.calculate_alignment())?;
                    (a > 0).then_some(a)
                }
                Al::Fit { k, back } => pick(&runs, *k).map(|(a, l)| (a + (l - 1)).saturating_sub(*back as u64).max(1)),
            };
            COp::Add { name: name.clone(), size, ty: ty.get(), flags: *flags, align }
        }
        Op::AddAt { id, pos, len, name, ty, flags } => {
            let first = match pos {
                Pos::RunStart { k, off: o } => pick(&runs, *k).map_or(s.header().first_usable, |r| off(r.0, *o as i64)),
                Pos::RunEnd { k, back } => {
                    pick(&runs, *k).map_or(s.header().last_usable, |r| off(r.0 + (r.1 - 1), -(*back as i64)))
                }
                Pos::Mid { k, of256 } => {
                    pick(&runs, *k).map_or(s.header().last_usable, |r| r.0 + (r.1 as u128 * *of256 as u128 / 256) as u64)
                }
                Pos::InPart { k, off: o } => {
                    let e = s.extents();
                    pick(&e, *k).map_or(s.header().first_usable, |e| off(e.0, *o as i64))
                }
                Pos::Raw(v) => *v,
            };
            let len = match len {
                Len::N(n) => (*n as u64).max(1),
                Len::ToEnd(d) => {
                    let room = runs
                        .iter()
                        .find(|(a, l)| first >= *a && first - a < *l)
                        .map_or(1, |(a, l)| l - (first - a));
                    off(room, *d as i64).max(1)
                }
                Len::Raw(v) => (*v).max(1),
            };
            COp::AddAt { name: name.clone(), id: conc_id(id, s, geo), first, len, ty: ty.get(), flags: *flags }
        }
        Op::Remove(id) => COp::Remove(conc_id(id, s, geo)),
        Op::RemoveGuid(k, g) => {
            let guids: Vec<Uuid> = s.parts.values().map(|p| p.part_guid).collect();
            COp::RemoveGuid(k.and_then(|k| pick(&guids, k)).unwrap_or(g.uuid()))
        }
        Op::SetGuid(g) => COp::SetGuid(g.map(|g| g.uuid())),
        Op::Map(e) => COp::Map(edit_map(e, s, geo)),
        Op::Take => COp::Take,
        Op::Write => COp::Write,
        // what was there before the table of this history is not opened
        Op::Reopen { commit, cfg: c } => COp::Reopen { commit: *commit || geo.old != 0, cfg: c.unwrap_or(cfg) },
    })
}

pub fn edit_map(e: &MapEdit, s: &Snap, geo: &Geo) -> Map {
    let mut m = s.parts.clone();
    let ids: Vec<u32> = m.keys().copied().collect();
    match e {
        MapEdit::Same => {}
        MapEdit::Empty => m.clear(),
        MapEdit::Keep(mask) => {
            for (i, id) in ids.iter().enumerate() {
                if mask >> (i % 64) & 1 == 0 {
                    m.remove(id);
                }
            }
        }
        MapEdit::Renumber { base, stride } => {
            let mut id = conc_id(base, s, geo) as u64;
            let mut n = Map::new();
            for (_, p) in m {
                n.insert(clamp_id(id.min(u32::MAX as u64) as u32, geo), p);
                id += (*stride as u64).max(1);
            }
            m = n;
        }
        MapEdit::Touch(ts) => {
            for t in ts {
                if let Some(p) = pick(&ids, t.k).and_then(|i| m.get_mut(&i)) {
                    if let Some(n) = &t.name {
                        p.name = n.clone();
                    }
                    if let Some(f) = t.flags {
                        p.flags = f;
                    }
                    if let Some(ty) = &t.ty {
                        // turning an unused entry into a used one would give it its stale extent
                        if used(p) {
                            p.part_type_guid = ty.get();
                        }
                    }
                    if let Some(g) = &t.guid {
                        p.part_guid = g.uuid();
                    }
                    if p.first_lba < p.last_lba {
                        p.last_lba -= (t.shrink as u64).min(p.last_lba - p.first_lba);
                    }
                }
            }
        }
        MapEdit::Unused(v) => {
            for (id, zero) in v {
                let id = conc_id(id, s, geo);
                let mut p = Partition::zero();
                if !zero {
                    p.name = "left over".into();
                    p.first_lba = s.header().first_usable;
                    p.last_lba = s.header().last_usable;
                    p.part_guid = Uuid::from_u128(id as u128);
                }
                m.insert(id, p);
            }
        }
        MapEdit::Fill { n, from, guid } => {
            let mut id = conc_id(from, s, geo);
            let mut left = *n;
            'out: for (a, l) in s.free() {
                for lba in a..a.saturating_add(l.min(1000)) {
                    if left == 0 {
                        break 'out;
                    }
                    while m.contains_key(&id) {
                        id = id.saturating_add(1);
                        if id == u32::MAX {
                            break 'out;
                        }
                    }
                    left -= 1;
                    m.insert(
                        clamp_id(id, geo),
                        Partition {
                            part_type_guid: Ty::Known(lba as u8).get(),
                            part_guid: Uuid::from_u128(u128::from_be_bytes(guid.0) ^ ((lba as u128) << 9 | left as u128)),
                            first_lba: lba,
                            last_lba: lba,
                            flags: 0,
                            name: format!("f{lba}"),
                        },
                    );
                }
            }
        }
        MapEdit::Swap(a, b) => {
            if let (Some(a), Some(b)) = (pick(&ids, *a), pick(&ids, *b)) {
                let (x, y) = (m[&a].clone(), m[&b].clone());
                if used(&x) && used(&y) {
                    let p = m.get_mut(&a).unwrap();
                    (p.first_lba, p.last_lba) = (y.first_lba, y.last_lba);
                    let p = m.get_mut(&b).unwrap();
                    (p.first_lba, p.last_lba) = (x.first_lba, x.last_lba);
                }
            }
        }
        MapEdit::SameGuid(a, b) => {
            if let (Some(a), Some(b)) = (pick(&ids, *a), pick(&ids, *b)) {
                let g = m[&a].part_guid;
                m.get_mut(&b).unwrap().part_guid = g;
            }
        }
        MapEdit::Wild(v) => {
            for (id, f, l) in v {
                let id = conc_id(id, s, geo);
                m.insert(
                    id,
                    Partition {
                        part_type_guid: Ty::Known((*f % 100) as u8).get(),
                        part_guid: Uuid::from_u128(*f as u128 | 1),
                        first_lba: *f,
                        last_lba: *l,
                        flags: 0,
                        name: "wild".into(),
                    },
                );
            }
        }
    }
    m
}

fn res<T>(r: Result<T, GptError>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(v) => f(v),
        Err(e) => Out::Err((&e).into()),
    }
}

/// Runs one operation that keeps the disk object.
pub fn apply<D: gpt::DiskDevice>(disk: &mut GptDisk<D>, op: &COp) -> Result<Out, String> {
    let r = lib("", || match op {
        COp::Add { name, size, ty, flags, align } => {
            res(disk.add_partition(name, *size, ty.clone(), *flags, *align), Out::Id)
        }
        COp::AddAt { name, id, first, len, ty, flags } => {
            res(disk.add_partition_at(name, *id, *first, *len, ty.clone(), *flags), Out::Id)
        }
        COp::Remove(id) => Out::Gone(disk.remove_partition(*id)),
        COp::RemoveGuid(g) => Out::Gone(disk.remove_partition_by_guid(*g)),
        COp::SetGuid(g) => {
            disk.update_guid(*g);
            Out::Done
        }
        COp::Map(m) => res(disk.update_partitions(m.clone()), |_| Out::Done),
        COp::Take => Out::Taken(disk.take_partitions()),
        COp::Write => res(disk.write_inplace(), |_| Out::Done),
        COp::Start | COp::Reopen { .. } => unreachable!(),
    });
    r.map_err(|m| format!("{}{m}", format!("{op:?}").chars().take(300).collect::<String>()))
}

pub fn open(d: Dev, cfg: Cfg, big: bool) -> Result<Result<GptDisk<Dev>, E>, String> {
    lib("open_from_device", || cfg.gpt(big).open_from_device(d).map_err(|e| E::from(&e)))
}

pub fn create(d: Dev, cfg: Cfg, big: bool, guid: Option<Uuid>) -> Result<Result<GptDisk<Dev>, E>, String> {
    lib("create_from_device", || cfg.gpt(big).create_from_device(d, guid).map_err(|e| E::from(&e)))
}

/// What the history does beyond running.
#[derive(Clone, Copy, Default)]
pub struct Opts {
    pub want_pre: bool,
}

pub type Observer<'a> = dyn FnMut(&mut Step, &mut Cx) -> Result<(), String> + 'a;

/// Runs a history; returns the final disk object if there is one.
pub fn run(h: &Hist, cx: &mut Cx, opts: Opts, obs: &mut Observer) -> Result<Option<GptDisk<Dev>>, String> {
    let geo = &h.geo;
    let mut cfg = h.cfg;
    let mut d0 = geo.dev();
    if let Start::Foreign(f) = &h.start {
        f.install(geo, &mut d0);
    }
    let r = match &h.start {
        Start::New(g) => create(d0.clone(), cfg, geo.big, g.map(|g| g.uuid()))?,
        Start::Foreign(_) => open(d0.clone(), cfg, geo.big)?,
    };
    let (mut disk, out) = match r {
        Ok(d) => (Some(d), Out::Done),
        Err(e) => (None, Out::Err(e)),
    };
    let mut snap = disk.as_ref().map(Snap::of);
    {
        let dev1 = disk.as_ref().map_or(d0.clone(), |d| d.device_ref().clone());
        obs(
            &mut Step {
                i: 0,
                geo,
                op: &COp::Start,
                out: &out,
                cfg,
                before: None,
                after: snap.as_ref(),
                dev0: &d0,
                dev1: &dev1,
                disk: disk.as_mut(),
                pre: None,
            },
            cx,
        )
        .map_err(|m| format!("start: {m}"))?;
    }
    for (i, op) in h.ops.iter().enumerate() {
        let Some(mut d) = disk.take() else { break };
        let before = snap.take().unwrap();
        let cop = concrete(op, &before, geo, cfg, &d)?;
        let dev0 = d.device_ref().clone();
        let pre = opts.want_pre.then(|| d.clone());
        let cfg0 = cfg;
        let mut dev_gone = None;
        let out = match &cop {
            COp::Reopen { commit, cfg: c } => {
                let dev = if *commit {
                    match lib("write", || d.write())? {
                        Ok(dev) => Ok(dev),
                        Err(e) => Err(E::from(&e)),
                    }
                } else {
                    Ok(d.take_device())
                };
                match dev {
                    Ok(dev) => {
                        dev_gone = Some(dev.clone());
                        match open(dev, *c, geo.big)? {
                            Ok(n) => {
                                cfg = *c;
                                disk = Some(n);
                                Out::Done
                            }
                            Err(e) => Out::Err(E::Other(format!("reopening: {e:?}"))),
                        }
                    }
                    Err(e) => Out::Err(e),
                }
            }
            op => {
                let o = apply(&mut d, op)?;
                disk = Some(d);
                o
            }
        };
        snap = disk.as_ref().map(Snap::of);
        let dev1 = disk
            .as_ref()
            .map(|d| d.device_ref().clone())
            .or(dev_gone)
            .unwrap_or_else(|| dev0.clone());
        obs(
            &mut Step {
                i: i + 1,
                geo,
                op: &cop,
                out: &out,
                cfg: cfg0,
                before: Some(&before),
                after: snap.as_ref(),
                dev0: &dev0,
                dev1: &dev1,
                disk: disk.as_mut(),
                pre: pre.as_ref(),
            },
            cx,
        )
        .map_err(|m| format!("step {} ({}): {m}", i + 1, brief(&cop, &out)))?;
        // an observer may have driven the disk further
        snap = disk.as_ref().map(Snap::of);
    }
    Ok(disk)
}

pub fn brief(op: &COp, out: &Out) -> String {
    let o = match op {
        COp::Map(m) => format!("Map({} entries, highest id {:?})", m.len(), m.keys().next_back()),
        o => format!("{o:?}"),
    };
    let r = match out {
        Out::Taken(m) => format!("Taken({} entries)", m.len()),
        o => format!("{o:?}"),
    };
    format!("{} -> {r}", o.chars().take(400).collect::<String>())
}

// ---------------------------------------------------------------------------------------
// generators

/// How a property wants its histories.
#[derive(Clone)]
pub struct Profile {
    pub geo: BoxedStrategy<Geo>,
    pub cfg: BoxedStrategy<Cfg>,
    pub start: BoxedStrategy<Start>,
    pub max_ops: usize,
    /// weights: add, add_at, remove, remove_guid, set_guid, map, take, write, reopen
    pub w: [u32; 9],
    /// arguments beyond the sensible (partition maps with overlapping entries)
    pub wild: bool,
    /// configurations reopened with
    pub recfg: BoxedStrategy<Option<Cfg>>,
}

pub fn cfg_any() -> BoxedStrategy<Cfg> {
    (any::<bool>(), any::<bool>())
        .prop_map(|(change, ro)| Cfg { writable: true, only_valid: false, ro_backup: ro && change, change })
        .boxed()
}

pub fn cfg_grow() -> BoxedStrategy<Cfg> {
    any::<bool>().prop_map(|change| Cfg { change, ..Cfg::RW }).boxed()
}

pub fn start_new() -> BoxedStrategy<Start> {
    proptest::option::weighted(0.7, guid()).prop_map(Start::New).boxed()
}

fn fpart() -> impl Strategy<Value = FPart> {
    (
        (any::<u16>(), prop_oneof![3 => Just(0u16), 2 => 0u16..20, 1 => any::<u16>()]),
        prop_oneof![3 => 0u32..20, 2 => 0u32..3000, 1 => any::<u32>(), 1 => crate::dict::int().prop_map(|n| n as u32)],
        guid(),
        real_guid(),
        flags(),
        name(),
        proptest::bool::weighted(0.1),
    )
        .prop_map(|((slot, gap), len, ty, guid, flags, name, unused)| FPart { slot, gap, len, ty, guid, flags, name, unused })
}

pub fn foreign(wild: bool) -> BoxedStrategy<Foreign> {
    let gap = || prop_oneof![9 => Just(0u32), 6 => 0u32..4, 3 => 0u32..256, 1 => prop_oneof![2 => 0u32..10_000, 1 => any::<u32>(), 1 => crate::dict::int().prop_map(|n| n as u32)]];
    (
        real_guid(),
        prop_oneof![4 => Just(128u16), 2 => 4u16..128, 2 => 129u16..513, 1 => Just(4u16), 1 => Just(512u16), 1 => crate::dict::int_in(4, 513).prop_map(|n| n as u16)],
        (gap(), gap(), gap(), gap()),
        proptest::collection::vec(fpart(), 0..12),
        if wild {
            proptest::collection::vec((any::<u16>(), edge64(), edge64()), 0..5).boxed()
        } else {
            Just(vec![]).boxed()
        },
        any::<bool>(),
    )
        .prop_map(|(guid, num, (gap_p, gap_u, gap_l, gap_b), mut parts, wild, descending)| {
            // small slots are the common case
            for (i, p) in parts.iter_mut().enumerate() {
                if p.slot % 3 != 0 {
                    p.slot = i as u16;
                }
            }
            Foreign { guid, num, gap_p, gap_u, gap_l, gap_b, parts, wild, descending, stale: None }
        })
        .boxed()
}

/// Foreign tables with at least the 128 entries UEFI asks for.
pub fn start_foreign(wild: bool, full: bool) -> BoxedStrategy<Start> {
    foreign(wild)
        .prop_map(move |mut f| {
            if full {
                f.num = f.num.max(128);
            }
            Start::Foreign(f)
        })
        .boxed()
}

/// Foreign tables with thousands of entries.
pub fn large() -> BoxedStrategy<Foreign> {
    (foreign(false), 9u32..15, any::<u16>())
        .prop_map(|(mut f, bits, v)| {
            f.num = (1 << bits) + v % (1 << bits);
            (f.gap_p, f.gap_u, f.gap_l, f.gap_b) = (f.gap_p % 3, f.gap_u % 3, f.gap_l % 3, f.gap_b % 3);
            for (i, p) in f.parts.iter_mut().enumerate() {
                // high slots as well
                if i % 2 == 1 {
                    p.slot = f.num - 1 - p.slot % 4;
                }
            }
            f
        })
        .boxed()
}

/// Tables with hundreds of partitions.
pub fn crowded() -> BoxedStrategy<Foreign> {
    (foreign(false), prop_oneof![1 => 100u32..150, 2 => 150u32..600], any::<u64>(), 0u16..5, 0u32..5, any::<u8>())
        .prop_map(|(mut f, n, seed, gap, len, odd)| {
            f.num = (n as u16).max(128) + odd as u16 % 8;
            (f.gap_p, f.gap_u, f.gap_l, f.gap_b) = (f.gap_p % 3, f.gap_u % 3, f.gap_l % 3, f.gap_b % 3);
            let mut x = seed | 1;
            let mut rnd = |m: u64| {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x % m
            };
            f.parts = (0..n)
                .map(|i| FPart {
                    slot: i as u16,
                    // a gap in front of every partition, or of some
                    gap: if odd & 8 == 0 { 1 + gap } else { rnd(gap as u64 + 1) as u16 },
                    len: rnd(len as u64 + 1) as u32,
                    ty: G([1 + rnd(3) as u8; 16]),
                    guid: {
                        let mut g = [0x40; 16];
                        g[..8].copy_from_slice(&(seed ^ i as u64).to_le_bytes());
                        G(g)
                    },
                    flags: rnd(4),
                    name: if rnd(4) == 0 { format!("p{i}") } else { String::new() },
                    unused: odd & 16 != 0 && rnd(8) == 0,
                })
                .collect();
            f
        })
        .boxed()
}

pub fn start_crowded() -> BoxedStrategy<Start> {
    crowded().prop_map(Start::Foreign).boxed()
}

pub fn start_large() -> BoxedStrategy<Start> {
    large().prop_map(Start::Foreign).boxed()
}

/// Foreign tables whose backup is valid but not that of the primary copy.
pub fn stale(wild: bool) -> BoxedStrategy<Foreign> {
    let small = || prop_oneof![1 => Just(0u8), 1 => 1u8..4, 1 => any::<u8>()];
    (
        foreign(wild),
        (proptest::option::of(guid()), prop_oneof![Just(u16::MAX), Just(128u16), 4u16..512], small(), small(), any::<u64>()),
    )
        .prop_map(|(f, (guid, num, lead, trail, keep))| Foreign { stale: Some(Stale { guid, num, lead, trail, keep }), ..f })
        .boxed()
}

pub fn start_stale(wild: bool) -> BoxedStrategy<Start> {
    stale(wild)
        .prop_map(|mut f| {
            f.num = f.num.max(128);
            Start::Foreign(f)
        })
        .boxed()
}

pub fn id() -> BoxedStrategy<Id> {
    prop_oneof![
        4 => any::<u8>().prop_map(Id::Existing),
        4 => (0u8..6).prop_map(Id::Free),
        3 => (-2i8..5).prop_map(Id::Near),
        1 => (0i8..100).prop_map(Id::Near),
        2 => (1u32..140).prop_map(Id::Raw),
        1 => crate::dict::int_in(1, 600).prop_map(|n| Id::Raw(n as u32)),
        1 => edge32().prop_map(Id::Raw),
    ]
    .boxed()
}

pub fn size() -> BoxedStrategy<Size> {
    prop_oneof![
        4 => (1u32..40).prop_map(Size::Blocks),
        1 => crate::dict::int_in(1, 1 << 32).prop_map(|n| Size::Blocks(n as u32)),
        4 => (any::<u8>(), -3i8..4, prop_oneof![Just(0u16), any::<u16>()]).prop_map(|(k, delta, less)| Size::Run { k, delta, less }),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(k, of256)| Size::Part { k, of256 }),
        1 => edge64().prop_map(Size::Raw),
        1 => (0u64..9000).prop_map(Size::Raw),
    ]
    .boxed()
}

pub fn align() -> BoxedStrategy<Al> {
    prop_oneof![
        6 => Just(Al::No),
        3 => (0u8..12).prop_map(Al::Pow),
        2 => (1u32..100).prop_map(Al::N),
        1 => crate::dict::int_in(1, 10_000).prop_map(|n| Al::N(n as u32)),
        1 => Just(Al::Reported),
        1 => (any::<u8>(), 0u8..10).prop_map(|(k, back)| Al::Fit { k, back }),
        1 => edge64().prop_map(Al::Raw),
    ]
    .boxed()
}

fn pos() -> BoxedStrategy<Pos> {
    prop_oneof![
        4 => (any::<u8>(), -2i8..8).prop_map(|(k, off)| Pos::RunStart { k, off }),
        3 => (any::<u8>(), -2i8..8).prop_map(|(k, back)| Pos::RunEnd { k, back }),
        2 => (any::<u8>(), -3i8..4).prop_map(|(k, off)| Pos::InPart { k, off }),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(k, of256)| Pos::Mid { k, of256 }),
        1 => edge64().prop_map(Pos::Raw),
    ]
    .boxed()
}

fn len() -> BoxedStrategy<Len> {
    prop_oneof![
        5 => (1u16..30).prop_map(Len::N),
        1 => crate::dict::int_in(1, 1 << 16).prop_map(|n| Len::N(n as u16)),
        4 => (-3i8..4).prop_map(Len::ToEnd),
        1 => edge64().prop_map(Len::Raw),
    ]
    .boxed()
}

fn touch() -> impl Strategy<Value = Touch> {
    (
        any::<u8>(),
        proptest::option::of(name()),
        proptest::option::of(flags()),
        proptest::option::of(ty()),
        proptest::option::of(real_guid()),
        prop_oneof![3 => Just(0u8), 1 => 0u8..5],
    )
        .prop_map(|(k, name, flags, ty, guid, shrink)| Touch { k, name, flags, ty, guid, shrink })
}

pub fn map_edit(wild: bool) -> BoxedStrategy<MapEdit> {
    let base = prop_oneof![
        1 => Just(MapEdit::Same),
        2 => any::<u64>().prop_map(MapEdit::Keep),
        3 => (id(), 1u8..40).prop_map(|(base, stride)| MapEdit::Renumber { base, stride }),
        4 => proptest::collection::vec(touch(), 1..4).prop_map(MapEdit::Touch),
        2 => proptest::collection::vec((id(), any::<bool>()), 1..4).prop_map(MapEdit::Unused),
        3 => (prop_oneof![6 => 1u16..10, 4 => 100u16..140, 1 => crate::dict::int_in(1, 140).prop_map(|n| n as u16)], id(), real_guid()).prop_map(|(n, from, guid)| MapEdit::Fill { n, from, guid }),
        1 => Just(MapEdit::Fill { n: 128, from: Id::Raw(1), guid: G([3; 16]) }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| MapEdit::Swap(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| MapEdit::SameGuid(a, b)),
        1 => Just(MapEdit::Empty),
    ];
    if wild {
        prop_oneof![
            2 => base,
            1 => proptest::collection::vec((id(), edge64(), edge64()), 1..4).prop_map(MapEdit::Wild),
        ]
        .boxed()
    } else {
        base.boxed()
    }
}

pub fn op(p: &Profile) -> BoxedStrategy<Op> {
    let w = p.w;
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            w[0],
            (size(), align(), name(), ty(), flags())
                .prop_map(|(size, al, name, ty, flags)| Op::Add { size, al, name, ty, flags })
                .boxed(),
        ),
        (
            w[1],
            (id(), pos(), len(), name(), ty(), flags())
                .prop_map(|(id, pos, len, name, ty, flags)| Op::AddAt { id, pos, len, name, ty, flags })
                .boxed(),
        ),
        (w[2], id().prop_map(Op::Remove).boxed()),
        (
            w[3],
            (proptest::option::weighted(0.8, any::<u8>()), real_guid()).prop_map(|(k, g)| Op::RemoveGuid(k, g)).boxed(),
        ),
        (w[4], proptest::option::weighted(0.7, guid()).prop_map(Op::SetGuid).boxed()),
        (w[5], map_edit(p.wild).prop_map(Op::Map).boxed()),
        (w[6], Just(Op::Take).boxed()),
        (w[7], Just(Op::Write).boxed()),
        (
            w[8],
            (any::<bool>(), p.recfg.clone()).prop_map(|(commit, cfg)| Op::Reopen { commit, cfg }).boxed(),
        ),
    ];
    v.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn hist(p: &Profile) -> BoxedStrategy<Hist> {
    (
        (p.geo.clone(), proptest::option::weighted(0.3, 0u8..50)),
        p.cfg.clone(),
        p.start.clone(),
        proptest::collection::vec(op(p), 0..=p.max_ops),
    )
        .prop_map(|((mut geo, tiny), cfg, start, ops)| {
            if let (Start::Foreign(f), Some(n)) = (&start, tiny) {
                tighten(&mut geo, f, n);
            }
            Hist { geo, cfg, start, ops }
        })
        .boxed()
}

/// Devices too small for the 128 entries of a new table, for tables with fewer.
pub fn tighten(geo: &mut Geo, f: &Foreign, n: u8) {
    if f.num < 128 {
        geo.blocks = 4 + 2 * geo.arr(f.num.max(4) as u64) + n as u64;
    }
}

impl Profile {
    /// Everything the documentation allows, on tables made here or by other tools.
    pub fn general() -> Profile {
        Profile {
            geo: geo(),
            cfg: cfg_grow(),
            start: prop_oneof![120 => start_new(), 40 => start_foreign(false, true), 20 => start_stale(false), 1 => start_large(), 1 => start_crowded()].boxed(),
            max_ops: 12,
            w: [8, 6, 3, 1, 1, 4, 1, 4, 2],
            wild: false,
            recfg: Just(None).boxed(),
        }
    }
}

/// Extents of the metadata the next write puts on the device: primary header, primary array,
/// backup array, backup header (blocks, inclusive).
pub fn metadata_blocks(h: &Header, geo: &Geo, backup: bool) -> Vec<(u64, u64)> {
    let a = geo.arr(h.num_parts as u64).max(1);
    let mut v = vec![(1, 1), (2, 1 + a)];
    if backup {
        v.push((h.last_usable + 1, h.last_usable + a));
        v.push((geo.last(), geo.last()));
    }
    v
}

/// Would a write of `s` put metadata on top of a used partition?
pub fn collides(s: &Snap, geo: &Geo) -> bool {
    let m = metadata_blocks(s.header(), geo, true);
    s.used().any(|(_, p)| m.iter().any(|(a, b)| p.first_lba <= *b && p.last_lba >= *a))
}
