//! Edits of the table in memory: C05, C06, C07, C08, C09, C25, C26, C29.

use crate::dev::Fault;
use crate::gen::*;
use crate::hist::*;
use crate::refgpt::{self, free_runs, RefHeader};
use crate::runner::{lib, Ctx, Cx};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use uuid::Uuid;

fn start_any(wild: bool) -> BoxedStrategy<Start> {
    prop_oneof![90 => start_new(), 60 => start_foreign(wild, true), 15 => start_stale(wild), 1 => start_crowded()].boxed()
}

fn profile(wild: bool) -> Profile {
    let cfg = prop_oneof![3 => cfg_grow(), 1 => cfg_any()].boxed();
    Profile { start: start_any(wild), wild, cfg, ..Profile::general() }
}

/// Are these blocks free and usable?
pub fn fits(free: &[(u64, u64)], first: u64, len: u64) -> bool {
    free.iter().any(|(a, l)| first >= *a && len <= *l && first - a <= l - len)
}

pub fn size_lba(size: u64, lb: u64) -> u64 {
    (size as u128).div_ceil(lb as u128) as u64
}

fn label_table(s: &Snap, cx: &mut Cx) {
    if s.used().count() > 128 {
        cx.label("more than 128 used partitions");
    }
    if s.free().len() > 128 {
        cx.label("more than 128 runs of free blocks");
    }
    if s.overlapping() {
        cx.label("overlapping partitions in the table");
    }
    if s.outside() {
        cx.label("partition outside the usable range");
    }
    if s.parts.values().any(|p| !used(p)) {
        cx.label("unused entries in the table");
    }
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("A case is a device, a table (possibly with overlapping or out-of-range partitions) and up to 12 operations; every add is judged against the free blocks an interval sweep computes. Non-trivial: an accepted add next to at least one other partition, or a refused explicit position.");
    let p = || {
        let mut p = profile(true);
        p.w = [8, 14, 4, 1, 0, 4, 1, 1, 1];
        p
    };
    ctx.explore("histories", ctx.cases(200_000, 7_000_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut |st, cx| {
            let Some(s) = st.before else { return Ok(()) };
            let Some(after) = st.after else { return Ok(()) };
            let free = s.free();
            label_table(s, cx);
            let (id, first, len, name, ty, flags) = match (st.op, st.out) {
                (COp::Add { name, size, ty, flags, align }, Out::Id(id)) => {
                    let p = after.parts.get(id).ok_or_else(|| format!("returned id {id} is not in the table"))?;
                    if let Some(a) = align {
                        ensure!(*a == 0 || p.first_lba % a == 0, "first LBA {} is not a multiple of {a}", p.first_lba);
                    }
                    (*id, p.first_lba, size_lba(*size, st.geo.lb()), name, ty, *flags)
                }
                (COp::AddAt { name, id, first, len, ty, flags }, Out::Id(rid)) => {
                    ensure!(id == rid, "returned id {rid} instead of {id}");
                    (*id, *first, *len, name, ty, *flags)
                }
                (COp::AddAt { id, first, len, .. }, Out::Err(e)) => {
                    cx.nt("explicit position refused");
                    let in_use = s.parts.get(id).is_some_and(used);
                    let enough = s.num() >= 128 && *id <= s.num();
                    ensure!(
                        in_use || !enough || !fits(&free, *first, *len),
                        "refused with {e:?} although id {id} is not in use, the table has {} entries and the blocks are free",
                        s.num()
                    );
                    return Ok(());
                }
                _ => return Ok(()),
            };
            cx.label("add accepted");
            if s.used().count() > 0 {
                cx.nt("add accepted next to other partitions");
            }
            ensure!(!s.parts.get(&id).is_some_and(used), "id {id} was already in use");
            let p = after.parts.get(&id).ok_or_else(|| format!("id {id} is not in the table"))?;
            ensure!(p.first_lba == first, "first LBA is {} instead of {first}", p.first_lba);
            let last = first.checked_add(len - 1);
            ensure!(Some(p.last_lba) == last, "last LBA is {} instead of {last:?} for {len} blocks", p.last_lba);
            ensure!(
                fits(&free, first, len),
                "{first}..={} is not free usable space; usable {}..={}, used {:?}",
                p.last_lba,
                s.header().first_usable,
                s.header().last_usable,
                s.extents()
            );
            ensure!(p.name == *name, "name is {:?}", p.name);
            ensure!(p.part_type_guid == *ty, "type is {:?}", p.part_type_guid);
            ensure!(p.flags == flags, "flags are {:#x}", p.flags);
            for (i, q) in &s.parts {
                ensure!(*i == id || after.parts.get(i) == Some(q), "entry {i} was changed");
            }
            for (i, q) in &after.parts {
                ensure!(*i == id || s.parts.get(i) == Some(q), "entry {i} appeared");
            }
            Ok(())
        })
        .map(|_| ())
    });
    ctx.assume("at least the 128 entries UEFI asks for; type not \"unused\"; size and length above zero (documented panics)");
}

/// Lowest aligned start of `len` free blocks.
pub fn first_fit(free: &[(u64, u64)], len: u64, align: Option<u64>) -> Option<u64> {
    for (a, l) in free {
        let a128 = *a as u128;
        let al = align.filter(|a| *a > 0).unwrap_or(1) as u128;
        let f = a128.div_ceil(al) * al;
        if f + len as u128 <= a128 + *l as u128 {
            return Some(f as u64);
        }
    }
    None
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("A case is a device, a table and up to 14 operations; every add by size is compared with a first-fit search over the free blocks an interval sweep computes. Non-trivial: an add with at least two free runs or an alignment, on a table with partitions.");
    let p = || {
        let mut p = profile(false);
        p.w = [16, 6, 6, 1, 0, 4, 1, 1, 1];
        p.max_ops = 14;
        p
    };
    ctx.explore("histories", ctx.cases(200_000, 7_000_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut |st, cx| {
            let (Some(s), Some(after)) = (st.before, st.after) else { return Ok(()) };
            let COp::Add { size, align, .. } = st.op else { return Ok(()) };
            let free = s.free();
            let len = size_lba(*size, st.geo.lb());
            let want = first_fit(&free, len, *align);
            if s.used().count() > 0 && (free.len() > 1 || align.is_some()) {
                cx.nt("several free runs or an alignment");
            }
            if align.is_some() {
                cx.label("with alignment");
            }
            match (want, st.out) {
                (Some(f), Out::Id(id)) => {
                    cx.label("placed");
                    if free.first().is_some_and(|r| f > r.0 + r.1) {
                        cx.label("placed in a later run");
                    }
                    let p = after.parts.get(id).ok_or_else(|| format!("returned id {id} is not in the table"))?;
                    ensure!(p.first_lba == f, "placed at {} although {f} is free and fits", p.first_lba);
                    let lowest = (1..).find(|i| !s.parts.get(i).is_some_and(used)).unwrap();
                    ensure!(*id == lowest, "id {id} was given although {lowest} is not in use");
                }
                (None, Out::Err(E::NoSpace)) => {
                    cx.label("no space");
                }
                (None, o) => return Err(format!("{o:?} although no aligned run of {len} blocks is free in {free:?}")),
                (Some(f), Out::Err(E::NoSpace)) => return Err(format!("no space reported although {f} is free and fits")),
                (Some(f), Out::Err(e)) => {
                    // only the entry count can stand in the way
                    let lowest = (1..).find(|i| !s.parts.get(i).is_some_and(used)).unwrap();
                    ensure!(lowest > s.num(), "{e:?} although {f} is free and fits and id {lowest} is available");
                    cx.label("entry count in the way");
                }
                (_, o) => return Err(format!("unexpected result {o:?}")),
            }
            Ok(())
        })
        .map(|_| ())
    });
    ctx.assume("at least the 128 entries UEFI asks for");
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Weird {
    geo: Geo,
    table: Foreign,
    fu: u64,
    lu: u64,
    /// of the backup, if not the same
    #[serde(default)]
    back: Option<(u64, u64)>,
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("A case is a device and a table with histories of edits, or a table with an arbitrary usable range and arbitrary partition extents read from the device; after every operation the free list is compared with an interval sweep. Non-trivial: at least two used partitions.");
    let p = || {
        let mut p = profile(true);
        p.w = [8, 8, 5, 1, 0, 8, 1, 1, 1];
        p
    };
    let judge = |s: &Snap, got: Vec<(u64, u64)>| -> Result<(), String> {
        let want = s.free();
        ensure!(
            got == want,
            "free list {got:?} instead of {want:?}; usable {}..={}, used {:?}",
            s.header().first_usable,
            s.header().last_usable,
            s.extents()
        );
        Ok(())
    };
    ctx.explore("histories", ctx.cases(200_000, 7_000_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut |st, cx| {
            let (Some(s), Some(d)) = (st.after, &st.disk) else { return Ok(()) };
            label_table(s, cx);
            if s.used().count() >= 2 {
                cx.nt("at least two used partitions");
            }
            judge(s, lib("find_free_sectors", || d.find_free_sectors())?)
        })
        .map(|_| ())
    });
    let weird = || {
        (geo_small(), foreign(true), edge64(), edge64(), proptest::option::weighted(0.2, (edge64(), edge64()))).prop_map(|(geo, table, fu, mut lu, back)| {
            if fu == 0 && lu == u64::MAX {
                lu -= 1; // 2^64 blocks have no length
            }
            Weird { geo, table, fu, lu, back }
        })
    };
    ctx.explore("any usable range", ctx.cases(100_000, 3_500_000), weird, |c, cx| {
        let mut t = c.table.resolve(&c.geo);
        for h in [&mut t.prim, &mut t.back] {
            (h.first_usable, h.last_usable) = (c.fu, c.lu);
        }
        let mut d = c.geo.dev();
        if let Some(o) = &c.back {
            // the primary copy counts
            (t.back.first_usable, t.back.last_usable) = *o;
        }
        t.write(&c.geo, &mut d);
        let Ok(disk) = open(d, Cfg::RO, c.geo.big)? else { return Ok(()) };
        let s = Snap::of(&disk);
        ensure!((s.header().first_usable, s.header().last_usable) == (c.fu, c.lu), "usable range was not read as stored");
        label_table(&s, cx);
        if s.used().count() >= 2 {
            cx.nt("at least two used partitions");
        }
        judge(&s, lib("find_free_sectors", || disk.find_free_sectors())?)
    });
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("A case is a device, a table of 4 to 512 entries and up to 12 operations, with and without permission to change the entry count; the count is compared around every operation. Non-trivial: an edit that needs more entries than there are, or a write of a grown or sparse table.");
    let p = || {
        let mut p = profile(false);
        p.start = prop_oneof![90 => start_new(), 60 => start_foreign(false, false), 1 => start_crowded()].boxed();
        p.w = [8, 10, 3, 1, 1, 8, 1, 4, 2];
        p
    };
    ctx.explore("histories", ctx.cases(200_000, 7_000_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut |st, cx| {
            let (Some(s), Some(after)) = (st.before, st.after) else {
                if let (Some(s), Out::Err(e)) = (st.before, st.out) {
                    ensure!(*e != E::OverflowCount, "a write failed for want of entries ({} of {} used)", s.used().count(), s.num());
                }
                return Ok(());
            };
            let num = s.num();
            let is_reopen = matches!(st.op, COp::Reopen { .. });
            if !st.cfg.change && !is_reopen {
                ensure!(after.num() == num, "the entry count went from {num} to {}", after.num());
            }
            // how many entries the edit needs
            let need = match st.op {
                COp::Add { .. } => {
                    let low = (1..).find(|i| !s.parts.get(i).is_some_and(used)).unwrap();
                    Some(low)
                }
                COp::AddAt { id, .. } => Some(*id),
                COp::Map(m) => Some(m.keys().next_back().copied().unwrap_or(0)),
                _ => None,
            };
            if let Some(need) = need {
                let more = need.max(128) > num;
                if more {
                    cx.nt("edit that needs more entries");
                }
                if more && !st.cfg.change {
                    ensure!(!st.out.ok(), "an edit that needs {} entries was accepted on a table of {num}", need.max(128));
                    let otherwise_fine = match st.op {
                        COp::Map(_) => true,
                        COp::Add { size, align, .. } => first_fit(&s.free(), size_lba(*size, st.geo.lb()), *align).is_some(),
                        COp::AddAt { id, first, len, .. } => !s.parts.get(id).is_some_and(used) && fits(&s.free(), *first, *len),
                        _ => false,
                    };
                    if otherwise_fine {
                        cx.label("refused for the entry count");
                        ensure!(
                            *st.out == Out::Err(E::CountWouldChange),
                            "an edit that needs {} entries on a table of {num} gave {:?}",
                            need.max(128),
                            st.out
                        );
                    }
                }
                if !more {
                    ensure!(*st.out != Out::Err(E::CountWouldChange), "refused for the entry count although {need} of {num} entries suffice");
                }
                if st.out.ok() {
                    let high = after.parts.keys().next_back().copied().unwrap_or(0);
                    ensure!(
                        after.num() >= num.max(128).max(high),
                        "the entry count went from {num} to {} with {high} as the highest id",
                        after.num()
                    );
                    if more {
                        cx.label("grown");
                    }
                }
            }
            if !matches!(st.op, COp::Add { .. } | COp::AddAt { .. } | COp::Map(_) | COp::Reopen { .. }) {
                ensure!(after.num() == num, "the entry count went from {num} to {}", after.num());
            }
            if !st.cfg.ro_backup {
                if let (Ok(p), Ok(b)) = (&after.ph, &after.bh) {
                    ensure!(p.num_parts == b.num_parts, "the copies have {} and {} entries", p.num_parts, b.num_parts);
                }
            }
            if matches!(st.op, COp::Write | COp::Reopen { commit: true, .. }) {
                if num > 128 || s.parts.keys().next_back().is_some_and(|i| *i as usize > s.parts.len()) {
                    cx.nt("write of a grown or sparse table");
                }
                ensure!(
                    *st.out != Out::Err(E::OverflowCount),
                    "a write failed for want of entries ({} of {num} used)",
                    s.used().count()
                );
                ensure!(st.out.ok(), "a write of an accepted table failed: {:?}", st.out);
                // and on the device
                let h = RefHeader::parse(&st.dev1.peek(st.geo.lb(), 92));
                ensure!(h.num == num, "the device has {} entries, memory {num}", h.num);
            }
            Ok(())
        })
        .map(|_| ())
    });
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("A case is a device, a table and up to 12 operations; every refused add or replacement of the map is checked to leave the reported state as it was, and every edit is repeated on a copy with each of its device operations failing in turn. Non-trivial: a refused edit.");
    let p = || {
        let mut p = profile(false);
        p.start = prop_oneof![90 => start_new(), 60 => start_foreign(false, false), 1 => start_crowded()].boxed();
        p.w = [8, 12, 2, 0, 1, 10, 0, 1, 1];
        p.geo = prop_oneof![3 => geo_small(), 1 => geo()].boxed();
        p
    };
    ctx.explore("histories", ctx.cases(150_000, 5_250_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts { want_pre: true }, &mut |st, cx| {
            let (Some(s), Some(after), Some(pre)) = (st.before, st.after, st.pre) else { return Ok(()) };
            if !matches!(st.op, COp::Add { .. } | COp::AddAt { .. } | COp::Map(_)) {
                return Ok(());
            }
            if let Out::Err(e) = st.out {
                cx.nt("refused edit");
                cx.label(match e {
                    E::NoSpace => "refused: no space",
                    E::IdUsed => "refused: id in use",
                    E::CountWouldChange => "refused: entry count",
                    E::Header(_) => "refused: grown table does not fit",
                    _ => "refused: other",
                });
                ensure!(after == s, "refused with {e:?}, but {}", diff_snap(s, after));
                ensure!(st.dev0.same(st.dev1), "a refused edit changed the device");
            }
            // faults of the device during the edit
            for at in 0..8 {
                let mut d = pre.clone();
                d.device_mut().arm(Some(Fault { at, persistent: true, partial: 0, kind: None }));
                let out = apply(&mut d, st.op)?;
                let hit = d.device_ref().fault_hits;
                if hit == 0 {
                    break;
                }
                let now = Snap::of(&d);
                if !out.ok() {
                    cx.nt("refused for a device error");
                    ensure!(now == *s, "{out:?} with device operation {at} failing, but {}", diff_snap(s, &now));
                }
            }
            Ok(())
        })
        .map(|_| ())
    });
}

fn diff_snap(a: &Snap, b: &Snap) -> String {
    let mut v = vec![];
    if a.parts != b.parts {
        v.push(format!("the partitions went from ids {:?} to {:?}", a.parts.keys().collect::<Vec<_>>(), b.parts.keys().collect::<Vec<_>>()));
    }
    if a.ph != b.ph {
        v.push(format!("the primary header went from {:?} to {:?}", a.ph, b.ph));
    }
    if a.bh != b.bh {
        v.push(format!("the backup header went from {:?} to {:?}", a.bh, b.bh));
    }
    if a.guid != b.guid {
        v.push("the GUID changed".into());
    }
    let s = v.join("; ");
    s.chars().take(900).collect()
}

fn random_v4(u: &Uuid) -> bool {
    let b = u.as_bytes();
    b[6] >> 4 == 4 && b[8] >> 6 == 2
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("A case is a device, a table and up to 12 operations with GUID updates made likely; the disk GUID and all partition GUIDs are tracked through every operation and compared with the device after writes. Non-trivial: a write after a GUID update, or two generated GUIDs.");
    let p = || {
        let mut p = Profile::general();
        p.w = [7, 4, 2, 1, 6, 3, 1, 6, 3];
        p
    };
    ctx.explore("histories", ctx.cases(120_000, 4_200_000), || hist(&p()), |h, cx| {
        let mut seen: HashSet<Uuid> = HashSet::new();
        let mut set = false;
        let mut generated = 0;
        let mut fresh = |u: &Uuid, what: &str| -> Result<(), String> {
            ensure!(random_v4(u), "{what} {u} is not a random (version 4) GUID");
            ensure!(seen.insert(*u), "{what} {u} was generated before");
            Ok(())
        };
        run(h, cx, Opts::default(), &mut |st, cx| {
            let after = st.after;
            match (st.op, st.out) {
                (COp::Start, Out::Done) => {
                    let a = after.unwrap();
                    match &h.start {
                        Start::New(Some(g)) => ensure!(a.guid == g.uuid(), "created with GUID {} instead of {}", a.guid, g.uuid()),
                        Start::New(None) => {
                            fresh(&a.guid, "disk GUID")?;
                            let other = create(h.geo.dev(), h.cfg, h.geo.big, None)?.map_err(|e| format!("second creation failed: {e:?}"))?;
                            fresh(other.guid(), "disk GUID")?;
                        }
                        Start::Foreign(f) => ensure!(a.guid == f.guid.uuid(), "opened with GUID {} instead of {}", a.guid, f.guid.uuid()),
                    }
                    if matches!(h.start, Start::New(_)) {
                        for hd in [&a.ph, &a.bh].into_iter().flatten() {
                            ensure!(hd.disk_guid == a.guid, "a new header has GUID {} instead of {}", hd.disk_guid, a.guid);
                        }
                    }
                }
                (COp::SetGuid(g), _) => {
                    let a = after.unwrap();
                    set = true;
                    match g {
                        Some(g) => ensure!(a.guid == *g, "GUID is {} after setting it to {g}", a.guid),
                        None => {
                            generated += 1;
                            fresh(&a.guid, "disk GUID")?
                        }
                    }
                    ensure!(a.parts == st.before.unwrap().parts, "setting the disk GUID changed the partitions");
                }
                (COp::Reopen { commit, .. }, Out::Done) => {
                    let a = after.unwrap();
                    if *commit {
                        ensure!(a.guid == st.before.unwrap().guid, "GUID {} came back as {}", st.before.unwrap().guid, a.guid);
                    } else {
                        let g = RefHeader::parse(&st.dev1.peek(st.geo.lb(), 92)).guid;
                        ensure!(guid_of(&a.guid) == g, "opened with another GUID than the device holds");
                    }
                }
                (COp::Add { .. } | COp::AddAt { .. }, Out::Id(id)) => {
                    generated += 1;
                    let p = after.unwrap().parts.get(id).ok_or("no such partition")?;
                    fresh(&p.part_guid, "partition GUID")?;
                }
                _ => {}
            }
            if generated >= 2 {
                cx.nt("several generated GUIDs");
            }
            if let (Some(s), Some(a)) = (st.before, after) {
                if !matches!(st.op, COp::SetGuid(_) | COp::Reopen { .. }) {
                    ensure!(a.guid == s.guid, "the disk GUID changed from {} to {}", s.guid, a.guid);
                }
                if !matches!(st.op, COp::Map(_) | COp::Reopen { .. } | COp::Take) {
                    for (i, p) in &a.parts {
                        if let (Some(q), false) = (s.parts.get(i), *st.out == Out::Id(*i)) {
                            ensure!(p.part_guid == q.part_guid, "partition {i} changed its GUID");
                        }
                    }
                }
            }
            if st.wrote() {
                if set {
                    cx.nt("write after a GUID update");
                }
                let s = st.before.unwrap();
                let (lb, last) = (st.geo.lb(), st.geo.last());
                for (what, lba) in [("primary", 1), ("backup", last)] {
                    let g = RefHeader::parse(&st.dev1.peek(lba * lb, 92)).guid;
                    ensure!(g == guid_of(&s.guid), "the {what} header holds GUID {} instead of {}", refgpt::guid_text(&g), s.guid);
                }
                let arr = RefHeader::parse(&st.dev1.peek(lb, 92));
                for (k, (_, p)) in s.used().enumerate() {
                    let e = st.dev1.peek(arr.part_start * lb + 128 * k as u64 + 16, 16);
                    ensure!(refgpt::guid_swap(&e) == guid_of(&p.part_guid), "partition GUID {} is stored as {}", p.part_guid, refgpt::guid_text(&refgpt::guid_swap(&e)));
                }
            }
            Ok(())
        })
        .map(|_| ())
    });
}

fn alignment(s: &Snap) -> Option<u64> {
    if s.parts.is_empty() {
        return Some(0);
    }
    if s.used().count() == 0 {
        return None;
    }
    let mut a = 2048;
    while s.used().any(|(_, p)| p.first_lba % a != 0) {
        a /= 2;
    }
    Some(a)
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("A case is a device, a table (also with arbitrary 64-bit extents) and up to 12 operations; after each the reported alignment is compared with the definition. Non-trivial: an expected alignment other than 0, 1 and 2048.");
    let p = || {
        let mut p = profile(true);
        p.w = [10, 5, 4, 0, 0, 6, 1, 1, 1];
        p
    };
    ctx.explore("histories", ctx.cases(150_000, 5_250_000), || (hist(&p()), 0u8..12), |(h, pw), cx| {
        let mut reported = None;
        // most starts at multiples of a power of two
        let mut h = h.clone();
        for o in &mut h.ops {
            if let Op::Add { al, .. } = o {
                if *al == Al::No && *pw < 10 {
                    *al = Al::Pow(*pw);
                }
            }
            if let Op::Map(MapEdit::Wild(v)) = o {
                for (_, f, l) in v {
                    *f &= !((1u64 << *pw) - 1);
                    *l = (*l).max(*f);
                }
            }
        }
        run(&h, cx, Opts::default(), &mut |st, cx| {
            let (Some(s), Some(d)) = (st.after, &st.disk) else { return Ok(()) };
            let got = lib("calculate_alignment", || d.calculate_alignment())?;
            if let Some(want) = alignment(s) {
                if want > 1 && want < 2048 {
                    cx.nt("alignment strictly between 1 and 2048");
                }
                cx.label(match want {
                    0 => "alignment 0",
                    1 => "alignment 1",
                    2048 => "alignment 2048",
                    _ => "alignment 2..1024",
                });
                ensure!(got == want, "alignment reported as {got} instead of {want}; starts {:?}", s.used().map(|(_, p)| p.first_lba).collect::<Vec<_>>());
            }
            if let (COp::Add { align: Some(a), .. }, Out::Id(_), Some(before)) = (st.op, st.out, reported) {
                if *a == before && before > 0 {
                    ensure!(got >= before, "adding with the reported alignment {before} lowered it to {got}");
                    cx.label("added with the reported alignment");
                }
            }
            reported = Some(got);
            Ok(())
        })
        .map(|_| ())
    });
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("A case is a device, a table and up to 14 operations; every removal, take, replacement and next-id query is compared with the same operation on a plain map. Non-trivial: an entry removed from a table that keeps others, or a query on a table with gaps or unused entries.");
    let p = || {
        let mut p = profile(true);
        p.w = [6, 6, 6, 5, 0, 8, 2, 2, 1];
        p.max_ops = 14;
        p
    };
    ctx.explore("histories", ctx.cases(200_000, 7_000_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut |st, cx| {
            if let (Some(s), Some(after)) = (st.before, st.after) {
                let same_headers = || -> Result<(), String> {
                    ensure!(after.ph == s.ph && after.bh == s.bh && after.guid == s.guid, "headers or GUID changed");
                    Ok(())
                };
                match (st.op, st.out) {
                    (COp::Remove(id), Out::Gone(r)) => {
                        let mut m = s.parts.clone();
                        let want = m.remove(id).map(|_| *id);
                        ensure!(*r == want, "removing {id} returned {r:?} instead of {want:?}");
                        ensure!(after.parts == m, "removing {id} left entries {:?} instead of {:?}", after.parts.keys(), m.keys());
                        if want.is_some() && !m.is_empty() {
                            cx.nt("removed one of several");
                        }
                        same_headers()?;
                    }
                    (COp::RemoveGuid(g), Out::Gone(r)) => {
                        let mut m = s.parts.clone();
                        let want = m.iter().find(|(_, p)| p.part_guid == *g).map(|(i, _)| *i);
                        if m.values().filter(|p| p.part_guid == *g).count() > 1 {
                            cx.nt("several entries with the GUID");
                        }
                        if let Some(i) = want {
                            m.remove(&i);
                        }
                        ensure!(*r == want, "removing by GUID returned {r:?} instead of {want:?}");
                        ensure!(after.parts == m, "removing by GUID left entries {:?} instead of {:?}", after.parts.keys(), m.keys());
                        if want.is_some() && !m.is_empty() {
                            cx.nt("removed one of several");
                        }
                        same_headers()?;
                    }
                    (COp::Take, Out::Taken(m)) => {
                        ensure!(*m == s.parts, "taking the partitions returned {:?} of {:?}", m.keys(), s.parts.keys());
                        ensure!(after.parts.is_empty(), "partitions are left after taking them");
                        same_headers()?;
                    }
                    (COp::Map(m), Out::Done) => {
                        ensure!(after.parts == *m, "the map holds {:?} after storing {:?}", after.parts.keys(), m.keys());
                        ensure!(after.guid == s.guid, "replacing the map changed the GUID");
                        cx.label("map replaced");
                    }
                    (COp::Write, _) => ensure!(after.parts == s.parts, "writing changed the partitions in memory"),
                    (COp::SetGuid(_), _) => ensure!(after.parts == s.parts, "setting the GUID changed the partitions"),
                    _ => {}
                }
            }
            if let (Some(s), Some(d)) = (st.after, &st.disk) {
                let got = lib("find_next_partition_id", || d.find_next_partition_id())?;
                let want = (1..=s.num()).find(|i| !s.parts.get(i).is_some_and(used));
                if s.parts.values().any(|p| !used(p)) {
                    cx.nt("next id with unused entries");
                } else if want.is_some_and(|w| s.parts.keys().any(|k| *k > w)) {
                    cx.nt("next id with gaps");
                }
                if want.is_none() {
                    cx.label("no id left");
                }
                ensure!(got == want, "next id is {got:?} instead of {want:?}; ids {:?} of {}", s.parts.keys().collect::<Vec<_>>(), s.num());
            }
            Ok(())
        })
        .map(|_| ())
    });
    let _ = free_runs;
}
