//! What a write puts on the device: C01, C02, C03, C04, C15, C23, C28.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::refgpt::{self, check_disk, RefHeader};
use crate::runner::{lib, Ctx, Cx};
use gpt::header::Header;
use gpt::GptDisk;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn label_hist(h: &Hist, cx: &mut Cx) {
    cx.label(if h.geo.big { "4096-byte blocks" } else { "512-byte blocks" });
    if h.geo.tail != 0 {
        cx.label("trailing partial block");
    }
    if matches!(h.start, Start::Foreign(_)) {
        cx.label("table by another tool");
    }
    if h.geo.blocks > 1 << 32 {
        cx.label("device over 2^32 blocks");
    }
}

/// Labels what had happened to the table that is written.
fn label_write(s: &Snap, st: &Step, cx: &mut Cx) {
    let n = s.used().count();
    if n > 0 {
        cx.nt("write with used partitions");
    }
    if s.num() > 128 {
        cx.label("write of a table with more than 128 entries");
    }
    if s.num() > 1000 {
        cx.label("write of a table with more than 1000 entries");
    }
    if s.num() > 8192 {
        cx.label("write of a table with more than 8192 entries");
    }
    if s.used().any(|(i, _)| *i as usize > n) {
        cx.label("write of a table with gaps");
    }
    if s.used().any(|(_, p)| p.name.encode_utf16().count() > 36) {
        cx.label("name longer than 36 units");
    }
    if st.i > 6 {
        cx.label("write after more than five operations");
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("A case is a device, a configuration, a starting table and up to 12 operations; after every successful write the device is opened afresh and compared with the partitions in memory. Non-trivial: at least one write with a used partition.");
    let p = || {
        let mut p = Profile::general();
        p.cfg = cfg_any();
        p.w = [8, 5, 3, 1, 2, 5, 1, 6, 3];
        p
    };
    ctx.explore("histories", ctx.cases(120_000, 4_200_000), || hist(&p()), |h, cx| {
        label_hist(h, cx);
        run(h, cx, Opts::default(), &mut |st, cx| {
            if !st.wrote() {
                return Ok(());
            }
            let s = st.before.unwrap();
            label_write(s, st, cx);
            // the default configuration has to find the table
            let d = open(st.dev1.clone(), Cfg::RO, st.geo.big)?
                .map_err(|e| format!("the device cannot be opened after the write: {e:?}"))?;
            let want = written_view(s);
            let got = table_view(d.partitions());
            ensure!(got == want, "read back differs: {}", describe_diff(&got, &want));
            ensure!(*d.guid() == s.guid, "disk GUID reads back as {} instead of {}", d.guid(), s.guid);
            Ok(())
        })
        .map(|_| ())
    });
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("A case is a device, a configuration, a starting table and up to 12 operations; after every successful write an independent parser validates both copies and the layout from the raw bytes. Non-trivial: at least one write with a used partition.");
    let p = || {
        let mut p = Profile::general();
        p.w = [8, 6, 3, 1, 1, 6, 1, 6, 2];
        p
    };
    ctx.explore("histories", ctx.cases(120_000, 4_200_000), || hist(&p()), |h, cx| {
        label_hist(h, cx);
        run(h, cx, Opts::default(), &mut |st, cx| {
            if !st.wrote() {
                return Ok(());
            }
            let s = st.before.unwrap();
            label_write(s, st, cx);
            let (p, _) = check_disk(st.dev1, st.geo.lb())?;
            let n = p.entries().len();
            ensure!(n == s.used().count(), "{n} entries on the device, {} used in memory", s.used().count());
            Ok(())
        })
        .map(|_| ())
    });
}

/// The blocks a write may change, from the copies found on the device afterwards.
fn allowed(st: &Step) -> Result<Vec<(u64, u64)>, String> {
    let lb = st.geo.lb();
    let b = st.dev1.peek(lb, 92);
    ensure!(refgpt::header_ok(&b), "no valid primary header after the write");
    let p = RefHeader::parse(&b);
    let mut v = refgpt::copy_regions(&p, lb);
    v[0] = (lb, 2 * lb);
    if !st.cfg.ro_backup {
        let last = st.geo.last();
        let b = st.dev1.peek(last * lb, 92);
        ensure!(refgpt::header_ok(&b), "no valid backup header after the write");
        let b = RefHeader::parse(&b);
        v.extend(refgpt::copy_regions(&b, lb));
        v[2] = (last * lb, (last + 1) * lb);
    }
    Ok(v)
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("A case is a device (usually filled with a pattern), a starting table and up to 12 operations; around every successful write all bytes are compared. Non-trivial: at least one write with a used partition. Writes that would hit the listed finding (grown entry array over a partition) are excluded and counted.");
    let p = || {
        let mut p = Profile::general();
        p.cfg = cfg_any();
        p.w = [8, 6, 3, 1, 1, 6, 1, 6, 2];
        p
    };
    ctx.explore("histories", ctx.cases(120_000, 4_200_000), || hist(&p()), |h, cx| {
        label_hist(h, cx);
        run(h, cx, Opts::default(), &mut |st, cx| c03_step(st, cx)).map(|_| ())
    });
    let strat = || {
        let mut q = p();
        q.max_ops = 4;
        (hist(&q), 0u8..5, any::<u32>(), any::<bool>(), any::<bool>(), proptest::collection::vec(op(&q), 0..4))
            .prop_map(|(h, mode, by, write, map, then)| Moved { h, mode, by, write, map, then })
    };
    ctx.explore("resized devices", ctx.cases(60_000, 2_100_000), strat, c03_resized);
    ctx.known_finding(
        "growth-over-partition",
        "adding entry 129 to a table whose first partition starts right behind the 128-entry array succeeds, and the next write puts the grown array on that partition's first block",
        || {
            let geo = Geo { big: false, blocks: 300, tail: 0, fill: 7, old: 0 };
            let add = |id: u32, pos: Pos| Op::AddAt { id: Id::Raw(id), pos, len: Len::N(1), name: "x".into(), ty: Ty::Known(3), flags: 0 };
            let h = Hist {
                geo,
                cfg: Cfg::GROW,
                start: Start::New(Some(G([9; 16]))),
                ops: vec![add(1, Pos::RunStart { k: 0, off: 0 }), Op::Write, add(129, Pos::RunStart { k: 0, off: 3 }), Op::Write],
            };
            let mut hit = false;
            run(&h, &mut Cx::default(), Opts::default(), &mut |st, _| {
                if st.i == 4 && st.out.ok() {
                    hit = used_changed(st).is_err();
                }
                Ok(())
            })?;
            Ok(hit)
        },
    );
}

/// A disk object that gets a device of another size.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Moved {
    h: Hist,
    mode: u8,
    by: u32,
    /// write before that
    write: bool,
    /// replace the map afterwards (which is how the new size is taken notice of)
    map: bool,
    then: Vec<Op>,
}

fn c03_resized(c: &Moved, cx: &mut Cx) -> Result<(), String> {
    let h = &c.h;
    let Some(mut disk) = run(h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(()) };
    if collides(&Snap::of(&disk), &h.geo) {
        return Ok(());
    }
    if c.write && lib("write_inplace", || disk.write_inplace())?.is_err() {
        return Ok(());
    }
    let old = h.geo;
    let blocks = match c.mode {
        0 => old.blocks + c.by as u64 % 4,
        1 => old.blocks + c.by as u64 % 5000,
        2 => old.blocks.saturating_mul(2 + c.by as u64 % 7).min(1 << 50),
        3 => old.blocks.saturating_sub(1 + c.by as u64 % 40).max(1),
        _ => old.blocks / 2 + c.by as u64 % (old.blocks / 2 + 1) + 1,
    };
    let geo = Geo { blocks, ..old };
    let lb = geo.lb();
    let mut dev = disk.device_ref().clone();
    dev.resize(geo.len());
    lib("update_disk_device", || disk.update_disk_device(dev, true))?;
    if c.map {
        let m = disk.partitions().clone();
        if lib("update_partitions", || disk.update_partitions(m))?.is_err() {
            return Ok(());
        }
    }
    for o in &c.then {
        let s = Snap::of(&disk);
        let cop = concrete(o, &s, &geo, h.cfg, &disk)?;
        if !matches!(cop, COp::Reopen { .. } | COp::Write) {
            apply(&mut disk, &cop)?;
        }
    }
    let s = Snap::of(&disk);
    if s.outside() {
        return Ok(());
    }
    let dev0 = disk.device_ref().clone();
    if lib("write_inplace", || disk.write_inplace())?.is_err() {
        cx.label("does not fit");
        return Ok(());
    }
    let a = Snap::of(&disk);
    let mut ok = vec![];
    for (h, written) in [(&a.ph, true), (&a.bh, !h.cfg.ro_backup)] {
        if let (Ok(h), true) = (h, written) {
            ok.push((h.current_lba * lb, (h.current_lba + 1) * lb));
            ok.push((h.part_start * lb, h.part_start * lb + h.num_parts as u64 * 128));
        }
    }
    if s.used().count() > 0 && blocks != old.blocks {
        cx.nt(match (blocks > old.blocks, c.map) {
            (true, true) => "enlarged, noticed",
            (true, false) => "enlarged",
            (false, true) => "shrunk, noticed",
            (false, false) => "shrunk",
        });
    }
    for (x, y) in dev0.diff(disk.device_ref()) {
        let mut at = x;
        while at < y {
            match ok.iter().find(|(p, q)| *p <= at && at < *q) {
                Some((_, q)) => at = *q,
                None => return Err(format!("byte {at} (LBA {}) is no metadata of the written table and was changed; metadata: {ok:?}, {} blocks before, {blocks} now", at / lb, old.blocks)),
            }
        }
    }
    Ok(())
}

fn used_changed(st: &Step) -> Result<(), String> {
    let lb = st.geo.lb();
    let s = st.before.unwrap();
    for (a, b) in st.dev0.diff(st.dev1) {
        if let Some((i, p)) = s.used().find(|(_, p)| p.first_lba <= (b - 1) / lb && p.last_lba >= a / lb) {
            return Err(format!("bytes {a}..{b} belong to partition {i} ({}..={}) and were changed", p.first_lba, p.last_lba));
        }
    }
    Ok(())
}

fn c03_step(st: &mut Step, cx: &mut Cx) -> Result<(), String> {
    if !st.wrote() {
        return Ok(());
    }
    let s = st.before.unwrap();
    if s.outside() {
        if collides(s, st.geo) {
            cx.excluded += 1;
            cx.label("excluded: grown array over a partition");
        }
        return Ok(());
    }
    label_write(s, st, cx);
    used_changed(st)?;
    let ok = allowed(st)?;
    for (a, b) in st.dev0.diff(st.dev1) {
        // every changed byte must be in an allowed range
        let mut at = a;
        while at < b {
            match ok.iter().find(|(x, y)| *x <= at && at < *y) {
                Some((_, y)) => at = *y,
                None => return Err(format!("byte {at} (LBA {}) is no metadata of the written table and was changed; metadata: {ok:?}", at / st.geo.lb())),
            }
        }
    }
    let lb = st.geo.lb();
    let h = s.header();
    for (x, y) in &ok {
        ensure!(
            *y <= h.first_usable * lb || *x > h.last_usable * lb,
            "metadata was written at {x}..{y}, inside the usable range {}..={}",
            h.first_usable,
            h.last_usable
        );
    }
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("A case is a device, a configuration (writable or not), a starting table and up to 12 operations; the device's write counter and bytes are compared around every operation, then the device is replaced read-only. Non-trivial: at least one accepted edit and one attempted write.");
    let p = || {
        let mut p = Profile::general();
        p.cfg = (any::<bool>(), any::<bool>(), any::<bool>())
            .prop_map(|(writable, change, ro_backup)| Cfg { writable, only_valid: false, ro_backup, change })
            .boxed();
        p.recfg = proptest::option::of(p.cfg.clone()).boxed();
        p.w = [8, 6, 3, 1, 2, 4, 1, 4, 3];
        p
    };
    ctx.explore("histories", ctx.cases(80_000, 2_800_000), || (hist(&p()), 0u8..4, prop_oneof![2 => Just(None), 1 => (0u64..80).prop_map(Some)]), |(h, end, size), cx| {
        label_hist(h, cx);
        let (mut edited, mut tried) = (false, false);
        let disk = run(h, cx, Opts { want_pre: true }, &mut |st, cx| {
            let writes = st.dev1.n_write - st.dev0.n_write;
            let changed = !st.dev0.same(st.dev1);
            match st.op {
                COp::Write | COp::Reopen { commit: true, .. } => {
                    tried = true;
                    if st.cfg.writable {
                        return Ok(());
                    }
                    cx.label("write refused");
                    ensure!(*st.out == Out::Err(E::ReadOnly), "a write of a disk that is not writable gave {:?}", st.out);
                    if let COp::Reopen { .. } = st.op {
                        // the device is gone with the refused write; look at it through a copy
                        let mut d = st.pre.unwrap().clone();
                        let r = lib("write_inplace", || d.write_inplace())?;
                        ensure!(r.is_err(), "write_inplace succeeded where write was refused");
                        ensure!(d.device_ref().n_write == st.dev0.n_write && d.device_ref().same(st.dev0), "a refused write changed the device");
                    }
                }
                COp::Start | COp::Reopen { .. } => {}
                _ => edited |= st.out.ok(),
            }
            ensure!(writes == 0 && !changed, "{writes} device writes by {}", brief(st.op, st.out));
            if let (Some(pre), COp::Write) = (st.pre, st.op) {
                ensure!(Snap::of(pre).parts == st.after.unwrap().parts, "a refused write changed the partitions");
                ensure!(st.cfg.writable || Snap::of(pre) == *st.after.unwrap(), "a write refused as read-only changed the reported headers");
            }
            // queries, cloning and dropping
            if let Some(d) = &mut st.disk {
                let before = d.device_ref().n_write;
                lib("queries", || {
                    let _ = d.find_free_sectors();
                    let _ = d.find_next_partition_id();
                    let _ = d.calculate_alignment();
                    let _ = d.logical_block_size();
                    let _ = format!("{d:?}");
                })?;
                ensure!(d.device_ref().n_write == before, "a query wrote to the device");
            }
            Ok(())
        })?;
        if edited && tried {
            cx.nt("edited and attempted to write");
        }
        let Some(mut disk) = disk else { return Ok(()) };
        // also one that could not be written for another reason
        let fresh = match size {
            None => h.geo.dev(),
            Some(n) => Dev::new(n * h.geo.lb() / 2, h.geo.fill),
        };
        if size.is_some() {
            cx.label("replaced by a small device");
        }
        let (ro, rw) = (end & 1 == 0, end & 2 == 0);
        // replaced by a device that may not be written
        let old = disk.device_ref().clone();
        let back = lib("update_disk_device", || disk.update_disk_device(fresh.clone(), !ro))?;
        ensure!(back.same(&old) && back.n_write == old.n_write, "update_disk_device wrote to the old device");
        ensure!(disk.device_ref().n_write == 0, "update_disk_device wrote to the new device");
        if ro {
            cx.label("device replaced read-only");
            let before = Snap::of(&disk);
            let r = lib("write_inplace", || disk.write_inplace())?.map_err(|e| E::from(&e));
            ensure!(r == Err(E::ReadOnly), "write to a device bound read-only gave {r:?}");
            ensure!(disk.device_ref().n_write == 0 && disk.device_ref().same(&fresh), "write to a device bound read-only changed it");
            ensure!(Snap::of(&disk) == before, "a write refused as read-only changed the disk object");
        }
        let mut other = lib("with_disk_device", || disk.with_disk_device(fresh.clone(), rw))?;
        ensure!(other.device_ref().n_write == 0, "with_disk_device wrote to the device");
        if !rw {
            let r = lib("write_inplace", || other.write_inplace())?.map_err(|e| E::from(&e));
            ensure!(r == Err(E::ReadOnly), "write to a device bound read-only gave {r:?}");
            ensure!(other.device_ref().same(&fresh), "write to a device bound read-only changed it");
            let r = lib("write", || other.write())?.map_err(|e| E::from(&e));
            ensure!(matches!(r, Err(E::ReadOnly)), "write of a disk bound read-only gave {r:?}");
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoCase {
    h: Hist,
    /// damage before opening: nothing; primary header byte, zeroed header, array byte; the same
    /// (4..=6) for the backup
    damage: u8,
    at: u16,
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("A case is a device with a valid table (made here or by another tool), optionally damage to one of its copies, and up to 10 operations with the backup configured read-only; the backup's header block and entry array are compared after every operation, and the primary copy is validated after every write. Non-trivial: a successful write after an edit.");
    let p = || {
        let mut p = Profile::general();
        p.cfg = any::<bool>().prop_map(|change| Cfg { writable: true, only_valid: false, ro_backup: true, change }).boxed();
        p.start = prop_oneof![2 => start_new(), 4 => start_foreign(false, true), 1 => start_stale(false)].boxed();
        p.w = [8, 6, 3, 1, 2, 6, 1, 6, 2];
        p.max_ops = 10;
        p
    };
    ctx.explore(
        "histories",
        ctx.cases(80_000, 2_800_000),
        || (hist(&p()), prop_oneof![3 => Just(0u8), 2 => 1u8..7], any::<u16>()).prop_map(|(h, damage, at)| RoCase { h, damage, at }),
        |c, cx| {
            let h = &c.h;
            label_hist(h, cx);
            let geo = &h.geo;
            let lb = geo.lb();
            // a device with two valid copies
            let mut d = geo.dev();
            match &h.start {
                Start::Foreign(f) => {
                    f.install(geo, &mut d);
                }
                Start::New(g) => {
                    let Ok(mut k) = create(d, Cfg::RW, geo.big, g.map(|g| g.uuid()))? else {
                        return Err("a table cannot be created on this device".into());
                    };
                    lib("add", || k.add_partition("first", lb, Ty::Known(4).get(), 0, None).map(|_| ()))?.ok();
                    lib("write", || k.write_inplace())?.map_err(|e| format!("write: {e}"))?;
                    d = k.take_device();
                }
            }
            let last = geo.last();
            let back = RefHeader::parse(&d.peek(last * lb, 92));
            let region = |d: &Dev| {
                let mut v = d.peek(last * lb, lb as usize);
                v.extend(d.peek(back.part_start * lb, back.array_bytes() as usize));
                v
            };
            let prim = RefHeader::parse(&d.peek(lb, 92));
            match c.damage {
                1 => d.poke(lb + c.at as u64 % 92, &[!d.peek(lb + c.at as u64 % 92, 1)[0]]),
                2 => d.poke(lb, &vec![0; lb as usize]),
                3 => {
                    let o = prim.part_start * lb + c.at as u64 % prim.array_bytes();
                    d.poke(o, &[!d.peek(o, 1)[0]]);
                }
                4 => d.poke(last * lb + c.at as u64 % 92, &[!d.peek(last * lb + c.at as u64 % 92, 1)[0]]),
                5 => d.poke(last * lb, &vec![0; lb as usize]),
                6 => {
                    let o = back.part_start * lb + c.at as u64 % back.array_bytes();
                    d.poke(o, &[!d.peek(o, 1)[0]]);
                }
                _ => {}
            }
            match c.damage {
                1..=3 => cx.label("primary copy damaged"),
                4.. => cx.label("backup copy damaged"),
                _ => {}
            }
            let keep = region(&d);
            let mut disk = match open(d, h.cfg, geo.big)? {
                Ok(d) => d,
                Err(e) => return Err(format!("the disk cannot be opened although a copy is intact: {e:?}")),
            };
            let mut edited = false;
            for (i, o) in h.ops.iter().enumerate() {
                let s = Snap::of(&disk);
                let cop = concrete(o, &s, geo, h.cfg, &disk)?;
                let (out, dev) = match &cop {
                    COp::Reopen { commit, .. } => {
                        let dev = if *commit {
                            match lib("write", || disk.write())? {
                                Ok(d) => d,
                                Err(e) => return Err(format!("step {i}: write failed: {e}")),
                            }
                        } else {
                            disk.take_device()
                        };
                        let o = open(dev.clone(), h.cfg, geo.big)?;
                        disk = match o {
                            Ok(d) => d,
                            Err(e) => return Err(format!("step {i}: reopening failed: {e:?}")),
                        };
                        (Out::Done, dev)
                    }
                    c => {
                        let o = apply(&mut disk, c)?;
                        (o, disk.device_ref().clone())
                    }
                };
                ensure!(region(&dev) == keep, "step {i} ({}) changed the backup's header block or entry array", brief(&cop, &out));
                let wrote = matches!(cop, COp::Write | COp::Reopen { commit: true, .. });
                if wrote && out.ok() {
                    if edited {
                        cx.nt("written after an edit");
                    }
                    let p = refgpt::read_copy(&dev, lb, 1, last).map_err(|e| format!("step {i}: primary copy after the write: {e}"))?;
                    let want: Vec<View> = s.expected();
                    let got: Vec<View> = p.entries().iter().map(|(_, e)| View::of_ref(e)).collect();
                    ensure!(got == want, "step {i}: the primary array does not hold the new table");
                    let r = open(dev, Cfg::RO, geo.big)?.map_err(|e| format!("step {i}: reopening failed: {e:?}"))?;
                    let (got, want) = (table_view(r.partitions()), written_view(&s));
                    ensure!(got == want, "step {i}: the disk reads back differently: {}", describe_diff(&got, &want));
                    ensure!(*r.guid() == s.guid, "step {i}: the disk GUID reads back differently");
                } else if wrote {
                    return Err(format!("step {i}: write failed: {out:?}"));
                } else if out.ok() {
                    edited = true;
                }
            }
            Ok(())
        },
    );
    ctx.assume("at least one copy is valid when the disk is opened");
}

fn same_header(h: &Header, r: &RefHeader) -> Result<(), String> {
    let rev = (r.revision >> 16) as u16;
    let checks: [(&str, u64, u64); 12] = [
        ("revision", (h.revision.0 as u64) << 16 | h.revision.1 as u64, (rev as u64) << 16 | (r.revision & 0xffff) as u64),
        ("header size", h.header_size_le as u64, r.header_size as u64),
        ("crc32", h.crc32 as u64, r.crc as u64),
        ("reserved", h.reserved as u64, r.reserved as u64),
        ("current_lba", h.current_lba, r.my_lba),
        ("backup_lba", h.backup_lba, r.alt_lba),
        ("first_usable", h.first_usable, r.first_usable),
        ("last_usable", h.last_usable, r.last_usable),
        ("part_start", h.part_start, r.part_start),
        ("num_parts", h.num_parts as u64, r.num as u64),
        ("part_size", h.part_size as u64, r.size as u64),
        ("crc32_parts", h.crc32_parts as u64, r.crc_parts as u64),
    ];
    for (n, a, b) in checks {
        ensure!(a == b, "{n} is {a:#x} in memory and {b:#x} on the device");
    }
    ensure!(guid_of(&h.disk_guid) == r.guid, "disk GUID differs from the one on the device");
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("A case is a device, a configuration, a starting table and up to 12 operations; after every successful write the reported headers are compared with the bytes on the device and the write is repeated, from the same object and from a freshly opened one. Non-trivial: at least one write with a used partition.");
    let p = || {
        let mut p = Profile::general();
        p.cfg = cfg_any();
        p.w = [8, 5, 3, 1, 2, 5, 1, 6, 2];
        p
    };
    ctx.explore("histories", ctx.cases(80_000, 2_800_000), || hist(&p()), |h, cx| {
        label_hist(h, cx);
        run(h, cx, Opts::default(), &mut |st, cx| {
            if !st.wrote() {
                return Ok(());
            }
            let (lb, last) = (st.geo.lb(), st.geo.last());
            label_write(st.before.unwrap(), st, cx);
            let s = st.after.unwrap();
            let p = RefHeader::parse(&st.dev1.peek(lb, 92));
            let b = RefHeader::parse(&st.dev1.peek(last * lb, 92));
            let ph = s.ph.as_ref().map_err(|e| format!("no primary header after a write: {e}"))?;
            same_header(ph, &p).map_err(|e| format!("primary header: {e}"))?;
            if !st.cfg.ro_backup {
                let bh = s.bh.as_ref().map_err(|e| format!("no backup header after a write: {e}"))?;
                same_header(bh, &b).map_err(|e| format!("backup header: {e}"))?;
            }
            // opening finds the same headers
            let fresh = open(st.dev1.clone(), Cfg { writable: true, ..st.cfg }, st.geo.big)?
                .map_err(|e| format!("reopening: {e:?}"))?;
            let f = Snap::of(&fresh);
            if st.cfg.ro_backup && s.bh.is_ok() {
                // it was not written, so it is what it was
                same_header(s.bh.as_ref().unwrap(), &b).map_err(|e| format!("backup header (read-only): {e}"))?;
                cx.label("read-only backup reported");
            }
            ensure!(f.ph == s.ph, "opening finds primary header {:?}, in memory {:?}", f.ph, s.ph);
            if !st.cfg.ro_backup {
                ensure!(f.bh == s.bh, "opening finds backup header {:?}, in memory {:?}", f.bh, s.bh);
            }
            // writing again, here and from the fresh object, changes nothing
            for (what, mut d) in [("same object", st.disk.as_ref().unwrap().clone_disk()), ("reopened disk", fresh)] {
                // a name with a NUL is stored whole and read back up to it
                let reopened = what == "reopened disk" || matches!(st.op, COp::Reopen { .. });
                if reopened && (s.nul_names() || st.before.unwrap().nul_names()) {
                    continue;
                }
                lib("write_inplace", || d.write_inplace())?.map_err(|e| format!("repeated write ({what}): {e}"))?;
                let diff = d.device_ref().diff(st.dev1);
                ensure!(diff.is_empty(), "repeated write ({what}) changed bytes {:?}", &diff[..diff.len().min(4)]);
            }
            Ok(())
        })
        .map(|_| ())
    });
}

trait CloneDisk {
    fn clone_disk(&self) -> GptDisk<Dev>;
}
impl CloneDisk for &mut GptDisk<Dev> {
    fn clone_disk(&self) -> GptDisk<Dev> {
        (**self).clone()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ForkCase {
    h: Hist,
    /// 0 clone, 1 with_disk_device on an identical device, 2 on a blank one of the same size
    how: u8,
    writable: bool,
    then: Vec<(bool, Op)>,
    mirrored: Vec<Op>,
}

/// The state with the random partition GUIDs blotted out.
fn faceless(s: &Snap) -> Snap {
    let mut s = s.clone();
    for p in s.parts.values_mut() {
        p.part_guid = uuid::Uuid::nil();
    }
    s
}

pub fn c28(ctx: &Ctx) {
    ctx.rule("A case is a history, then a copy of the disk object (clone, or bound to another device of the same size), then operations interleaved on both, or mirrored on both. Non-trivial: at least two accepted operations after the copy was made.");
    let p = |wild: bool| {
        let mut p = Profile::general();
        p.cfg = (any::<bool>(), any::<bool>()).prop_map(|(change, ro_backup)| Cfg { writable: true, only_valid: false, ro_backup, change }).boxed();
        p.max_ops = 6;
        p.wild = wild;
        if wild {
            p.start = prop_oneof![1 => start_new(), 1 => start_foreign(true, true)].boxed();
        }
        p
    };
    let of = |wild: bool| {
        (
            hist(&p(wild)),
            0u8..3,
            proptest::bool::weighted(0.9),
            proptest::collection::vec((any::<bool>(), op(&p(wild))), 0..8),
            proptest::collection::vec(op(&p(wild)), 0..5),
        )
            .prop_map(|(h, how, writable, then, mirrored)| ForkCase { h, how, writable, then, mirrored })
    };
    let strat = || prop_oneof![3 => of(false), 1 => of(true)];
    ctx.explore("forks", ctx.cases(80_000, 2_800_000), strat, |c, cx| {
        let h = &c.h;
        label_hist(h, cx);
        let geo = &h.geo;
        let Some(orig) = run(h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(()) };
        let cfg = h.cfg;
        let fork = |d: &GptDisk<Dev>| -> Result<GptDisk<Dev>, String> {
            match c.how {
                0 => lib("clone", || d.clone()),
                1 => lib("with_disk_device", || d.with_disk_device(d.device_ref().clone(), c.writable)),
                _ => lib("with_disk_device", || d.with_disk_device(geo.dev(), c.writable)),
            }
        };
        cx.label(["clone", "same device contents", "blank device"][c.how as usize % 3]);
        let can_write = c.how == 0 || c.writable;
        let copy = fork(&orig)?;
        ensure!(Snap::of(&copy) == Snap::of(&orig), "the copy does not start with the original's state");
        ensure!(copy.logical_block_size() == orig.logical_block_size(), "the copy has another block size");

        // written at once, both put the same table on their devices
        if can_write {
            let (mut a, mut b) = (orig.clone(), fork(&orig)?);
            if c.how == 2 {
                let _ = lib("update_disk_device", || a.update_disk_device(geo.dev(), true))?;
            }
            let ra = lib("write_inplace", || a.write_inplace())?.map_err(|e| E::from(&e));
            let rb = lib("write_inplace", || b.write_inplace())?.map_err(|e| E::from(&e));
            ensure!(ra == rb, "the original's write gave {ra:?}, the copy's {rb:?}");
            let diff = a.device_ref().diff(b.device_ref());
            ensure!(diff.is_empty(), "original and copy write different bytes at {:?}", &diff[..diff.len().min(4)]);
            ensure!(Snap::of(&a) == Snap::of(&b), "original and copy report different states after a write");
        } else {
            let mut b = fork(&orig)?;
            let r = lib("write_inplace", || b.write_inplace())?.map_err(|e| E::from(&e));
            ensure!(r == Err(E::ReadOnly), "a copy bound read-only wrote: {r:?}");
        }

        // mirrored edits have the same outcome on both
        {
            let (mut a, mut b) = (orig.clone(), fork(&orig)?);
            for o in &c.mirrored {
                let s = Snap::of(&a);
                let cop = concrete(o, &s, geo, cfg, &a)?;
                if matches!(cop, COp::Reopen { .. } | COp::Write | COp::RemoveGuid(_) | COp::SetGuid(None)) {
                    continue;
                }
                let (x, y) = (apply(&mut a, &cop)?, apply(&mut b, &cop)?);
                if let (Out::Taken(_), Out::Taken(_)) = (&x, &y) {
                } else {
                    ensure!(x == y, "{}: original gave {x:?}, copy gave {y:?}", brief(&cop, &x));
                }
                let (x, y) = (faceless(&Snap::of(&a)), faceless(&Snap::of(&b)));
                ensure!(x == y, "{}: original and copy differ afterwards", brief(&cop, &Out::Done));
            }
        }

        // interleaved edits stay on their side
        let mut d = [orig, copy];
        let mut n = 0;
        for (side, o) in &c.then {
            let k = *side as usize;
            let s = Snap::of(&d[k]);
            let cop = concrete(o, &s, geo, cfg, &d[k])?;
            if matches!(cop, COp::Reopen { .. }) {
                continue;
            }
            let other = (Snap::of(&d[1 - k]), d[1 - k].device_ref().clone());
            let out = apply(&mut d[k], &cop)?;
            n += out.ok() as u32;
            ensure!(Snap::of(&d[1 - k]) == other.0, "{} on one disk changed the other's state", brief(&cop, &out));
            ensure!(d[1 - k].device_ref().same(&other.1), "{} on one disk changed the other's device", brief(&cop, &out));
            if k == 1 && !can_write && matches!(cop, COp::Write) {
                ensure!(out == Out::Err(E::ReadOnly), "a copy bound read-only wrote: {out:?}");
            }
        }
        if n >= 2 {
            cx.nt("edited after copying");
        }

        // replacing the device
        let [mut a, mut b] = d;
        let (s, dev) = (Snap::of(&a), a.device_ref().clone());
        let mut marked = geo.dev();
        marked.poke(0, b"the new device");
        let old = lib("update_disk_device", || a.update_disk_device(marked.clone(), c.writable))?;
        ensure!(old.same(&dev), "update_disk_device returned another device than the previous one");
        ensure!(a.device_ref().same(&marked), "update_disk_device did not install the given device");
        ensure!(Snap::of(&a) == s, "update_disk_device changed the table in memory");
        let r = lib("write_inplace", || a.write_inplace())?.map_err(|e| E::from(&e));
        if !c.writable {
            ensure!(r == Err(E::ReadOnly), "write after replacing the device read-only gave {r:?}");
        } else {
            // what the previous device would have got
            let mut w = lib("with_disk_device", || b.with_disk_device(geo.dev(), true))?;
            std::mem::swap(&mut b, &mut w);
            ensure!(r != Err(E::ReadOnly), "write after replacing the device writable was refused as read-only");
        }
        ensure!(old.same(&dev), "writing changed the previous device");
        Ok(())
    });
}
