//! Tables made elsewhere, and devices of every size: C27, C30.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::refgpt::{self, check_disk, RefHeader};
use crate::runner::{known_listed, lib, Ctx, Cx};
use gpt::header::Header;
use gpt::partition::Partition;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ForeignCase {
    geo: Geo,
    cfg: Cfg,
    table: Foreign,
    /// 0 both copies, 1 the primary header is gone, 2 the backup header is gone
    lost: u8,
    ops: Vec<Op>,
}

fn fields(h: &Header, r: &RefHeader, what: &str) -> Result<(), String> {
    let pairs: [(&str, u64, u64); 7] = [
        ("own LBA", h.current_lba, r.my_lba),
        ("alternate LBA", h.backup_lba, r.alt_lba),
        ("first usable LBA", h.first_usable, r.first_usable),
        ("last usable LBA", h.last_usable, r.last_usable),
        ("array position", h.part_start, r.part_start),
        ("entry count", h.num_parts as u64, r.num as u64),
        ("entry size", h.part_size as u64, r.size as u64),
    ];
    for (n, a, b) in pairs {
        ensure!(a == b, "{what}: {n} is reported as {a} instead of {b}");
    }
    ensure!(guid_of(&h.disk_guid) == r.guid, "{what}: disk GUID is reported as {}", h.disk_guid);
    Ok(())
}

/// The used partitions whose blocks differ between the two devices.
fn overwritten(a: &Dev, b: &Dev, lb: u64, s: &Snap) -> Option<String> {
    for (x, y) in a.diff(b) {
        for (id, p) in s.used() {
            let (f, l) = (p.first_lba.min(p.last_lba) as u128 * lb as u128, (p.first_lba.max(p.last_lba) as u128 + 1) * lb as u128);
            if (x as u128) < l && y as u128 > f {
                return Some(format!("bytes {x}..{y} of partition {id} (blocks {}..={})", p.first_lba, p.last_lba));
            }
        }
    }
    None
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("A case is a table laid out by another tool (entry count 4 to 512, rarely thousands, arrays and usable range anywhere they fit, gaps between the entries, unused entries with leftovers, either order on disk, sometimes only one copy readable), a configuration and up to 8 operations. What is opened is compared with the bytes, and every successful write with what was in memory and with the layout the table came with. Non-trivial: a write of a table with a used partition.");
    let known = known_listed(&ctx.id, "growth-over-partition");
    let strat = || {
        let mut p = Profile::general();
        p.cfg = (any::<bool>(), proptest::bool::weighted(0.2))
            .prop_map(|(change, ro)| Cfg { writable: true, only_valid: false, ro_backup: ro, change })
            .boxed();
        p.w = [6, 5, 3, 1, 1, 4, 1, 7, 3];
        (
            geo(),
            p.cfg.clone(),
            prop_oneof![160 => foreign(false), 40 => stale(false), 1 => large()],
            prop_oneof![5 => Just(0u8), 1 => Just(1), 1 => Just(2)],
            (proptest::collection::vec(op(&p), 0..9), proptest::option::weighted(0.3, 0u8..50)),
        )
            .prop_map(|(mut geo, cfg, table, lost, (ops, tiny))| ForeignCase {
                geo: {
                    if let Some(n) = tiny {
                        tighten(&mut geo, &table, n);
                    }
                    geo
                },
                // a read-only backup is only sound while it is there
                cfg: Cfg { ro_backup: cfg.ro_backup && lost == 0, ..cfg },
                table,
                lost,
                ops,
            })
    };
    ctx.explore("tables", ctx.cases(120_000, 4_200_000), strat, |c, cx| foreign_case(c, known, cx));
    ctx.known_finding(
        "growth-over-partition",
        "growing the entry count of a table whose partitions lie next to the entry array puts the array over them (32 blocks from LBA 2 over a partition at LBA 10)",
        || {
            let geo = Geo { big: false, blocks: 200, tail: 0, fill: 3, old: 0 };
            let part = FPart {
                slot: 0,
                gap: 7,
                len: 20,
                ty: G([1; 16]),
                guid: G([2; 16]),
                flags: 0,
                name: "data".into(),
                unused: false,
            };
            let table = Foreign {
                guid: G([9; 16]),
                num: 4,
                gap_p: 0,
                gap_u: 0,
                gap_l: 0,
                gap_b: 0,
                parts: vec![part],
                wild: vec![],
                descending: false,
                stale: None,
            };
            let mut d0 = geo.dev();
            table.install(&geo, &mut d0);
            let mut g = open(d0.clone(), Cfg::GROW, false)?.map_err(|e| format!("{e:?}"))?;
            let r = lib("add", || g.add_partition_at("n", 5, 100, 1, Ty::Known(3).get(), 0).is_ok())?;
            let s = Snap::of(&g);
            let w = lib("write", || g.write_inplace().is_ok())?;
            Ok(r && w && overwritten(&d0, g.device_ref(), 512, &s).is_some())
        },
    );
}

fn foreign_case(c: &ForeignCase, known: bool, cx: &mut Cx) -> Result<(), String> {
    let geo = &c.geo;
    let (lb, last) = (geo.lb(), geo.last());
    let mut d = geo.dev();
    let t = c.table.install(geo, &mut d);
    if t.prim.num < 128 {
        cx.label("fewer than 128 entries");
    }
    if t.prim.num > 128 {
        cx.label("more than 128 entries");
    }
    if t.prim.num > 8192 {
        cx.label("more than 8192 entries");
    }
    if t.prim.part_start > 2 {
        cx.label("array not at LBA 2");
    }
    if t.prim.first_usable > 2 + geo.arr(t.prim.num as u64) {
        cx.label("reserved blocks before the usable range");
    }
    if t.back.part_start > t.prim.last_usable + 1 {
        cx.label("reserved blocks after the usable range");
    }
    match c.lost {
        1 => {
            d.poke(lb, &[0; 8]);
            cx.label("only the backup copy");
        }
        2 => {
            d.poke(last * lb, &[0; 8]);
            cx.label("only the primary copy");
        }
        _ => {}
    }
    let mut disk = open(d.clone(), c.cfg, geo.big)?.map_err(|e| format!("a coherent table is refused: {e:?}"))?;

    // what it finds is what is there: the primary copy, or the backup if that is lost
    let (src, entries) = if c.lost == 1 { (&t.back, &t.back_entries) } else { (&t.prim, &t.entries) };
    if c.table.stale.is_some() {
        cx.label("the copies differ");
    }
    let s = Snap::of(&disk);
    let want: Vec<(u32, View)> =
        entries.iter().filter(|(_, e)| e.encode() != [0; 128]).map(|(i, e)| (*i, View::of_ref(e))).collect();
    let got = table_view(&s.parts);
    ensure!(got == want, "opened: {}", describe_diff(&got, &want));
    for (p, (_, v)) in s.parts.values().zip(&want) {
        ensure!(p.is_used() == !v.ty.is_nil(), "is_used() of {v:?} is {}", p.is_used());
    }
    match (&s.ph, c.lost == 1) {
        (Ok(h), false) => fields(h, &t.prim, "primary header")?,
        (Err(_), true) => {}
        (Ok(_), true) => return Err("a destroyed primary header is reported as valid".into()),
        (Err(e), false) => return Err(format!("the primary header is reported as {e}")),
    }
    match (&s.bh, c.lost == 2) {
        (Ok(h), false) => fields(h, &t.back, "backup header")?,
        (Err(_), true) => {}
        (Ok(_), true) => return Err("a destroyed backup header is reported as valid".into()),
        (Err(e), false) => return Err(format!("the backup header is reported as {e}")),
    }
    fields(disk.header(), src, "header")?;
    ensure!(guid_of(disk.guid()) == src.guid, "disk GUID is {}", disk.guid());

    let mut guid = *disk.guid();
    // entry count the table should have
    let mut num = src.num;
    for (i, o) in c.ops.iter().enumerate() {
        let s = Snap::of(&disk);
        let cop = concrete(o, &s, geo, c.cfg, &disk)?;
        let dev0 = disk.device_ref().clone();
        let at = |m: String, out: &Out| Err(format!("step {} ({}): {m}", i + 1, brief(&cop, out)));
        match &cop {
            COp::Write | COp::Reopen { commit: true, .. } => {
                if s.used().count() > s.num() as usize {
                    // replaced by a map without room; cannot happen (C08)
                    return at(format!("{} used partitions, {} entries", s.used().count(), s.num()), &Out::Done);
                }
                let grown = num > src.num;
                if grown && collides(&s, geo) && known {
                    cx.excluded += 1;
                    cx.label("listed finding avoided");
                    return Ok(());
                }
                if let Err(e) = lib("write_inplace", || disk.write_inplace())? {
                    return at(format!("the write failed: {e}"), &Out::Done);
                }
                let dev1 = disk.device_ref().clone();
                if let Some(m) = overwritten(&dev0, &dev1, lb, &s) {
                    return at(format!("the write changed {m}"), &Out::Done);
                }
                let p = if c.cfg.ro_backup {
                    match refgpt::read_copy(&dev1, lb, 1, last) {
                        Ok(p) => p,
                        Err(m) => return at(m, &Out::Done),
                    }
                } else {
                    match check_disk(&dev1, lb) {
                        Ok((p, _)) => p,
                        Err(m) => return at(m, &Out::Done),
                    }
                };
                let h = &p.header;
                if h.guid != guid_of(&guid) {
                    return at(format!("the disk GUID on the device is {}", refgpt::guid_text(&h.guid)), &Out::Done);
                }
                if h.num != num {
                    return at(format!("the table has {} entries instead of {num}", h.num), &Out::Done);
                }
                let a = geo.arr(num as u64);
                let usable = if grown {
                    (src.first_usable.max(2 + a), src.last_usable.min(last - a - 1))
                } else {
                    (src.first_usable, src.last_usable)
                };
                if (h.first_usable, h.last_usable) != usable {
                    return at(
                        format!("the usable range is {}..{} instead of {usable:?}", h.first_usable, h.last_usable),
                        &Out::Done,
                    );
                }
                let got: Vec<View> = p.entries().iter().map(|(_, e)| View::of_ref(e)).collect();
                if got != s.expected() {
                    return at("the array does not hold the partitions in memory".into(), &Out::Done);
                }
                if s.used().count() > 0 {
                    cx.nt("written back");
                }
                if i == 0 {
                    cx.label("written back unedited");
                }
                if grown {
                    cx.label("written back with more entries");
                }
                let dev = dev1.clone();
                if matches!(cop, COp::Reopen { .. }) {
                    disk = match open(dev, c.cfg, geo.big)? {
                        Ok(d) => d,
                        Err(e) => return at(format!("reopening: {e:?}"), &Out::Done),
                    };
                    guid = *disk.guid();
                    // the backup keeps the old table when it is read-only
                }
            }
            COp::Reopen { commit: false, .. } => {
                disk = match open(dev0, c.cfg, geo.big)? {
                    Ok(d) => d,
                    Err(e) => return at(format!("reopening: {e:?}"), &Out::Done),
                };
                guid = *disk.guid();
                num = disk.header().num_parts;
            }
            op => {
                let out = apply(&mut disk, op)?;
                let n = disk.header().num_parts;
                match op {
                    COp::Add { .. } | COp::AddAt { .. } | COp::Map(_) if out.ok() && c.cfg.change => {
                        if n < num {
                            return at(format!("the entry count fell to {n}"), &out);
                        }
                        num = n;
                    }
                    COp::SetGuid(_) => {
                        guid = *disk.guid();
                        if let COp::SetGuid(Some(g)) = op {
                            if *g != guid {
                                return at(format!("the disk GUID is {guid}"), &out);
                            }
                        }
                    }
                    _ => {}
                }
                if n != num {
                    return at(format!("the entry count changed to {n}"), &out);
                }
                if out.ok() {
                    cx.label("edited");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Len0 {
    big: bool,
    len: u64,
    fill: u64,
    guid: Option<G>,
}

fn new_table(c: &Len0, cx: &mut Cx) -> Result<(), String> {
    let lb: u64 = if c.big { 4096 } else { 512 };
    let a = 16384 / lb;
    let blocks = c.len / lb;
    // some devices hold an older table
    let old = if c.fill % 4 == 3 { (c.fill >> 8) as u16 } else { 0 };
    let d = Geo { big: c.big, blocks, tail: (c.len % lb) as u16, fill: c.fill, old }.dev();
    let fits = blocks >= 2 * a + 4;
    let r = create(d.clone(), Cfg::RW, c.big, c.guid.map(|g| g.uuid()))?;
    if !fits {
        cx.label("too small");
        if blocks + 4 > 2 * a + 4 {
            cx.nt("just too small");
        }
        ensure!(r.is_err(), "a table was created on {blocks} blocks");
        return Ok(());
    }
    if blocks < 2 * a + 8 {
        cx.nt("just large enough");
    } else {
        cx.nt("large enough");
    }
    let mut g = r.map_err(|e| format!("no table can be created on {} bytes ({blocks} blocks): {e:?}", c.len))?;
    let last = blocks - 1;
    let want = (2 + a, last - a - 1);
    let check = |what: &str, h: &Header, backup: bool| -> Result<(), String> {
        ensure!((h.first_usable, h.last_usable) == want, "{what}: usable range {}..{} instead of {want:?}", h.first_usable, h.last_usable);
        let lbas = if backup { (last, 1) } else { (1, last) };
        ensure!((h.current_lba, h.backup_lba) == lbas, "{what} at {} (alternate {}) instead of {lbas:?}", h.current_lba, h.backup_lba);
        ensure!(h.num_parts == 128 && h.part_size == 128, "{what}: {} entries of {} bytes", h.num_parts, h.part_size);
        Ok(())
    };
    let hs = lib("headers", || (g.primary_header().cloned(), g.backup_header().cloned()))?;
    check("primary header", hs.0.as_ref().map_err(|e| format!("no primary header: {e}"))?, false)?;
    check("backup header", hs.1.as_ref().map_err(|e| format!("no backup header: {e}"))?, true)?;
    let free = lib("find_free_sectors", || g.find_free_sectors())?;
    ensure!(free == vec![(want.0, want.1 - want.0 + 1)], "free space of a new table: {free:?}");
    lib("write_inplace", || g.write_inplace())?.map_err(|e| format!("write: {e}"))?;
    let (p, _) = check_disk(g.device_ref(), lb)?;
    ensure!((p.header.first_usable, p.header.last_usable) == want, "usable range on the device: {}..{}", p.header.first_usable, p.header.last_usable);
    if let Some(w) = c.guid {
        ensure!(p.header.guid == w.0, "disk GUID on the device: {}", refgpt::guid_text(&p.header.guid));
    }
    // the whole usable range can be allocated
    let n = want.1 - want.0 + 1;
    if let Some(bytes) = n.checked_mul(lb) {
        let id = lib("add_partition", || g.add_partition("all", bytes, Ty::Known(9).get(), 0, None))?.map_err(|e| format!("allocating all {n} usable blocks: {e}"))?;
        let q = &g.partitions()[&id];
        ensure!((q.first_lba, q.last_lba) == want, "the partition of all usable blocks is {}..{}", q.first_lba, q.last_lba);
        lib("write_inplace", || g.write_inplace())?.map_err(|e| format!("write: {e}"))?;
        check_disk(g.device_ref(), lb)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resize {
    h: Hist,
    /// write before the device changes size
    write: bool,
    reopen: bool,
    /// new sizes: (mode, amount, tail)
    to: Vec<(u8, u32, u16)>,
    then: Vec<Op>,
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("Enumerated: every device length within two blocks of the smallest ones that hold a table, and every small number of blocks. Generated: lengths up to 2^62 bytes; and histories on devices that are then enlarged or shrunk (once or repeatedly) before the map is replaced and written. Non-trivial: the length is within four blocks of the limit or a table fits; a resized device whose map was replaced and written.");
    let mut items = vec![];
    for big in [false, true] {
        let (lb, a) = if big { (4096u64, 4u64) } else { (512, 32) };
        let limit = (2 * a + 4) * lb;
        let step = if big { 7 } else { 1 };
        let mut l = limit - 2 * lb;
        while l <= limit + 2 * lb {
            items.push(Len0 { big, len: l, fill: 1, guid: None });
            l += step;
        }
        for b in 0..(2 * a + 80) {
            for t in [0, 1, lb / 2, lb - 1] {
                items.push(Len0 { big, len: b * lb + t, fill: 0, guid: Some(G([b as u8 | 1; 16])) });
            }
        }
    }
    ctx.enumerate("lengths", items, |c, cx| new_table(c, cx));
    let lens = || {
        (
            any::<bool>(),
            prop_oneof![
                3 => 0u64..100_000,
                4 => 0u64..5_000_000,
                3 => edge64().prop_map(|v| v & ((1 << 62) - 1)),
                2 => (15u32..62, -600i64..600).prop_map(|(e, d)| ((1i64 << e) + d) as u64),
            ],
            prop_oneof![Just(0u64), any::<u64>()],
            proptest::option::of(guid()),
        )
            .prop_map(|(big, len, fill, guid)| Len0 { big, len, fill, guid })
    };
    ctx.explore("new tables", ctx.cases(120_000, 4_200_000), lens, new_table);
    let strat = || {
        let mut p = Profile::general();
        p.start = prop_oneof![4 => start_new(), 1 => start_foreign(false, true)].boxed();
        p.w = [9, 6, 2, 1, 1, 3, 0, 2, 1];
        p.max_ops = 6;
        (
            hist(&p),
            any::<bool>(),
            any::<bool>(),
            proptest::collection::vec((0u8..8, any::<u32>(), prop_oneof![Just(0u16), any::<u16>()]), 1..4),
            proptest::collection::vec(op(&p), 0..4),
        )
            .prop_map(|(h, write, reopen, to, then)| Resize { h, write, reopen, to, then })
    };
    ctx.explore("resized devices", ctx.cases(80_000, 2_800_000), strat, resize_case);
}

fn resize_case(c: &Resize, cx: &mut Cx) -> Result<(), String> {
    let h = &c.h;
    let mut geo = h.geo;
    let lb = geo.lb();
    let Some(mut disk) = run(h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(()) };
    if collides(&Snap::of(&disk), &geo) && Snap::of(&disk).num() > 128 {
        // grown over a partition: see C03
        return Ok(());
    }
    if c.write {
        lib("write_inplace", || disk.write_inplace())?.map_err(|e| format!("write before resizing: {e}"))?;
    }
    for (i, (mode, v, tail)) in c.to.iter().enumerate() {
        let s = Snap::of(&disk);
        let arr = geo.arr(s.num() as u64);
        let min = 2 * arr + 4;
        let top = s.used().map(|(_, p)| p.last_lba).max().unwrap_or(0);
        // blocks at which the last partition just fits
        let tight = (top + arr + 2).max(min);
        let blocks = match mode {
            0 => geo.blocks + *v as u64 % 4,
            1 => geo.blocks + *v as u64 % 5000,
            2 => geo.blocks.saturating_mul(2 + *v as u64 % 7).min(1 << 50),
            3 => tight + *v as u64 % 3,
            4 => tight + (geo.blocks.saturating_sub(tight)) / 2,
            5 => tight.saturating_sub(1 + *v as u64 % 3),
            6 => geo.blocks.saturating_sub(1 + *v as u64 % 40),
            _ => min.saturating_sub(*v as u64 % 3),
        }
        .max(1);
        let old = geo;
        geo = Geo { blocks, tail: *tail, ..geo };
        let mut dev = disk.device_ref().clone();
        dev.resize(geo.len());
        if geo.blocks == old.blocks {
            cx.label("same number of blocks");
        } else {
            cx.label(if geo.blocks > old.blocks { "enlarged" } else { "shrunk" });
        }
        if c.reopen && c.write {
            // opened anew on the resized device: the backup is not where it should be
            let shrunk_into = geo.blocks < min;
            match open(dev.clone(), h.cfg, geo.big)? {
                Ok(d) => {
                    disk = d;
                    cx.label("reopened after resizing");
                }
                Err(e) => {
                    ensure!(shrunk_into, "a device resized from {} to {} blocks cannot be opened: {e:?}", old.blocks, geo.blocks);
                    return Ok(());
                }
            }
            let n = Snap::of(&disk);
            if !s.nul_names() {
                let (got, want) = (table_view(&n.parts), written_view(&s));
                ensure!(got == want, "opened after resizing: {}", describe_diff(&got, &want));
            }
        } else {
            let _ = lib("update_disk_device", || disk.update_disk_device(dev, true))?;
        }
        let s = Snap::of(&disk);
        let num = s.num();
        let same = s.header().current_lba.max(s.header().backup_lba) == geo.last();
        let first = s.header().first_usable;
        let last_usable = if same {
            s.header().last_usable
        } else {
            (geo.last()).saturating_sub(geo.arr(num as u64) + 1)
        };
        let fits = geo.blocks >= 2 * geo.arr(num as u64) + 4 && first <= last_usable;
        // the partitions that still fit
        let map: Map = s.parts.iter().filter(|(_, p)| !used(p) || p.last_lba <= last_usable).map(|(i, p)| (*i, p.clone())).collect();
        if map.len() < s.parts.len() {
            cx.label("partitions dropped by shrinking");
        }
        let r = lib("update_partitions", || disk.update_partitions(map.clone()))?;
        if !fits {
            cx.label("shrunk below the table");
            ensure!(r.is_err(), "the map was replaced although the table does not fit {} blocks", geo.blocks);
            ensure!(Snap::of(&disk) == s, "a refused replacement changed the disk object");
            return Ok(());
        }
        r.map_err(|e| format!("resize {i}: replacing the map on {} blocks (before: {}): {e}", geo.blocks, old.blocks))?;
        let n = Snap::of(&disk);
        let hp = n.ph.as_ref().map_err(|e| format!("no primary header: {e}"))?;
        let hb = n.bh.as_ref().map_err(|e| format!("no backup header: {e}"))?;
        for (what, h, own, alt) in [("primary", hp, 1, geo.last()), ("backup", hb, geo.last(), 1)] {
            ensure!(
                (h.current_lba, h.backup_lba) == (own, alt),
                "resize {i} ({} to {} blocks): {what} header at {} with alternate {}",
                old.blocks,
                geo.blocks,
                h.current_lba,
                h.backup_lba
            );
            ensure!(
                (h.first_usable, h.last_usable) == (first, last_usable),
                "resize {i} ({} to {} blocks): {what} usable range {}..{} instead of {first}..{last_usable}",
                old.blocks,
                geo.blocks,
                h.first_usable,
                h.last_usable
            );
            ensure!(h.num_parts == num, "resize {i}: {what} header has {} entries instead of {num}", h.num_parts);
        }
        ensure!(n.parts == map, "resize {i}: the map is not the one given");
        ensure!(n.guid == s.guid, "resize {i}: the disk GUID changed");
        if !same {
            cx.nt("followed a resized device");
        }
        // edits on the new size, then the write
        for o in &c.then {
            let s = Snap::of(&disk);
            let cop = concrete(o, &s, &geo, h.cfg, &disk)?;
            if matches!(cop, COp::Reopen { .. } | COp::Write) {
                continue;
            }
            let out = apply(&mut disk, &cop)?;
            if let (COp::Add { .. } | COp::AddAt { .. }, Out::Id(id)) = (&cop, &out) {
                let q: &Partition = &disk.partitions()[id];
                if q.last_lba > old.last() {
                    cx.label("new space used");
                }
                ensure!(
                    q.last_lba + geo.arr(s.num() as u64) < geo.last(),
                    "resize {i}: {} ends at {} on {} blocks",
                    brief(&cop, &out),
                    q.last_lba,
                    geo.blocks
                );
            }
        }
        let s = Snap::of(&disk);
        if collides(&s, &geo) && s.num() > num {
            return Ok(());
        }
        lib("write_inplace", || disk.write_inplace())?.map_err(|e| format!("resize {i}: write: {e}"))?;
        let (p, _) = check_disk(disk.device_ref(), lb).map_err(|m| format!("resize {i} ({} to {} blocks): {m}", old.blocks, geo.blocks))?;
        let got: Vec<View> = p.entries().iter().map(|(_, e)| View::of_ref(e)).collect();
        ensure!(got == s.expected(), "resize {i}: the device does not hold the partitions in memory");
        let only = Cfg { only_valid: true, ..Cfg::RO };
        let r = open(disk.device_ref().clone(), only, geo.big)?.map_err(|e| format!("resize {i}: opening with both headers: {e:?}"))?;
        let (got, want) = (table_view(r.partitions()), written_view(&s));
        ensure!(got == want, "resize {i}: reads back as {}", describe_diff(&got, &want));
    }
    Ok(())
}
