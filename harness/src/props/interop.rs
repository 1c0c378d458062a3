//! Agreement with unrelated implementations: C35.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::other::{Blkid, Fdisk, Image, Seen, Wanted};
use crate::props::files::geo_path;
use crate::runner::{lib, Ctx, Cx};
use gpt::mbr::ProtectiveMBR;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ours {
    h: Hist,
    /// the MBR is laid over what is there instead of replacing it
    conservative: bool,
    /// damage to the primary copy before it is read again
    damage: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Made {
    slot: u16,
    gap: u32,
    len: u32,
    ty: G,
    guid: G,
    flags: u64,
    name: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Theirs {
    geo: Geo,
    guid: G,
    num: u16,
    lead: u32,
    parts: Vec<Made>,
    gone: Vec<u8>,
    cfg: Cfg,
    ops: Vec<Op>,
}

fn made() -> impl Strategy<Value = Made> {
    (
        prop_oneof![3 => 0u16..16, 1 => any::<u16>()],
        prop_oneof![3 => Just(0u32), 2 => 0u32..20, 1 => 0u32..5000],
        prop_oneof![3 => 0u32..20, 2 => 0u32..3000, 1 => any::<u32>()],
        prop_oneof![1 => guid(), 2 => any::<u8>().prop_map(|i| G(*Ty::Known(i).get().guid.as_bytes()))],
        real_guid(),
        flags(),
        name(),
    )
        .prop_map(|(slot, gap, len, ty, guid, flags, name)| Made { slot, gap, len, ty, guid, flags, name })
}

/// libblkid strips white space from the end of names.
fn stripped(v: &[(u32, View)]) -> Vec<(u32, View)> {
    v.iter()
        .map(|(i, p)| {
            let name = p.name.trim_end_matches([' ', '\t', '\n', '\r', '\u{b}', '\u{c}']).to_string();
            (*i, View { name, ..p.clone() })
        })
        .collect()
}

/// What both others must say about a device that holds `s` as written.
fn judge(f: &'static Fdisk, b: &'static Blkid, d: &Dev, s: &Snap, geo: &Geo, intact: bool, cx: &mut Cx) -> Result<bool, String> {
    let Some(image) = Image::of(d) else {
        cx.label("image not possible");
        return Ok(false);
    };
    let want = written_view(s);
    let h = s.header();
    let seen = f.read(&image, geo.lb())?;
    let sound = !s.overlapping() && !s.outside();
    if intact && sound {
        ensure!(seen.problems == 0, "libfdisk reports {} problems", seen.problems);
    }
    ensure!(seen.parts == want, "libfdisk reads: {}", describe_diff(&seen.parts, &want));
    ensure!(seen.guid == Some(s.guid), "libfdisk reads the disk GUID {:?} instead of {}", seen.guid, s.guid);
    ensure!(seen.num == Some(h.num_parts as u64), "libfdisk reads {:?} entries instead of {}", seen.num, h.num_parts);
    ensure!(seen.usable == Some((h.first_usable, h.last_usable)), "libfdisk reads the usable range {:?} instead of {:?}", seen.usable, (h.first_usable, h.last_usable));
    if sound {
        let seen = b.read(&image, geo.lb())?;
        let want = stripped(&want);
        let got = stripped(&seen.parts);
        ensure!(got == want, "libblkid reads: {}", describe_diff(&got, &want));
        ensure!(want.is_empty() || seen.guid == Some(s.guid), "libblkid reads the disk GUID {:?} instead of {}", seen.guid, s.guid);
    }
    Ok(true)
}

pub fn c35(ctx: &Ctx) {
    ctx.rule("A case is either a history whose writes are read by libfdisk and libblkid, or a table made by libfdisk that is opened, edited and written here and read by them again. Non-trivial: a comparison of a table with at least one used partition.");
    let (Some(f), Some(b)) = (Fdisk::get(), Blkid::get()) else {
        println!("C35: libfdisk.so.1 and libblkid.so.1 are not installed, nothing is compared");
        return;
    };
    let p = || {
        let mut p = Profile::general();
        p.geo = geo_path();
        p.w = [8, 6, 3, 1, 2, 5, 1, 6, 2];
        p
    };
    let strat = || (hist(&p()), any::<bool>(), any::<u16>()).prop_map(|(h, conservative, damage)| Ours { h, conservative, damage });
    ctx.explore("our tables", ctx.cases(30_000, 1_000_000), strat, |c, cx| {
        let mut n = 0;
        run(&c.h, cx, Opts::default(), &mut |st, cx| {
            if !st.wrote() || n >= 3 {
                return Ok(());
            }
            n += 1;
            let (s, geo) = (st.before.unwrap(), st.geo);
            let mut d = st.dev1.clone();
            let blocks = u32::try_from(geo.blocks - 1).unwrap_or(u32::MAX);
            let m = ProtectiveMBR::with_lb_size(blocks);
            lib("write the MBR", || if c.conservative { m.update_conservative(&mut d) } else { m.overwrite_lba0(&mut d) })?
                .map_err(|e| format!("the MBR cannot be written: {e}"))?;
            // the written table is that of the map as it was, under the headers as they are now
            let mut s = s.clone();
            let Some(after) = st.after else { return Ok(()) };
            (s.ph, s.bh) = (after.ph.clone(), after.bh.clone());
            if collides(&s, geo) {
                cx.label("entry array over a partition");
                return Ok(());
            }
            let parts = s.used().count() > 0;
            if judge(f, b, &d, &s, geo, true, cx)? && parts {
                cx.nt("our table");
            }
            if st.cfg.ro_backup {
                return Ok(());
            }
            // they fall back to the backup
            let h = s.header();
            let at = match c.damage % 4 {
                0 if s.num() > 0 => h.part_start * geo.lb() + c.damage as u64 % (s.num() as u64 * 128),
                1 => geo.lb() + c.damage as u64 / 4 % 8,
                _ => geo.lb() + c.damage as u64 / 4 % 92,
            };
            let old = d.peek(at, 1)[0];
            d.poke(at, &[old ^ (1 << (c.damage % 8))]);
            if judge(f, b, &d, &s, geo, false, cx)? && parts {
                cx.nt("our backup");
            }
            Ok(())
        })
        .map(|_| ())
    });

    let strat = || {
        (
            (geo_path(), guid()),
            prop_oneof![4 => Just(128u16), 2 => 129u16..513, 1 => 4u16..128],
            prop_oneof![1 => Just(0u32), 1 => 0u32..40, 2 => 2048u32..2100],
            proptest::collection::vec(made(), 0..8),
            proptest::collection::vec(any::<u8>(), 0..3),
            cfg_any(),
            proptest::collection::vec(op(&p()), 0..6),
        )
            .prop_map(|((geo, guid), num, lead, parts, gone, cfg, ops)| Theirs { geo: Geo { fill: 0, old: 0, ..geo }, guid, num, lead, parts, gone, cfg, ops })
    };
    ctx.explore("their tables", ctx.cases(30_000, 1_000_000), strat, |c, cx| theirs(f, b, c, cx));
}

fn theirs(f: &'static Fdisk, b: &'static Blkid, c: &Theirs, cx: &mut Cx) -> Result<(), String> {
    let geo = &c.geo;
    let Some(image) = Image::empty(geo.len()) else {
        cx.label("image not possible");
        return Ok(());
    };
    let mut next = 2 + geo.arr(c.num as u64) + c.lead as u64;
    let mut slots = std::collections::BTreeSet::new();
    let mut want = vec![];
    for m in &c.parts {
        let slot = m.slot as u32 % c.num as u32 + 1;
        let first = next + m.gap as u64;
        let room = geo.last().saturating_sub(geo.arr(c.num as u64) + first);
        if room == 0 || !slots.insert(slot) {
            continue;
        }
        let len = (m.len as u64 + 1).min(room);
        next = first + len;
        let ty = if m.ty.0 == [0; 16] { [1; 16] } else { m.ty.0 };
        want.push(Wanted { slot, first, len, ty: uuid::Uuid::from_bytes(ty), guid: m.guid.uuid(), flags: m.flags, name: m.name.clone() });
    }
    let gone: Vec<u32> = c.gone.iter().filter_map(|k| want.get(*k as usize % 8).map(|w| w.slot)).collect();
    let Some(seen) = f.create(&image, geo.lb(), c.guid.uuid(), c.num as u32, &want, &gone) else {
        cx.label("libfdisk makes no table here");
        return Ok(());
    };
    if seen.problems != 0 {
        cx.label("libfdisk finds problems in its own table");
        return Ok(());
    }
    let dev = image.dev();
    let mut d = open(dev.clone(), Cfg { only_valid: true, ..c.cfg }, geo.big)?.map_err(|e| format!("libfdisk's table is refused: {e:?}"))?;
    let s = Snap::of(&d);
    let parts = table_view(d.partitions());
    ensure!(parts == seen.parts, "libfdisk's table is read as: {}", describe_diff(&parts, &seen.parts));
    if !parts.is_empty() {
        cx.nt("their table");
    }
    for (h, which) in [(&s.ph, "primary"), (&s.bh, "backup")] {
        let h = h.as_ref().map_err(|e| format!("the {which} header of libfdisk's table is refused: {e}"))?;
        let ours = Seen { guid: Some(h.disk_guid), num: Some(h.num_parts as u64), usable: Some((h.first_usable, h.last_usable)), ..seen.clone() };
        ensure!(ours == seen, "the {which} header of libfdisk's table is read as {h:?}, libfdisk reads {:?} {:?} {:?}", seen.guid, seen.num, seen.usable);
    }

    // edited here, written back and read there
    for (i, o) in c.ops.iter().enumerate() {
        let s = Snap::of(&d);
        let cop = concrete(o, &s, geo, c.cfg, &d)?;
        if !matches!(cop, COp::Reopen { .. } | COp::Write) {
            apply(&mut d, &cop).map_err(|m| format!("operation {i}: {m}"))?;
        }
    }
    let mut s = Snap::of(&d);
    let out = apply(&mut d, &COp::Write)?;
    if !out.ok() {
        cx.label("not written");
        return Ok(());
    }
    let after = Snap::of(&d);
    (s.ph, s.bh) = (after.ph, after.bh);
    if collides(&s, geo) {
        cx.label("entry array over a partition");
        return Ok(());
    }
    ensure!(d.device_ref().peek(0, geo.lb() as usize) == dev.peek(0, geo.lb() as usize), "the write changed libfdisk's protective MBR");
    if c.cfg.ro_backup {
        return Ok(());
    }
    if judge(f, b, d.device_ref(), &s, geo, true, cx)? && s.used().count() > 0 {
        cx.nt("their table, edited");
    }
    Ok(())
}
