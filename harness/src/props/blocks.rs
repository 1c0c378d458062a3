//! Defective blocks: C36.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::props::faults::written;
use crate::refgpt::{header_ok, read_copy, RefHeader};
use crate::runner::{lib, Ctx};
use gpt::GptDisk;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
];

/// The blocks [start, end) in bytes that `n` bytes from block `lba` occupy.
fn blocks(lba: u64, n: u64, lb: u64, len: u64) -> (u64, u64) {
    let a = lba.saturating_mul(lb).min(len);
    (a, a.saturating_add(n.div_ceil(lb).saturating_mul(lb)).min(len))
}

/// Header blocks and the arrays of the copies whose headers are sound.
fn metadata(d: &Dev, geo: &Geo) -> Vec<(u64, u64)> {
    let lb = geo.lb();
    let mut v = vec![];
    for lba in [1, geo.last()] {
        v.push(blocks(lba, lb, lb, d.len));
        let b = d.peek(lba * lb, 92);
        if header_ok(&b) {
            let h = RefHeader::parse(&b);
            v.push(blocks(h.part_start, h.array_bytes(), lb, d.len));
        }
    }
    v
}

/// Makes everything defective that neither the next open nor the next write has to touch.
fn confine(disk: &mut GptDisk<Dev>, geo: &Geo) -> Result<(), String> {
    disk.device_mut().sound();
    let lb = geo.lb();
    let mut v = metadata(disk.device_ref(), geo);
    let mut c = disk.clone();
    match lib("write_inplace", || c.write_inplace())? {
        Ok(()) => v.extend(metadata(c.device_ref(), geo)),
        Err(_) => {
            let len = disk.device_ref().len;
            for h in [c.primary_header(), c.backup_header()].into_iter().flatten() {
                v.push(blocks(h.part_start, h.num_parts as u64 * 128, lb, len));
            }
        }
    }
    v.sort_unstable();
    disk.device_mut().only(&v);
    Ok(())
}

fn clean(d: &Dev, what: &str) -> Result<(), String> {
    match d.first_hit {
        Some((k, at)) => Err(format!("{what}: {k:?} at byte {at} of {}, outside the metadata", d.len)),
        None => Ok(()),
    }
}

/// Blocks of one region that are defective.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spots {
    header: bool,
    /// array blocks from and how many; none leaves the array alone
    array: Option<(u8, u8)>,
}

fn spots() -> BoxedStrategy<Spots> {
    let a = || (prop_oneof![2 => Just(0u8), 1 => Just(255u8), 3 => any::<u8>()], prop_oneof![3 => Just(1u8), 1 => Just(255u8), 1 => any::<u8>()]);
    prop_oneof![
        2 => Just(Spots { header: true, array: None }),
        3 => a().prop_map(|x| Spots { header: false, array: Some(x) }),
        1 => a().prop_map(|x| Spots { header: true, array: Some(x) }),
    ]
    .boxed()
}

impl Spots {
    fn ranges(&self, d: &Dev, geo: &Geo, backup: bool) -> Vec<(u64, u64)> {
        let lb = geo.lb();
        let lba = if backup { geo.last() } else { 1 };
        let mut v = vec![];
        if self.header {
            v.push((lba * lb, (lba + 1) * lb));
        }
        if let Some((from, n)) = self.array {
            let h = RefHeader::parse(&d.peek(lba * lb, 92));
            let all = h.array_blocks(lb).max(1);
            let from = if from == 255 { all - 1 } else { from as u64 % all };
            let to = if n == 255 { all } else { (from + (n as u64).max(1)).min(all) };
            v.push(((h.part_start + from) * lb, (h.part_start + to) * lb));
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Defect {
    h: Hist,
    backup: bool,
    at: Spots,
    other: Spots,
    kind: u8,
    ro_backup: bool,
    more: Vec<Op>,
}

fn views(d: &GptDisk<Dev>) -> (Vec<(u32, View)>, uuid::Uuid) {
    (table_view(d.partitions()), *d.guid())
}

pub fn c36(ctx: &Ctx) {
    ctx.rule("Part 1: a history on a device on which, before every operation, everything is made defective except the header blocks and the arrays that exist or that the next write makes; no operation may run into a defect. Parts 2 and 3: a written table, then blocks of its copies that cannot be read, or cannot be written while an edited table is written. Non-trivial: (1) an operation that accesses the device ran confined; (2, 3) the defects were run into on a table with a used partition.");
    let p = || {
        let mut p = Profile::general();
        p.recfg = prop_oneof![2 => Just(None), 1 => cfg_any().prop_map(Some)].boxed();
        p.cfg = cfg_any();
        p.w = [6, 4, 2, 1, 1, 4, 1, 6, 4];
        p
    };
    ctx.explore("nothing else is accessed", ctx.cases(50_000, 1_800_000), || hist(&p()), |h, cx| {
        run(h, cx, Opts::default(), &mut |st, cx| {
            let geo = st.geo;
            if st.i == 0 {
                // the start itself, once more on a confined device
                let mut d = st.dev0.clone();
                let v = match &h.start {
                    Start::New(_) => vec![],
                    Start::Foreign(_) => metadata(&d, geo),
                };
                let mut v = v;
                v.sort_unstable();
                d.only(&v);
                let again = match &h.start {
                    Start::New(g) => create(d, st.cfg, geo.big, g.map(|g| g.uuid()))?,
                    Start::Foreign(_) => open(d, st.cfg, geo.big)?,
                };
                if let Ok(d) = &again {
                    clean(d.device_ref(), "start")?;
                }
                ensure!(again.is_ok() == st.out.ok(), "confined to the metadata: {:?} instead of {:?}", again.err(), st.out);
            } else {
                clean(st.dev1, "access")?;
                if matches!(st.op, COp::Write | COp::Reopen { .. }) && st.out.ok() {
                    cx.nt(if st.wrote() { "confined write" } else { "confined open" });
                }
            }
            let Some(disk) = st.disk.as_deref_mut() else { return Ok(()) };
            confine(disk, geo)
        })?;
        Ok(())
    });

    let q = || Profile {
        geo: geo_small(),
        cfg: cfg_grow(),
        start: prop_oneof![2 => start_new(), 1 => start_foreign(false, true)].boxed(),
        max_ops: 5,
        w: [10, 6, 2, 0, 1, 4, 0, 1, 0],
        wild: false,
        recfg: Just(None).boxed(),
    };
    let strat = || {
        (hist(&q()), any::<bool>(), spots(), spots(), any::<u8>(), prop::bool::weighted(0.2), proptest::collection::vec(op(&q()), 0..4))
            .prop_map(|(h, backup, at, other, kind, ro_backup, more)| Defect { h, backup, at, other, kind, ro_backup, more })
    };
    ctx.explore("unreadable blocks", ctx.cases(60_000, 2_100_000), strat, |c, cx| {
        let Some((dev, s)) = written(&c.h, cx)? else { return Ok(()) };
        if s.nul_names() {
            return Ok(());
        }
        let geo = &c.h.geo;
        let want = (written_view(&s), s.guid);
        let mut bad = dev.clone();
        bad.no_read = c.at.ranges(&dev, geo, c.backup);
        bad.bad_kind = Some(KINDS[c.kind as usize % KINDS.len()]);
        let cfg = Cfg { ro_backup: c.ro_backup, ..Cfg::RW };
        let mut d = open(bad.clone(), cfg, geo.big)?.map_err(|e| format!("the disk cannot be opened from its other copy: {e:?}"))?;
        let got = views(&d);
        ensure!(got.0 == want.0, "the other copy's table is not what is reported: {}", describe_diff(&got.0, &want.0));
        ensure!(got.1 == want.1, "GUID {} instead of {}", got.1, want.1);
        if d.device_ref().bad_hits > 0 && s.used().count() > 0 {
            cx.nt(match (c.backup, c.at.header, c.at.array.is_some()) {
                (false, true, false) => "primary header unreadable",
                (false, false, _) => "primary array unreadable",
                (false, _, _) => "primary header and array unreadable",
                (true, _, _) => "backup header unreadable",
            });
        }
        if c.at.header {
            let strict = Cfg { only_valid: true, ..Cfg::RO };
            ensure!(open(bad.clone(), strict, geo.big)?.is_err(), "opened with an unreadable header although both were asked for");
        }
        // a write puts everything back
        lib("write_inplace", || d.write_inplace())?.map_err(|e| format!("the restoring write failed: {e}"))?;
        let diff = d.device_ref().diff(&dev);
        ensure!(diff.is_empty(), "the write did not restore the bytes at {:?}", &diff[..diff.len().min(4)]);
        if !c.ro_backup || !c.backup {
            let n = open(d.take_device(), Cfg { only_valid: true, ..Cfg::RO }, geo.big)?;
            ensure!(n.is_ok(), "two rewritten copies cannot be opened when both are asked for: {:?}", n.err());
        }
        // defects in both copies
        let mut worse = bad;
        worse.no_read.extend(c.other.ranges(&dev, geo, !c.backup));
        ensure!(open(worse, Cfg::RO, geo.big)?.is_err(), "opened although no copy can be read completely");
        Ok(())
    });

    let strat = || {
        (hist(&q()), any::<bool>(), spots(), spots(), any::<u8>(), prop::bool::weighted(0.1), proptest::collection::vec(op(&q()), 1..5))
            .prop_map(|(h, backup, at, other, kind, ro_backup, more)| Defect { h, backup, at, other, kind, ro_backup, more })
    };
    ctx.explore("unwritable blocks", ctx.cases(60_000, 2_100_000), strat, |c, cx| {
        let Some((dev, s)) = written(&c.h, cx)? else { return Ok(()) };
        if s.nul_names() {
            return Ok(());
        }
        let geo = &c.h.geo;
        let lb = geo.lb();
        let cfg = Cfg { ro_backup: c.ro_backup, ..c.h.cfg };
        let mut d = match open(dev.clone(), cfg, geo.big)? {
            Ok(d) => d,
            Err(e) => return Err(format!("the written disk cannot be opened: {e:?}")),
        };
        for o in &c.more {
            if matches!(o, Op::Write | Op::Reopen { .. }) {
                continue;
            }
            let now = Snap::of(&d);
            let o = concrete(o, &now, geo, cfg, &d)?;
            apply(&mut d, &o)?;
        }
        let old = (written_view(&s), s.guid);
        let edited = Snap::of(&d);
        if edited.nul_names() || edited.header().num_parts != s.header().num_parts || collides(&edited, geo) {
            // a table of another length lies elsewhere; C12 covers its crashes
            return Ok(());
        }
        let new = (written_view(&edited), edited.guid);
        // without defects
        let mut easy = d.clone();
        if lib("write_inplace", || easy.write_inplace())?.is_err() {
            return Ok(());
        }
        d.device_mut().no_write = c.at.ranges(&dev, geo, c.backup);
        d.device_mut().bad_kind = Some(KINDS[c.kind as usize % KINDS.len()]);
        let r = lib("write_inplace", || d.write_inplace().map_err(|e| E::from(&e)))?;
        let hits = d.device_ref().bad_hits;
        let mut after = d.device_ref().clone();
        match &r {
            Ok(()) => {
                ensure!(hits == 0, "the write succeeded although a block could not be written");
                ensure!(after.same(easy.device_ref()), "a successful write left other bytes than on a sound device");
                return Ok(());
            }
            Err(e) => {
                ensure!(hits > 0, "the write failed without running into the defect: {e:?}");
                ensure!(matches!(e, E::Io) || matches!(e, E::Header(t) if t.contains("Io")), "an unwritable block is reported as {e:?}");
            }
        }
        if old != new && s.used().count() > 0 {
            cx.nt(match (c.backup, c.at.header, c.at.array.is_some()) {
                (false, true, false) => "primary header unwritable",
                (false, false, _) => "primary array unwritable",
                (false, _, _) => "primary header and array unwritable",
                (true, true, false) => "backup header unwritable",
                (true, false, _) => "backup array unwritable",
                (true, _, _) => "backup header and array unwritable",
            });
        }
        // the copy without defects is complete
        if !c.ro_backup {
            let (lba, alt) = if c.backup { (1, geo.last()) } else { (geo.last(), 1) };
            read_copy(&after, lb, lba, alt).map_err(|m| format!("the copy without defects is not complete: {m}"))?;
        }
        after.arm(None);
        let n = open(after, Cfg::RO, geo.big)?.map_err(|e| format!("the failed write left no copy to open: {e:?}"))?;
        let got = views(&n);
        ensure!(got == old || got == new, "after the failed write neither the old nor the new table: {}", describe_diff(&got.0, &new.0));
        // the defects disappear
        d.device_mut().sound();
        lib("write_inplace", || d.write_inplace())?.map_err(|e| format!("the write fails on a device that is sound again: {e}"))?;
        ensure!(d.device_ref().same(easy.device_ref()), "the repeated write left other bytes than one on a sound device");
        Ok(())
    });
}
