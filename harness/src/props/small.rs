//! Values and codecs: C19, C20, C21, C24, C31.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::pad;
use crate::known_types::{konst, KNOWN};
use crate::props::faults::as_header;
use crate::refgpt::{self, crc32, guid_text, RefEntry, RefHeader};
use crate::runner::{lib, Ctx, Cx};
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderBuilder};
use gpt::partition::{file_read_partitions, Partition};
use gpt::partition_types::{OperatingSystem, Type};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use uuid::Uuid;

// ------------------------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Extent {
    first: u64,
    last: u64,
    big: bool,
    size: u64,
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("A case is a pair of LBAs, a block size and a number offered as block size. Non-trivial: the length or the start is near a 64-bit boundary, or last is below first, or a partition of more than one block.");
    let near = |v: u64| (edge64(), -3i64..4).prop_map(move |(e, d)| e.wrapping_add(v).wrapping_add(d as u64)).boxed();
    let strat = || {
        (
            prop_oneof![
                2 => (edge64(), edge64()),
                3 => (edge64(), 0u64..10).prop_map(|(f, d)| (f, f.wrapping_add(d).wrapping_sub(3))),
                2 => (near(0), edge64()).prop_map(|(f, l)| (f, f.wrapping_add(l))),
                // lengths whose size in bytes is about 2^64
                2 => (edge64(), any::<bool>(), -3i64..4).prop_map(|(f, b, d)| {
                    let n = u64::MAX / if b { 4096 } else { 512 };
                    let f = f % (u64::MAX - n - 10);
                    (f, (f + n).wrapping_add(d as u64))
                }),
                1 => (-3i64..4, any::<bool>(), 0u64..100).prop_map(|(d, b, n)| {
                    let f = (u64::MAX / if b { 4096 } else { 512 }).wrapping_add(d as u64);
                    (f, f.wrapping_add(n))
                }),
            ],
            any::<bool>(),
            prop_oneof![
                edge64(),
                0u64..5000,
                Just(512),
                Just(4096),
                (0u64..64, 0u64..4).prop_map(|(s, d)| (512u64.rotate_left(s as u32)).wrapping_add(d)),
                any::<u32>().prop_map(|h| (h as u64) << 32 | 512),
                any::<u32>().prop_map(|h| (h as u64) << 32 | 4096),
                any::<u16>().prop_map(|h| (h as u64) << 16 | 512),
            ],
        )
            .prop_map(|((first, last), big, size)| Extent { first, last, big, size })
    };
    ctx.explore("arithmetic", ctx.cases(4_000_000, 40_000_000), strat, |c, cx| {
        let mut p = Partition::zero();
        p.first_lba = c.first;
        p.last_lba = c.last;
        let (lbs, lb) = (lbs(c.big), if c.big { 4096u128 } else { 512 });
        let fit = |v: u128| u64::try_from(v).ok();
        let n = (c.last >= c.first).then(|| c.last as u128 - c.first as u128 + 1);
        let sect = n.and_then(fit);
        let bytes = n.and_then(|n| fit(n * lb));
        let start = fit(c.first as u128 * lb);
        let r = lib("sectors_len", || p.sectors_len())?;
        ensure!(r.as_ref().ok().copied() == sect, "sectors_len of {}..={} is {r:?} instead of {sect:?}", c.first, c.last);
        let r = lib("bytes_len", || p.bytes_len(lbs))?;
        ensure!(r.as_ref().ok().copied() == bytes, "bytes_len of {}..={} is {r:?} instead of {bytes:?}", c.first, c.last);
        let r = lib("bytes_start", || p.bytes_start(lbs))?;
        ensure!(r.as_ref().ok().copied() == start, "bytes_start of {} is {r:?} instead of {start:?}", c.first);
        if c.first > c.last {
            cx.nt("reversed");
        } else if sect.is_none() {
            cx.nt("sector count overflows");
        } else if bytes.is_none() || start.is_none() {
            cx.nt("byte count overflows");
        } else if c.last > c.first {
            cx.nt("several blocks");
        }
        // block sizes
        let r = LogicalBlockSize::try_from(c.size);
        let want = match c.size {
            512 => Some(LogicalBlockSize::Lb512),
            4096 => Some(LogicalBlockSize::Lb4096),
            _ => None,
        };
        ensure!(r.as_ref().ok().copied() == want, "block size from {} is {r:?}", c.size);
        if let Ok(l) = r {
            cx.label("valid block size");
            let (a, b): (u64, usize) = (l.into(), l.into());
            ensure!(
                a == c.size && b as u64 == c.size && l.as_u64() == c.size && l.as_usize() as u64 == c.size && l.to_string() == c.size.to_string(),
                "{l:?} does not convert back to {}",
                c.size
            );
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Text {
    /// a GUID in one of its forms; each bit of `case` makes a digit upper case
    Form { g: G, form: u8, case: u64 },
    Known { i: u8, form: u8, case: u64 },
    /// name of a known type
    Name { i: u8, case: u64 },
    Broken { g: G, form: u8, case: u64, at: u8, with: String, cut: u8 },
    NearName { i: u8, at: u8, with: String, cut: u8 },
    Any(String),
}

fn cased(s: &str, case: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if case >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}

/// forms the crate documents or its GUID parser is known for
fn form(g: &G, form: u8, case: u64) -> String {
    let hy = cased(&guid_text(&g.0), case);
    match form % 5 {
        0 | 1 => hy,
        2 => hy.replace('-', ""),
        3 => format!("{{{hy}}}"),
        _ => format!("urn:uuid:{hy}"),
    }
}

fn expect_type(g: &Uuid) -> Type {
    let t = guid_text(g.as_bytes()).to_uppercase();
    match KNOWN.iter().position(|k| k.1 == t) {
        Some(i) => Type { guid: *g, os: KNOWN[i].2.clone() },
        None => Type { guid: *g, os: OperatingSystem::None },
    }
}

/// Hex digits of a string that is some GUID notation.
fn digits(s: &str) -> Option<G> {
    let mut t = s.to_ascii_lowercase();
    if let Some(r) = t.strip_prefix("urn:uuid:") {
        t = r.to_string();
    }
    let t: String = t.chars().filter(|c| !"{}-".contains(*c)).collect();
    if t.len() != 32 || !t.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    Some(G(u128::from_str_radix(&t, 16).ok()?.to_be_bytes()))
}

fn mutate(s: &str, at: u8, with: &str, cut: u8) -> String {
    let c: Vec<char> = s.chars().collect();
    let at = at as usize % (c.len() + 1);
    let end = (at + cut as usize).min(c.len());
    c[..at].iter().copied().chain(with.chars()).chain(c[end..].iter().copied()).collect()
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("A case is a string: a GUID (arbitrary or of a known type) in one of its textual forms and a letter case per digit, the name of a known type in any letter case, a near miss of either, or an arbitrary string. Non-trivial: every accepted form or name and every near miss.");
    ctx.enumerate("known types", (0..KNOWN.len()).collect(), |i, cx| {
        cx.nt("known type");
        let (name, guid, os) = &KNOWN[*i];
        let t = konst(*i);
        ensure!(guid_text(t.guid.as_bytes()).to_uppercase() == *guid, "{name} is {} instead of {guid}", t.guid);
        ensure!(t.os == *os, "{name} has operating system {:?} instead of {os:?}", t.os);
        for (j, k) in KNOWN.iter().enumerate() {
            ensure!(j == *i || k.1 != *guid, "{name} and {} share a GUID", k.0);
            ensure!(j == *i || konst(j).guid != t.guid, "{name} and {} share a GUID", k.0);
        }
        for s in [name.to_string(), name.to_lowercase(), guid.to_string(), guid.to_lowercase(), guid.replace('-', "")] {
            let r = lib("from_str", || Type::from_str(&s))?;
            ensure!(r.as_ref() == Ok(&t), "{s:?} gives {r:?} instead of {t:?}");
            let r = lib("from_name", || Type::from_name(&s))?;
            ensure!(r.as_ref() == Ok(&t), "from_name({s:?}) gives {r:?} instead of {t:?}");
        }
        ensure!(Type::from(t.guid) == t, "the GUID of {name} gives {:?}", Type::from(t.guid));
        Ok(())
    });
    let strat = || {
        let with = || {
            prop_oneof![
                3 => proptest::collection::vec(proptest::char::range(' ', '~'), 0..3),
                1 => proptest::collection::vec(any::<char>(), 0..3),
                1 => proptest::collection::vec(prop_oneof![Just('-'), Just('{'), Just('}'), Just('0'), Just('g'), Just('_'), Just(' '), Just('ſ'), Just('K')], 1..3),
            ]
            .prop_map(|v| v.into_iter().collect::<String>())
        };
        prop_oneof![
            3 => (guid(), any::<u8>(), any::<u64>()).prop_map(|(g, form, case)| Text::Form { g, form, case }),
            4 => (any::<u8>(), any::<u8>(), any::<u64>()).prop_map(|(i, form, case)| Text::Known { i, form, case }),
            3 => (any::<u8>(), any::<u64>()).prop_map(|(i, case)| Text::Name { i, case }),
            3 => (guid(), any::<u8>(), any::<u64>(), any::<u8>(), with(), 0u8..3).prop_map(|(g, form, case, at, with, cut)| Text::Broken { g, form, case, at, with, cut }),
            2 => (any::<u8>(), any::<u8>(), with(), 0u8..3).prop_map(|(i, at, with, cut)| Text::NearName { i, at, with, cut }),
            1 => proptest::collection::vec(any::<char>(), 0..40).prop_map(|v| Text::Any(v.into_iter().collect())),
            1 => crate::dict::text().prop_map(Text::Any),
            1 => (guid(), any::<u8>()).prop_map(|(g, case)| Text::Any(cased(&guid_text(&g.0), case as u64))),
        ]
    };
    ctx.explore("strings", ctx.cases(1_600_000, 40_000_000), strat, |c, cx| {
        let (s, want) = match c {
            Text::Form { g, form: f, case } => {
                cx.nt("GUID text");
                (form(g, *f, *case), Some(g.uuid()))
            }
            Text::Known { i, form: f, case } => {
                cx.nt("known GUID text");
                let g = G(*konst(*i as usize % KNOWN.len()).guid.as_bytes());
                (form(&g, *f, *case), Some(g.uuid()))
            }
            Text::Name { i, case } => {
                cx.nt("name");
                let i = *i as usize % KNOWN.len();
                (cased(KNOWN[i].0, *case), Some(konst(i).guid))
            }
            Text::Broken { g, form: f, case, at, with, cut } => {
                cx.nt("altered GUID text");
                (mutate(&form(g, *f, *case), *at, with, *cut), None)
            }
            Text::NearName { i, at, with, cut } => {
                cx.nt("altered name");
                (mutate(KNOWN[*i as usize % KNOWN.len()].0, *at, with, *cut), None)
            }
            Text::Any(s) => (s.clone(), None),
        };
        let r = lib("Type::from_str", || Type::from_str(&s))?;
        let n = lib("Type::from_name", || Type::from_name(&s))?;
        ensure!(r.is_ok() == n.is_ok() && r.as_ref().ok() == n.as_ref().ok(), "from_name({s:?}) gives {n:?}, from_str {r:?}");
        match (want, r) {
            (Some(g), r) => {
                let want = expect_type(&g);
                ensure!(r.as_ref() == Ok(&want), "{s:?} gives {r:?} instead of {want:?}");
            }
            (None, Ok(t)) => {
                // only what is a name or some notation of a GUID may be accepted
                let g = KNOWN
                    .iter()
                    .position(|k| k.0.eq_ignore_ascii_case(&s))
                    .map(|i| konst(i).guid)
                    .or(digits(&s).map(|g| g.uuid()))
                    .ok_or_else(|| format!("{s:?} is accepted as {t:?}"))?;
                let want = expect_type(&g);
                ensure!(t == want, "{s:?} gives {t:?} instead of {want:?}");
            }
            (None, Err(_)) => {
                cx.label("rejected");
                ensure!(!KNOWN.iter().any(|k| k.0.eq_ignore_ascii_case(&s)), "the name {s:?} is rejected");
            }
        }
        Ok(())
    });
    let strat = || {
        (
            prop_oneof![
                3 => guid(),
                // one bit away from a known one
                2 => (any::<u8>(), 0u8..128).prop_map(|(i, b)| {
                    let mut g = *konst(i as usize % KNOWN.len()).guid.as_bytes();
                    g[b as usize / 8] ^= 1 << (b % 8);
                    G(g)
                }),
                1 => any::<u8>().prop_map(|i| G(*konst(i as usize % KNOWN.len()).guid.as_bytes())),
            ],
            any::<u8>(),
        )
    };
    ctx.explore("GUIDs", ctx.cases(800_000, 28_000_000), strat, |(g, os), cx| {
        cx.nt("GUID");
        let t = lib("Type::from", || Type::from(g.uuid()))?;
        let want = expect_type(&g.uuid());
        ensure!(t == want, "{g:?} gives {t:?} instead of {want:?}");
        let mut p = Partition::zero();
        ensure!(!p.is_used(), "the zero partition is used");
        p.part_type_guid = Type {
            guid: g.uuid(),
            os: match os % 3 {
                0 => OperatingSystem::None,
                1 => OperatingSystem::Custom("x".into()),
                _ => KNOWN[*os as usize % KNOWN.len()].2.clone(),
            },
        };
        ensure!(p.is_used() == (g.0 != [0; 16]), "a partition with type GUID {g:?} reports is_used() = {}", p.is_used());
        if *os & 1 == 1 {
            p.part_guid = g.uuid();
            p.first_lba = 34;
            ensure!(p.is_used() == (g.0 != [0; 16]), "is_used() depends on more than the type GUID");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    /// from an existing header: positions, usable range, entry count and size
    from: Option<(u64, u64, u64, u64, u32, u32)>,
    primary: Option<bool>,
    guid: Option<G>,
    backup: Option<u64>,
    first: Option<u64>,
    last: Option<u64>,
    num: Option<u32>,
    size: Option<u32>,
    big: bool,
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("A case is the full parameter set of a header builder (new, or from a header with arbitrary fields; every setter called or not, with values around the interesting sums). Or one builder is told up to 14 things with builds in between, and every build is compared with that of a new builder told the same. Non-trivial: the build succeeds, or fails within 40 blocks of the limit; two builds of one builder succeed.");
    let strat = || {
        let from = (
            prop_oneof![4 => Just(1u64), 1 => edge64()],
            prop_oneof![2 => edge64(), 3 => 20u64..400],
            prop_oneof![1 => edge64(), 3 => 0u64..60],
            prop_oneof![1 => edge64(), 3 => 0u64..400],
            prop_oneof![3 => Just(128u32), 1 => edge32(), 1 => 0u32..300],
            prop_oneof![4 => Just(128u32), 1 => edge32(), 1 => Just(256u32)],
            any::<bool>(),
        )
            .prop_map(|(a, b, f, l, n, s, swap)| if swap { (b, a, f, l, n, s) } else { (a, b, f, l, n, s) });
        (
            (
                proptest::option::weighted(0.4, from),
                proptest::option::of(any::<bool>()),
                proptest::option::of(guid()),
                // relative to the fewest blocks a table needs
                proptest::option::weighted(0.9, (0u8..4, prop_oneof![3 => -6i64..12, 1 => 0i64..5000], edge64())),
            ),
            (
                proptest::option::weighted(0.4, (0u8..4, -4i64..8, edge64())),
                proptest::option::weighted(0.4, (0u8..4, -8i64..4, edge64())),
                proptest::option::weighted(0.4, prop_oneof![3 => 0u32..600, 1 => edge32()]),
                proptest::option::weighted(0.3, prop_oneof![2 => Just(128u32), 1 => edge32(), 2 => (0u32..5).prop_map(|e| 64 << e), 1 => 0u32..1000]),
                any::<bool>(),
            ),
        )
            .prop_map(|((from, primary, guid, backup), (first, last, num, size, big))| {
                let p = from.map_or(1, |f| f.0.min(f.1)) as u128;
                let n = num.map(|n| n.max(128)).or(from.map(|f| f.4)).unwrap_or(128) as u128;
                let s = size.or(from.map(|f| f.5)).unwrap_or(128) as u128;
                let arr = (n * s).div_ceil(if big { 4096 } else { 512 });
                let cl = |v: i128| v.clamp(0, u64::MAX as i128) as u64;
                let min_b = p + 2 * arr + 2;
                let backup = backup.map(|(k, d, raw)| if k == 0 { raw } else { cl(min_b as i128 + d as i128) });
                let b = backup.or(from.map(|f| f.0.max(f.1))).unwrap_or(0) as u128;
                let first = first.map(|(k, d, raw)| match k {
                    0 => raw,
                    1 => cl((p + 1 + arr) as i128 + d as i128),
                    2 => cl(b as i128 - arr as i128 - 1 + d as i128),
                    _ => cl((p + 1 + arr) as i128 + d.abs() as i128),
                });
                let last = last.map(|(k, d, raw)| match k {
                    0 => raw,
                    1 => cl(b as i128 - arr as i128 - 1 + d as i128),
                    2 => cl((p + 1 + arr) as i128 + d as i128 + 4),
                    _ => cl(b as i128 - arr as i128 - 1 - d.abs() as i128),
                });
                Build { from, primary, guid, backup, first, last, num, size, big }
            })
    };
    ctx.explore("parameters", ctx.cases(2_000_000, 40_000_000), strat, |c, cx| {
        let lb = if c.big { 4096i128 } else { 512 };
        let old = c.from.map(|(cur, bak, f, l, n, s)| Header {
            signature: "EFI PART".into(),
            revision: (1, 0),
            header_size_le: 92,
            crc32: 7,
            reserved: 0,
            current_lba: cur,
            backup_lba: bak,
            first_usable: f,
            last_usable: l,
            disk_guid: Uuid::from_u128(77),
            part_start: 2,
            num_parts: n,
            part_size: s,
            crc32_parts: 9,
        });
        let prepare = || {
            let mut b = match &old {
                Some(h) => HeaderBuilder::from_header(h),
                None => HeaderBuilder::new(),
            };
            if let Some(v) = c.guid {
                b.disk_guid(v.uuid());
            }
            if let Some(v) = c.backup {
                b.backup_lba(v);
            }
            if let Some(v) = c.first {
                b.first_usable(v);
            }
            if let Some(v) = c.last {
                b.last_usable(v);
            }
            if let Some(v) = c.num {
                b.num_parts(v);
            }
            if let Some(v) = c.size {
                b.part_size(v);
            }
            b
        };
        let p = old.as_ref().map_or(1, |h| h.current_lba.min(h.backup_lba)) as i128;
        let b = c.backup.or(old.as_ref().map(|h| h.current_lba.max(h.backup_lba))).unwrap_or(0) as i128;
        let rf = c.first.or(old.as_ref().map(|h| h.first_usable)).unwrap_or(0) as i128;
        let rl = c.last.or(old.as_ref().map(|h| h.last_usable)).unwrap_or(0) as i128;
        let num = c.num.map(|n| n.max(128)).or(old.as_ref().map(|h| h.num_parts)).unwrap_or(128);
        let size = c.size.or(old.as_ref().map(|h| h.part_size)).unwrap_or(128);
        let arr = (num as i128 * size as i128 + lb - 1) / lb;
        let (min_f, max_l) = (p + 1 + arr, b - arr - 1);
        let f = rf.max(min_f);
        let l = if rl == 0 { max_l } else { rl.min(max_l) };
        let possible = f <= l && b >= p;
        let prim_default = old.as_ref().map_or(true, |h| h.current_lba < h.backup_lba);
        let mut built = vec![];
        for prim in [true, false] {
            let mut x = prepare();
            x.primary(prim);
            built.push((prim, lib("build", || x.build(lbs(c.big)))?));
            // building does not use the builder up
            let again = lib("build", || x.build(lbs(c.big)))?;
            ensure!(again.as_ref().ok() == built.last().unwrap().1.as_ref().ok(), "building twice gives different headers");
        }
        // without naming the side: the side of the header it came from
        let mut x = prepare();
        if let Some(v) = c.primary {
            x.primary(v);
        }
        let side = c.primary.unwrap_or(prim_default);
        let r = lib("build", || x.build(lbs(c.big)))?;
        let same = &built[if side { 0 } else { 1 }].1;
        ensure!(
            r.is_ok() == same.is_ok()
                && (c.guid.is_none() && old.is_none() || r.as_ref().ok() == same.as_ref().ok())
                && r.as_ref().map_or(true, |r| (r.current_lba, r.part_start) == same.as_ref().map(|h| (h.current_lba, h.part_start)).unwrap()),
            "without choosing a side: {r:?} instead of {same:?}"
        );
        let guid = c.guid.map(|g| g.uuid()).or(old.as_ref().map(|h| h.disk_guid));
        if possible {
            cx.nt("succeeds");
        } else if (f - l).abs() < 40 {
            cx.nt("narrowly fails");
        }
        if rl != 0 && rl <= max_l && rl >= f {
            cx.label("chosen last usable LBA kept");
        }
        if rf > min_f {
            cx.label("chosen first usable LBA kept");
        }
        for (prim, r) in &built {
            let what = if *prim { "primary" } else { "backup" };
            let h = match r {
                Ok(h) => h,
                Err(e) => {
                    ensure!(!possible, "{what}: {e:?} although LBAs {f}..={l} are usable");
                    continue;
                }
            };
            ensure!(possible, "{what}: {h:?} although no block is usable (arrays of {arr} blocks, backup header at {b})");
            let (hf, hl, ps) = (h.first_usable as i128, h.last_usable as i128, h.part_start as i128);
            ensure!((h.num_parts, h.part_size) == (num, size), "{what}: {}x{} entries instead of {num}x{size}", h.num_parts, h.part_size);
            ensure!((h.current_lba as i128, h.backup_lba as i128) == if *prim { (p, b) } else { (b, p) }, "{what}: header at {} with alternate {}", h.current_lba, h.backup_lba);
            ensure!(hf == f, "{what}: first usable LBA {hf} instead of {f} (requested {rf})");
            ensure!(hl == l, "{what}: last usable LBA {hl} instead of {l} (requested {rl})");
            if *prim {
                ensure!(ps > p && ps + arr <= hf, "primary array {ps}+{arr} not between the header at {p} and the usable range from {hf}");
            } else {
                ensure!(ps > hl && ps + arr <= b, "backup array {ps}+{arr} not between the usable range to {hl} and the header at {b}");
            }
            ensure!(h.signature == "EFI PART" && h.revision == (1, 0) && h.header_size_le == 92 && h.reserved == 0, "{what}: {h:?}");
            if let Some(g) = guid {
                ensure!(h.disk_guid == g, "{what}: disk GUID {} instead of {g}", h.disk_guid);
            } else {
                ensure!(h.disk_guid.get_version_num() == 4, "{what}: generated GUID {}", h.disk_guid);
            }
        }
        Ok(())
    });
    // a builder that is used on after a build is worth as much as a new one told the same
    let set = || {
        prop_oneof![
            any::<bool>().prop_map(Set::Primary),
            guid().prop_map(Set::Guid),
            prop_oneof![4 => 60u64..600, 1 => edge64()].prop_map(Set::Backup),
            prop_oneof![4 => 0u64..200, 1 => edge64()].prop_map(Set::First),
            prop_oneof![4 => 0u64..600, 1 => edge64()].prop_map(Set::Last),
            prop_oneof![4 => 0u32..700, 1 => edge32()].prop_map(Set::Num),
            prop_oneof![4 => (0u32..4).prop_map(|e| 64 << e), 1 => edge32()].prop_map(Set::Size),
            any::<bool>().prop_map(Set::Build),
        ]
    };
    let strat = || (60u64..600, proptest::option::of((any::<bool>(), 0u64..80, 0u64..600, 1u32..600)), proptest::collection::vec(set(), 2..14));
    ctx.explore("a builder used again", ctx.cases(300_000, 6_000_000), strat, |(backup, from, sets), cx| {
        let old = from.map(|(side, f, l, n)| Header {
            signature: "EFI PART".into(),
            revision: (1, 0),
            header_size_le: 92,
            crc32: 7,
            reserved: 0,
            current_lba: if side { 1 } else { *backup },
            backup_lba: if side { *backup } else { 1 },
            first_usable: f,
            last_usable: l,
            disk_guid: Uuid::from_u128(77),
            part_start: 2,
            num_parts: n,
            part_size: 128,
            crc32_parts: 9,
        });
        let fresh = || {
            let mut b = match &old {
                Some(h) => HeaderBuilder::from_header(h),
                None => HeaderBuilder::new(),
            };
            b.disk_guid(Uuid::from_u128(1)).backup_lba(*backup);
            b
        };
        let apply = |b: &mut HeaderBuilder, s: &Set| {
            match s {
                Set::Primary(v) => b.primary(*v),
                Set::Guid(v) => b.disk_guid(v.uuid()),
                Set::Backup(v) => b.backup_lba(*v),
                Set::First(v) => b.first_usable(*v),
                Set::Last(v) => b.last_usable(*v),
                Set::Num(v) => b.num_parts(*v),
                Set::Size(v) => b.part_size(*v),
                Set::Build(_) => b,
            };
        };
        let mut used = fresh();
        let (mut builds, mut good) = (0, 0);
        for (i, s) in sets.iter().chain([&Set::Build(false), &Set::Build(true)]).enumerate() {
            apply(&mut used, s);
            let Set::Build(big) = s else { continue };
            let got = lib("build", || used.build(lbs(*big)))?;
            let mut b = fresh();
            for s in sets.iter().take(i) {
                apply(&mut b, s);
            }
            let want = lib("build", || b.build(lbs(*big)))?;
            ensure!(got.as_ref().ok() == want.as_ref().ok(), "build {builds} of a builder gives {got:?}, a builder told the same for the first time gives {want:?}");
            builds += 1;
            good += got.is_ok() as u32;
        }
        if good >= 2 {
            cx.nt("several headers from one builder");
        }
        if builds > 2 && good > 0 && good < builds {
            cx.label("some builds fail");
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    Primary(bool),
    Guid(G),
    Backup(u64),
    First(u64),
    Last(u64),
    Num(u32),
    Size(u32),
    Build(bool),
}

// ------------------------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    ty: Ty,
    unused: bool,
    guid: G,
    first: u64,
    last: u64,
    flags: u64,
    name: String,
}

impl Entry {
    fn partition(&self) -> Partition {
        Partition {
            part_type_guid: if self.unused { gpt::partition_types::UNUSED } else { self.ty.get() },
            part_guid: self.guid.uuid(),
            first_lba: self.first,
            last_lba: self.last,
            flags: self.flags,
            name: self.name.clone(),
        }
    }
    fn encoded(&self) -> [u8; 128] {
        let p = self.partition();
        RefEntry {
            ty: guid_of(&p.part_type_guid.guid),
            guid: self.guid.0,
            first: self.first,
            last: self.last,
            flags: self.flags,
            name: pad(refgpt::name_units(&self.name)),
        }
        .encode()
    }
}

fn entry() -> impl Strategy<Value = Entry> {
    (ty(), proptest::bool::weighted(0.1), guid(), edge64(), edge64(), flags(), name())
        .prop_map(|(ty, unused, guid, first, last, flags, name)| Entry { ty, unused, guid, first, last, flags, name })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Put {
    big: bool,
    fill: u64,
    /// none: zero entries
    entry: Option<Entry>,
    index: u64,
    count: u64,
    start: u64,
    size: u32,
    dev_blocks: u64,
    pos: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Raw {
    Zero,
    Entry(Entry),
    Bytes(u64),
    /// all zero except for one byte
    One(u8, u8),
    /// name units as they are, no terminator needed
    Name(Vec<u16>),
}

impl Raw {
    pub fn bytes(&self) -> [u8; 128] {
        let mut b = [0u8; 128];
        match self {
            Raw::Zero => {}
            Raw::Entry(e) => b = e.encoded(),
            Raw::Bytes(seed) => {
                for (i, v) in b.iter_mut().enumerate() {
                    *v = crate::dev::fill_byte(*seed | 1, i as u64);
                }
            }
            Raw::One(i, v) => b[*i as usize % 128] = (*v).max(1),
            Raw::Name(u) => {
                b[0] = 1;
                for (i, u) in u.iter().take(36).enumerate() {
                    b[56 + 2 * i..58 + 2 * i].copy_from_slice(&u.to_le_bytes());
                }
            }
        }
        b
    }
}

pub fn raw_entry() -> BoxedStrategy<Raw> {
    prop_oneof![
        3 => Just(Raw::Zero),
        3 => entry().prop_map(Raw::Entry),
        1 => any::<u64>().prop_map(Raw::Bytes),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Raw::One(a, b)),
        1 => proptest::collection::vec(prop_oneof![
            any::<u16>(), 0xD7FEu16..0xDC02, 0xDBFEu16..0xE002, Just(0u16), 65u16..70
        ], 0..40).prop_map(Raw::Name),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    big: bool,
    start: u64,
    /// blocks of zero entries in between
    parts: Vec<(u16, Raw)>,
    tail: u16,
    size: u32,
    short: u8,
    pos: u64,
}

pub fn check_decoded(id: u32, p: &Partition, e: &RefEntry) -> Result<(), String> {
    ensure!(guid_of(&p.part_type_guid.guid) == e.ty, "entry {id}: type GUID {} instead of {}", p.part_type_guid.guid, guid_text(&e.ty));
    let want = expect_type(&p.part_type_guid.guid);
    ensure!(p.part_type_guid == want, "entry {id}: type {:?} instead of {want:?}", p.part_type_guid);
    ensure!(guid_of(&p.part_guid) == e.guid, "entry {id}: GUID {} instead of {}", p.part_guid, guid_text(&e.guid));
    ensure!((p.first_lba, p.last_lba) == (e.first, e.last), "entry {id}: extent {}..={} instead of {}..={}", p.first_lba, p.last_lba, e.first, e.last);
    ensure!(p.flags == e.flags, "entry {id}: flags {:#x} instead of {:#x}", p.flags, e.flags);
    ensure!(p.name == e.name_text(), "entry {id}: name {:?} instead of {:?}", p.name, e.name_text());
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("Writing: a case is a partition (or a run of zero entries), an index, an array position, an entry size and a device with arbitrary contents; non-trivial if the entry lies inside the device or its position is not a 64-bit number. Reading: a case is an array of raw entries with its header; non-trivial if an entry is not all zero.");
    let strat = || {
        (
            (any::<bool>(), 1u64..1000, proptest::option::weighted(0.7, entry())),
            (prop_oneof![6 => 0u64..200, 1 => edge64()], prop_oneof![6 => 0u64..150, 1 => edge64()], prop_oneof![6 => 0u64..40, 1 => edge64()]),
            prop_oneof![6 => Just(128u32), 2 => (1u32..5).prop_map(|e| 128 << e), 1 => 129u32..1000],
            prop_oneof![4 => 60u64..400, 1 => 1u64..60, 1 => Just(1u64 << 50)],
            prop_oneof![Just(0u64), 0u64..300_000],
        )
            .prop_map(|((big, fill, entry), (index, count, start), size, dev_blocks, pos)| Put {
                big,
                fill,
                entry,
                index,
                count,
                start,
                size,
                dev_blocks,
                pos,
            })
    };
    ctx.explore("writing entries", ctx.cases(300_000, 10_500_000), strat, |c, cx| {
        let lb: u64 = if c.big { 4096 } else { 512 };
        let d0 = Dev::new(c.dev_blocks * lb, c.fill);
        let mut d = d0.clone();
        d.pos = c.pos;
        let at = c.start as u128 * lb as u128 + c.index as u128 * c.size as u128;
        let (what, r, bytes): (_, _, Option<Vec<u8>>) = match &c.entry {
            Some(e) => {
                let mut b = e.encoded().to_vec();
                b.resize(c.size as usize, 0);
                (
                    "write_to_device",
                    lib("write_to_device", || e.partition().write_to_device(&mut d, c.index, c.start, lbs(c.big), c.size))?,
                    Some(b),
                )
            }
            None => {
                let n = c.count as u128 * c.size as u128;
                if n > 1 << 22 && u64::try_from(n).is_ok() {
                    return Ok(());
                }
                (
                    "write_zero_entries_to_device",
                    lib("write_zero_entries_to_device", || {
                        Partition::write_zero_entries_to_device(&mut d, c.index, c.count, c.start, lbs(c.big), c.size)
                    })?,
                    u64::try_from(n).ok().map(|n| vec![0; n as usize]),
                )
            }
        };
        let fits = bytes.as_ref().is_some_and(|b| b.is_empty() || at + b.len() as u128 <= d0.len as u128);
        match bytes {
            Some(b) if fits && at <= i64::MAX as u128 => {
                cx.nt("inside the device");
                ensure!(r.is_ok(), "{what}: {r:?}");
                let mut want = d0.clone();
                want.poke(at as u64, &b);
                let diff = d.diff(&want);
                ensure!(diff.is_empty(), "{what} at byte {at}: wrong bytes at {:?}", &diff[..diff.len().min(4)]);
            }
            b => {
                if at + b.as_ref().map_or(0, |b| b.len()) as u128 > u64::MAX as u128 {
                    cx.nt("beyond 64 bits");
                    ensure!(b.as_ref().is_some_and(|b| b.is_empty()) || r.is_err(), "{what} beyond 64 bits succeeded");
                    ensure!(d.same(&d0), "{what} beyond 64 bits changed the device");
                } else if b.is_none_or(|b| !b.is_empty()) {
                    cx.label("outside the device");
                    ensure!(r.is_err(), "{what} at byte {at} succeeded on a device of {} bytes", d0.len);
                    let diff = d.diff(&d0);
                    ensure!(diff.iter().all(|(a, _)| *a as u128 >= at), "{what} changed bytes before the entry: {diff:?}");
                }
            }
        }
        Ok(())
    });
    let strat = || {
        (
            any::<bool>(),
            prop_oneof![5 => 0u64..40, 1 => edge64()],
            proptest::collection::vec((prop_oneof![400 => Just(0u16), 200 => 0u16..20, 1 => 0u16..9000], raw_entry()), 0..20),
            prop_oneof![200 => 0u16..10, 100 => 0u16..300, 1 => 0u16..20_000],
            prop_oneof![12 => Just(128u32), 1 => edge32(), 1 => Just(256u32), 1 => Just(64u32)],
            prop_oneof![8 => Just(0u8), 1 => any::<u8>()],
            prop_oneof![Just(0u64), 0u64..300_000],
        )
            .prop_map(|(big, start, parts, tail, size, short, pos)| Table { big, start, parts, tail, size, short, pos })
    };
    ctx.explore("reading arrays", ctx.cases(300_000, 10_500_000), strat, |c, cx| {
        let lb: u64 = if c.big { 4096 } else { 512 };
        let mut arr: Vec<u8> = vec![];
        for (gap, raw) in &c.parts {
            arr.resize(arr.len() + 128 * *gap as usize, 0);
            arr.extend_from_slice(&raw.bytes());
        }
        arr.resize(arr.len() + 128 * c.tail as usize, 0);
        let num = (arr.len() / 128) as u32;
        let at = c.start as u128 * lb as u128;
        let inside = at < 1 << 40;
        let mut d = Dev::new(if inside { at as u64 + arr.len() as u64 } else { 1 << 20 }, 0);
        if inside {
            d.poke(at as u64, &arr);
            d.len = d.len.saturating_sub(c.short as u64);
        }
        let whole = inside && (c.short == 0 || arr.is_empty());
        d.pos = c.pos;
        let h = as_header(&RefHeader {
            sig: *b"EFI PART",
            revision: 0x10000,
            header_size: 92,
            crc: 0,
            reserved: 0,
            my_lba: 1,
            alt_lba: 100_000,
            first_usable: 1000,
            last_usable: 50_000,
            guid: [1; 16],
            part_start: c.start,
            num,
            size: c.size,
            crc_parts: crc32(&arr),
        });
        let d0 = d.clone();
        let r = lib("file_read_partitions", || file_read_partitions(&mut d, &h, lbs(c.big)))?;
        ensure!(d.same(&d0) && d.n_write == 0, "reading wrote to the device");
        if c.size != 128 {
            cx.nt("unsupported entry size");
            ensure!(r.is_err(), "an array with entries of {} bytes was read", c.size);
            return Ok(());
        }
        if !whole {
            ensure!(r.is_err() || arr.is_empty(), "an array reaching out of the device was read");
            return Ok(());
        }
        let got = r.map_err(|e| format!("a correct array was refused: {e}"))?;
        let mut n = 0;
        for (i, e) in arr.chunks_exact(128).enumerate() {
            let id = i as u32 + 1;
            if e.iter().all(|b| *b == 0) {
                ensure!(!got.contains_key(&id), "entry {id} is all zero but listed as {:?}", got[&id]);
                continue;
            }
            n += 1;
            let p = got.get(&id).ok_or_else(|| format!("entry {id} is not all zero but missing"))?;
            check_decoded(id, p, &RefEntry::parse(e))?;
        }
        ensure!(got.len() == n, "{} entries read instead of {n}", got.len());
        if n > 0 {
            cx.nt("entries read");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------- C31

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeadCase {
    big: bool,
    fill: u64,
    blocks: u64,
    cur: u64,
    alt: u64,
    first: u64,
    last: u64,
    guid: G,
    start: u64,
    num: u32,
    size: u32,
    rev: (u16, u16),
    crcs: (u32, u32),
    backup: bool,
    pos: u64,
    parts: Vec<(u16, Raw)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathCase {
    geo: Geo,
    guid: Option<G>,
    less: u8,
    parts: Vec<(u16, Raw)>,
}

pub fn header_of(c: &Header) -> RefHeader {
    RefHeader {
        sig: c.signature.as_bytes().try_into().unwrap_or([0; 8]),
        revision: (c.revision.0 as u32) << 16 | c.revision.1 as u32,
        header_size: c.header_size_le,
        crc: c.crc32,
        reserved: c.reserved,
        my_lba: c.current_lba,
        alt_lba: c.backup_lba,
        first_usable: c.first_usable,
        last_usable: c.last_usable,
        guid: guid_of(&c.disk_guid),
        part_start: c.part_start,
        num: c.num_parts,
        size: c.part_size,
        crc_parts: c.crc32_parts,
    }
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("A case is a header with arbitrary field values and a device with arbitrary contents and entries, written as primary or as backup. Non-trivial: the header and its array lie inside the device, or the header is written on the wrong side. Path cases: an image of any length with entries, for which the path helper creates a header.");
    let strat = || {
        (
            (any::<bool>(), 1u64..1000, prop_oneof![3 => 40u64..400, 1 => 1u64..40]),
            (
                prop_oneof![5 => 0u64..100, 1 => edge64()],
                prop_oneof![3 => edge64(), 4 => 0u64..300, 1 => Just(u64::MAX)],
                any::<bool>(),
            ),
            (edge64(), edge64(), guid()),
            (
                prop_oneof![6 => 0u64..60, 1 => edge64()],
                prop_oneof![3 => Just(128u32), 2 => 0u32..300, 1 => edge32().prop_map(|n| n.min(5000))],
                prop_oneof![5 => Just(128u32), 1 => 0u32..600],
            ),
            (any::<u16>(), any::<u16>(), any::<u32>(), any::<u32>()),
            (proptest::option::weighted(0.2, any::<bool>()), prop_oneof![Just(0u64), 0u64..300_000]),
            proptest::collection::vec((0u16..10, raw_entry()), 0..6),
        )
            .prop_map(|((big, fill, blocks), (cur, alt, eq), (first, last, guid), (start, num, size), rev, (wrong, pos), parts)| {
                let alt = if eq && alt % 7 == 0 { cur } else { alt };
                let backup = match wrong {
                    Some(b) => b,
                    None => cur > alt,
                };
                HeadCase {
                    big,
                    fill,
                    blocks,
                    cur,
                    alt,
                    first,
                    last,
                    guid,
                    start,
                    num,
                    size,
                    rev: (rev.0, rev.1),
                    crcs: (rev.2, rev.3),
                    backup,
                    pos,
                    parts,
                }
            })
    };
    ctx.explore("headers", ctx.cases(120_000, 4_200_000), strat, |c, cx| head_case(c, cx));
    let strat = || {
        (crate::props::files::geo_path(), proptest::option::weighted(0.6, guid()), prop_oneof![4 => Just(0u8), 1 => any::<u8>()], proptest::collection::vec((0u16..10, raw_entry()), 0..6))
            .prop_map(|(geo, guid, less, parts)| PathCase { geo, guid, less, parts })
    };
    ctx.explore("path helper", ctx.cases(8_000, 280_000), strat, |c, cx| path_case(c, cx));
}

fn head_case(c: &HeadCase, cx: &mut Cx) -> Result<(), String> {
    let lb: u64 = if c.big { 4096 } else { 512 };
    let mut d = Dev::new(c.blocks * lb, c.fill);
    let at = c.cur as u128 * lb as u128;
    let arr_at = c.start as u128 * lb as u128;
    let arr_len = c.num as u128 * c.size as u128;
    let arr_inside = arr_len == 0 || arr_at + arr_len <= d.len as u128;
    if arr_inside && arr_len > 0 {
        let mut o = arr_at as u64;
        for (g, raw) in &c.parts {
            o += 128 * *g as u64;
            if o as u128 + 128 <= arr_at + arr_len {
                d.poke(o, &raw.bytes());
            }
            o += 128;
        }
    }
    if arr_len > 0 && at < arr_at + arr_len && arr_at < at + lb as u128 {
        // the header would be part of its own array
        return Ok(());
    }
    if arr_len == 0 && arr_at > d.len as u128 {
        // an empty array somewhere else: whether the device can be positioned there is its matter
        return Ok(());
    }
    d.pos = c.pos;
    let d0 = d.clone();
    let mut h = Header {
        signature: "EFI PART".into(),
        revision: c.rev,
        header_size_le: 92,
        crc32: c.crcs.0,
        reserved: 0,
        current_lba: c.cur,
        backup_lba: c.alt,
        first_usable: c.first,
        last_usable: c.last,
        disk_guid: c.guid.uuid(),
        part_start: c.start,
        num_parts: c.num,
        part_size: c.size,
        crc32_parts: c.crcs.1,
    };
    let orig = h.clone();
    let what = if c.backup { "write_backup" } else { "write_primary" };
    let r = lib(what, || if c.backup { h.write_backup(&mut d, lbs(c.big)) } else { h.write_primary(&mut d, lbs(c.big)) })?;
    let right = if c.backup { c.cur > c.alt } else { c.cur < c.alt };
    if !right {
        cx.nt("wrong side");
        ensure!(r.is_err(), "{what} of a header at {} with alternate {} succeeded", c.cur, c.alt);
        ensure!(d.same(&d0), "a refused {what} changed the device");
        return Ok(());
    }
    if !arr_inside || at + lb as u128 > d.len as u128 {
        cx.label("outside the device");
        ensure!(r.is_err(), "{what} succeeded although the header or its array is outside the device");
        ensure!(d.diff(&d0).iter().all(|(a, _)| *a as u128 >= at), "a failed {what} changed other blocks");
        return Ok(());
    }
    cx.nt(if c.backup { "backup header" } else { "primary header" });
    let n = r.map_err(|e| format!("{what}: {e:?}"))?;
    ensure!(n as u64 == lb, "{what} reports {n} bytes written");
    let mut want = header_of(&orig);
    want.crc_parts = crc32(&d0.peek(arr_at as u64, arr_len as usize));
    let mut block = want.sealed().to_vec();
    block.resize(lb as usize, 0);
    let mut expect = d0.clone();
    expect.poke(at as u64, &block);
    let diff = d.diff(&expect);
    if let Some((a, _)) = diff.first() {
        return Err(format!(
            "{what}: byte {a} (header block at {at}) is {:#x} instead of {:#x}",
            d.peek(*a, 1)[0],
            expect.peek(*a, 1)[0]
        ));
    }
    let sealed = RefHeader::parse(&block);
    let got = header_of(&h);
    ensure!(got == sealed, "{what} left {got:?} in memory instead of {sealed:?}");
    // read back
    if c.cur == 1 {
        cx.label("read back");
        let pos = d.pos;
        let r = lib("read_header_from_arbitrary_device", || gpt::header::read_header_from_arbitrary_device(&mut d, lbs(c.big)))?
            .map_err(|e| format!("the written header is refused: {e:?}"))?;
        ensure!(r == h, "reads back as {r:?} instead of {h:?}");
        let _ = pos;
    } else {
        // move it where the reader looks
        let mut m = d.clone();
        if m.len >= 2 * lb {
            m.poke(lb, &block);
            let r = lib("read_header_from_arbitrary_device", || gpt::header::read_header_from_arbitrary_device(&mut m, lbs(c.big)))?
                .map_err(|e| format!("the written header is refused: {e:?}"))?;
            ensure!(r == h, "reads back as {r:?} instead of {h:?}");
        }
    }
    Ok(())
}

fn path_case(c: &PathCase, cx: &mut Cx) -> Result<(), String> {
    let geo = &c.geo;
    let lb = geo.lb();
    let mut d = geo.dev();
    d.len = d.len.saturating_sub(c.less as u64 * lb / 2);
    let mut o = 2 * lb;
    for (g, raw) in &c.parts {
        o += 128 * *g as u64;
        d.poke(o, &raw.bytes());
        o += 128;
    }
    let blocks = d.len / lb;
    let a = geo.arr(128);
    let fits = blocks >= 2 * a + 4;
    let dir = crate::props::files::Scratch::new();
    let path = dir.path.join("img");
    if !crate::props::files::put(&path, &d) {
        cx.label("file too large for the file system");
        return Ok(());
    }
    if d.len > u32::MAX as u64 {
        cx.label("more than 4 GiB");
    }
    let r = lib("write_header", || gpt::header::write_header(&path, c.guid.map(|g| g.uuid()), geo.lbs()))?;
    let after = crate::props::files::take(&path, d.fill);
    ensure!(after.len == d.len, "write_header changed the length of the file to {}", after.len);
    if !fits {
        cx.nt("too small");
        ensure!(r.is_err(), "write_header succeeded on {blocks} blocks");
        ensure!(after.same(&d), "a failed write_header changed the file");
        return Ok(());
    }
    cx.nt("header created");
    let g = r.map_err(|e| format!("write_header: {e:?}"))?;
    match c.guid {
        Some(w) => ensure!(w.uuid() == g, "write_header returns {g} instead of {}", w.uuid()),
        None => ensure!(g.get_version_num() == 4 && g.get_variant() == uuid::Variant::RFC4122, "write_header generated {g}"),
    }
    let last = blocks - 1;
    let want = RefHeader {
        sig: *b"EFI PART",
        revision: 0x10000,
        header_size: 92,
        crc: 0,
        reserved: 0,
        my_lba: 1,
        alt_lba: last,
        first_usable: 2 + a,
        last_usable: last - a - 1,
        guid: guid_of(&g),
        part_start: 2,
        num: 128,
        size: 128,
        crc_parts: crc32(&d.peek(2 * lb, 128 * 128)),
    };
    let mut expect = d.clone();
    let mut block = want.sealed().to_vec();
    block.resize(lb as usize, 0);
    expect.poke(lb, &block);
    let diff = after.diff(&expect);
    ensure!(
        diff.is_empty(),
        "write_header: bytes {:?} are wrong; header {:?} instead of {want:?}",
        &diff[..diff.len().min(4)],
        RefHeader::parse(&after.peek(lb, 92))
    );
    let h = lib("read_header", || gpt::header::read_header(&path, geo.lbs()))?.map_err(|e| format!("read_header: {e:?}"))?;
    ensure!(header_of(&h) == RefHeader::parse(&block), "read_header gives {h:?}");
    Ok(())
}
