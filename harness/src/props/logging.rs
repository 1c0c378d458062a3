//! C32: the same cases run in processes built with the log and tracing features, each with a
//! subscriber that formats everything, and in this one without; all have to report the same.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::props::files::Scratch;
use crate::props::hostile::{image, Image};
use crate::refgpt::{crc32, guid_swap, header_ok, RefHeader};
use crate::runner::{hash_str, lib, Ctx, Cx};
use gpt::mbr::{self, ProtectiveMBR};
use gpt::partition::{self, Partition};
use gpt::{header, GptConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

static RECORDS: AtomicU64 = AtomicU64::new(0);
static TEXT: AtomicU64 = AtomicU64::new(0);

#[allow(dead_code)]
fn count(s: &str) {
    RECORDS.fetch_add(1, Ordering::Relaxed);
    TEXT.fetch_add(s.len() as u64, Ordering::Relaxed);
}

#[cfg(feature = "log")]
mod with_log {
    pub struct L;
    impl log::Log for L {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            super::count(&format!("{} {} {}", r.level(), r.target(), r.args()));
        }
        fn flush(&self) {}
    }
    pub fn on(quiet: bool) {
        let _ = log::set_logger(&L);
        log::set_max_level(if quiet { log::LevelFilter::Off } else { log::LevelFilter::Trace });
    }
}

#[cfg(feature = "tracing")]
mod with_tracing {
    use tracing::{field, span, Event, Metadata, Subscriber};
    pub struct S {
        pub quiet: bool,
    }
    struct V(String);
    impl field::Visit for V {
        fn record_debug(&mut self, f: &field::Field, v: &dyn std::fmt::Debug) {
            use std::fmt::Write;
            let _ = write!(self.0, "{}={:?} ", f.name(), v);
        }
    }
    impl Subscriber for S {
        fn enabled(&self, _: &Metadata<'_>) -> bool {
            !self.quiet
        }
        fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
            span::Id::from_u64(1)
        }
        fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
        fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
        fn event(&self, e: &Event<'_>) {
            let mut v = V(String::new());
            e.record(&mut v);
            super::count(&v.0);
        }
        fn enter(&self, _: &span::Id) {}
        fn exit(&self, _: &span::Id) {}
    }
    pub fn on(quiet: bool) {
        let _ = tracing::subscriber::set_global_default(S { quiet });
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Hist(Hist),
    Image { image: Image, cfg: Cfg, big: bool, ops: Vec<Op> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LogCase {
    src: Src,
    /// go on with a file
    file: bool,
    entry: Ty,
    index: u8,
}

/// The partition GUIDs of a story, as they look on a device.
type Seen = std::collections::HashSet<[u8; 16]>;

fn see(seen: &mut Seen, parts: &Map) {
    for p in parts.values() {
        if !p.part_guid.is_nil() {
            seen.insert(guid_swap(p.part_guid.as_bytes()));
        }
    }
}

/// A device's contents without what is random: partition GUIDs, and the checksums over them
/// (whether these are right is kept).
fn face(d: &Dev, lb: u64, seen: &Seen) -> String {
    let mut valid = vec![];
    let blocks = d.len / lb;
    if blocks >= 2 {
        for at in [1, blocks - 1] {
            let b = d.peek(at * lb, 92);
            let ok = header_ok(&b);
            let mut array_ok = false;
            if ok {
                let h = RefHeader::parse(&b);
                let (o, n) = (h.part_start as u128 * lb as u128, h.array_bytes() as u128);
                if o + n <= d.len as u128 && n <= 1 << 22 {
                    array_ok = crc32(&d.peek(o as u64, n as usize)) == h.crc_parts;
                }
            }
            valid.push((ok, array_ok));
        }
    }
    // everything that can have been touched
    let mut h = 0u64;
    for (o, mut b) in d.touched() {
        if &b[..8] == b"EFI PART" {
            b[16..20].fill(0);
            b[88..92].fill(0);
        }
        for c in b.chunks_exact_mut(16) {
            if seen.contains(&*c) {
                c.fill(0);
            }
        }
        h = h.rotate_left(7) ^ hash_str(&format!("{o} {:x}", crc32(&b)));
    }
    format!("{valid:?} {h:x} at {}", d.pos)
}

fn face_snap(s: &Snap) -> String {
    let mut s = s.clone();
    for p in s.parts.values_mut() {
        p.part_guid = uuid::Uuid::nil();
    }
    for h in [&mut s.ph, &mut s.bh].into_iter().flatten() {
        h.crc32 = 0;
        h.crc32_parts = 0;
    }
    format!("{:x}", hash_str(&format!("{s:?}")))
}

fn face_out(o: &Out) -> String {
    match o {
        Out::Taken(m) => format!("Taken {}", m.len()),
        o => format!("{o:?}"),
    }
}

/// The story of a case: one line per operation.
pub fn story(c: &LogCase) -> Vec<String> {
    let mut t = vec![];
    let mut seen = Seen::new();
    let (mut disk, big, dev) = match &c.src {
        Src::Hist(h) => {
            let r = run(h, &mut Cx::default(), Opts::default(), &mut |st, _| {
                let d = match &mut st.disk {
                    Some(d) => {
                        let g: &mut gpt::GptDisk<Dev> = d;
                        format!("{:?} {:?} {:?}", g.find_free_sectors(), g.calculate_alignment(), g.find_next_partition_id())
                    }
                    None => String::new(),
                };
                t.push(format!(
                    "{} | {} | {} | {d}",
                    face_out(st.out),
                    st.after.map(face_snap).unwrap_or_default(),
                    {
                        if let Some(s) = st.after {
                            see(&mut seen, &s.parts);
                        }
                        face(st.dev1, st.geo.lb(), &seen)
                    }
                ));
                Ok(())
            });
            match r {
                Ok(Some(g)) => {
                    let d = g.device_ref().clone();
                    (Some(g), h.geo.big, d)
                }
                Ok(None) => (None, h.geo.big, h.geo.dev()),
                Err(m) => {
                    t.push(m);
                    (None, h.geo.big, h.geo.dev())
                }
            }
        }
        Src::Image { image, cfg, big, ops } => {
            let big = image.big(*big);
            let lb: u64 = if big { 4096 } else { 512 };
            let d = match image.device(&mut Cx::default()) {
                Ok(d) => d,
                Err(m) => {
                    t.push(m);
                    Dev::new(0, 0)
                }
            };
            let g = match open(d.clone(), *cfg, big) {
                Ok(Ok(mut g)) => {
                    see(&mut seen, g.partitions());
                    t.push(format!("opened {}", face_snap(&Snap::of(&g))));
                    let geo = Geo { big, blocks: (d.len / lb).max(1), tail: (d.len % lb) as u16, fill: 0, old: 0 };
                    for o in ops {
                        let s = Snap::of(&g);
                        match concrete(o, &s, &geo, *cfg, &g) {
                            Ok(COp::Reopen { .. }) => continue,
                            // what is made here has a random GUID, which may end up anywhere
                            Ok(cop @ (COp::Add { .. } | COp::AddAt { .. })) => {
                                let mut g = g.clone();
                                match apply(&mut g, &cop) {
                                    Ok(out) => t.push(format!("{} | {}", face_out(&out), face_snap(&Snap::of(&g)))),
                                    Err(m) => t.push(m),
                                }
                            }
                            Ok(cop) => match apply(&mut g, &cop) {
                                Ok(out) => {
                                    see(&mut seen, g.partitions());
                                    t.push(format!("{} | {} | {}", face_out(&out), face_snap(&Snap::of(&g)), face(g.device_ref(), lb, &seen)))
                                }
                                Err(m) => t.push(m),
                            },
                            Err(m) => t.push(m),
                        }
                    }
                    Some(g)
                }
                Ok(Err(e)) => {
                    t.push(format!("refused: {e:?}"));
                    None
                }
                Err(m) => {
                    t.push(m);
                    None
                }
            };
            (g, big, d)
        }
    };
    let lb: u64 = if big { 4096 } else { 512 };
    // the functions around the disk object
    let mut dev = disk.as_ref().map_or(dev, |g| g.device_ref().clone());
    dev.pos = 0;
    let r = lib("MBR functions", || {
        let mut v = vec![];
        v.push(format!("{:x?}", mbr::read_bootcode(&mut dev).map(|b| crc32(&b[..])).map_err(|e| e.to_string())));
        v.push(format!("{:?}", mbr::write_bootcode(&mut dev, &[3; 440]).map_err(|e| e.to_string())));
        v.push(format!("{:?}", mbr::write_disk_signature(&mut dev, &[1, 2, 3, 4]).map_err(|e| e.to_string())));
        let m = ProtectiveMBR::with_lb_size(77);
        v.push(format!("{:?}", m.overwrite_lba0(&mut dev).map_err(|e| e.to_string())));
        v.push(format!("{:?}", ProtectiveMBR::from_disk(&mut dev, lbs(big)).map(|m| crc32(&m.to_bytes())).map_err(|e| e.to_string())));
        v.push(face(&dev, lb, &seen));
        v.join(" ")
    });
    t.push(r.unwrap_or_else(|m| m));
    let entry = Partition {
        part_type_guid: c.entry.get(),
        part_guid: uuid::Uuid::from_u128(5),
        first_lba: 3,
        last_lba: 4,
        flags: 1,
        name: "entry".into(),
    };
    let r = lib("entry functions", || {
        let mut v = vec![];
        v.push(format!("{:?}", entry.write_to_device(&mut dev, c.index as u64, 2, lbs(big), 128).map_err(|e| e.to_string())));
        v.push(format!("{:?}", Partition::write_zero_entries_to_device(&mut dev, c.index as u64, 3, 2, lbs(big), 128).map_err(|e| e.to_string())));
        match header::read_header_from_arbitrary_device(&mut dev, lbs(big)) {
            Ok(h) if h.num_parts <= 5000 => {
                v.push(format!("{:x}", hash_str(&format!("{:?}", Header3(&h)))));
                match partition::file_read_partitions(&mut dev, &h, lbs(big)) {
                    Ok(p) => v.push(format!("{} partitions", p.len())),
                    Err(e) => v.push(e.to_string()),
                }
            }
            Ok(_) => {}
            Err(e) => v.push(format!("{e}")),
        }
        v.push(face(&dev, lb, &seen));
        v.join(" ")
    });
    t.push(r.unwrap_or_else(|m| m));
    if let (Some(g), true) = (&mut disk, c.file && dev.len <= 1 << 22) {
        let dir = Scratch::new();
        let p = dir.path.join("img");
        std::fs::write(&p, g.device_ref().to_vec()).expect("scratch file");
        let r = lib("path functions", || {
            let mut v = vec![];
            match header::read_header(&p, lbs(big)) {
                Ok(h) if h.num_parts <= 5000 => match partition::read_partitions(&p, &h, lbs(big)) {
                    Ok(p) => v.push(format!("{} partitions", p.len())),
                    Err(e) => v.push(e.to_string()),
                },
                Ok(_) => {}
                Err(e) => v.push(e.to_string()),
            }
            match GptConfig::new().writable(true).logical_block_size(lbs(big)).open(&p) {
                Ok(mut g) => v.push(format!("{:?}", g.write_inplace().map_err(|e| e.to_string()))),
                Err(e) => v.push(e.to_string()),
            }
            v.push(format!("{:?}", header::write_header(&p, Some(uuid::Uuid::from_u128(6)), lbs(big)).map_err(|e| e.to_string())));
            v.push(format!("{:?}", entry.write(&p, 1, 2, lbs(big)).map_err(|e| e.to_string())));
            v.join(" ")
        });
        t.push(r.unwrap_or_else(|m| m));
        // a table that points beyond the end makes the file grow
        let len = std::fs::metadata(&p).expect("scratch file").len();
        if len == dev.len {
            t.push(face(&Dev::from_bytes(&std::fs::read(&p).expect("scratch file")), lb, &seen));
        } else {
            t.push(format!("length {len}"));
        }
    }
    t
}

struct Header3<'a>(&'a gpt::header::Header);
impl std::fmt::Debug for Header3<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut h = self.0.clone();
        h.crc32 = 0;
        h.crc32_parts = 0;
        write!(f, "{h:?}")
    }
}

/// The process with a logging feature: reads cases, answers with their stories.
pub fn serve(quiet: bool) -> i32 {
    #[cfg(feature = "log")]
    with_log::on(quiet);
    #[cfg(feature = "tracing")]
    with_tracing::on(quiet);
    let _ = quiet;
    static BUSY: AtomicU64 = AtomicU64::new(0);
    std::thread::spawn(|| {
        let (mut seen, mut since) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BUSY.load(Ordering::Relaxed);
            since = if b == seen && b % 2 == 1 { since + 1 } else { 0 };
            seen = b;
            if since > 200 {
                unsafe { libc::_exit(3) };
            }
        }
    });
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(|| {
            let mut out = std::io::stdout();
            for line in std::io::stdin().lock().lines() {
                let Ok(line) = line else { return };
                let c: LogCase = serde_json::from_str(&line).expect("case does not parse");
                BUSY.fetch_add(1, Ordering::Relaxed);
                let (r0, t0) = (RECORDS.load(Ordering::Relaxed), TEXT.load(Ordering::Relaxed));
                let s = story(&c);
                let n = (RECORDS.load(Ordering::Relaxed) - r0, TEXT.load(Ordering::Relaxed) - t0);
                BUSY.fetch_add(1, Ordering::Relaxed);
                let _ = writeln!(out, "{}", serde_json::to_string(&(s, n)).unwrap());
                let _ = out.flush();
            }
        })
        .unwrap()
        .join()
        .map_or(2, |_| 0)
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Peer {
    fn start(v: &Variant) -> Peer {
        let mut child = Command::new(&v.exe)
            .arg("serve")
            .arg(if v.quiet { "quiet" } else { "loud" })
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {}: {e}", v.exe));
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Peer { child, to, from }
    }
    fn ask(&mut self, c: &str) -> Option<(Vec<String>, (u64, u64))> {
        writeln!(self.to, "{c}").ok()?;
        self.to.flush().ok()?;
        let mut l = String::new();
        self.from.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone)]
struct Variant {
    name: &'static str,
    exe: String,
    quiet: bool,
}

thread_local! {
    static PEERS: RefCell<Vec<Peer>> = const { RefCell::new(vec![]) };
}

pub fn c32(ctx: &Ctx) {
    ctx.rule("A case is a history (or an arbitrary image, opened and edited), followed by the MBR, entry, header and path functions; it runs here without logging, and in three other processes: with the log feature and a logger that formats every record, with the tracing feature and such a subscriber, and with both features and everything filtered out. Every result, the state after every step and the device bytes have to be the same (random partition GUIDs and checksums over them aside; whether the checksums are right is compared). Non-trivial: more than 20 records were formatted and the table was opened or created.");
    let dir = std::env::var("GPTV_VARIANTS").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../target").into());
    let v = |name, sub: &str, quiet| Variant { name, exe: format!("{dir}/{sub}/variant/gptverify"), quiet };
    let variants = [v("log", "log", false), v("tracing", "tracing", false), v("log and tracing, filtered out", "both", true)];
    for v in &variants {
        if !std::path::Path::new(&v.exe).exists() {
            ctx.harness_errors.lock().unwrap().push(format!("{} is missing", v.exe));
            return;
        }
    }
    let strat = || {
        let mut p = Profile::general();
        p.geo = geo_small();
        p.cfg = cfg_any();
        p.max_ops = 6;
        // a random disk GUID would differ between the processes
        let fix = |mut h: Hist| {
            if let Start::New(g) = &mut h.start {
                *g = Some(g.unwrap_or(G([5; 16])));
            }
            for o in &mut h.ops {
                if let Op::SetGuid(g) = o {
                    *g = Some(g.unwrap_or(G([6; 16])));
                }
            }
            h
        };
        let p2 = p.clone();
        let img = (
            image(),
            (any::<bool>(), proptest::bool::weighted(0.15), any::<bool>(), any::<bool>())
                .prop_map(|(change, only_valid, ro, w)| Cfg { writable: change || w, only_valid, ro_backup: ro, change }),
            any::<bool>(),
            proptest::collection::vec(op(&p2), 0..5),
        )
            .prop_map(move |(image, cfg, big, ops)| {
                let h = fix(Hist { geo: Geo { big: false, blocks: 100, tail: 0, fill: 0, old: 0 }, cfg, start: Start::New(None), ops });
                let image = match image {
                    Image::Damaged { h, hits, reseal } => Image::Damaged { h: fix(h), hits, reseal },
                    i => i,
                };
                // damage that depends on random bytes is not comparable
                Src::Image { image, cfg, big, ops: h.ops }
            });
        (
            prop_oneof![3 => hist(&p).prop_map(fix).prop_map(Src::Hist), 1 => img],
            proptest::bool::weighted(0.4),
            ty(),
            0u8..140,
        )
            .prop_map(|(src, file, entry, index)| LogCase { src, file, entry, index })
    };
    ctx.explore("stories", ctx.cases(12_000, 420_000), strat, |c, cx| {
        if let Src::Image { image: Image::Damaged { h, .. }, .. } = &c.src {
            // partition GUIDs made here would be damaged differently in every process
            if h.ops.iter().any(|o| matches!(o, Op::Add { .. } | Op::AddAt { .. })) {
                cx.label("skipped: damage on random bytes");
                return Ok(());
            }
        }
        let js = serde_json::to_string(c).unwrap();
        let mine = story(c);
        PEERS.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                *p = variants.iter().map(Peer::start).collect();
            }
            for (v, peer) in variants.iter().zip(p.iter_mut()) {
                let Some((theirs, (n, bytes))) = peer.ask(&js) else {
                    *peer = Peer::start(v);
                    return Err(format!("with {}: the process died or did not answer", v.name));
                };
                if !v.quiet && n > 20 && mine.iter().any(|l| l.starts_with("Done") || l.starts_with("opened")) {
                    cx.nt("more than 20 records formatted");
                }
                if !v.quiet && bytes > 100_000 {
                    cx.label("more than 100 kB of log text");
                }
                for i in 0..mine.len().max(theirs.len()) {
                    let (a, b) = (mine.get(i), theirs.get(i));
                    ensure!(a == b, "with {}: step {i} gives {b:?}, without logging {a:?}", v.name);
                }
            }
            Ok(())
        })?;
        cx.label(match &c.src {
            Src::Hist(_) => "history",
            Src::Image { .. } => "image",
        });
        if c.file {
            cx.label("path functions");
        }
        Ok(())
    });
    ctx.assume("generated partition GUIDs (random) and the checksums over them are not compared byte by byte, only their validity");
}
