//! Path-based functions: C22. `fsync` and `fdatasync` are interposed: while a case runs they
//! look at the file and can be made to fail.

use crate::dev::Dev;
use crate::gen::*;
use crate::hist::*;
use crate::props::small::{raw_entry, Raw};
use crate::runner::{lib, Ctx, Cx};
use gpt::partition::Partition;
use gpt::{header, partition, GptConfig, GptDisk};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fs::File;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory of its own under the temporary directory, removed when dropped.
pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let path = std::env::temp_dir().join(format!("gptverify-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&path).expect("cannot create a scratch directory");
        Scratch { path }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        // only files directly in it were ever created
        if let Ok(d) = std::fs::read_dir(&self.path) {
            for f in d.flatten() {
                let _ = std::fs::remove_file(f.path());
            }
        }
        let _ = std::fs::remove_dir(&self.path);
    }
}

/// Writes a device to a file, as a sparse one if the device is large and empty.
/// False if the file system cannot hold such a file.
pub fn put(path: &Path, d: &Dev) -> bool {
    use std::os::unix::fs::FileExt;
    if d.len <= LARGE || d.fill != 0 {
        std::fs::write(path, d.to_vec()).expect("cannot write the scratch file");
        return true;
    }
    let f = File::create(path).expect("cannot create the scratch file");
    if f.set_len(d.len).is_err() {
        return false;
    }
    for (o, b) in d.touched() {
        let n = (d.len - o).min(b.len() as u64) as usize;
        f.write_all_at(&b[..n], o).expect("cannot write the scratch file");
    }
    true
}

/// Reads a file back (its holes are not looked at); the device has the given fill.
pub fn take(path: &Path, fill: u64) -> Dev {
    use std::os::fd::AsRawFd;
    use std::os::unix::fs::FileExt;
    let f = File::open(path).expect("cannot open the scratch file");
    let len = f.metadata().expect("cannot stat the scratch file").len();
    let mut d = Dev::new(len, fill);
    if len <= LARGE || fill != 0 {
        d.poke(0, &read(path));
        return d;
    }
    let mut at = 0i64;
    let mut total = 0u64;
    loop {
        let a = unsafe { libc::lseek(f.as_raw_fd(), at, libc::SEEK_DATA) };
        if a < 0 {
            return d;
        }
        let b = unsafe { libc::lseek(f.as_raw_fd(), a, libc::SEEK_HOLE) };
        total += (b - a) as u64;
        assert!(total < 64 << 20, "a large file was filled with data");
        let mut buf = vec![0; (b - a) as usize];
        f.read_exact_at(&mut buf, a as u64).expect("cannot read the scratch file");
        d.poke(a as u64, &buf);
        at = b;
    }
}

const LARGE: u64 = 8 << 20;

/// Devices of 8 MiB to 8 TiB, empty.
fn geo_large() -> BoxedStrategy<Geo> {
    (any::<bool>(), (24u32..43).prop_flat_map(|e| prop_oneof![3 => (1u64 << e)..(2u64 << e), 1 => (1u64 << e) - 8192..(1u64 << e) + 8192]))
        .prop_map(|(big, len)| {
            let lb = if big { 4096 } else { 512 };
            Geo { big, blocks: len / lb, tail: (len % lb) as u16, fill: 0, old: 0 }
        })
        .boxed()
}

/// Small devices mostly, and large ones.
pub fn geo_path() -> BoxedStrategy<Geo> {
    prop_oneof![5 => geo_small(), 1 => geo_large()].boxed()
}

// ---------------------------------------------------------------------------------------
// sync to storage

#[derive(Default)]
struct Syncs {
    on: bool,
    /// sync that fails (counted from 0)
    fail: Option<u32>,
    n: u32,
    failed: bool,
    /// what each sync that succeeded made durable: device and inode of the file, its contents
    seen: Vec<((u64, u64), Vec<u8>)>,
    /// files opened, with the flags
    opens: Vec<(PathBuf, i32)>,
}

impl Syncs {
    /// Whether these files were opened without creating or truncating them, and only for
    /// reading unless they are to be written.
    fn gently(&self, what: &str, write: bool) -> Result<(), String> {
        for (p, f) in &self.opens {
            let bad = f & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 || (!write && f & libc::O_ACCMODE != libc::O_RDONLY);
            ensure!(!bad, "{what} opened {} with the flags {f:#o}", p.file_name().unwrap_or_default().to_string_lossy());
        }
        Ok(())
    }
}

thread_local! {
    static SYNCS: RefCell<Syncs> = RefCell::new(Syncs::default());
}

fn contents(fd: i32) -> ((u64, u64), Vec<u8>) {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st);
        if st.st_size as u64 > LARGE {
            return ((st.st_dev, st.st_ino), vec![]);
        }
        let mut v = vec![0u8; st.st_size as usize];
        let mut o = 0;
        while o < v.len() {
            let n = libc::pread(fd, v[o..].as_mut_ptr() as *mut libc::c_void, v.len() - o, o as i64);
            if n <= 0 {
                break;
            }
            o += n as usize;
        }
        ((st.st_dev, st.st_ino), v)
    }
}

fn on_sync(fd: i32) -> i32 {
    let r = SYNCS.try_with(|s| {
        let mut s = s.borrow_mut();
        if !s.on {
            return 0;
        }
        let i = s.n;
        s.n += 1;
        if s.fail == Some(i) {
            s.failed = true;
            return libc::EIO;
        }
        let c = contents(fd);
        s.seen.push(c);
        0
    });
    match r {
        Ok(e) if e != 0 => {
            unsafe { *libc::__errno_location() = e };
            -1
        }
        _ => 0,
    }
}

#[no_mangle]
pub extern "C" fn fsync(fd: i32) -> i32 {
    on_sync(fd)
}
#[no_mangle]
pub extern "C" fn fdatasync(fd: i32) -> i32 {
    on_sync(fd)
}

/// # Safety
/// As open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    let _ = SYNCS.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if s.on {
                use std::os::unix::ffi::OsStrExt;
                let p = std::ffi::CStr::from_ptr(path).to_bytes();
                s.opens.push((std::ffi::OsStr::from_bytes(p).into(), flags));
            }
        }
    });
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32
}

fn watch<T>(fail: Option<u32>, f: impl FnOnce() -> T) -> (T, Syncs) {
    SYNCS.with(|s| *s.borrow_mut() = Syncs { on: true, fail, ..Default::default() });
    let r = f();
    (r, SYNCS.with(|s| s.take()))
}

// ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spoil {
    Nothing,
    Byte { at: u32, with: u8, end: bool },
    Cut(u16),
    Grow(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    h: Hist,
    spoil: Spoil,
    /// create instead of open
    fresh: bool,
    cfg: Cfg,
    ops: Vec<Op>,
    /// per write: which sync fails
    fails: Vec<Option<u8>>,
    /// the file gets replaced, by one that is writable or not
    swap_device: Option<bool>,
    raw: Raw,
    index: u8,
    start: u8,
}

fn same_error<T, U>(a: &Result<T, E>, b: &Result<U, E>) -> bool {
    match (a, b) {
        (Ok(_), Ok(_)) => true,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

fn name_of(r: &Result<impl Sized, E>) -> String {
    match r {
        Ok(_) => "success".into(),
        Err(e) => format!("{e:?}"),
    }
}

fn no_guid(s: &Snap) -> Snap {
    let mut s = s.clone();
    s.guid = uuid::Uuid::nil();
    for h in [&mut s.ph, &mut s.bh] {
        if let Ok(h) = h {
            h.disk_guid = uuid::Uuid::nil();
        }
    }
    s
}

fn read(path: &Path) -> Vec<u8> {
    std::fs::read(path).expect("cannot read the scratch file")
}

fn rw(path: &Path) -> File {
    std::fs::OpenOptions::new().read(true).write(true).open(path).expect("cannot open the scratch file")
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("A case is an image (made by a history, possibly damaged, cut or grown) in a file, a configuration, and a sequence of edits and writes on the disk opened or created by path, with a sync failure injected into some writes. Every result is compared with that of the device-based function on the same bytes. Non-trivial: at least one write through the path-opened disk, or an injected sync failure.");
    ctx.assume("the file system of the temporary directory keeps what is written to it; fsync and fdatasync are replaced by a recording stand-in");
    let strat = || {
        let mut p = Profile::general();
        p.geo = (any::<bool>(), prop_oneof![3 => 0u64..8, 3 => 0u64..120], prop_oneof![3 => Just(0u16), 1 => any::<u16>()], 0u64..1000)
            .prop_map(|(big, extra, tail, fill)| Geo { big, blocks: min_blocks(big) + extra, tail, fill, old: 0 })
            .boxed();
        p.max_ops = 6;
        (
            hist(&p),
            prop_oneof![
                6 => Just(Spoil::Nothing),
                2 => (any::<u32>(), any::<u8>(), any::<bool>()).prop_map(|(at, with, end)| Spoil::Byte { at, with, end }),
                1 => any::<u16>().prop_map(Spoil::Cut),
                1 => any::<u16>().prop_map(Spoil::Grow),
            ],
            proptest::bool::weighted(0.3),
            (proptest::bool::weighted(0.85), proptest::bool::weighted(0.1), any::<bool>(), any::<bool>())
                .prop_map(|(writable, only_valid, ro_backup, change)| Cfg { writable, only_valid, ro_backup: ro_backup && change, change }),
            proptest::collection::vec(prop_oneof![2 => op(&p), 1 => Just(Op::Write)], 0..8),
            proptest::collection::vec(proptest::option::weighted(0.4, 0u8..3), 0..4),
            proptest::option::weighted(0.12, any::<bool>()),
            (raw_entry(), any::<u8>(), any::<u8>()),
        )
            .prop_map(|(h, spoil, fresh, cfg, ops, fails, swap_device, (raw, index, start))| FileCase {
                h,
                spoil,
                fresh,
                cfg,
                ops,
                fails,
                swap_device,
                raw,
                index,
                start,
            })
    };
    ctx.explore("images", ctx.cases(32_000, 1_120_000), strat, one);
    let strat = || {
        let mut p = Profile::general();
        p.geo = geo_large();
        p.max_ops = 4;
        (hist(&p), any::<bool>(), any::<bool>(), proptest::collection::vec(op(&p), 0..5))
            .prop_map(|(h, fresh, change, ops)| Large { h, fresh, change, ops })
    };
    ctx.explore("large files", ctx.cases(2_000, 70_000), strat, large);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    h: Hist,
    fresh: bool,
    change: bool,
    ops: Vec<Op>,
}

fn large(c: &Large, cx: &mut Cx) -> Result<(), String> {
    let geo = &c.h.geo;
    let cfg = Cfg { writable: true, only_valid: false, ro_backup: false, change: c.change };
    let Some(mut d) = run(&c.h, cx, Opts::default(), &mut |_, _| Ok(()))? else { return Ok(()) };
    let _ = lib("write_inplace", || d.write_inplace())?;
    let dev = Dev::clone(d.device_ref());
    let dir = Scratch::new();
    let path = dir.path.join("image");
    if !put(&path, &dev) {
        cx.label("file too large for the file system");
        return Ok(());
    }
    if dev.len > u32::MAX as u64 {
        cx.label("more than 4 GiB");
    }
    let a = lib("read_header", || header::read_header(&path, geo.lbs()).map_err(|e| herr(&e)))?;
    let b = lib("read_header_from_arbitrary_device", || {
        header::read_header_from_arbitrary_device(&mut dev.clone(), geo.lbs()).map_err(|e| herr(&e))
    })?;
    ensure!(a == b, "read_header by path gives {a:?}, from the device {b:?}");
    let what = if c.fresh { "create" } else { "open" };
    let a: Result<GptDisk<File>, E> = lib(what, || {
        let g = cfg.gpt(geo.big);
        if c.fresh { g.create(&path) } else { g.open(&path) }.map_err(|e| E::from(&e))
    })?;
    let b = if c.fresh { create(dev.clone(), cfg, geo.big, None)? } else { open(dev.clone(), cfg, geo.big)? };
    ensure!(same_error(&a, &b), "{what} by path gives {}, on the device {}", name_of(&a), name_of(&b));
    let (Ok(mut a), Ok(b)) = (a, b) else { return Ok(()) };
    if c.fresh {
        ensure!(no_guid(&Snap::of(&a)) == no_guid(&Snap::of(&b)), "{what} by path makes another table than on the device");
    } else {
        ensure!(Snap::of(&a) == Snap::of(&b), "{what} by path reports another table than on the device");
    }
    for o in &c.ops {
        if matches!(o, Op::Reopen { .. } | Op::Write) {
            continue;
        }
        let s = Snap::of(&a);
        let cop = concrete(o, &s, geo, cfg, &a)?;
        let mut probe = lib("with_disk_device", || a.with_disk_device(dev.clone(), true))?;
        let _ = apply(&mut probe, &cop)?;
        if !collides(&Snap::of(&probe), geo) {
            apply(&mut a, &cop)?;
        }
    }
    ensure!(take(&path, 0).same(&dev), "the file changed before the write");
    let mut twin = lib("with_disk_device", || a.with_disk_device(dev.clone(), true))?;
    let want = lib("write_inplace", || twin.write_inplace().map_err(|e| E::from(&e)))?;
    let (r, syncs) = watch(None, || lib("write", || a.write_inplace().map_err(|e| E::from(&e))));
    let r = r?;
    ensure!(r == want, "write by path gives {r:?}, on the device {want:?}");
    let after = take(&path, 0);
    ensure!(after.len == dev.len, "the length of the file changed from {} to {}", dev.len, after.len);
    let diff = after.diff(twin.device_ref());
    ensure!(diff.is_empty(), "the file and the device differ in bytes {:?} after the write", &diff[..diff.len().min(4)]);
    ensure!(Snap::of(&a) == Snap::of(&twin), "other state in memory than on the device");
    if r.is_ok() {
        ensure!(syncs.n > 0, "success, but the file was never synced");
        cx.nt("large file written");
    }
    Ok(())
}

fn one(c: &FileCase, cx: &mut Cx) -> Result<(), String> {
    let geo = &c.h.geo;
    let lb = geo.lb();
    // the image
    let mut img = match run(&c.h, cx, Opts::default(), &mut |_, _| Ok(()))? {
        Some(mut d) => {
            let _ = lib("write_inplace", || d.write_inplace())?;
            d.take_device().to_vec()
        }
        None => geo.dev().to_vec(),
    };
    match c.spoil {
        Spoil::Nothing => {}
        Spoil::Byte { at, with, end } => {
            let span = (40 * lb).min(img.len() as u64);
            let i = if end { img.len() as u64 - 1 - at as u64 % span } else { at as u64 % span };
            img[i as usize] = with;
            cx.label("damaged image");
        }
        Spoil::Cut(n) => {
            let n = n as usize % img.len();
            img.truncate(img.len() - n);
            cx.label("cut image");
        }
        Spoil::Grow(n) => {
            img.resize(img.len() + n as usize, 0x5a);
            cx.label("grown image");
        }
    }
    let dir = Scratch::new();
    let path = dir.path.join("image");
    std::fs::write(&path, &img).expect("cannot write the scratch file");
    let dev = Dev::from_bytes(&img);

    // readers
    let (a, y) = watch(None, || lib("read_header", || header::read_header(&path, geo.lbs()).map_err(|e| herr(&e))));
    let a = a?;
    y.gently("read_header", false)?;
    if !y.opens.is_empty() {
        cx.label("opening of the file seen");
    }
    let b = lib("read_header_from_arbitrary_device", || {
        header::read_header_from_arbitrary_device(&mut dev.clone(), geo.lbs()).map_err(|e| herr(&e))
    })?;
    ensure!(a == b, "read_header by path gives {a:?}, from the device {b:?}");
    if let Ok(h) = &b {
        let (a, y) = watch(None, || lib("read_partitions", || partition::read_partitions(&path, h, geo.lbs())));
        let a = a?;
        y.gently("read_partitions", false)?;
        let b = lib("file_read_partitions", || partition::file_read_partitions(&mut dev.clone(), h, geo.lbs()))?;
        ensure!(
            a.is_ok() == b.is_ok() && a.as_ref().ok() == b.as_ref().ok(),
            "read_partitions by path gives {a:?}, from the device {b:?}"
        );
    }
    let (a, y) = watch(None, || lib("read_disk", || gpt::disk::read_disk(&path).map_err(|e| E::from(&e))));
    let a = a?;
    y.gently("read_disk", false)?;
    let b = lib("open_from_device", || GptConfig::new().open_from_device(dev.clone()).map_err(|e| E::from(&e)))?;
    ensure!(same_error(&a, &b), "read_disk gives {}, opening the device {}", name_of(&a), name_of(&b));
    if let (Ok(a), Ok(b)) = (a, b) {
        ensure!(Snap::of(&a) == Snap::of(&b), "read_disk reports another table than opening the device");
        ensure!(a.logical_block_size() == b.logical_block_size(), "read_disk uses another block size");
        let mut a = a;
        let r = lib("write_inplace", || a.write_inplace().map_err(|e| E::from(&e)))?;
        ensure!(r == Err(E::ReadOnly), "a disk from read_disk wrote: {r:?}");
    }
    // what is not there stays so
    for (n, missing) in [dir.path.join("missing"), dir.path.join("none").join("missing")].iter().enumerate() {
        let h = gpt::header::HeaderBuilder::new().backup_lba(1000).build(geo.lbs()).map_err(|e| format!("{e}"))?;
        let not_found = |what: &str, r: Result<(), std::io::ErrorKind>| -> Result<(), String> {
            ensure!(r == Err(std::io::ErrorKind::NotFound), "{what} of a missing file gives {r:?}");
            ensure!(!missing.exists(), "{what} of a missing file created it");
            Ok(())
        };
        let gk = |e: gpt::GptError| match e {
            gpt::GptError::Io(e) => e.kind(),
            _ => std::io::ErrorKind::Other,
        };
        let hk = |e: header::HeaderError| match e {
            header::HeaderError::Io(e) => e.kind(),
            _ => std::io::ErrorKind::Other,
        };
        not_found("open", lib("open", || c.cfg.gpt(geo.big).open(missing).map(|_| ()).map_err(gk))?)?;
        if n == 1 && c.index % 4 != 0 {
            continue;
        }
        not_found("create", lib("create", || c.cfg.gpt(geo.big).create(missing).map(|_| ()).map_err(gk))?)?;
        not_found("read_disk", lib("read_disk", || gpt::disk::read_disk(missing).map(|_| ()).map_err(gk))?)?;
        not_found("read_header", lib("read_header", || header::read_header(missing, geo.lbs()).map(|_| ()).map_err(hk))?)?;
        not_found("read_partitions", lib("read_partitions", || partition::read_partitions(missing, &h, geo.lbs()).map(|_| ()).map_err(|e| e.kind()))?)?;
        not_found("write_header", lib("write_header", || header::write_header(missing, None, geo.lbs()).map(|_| ()).map_err(hk))?)?;
        let p = Partition::zero();
        not_found("Partition::write", lib("Partition::write", || p.write(missing, 0, 2, geo.lbs()).map_err(|e| e.kind()))?)?;
    }

    // a header
    {
        let other = dir.path.join("header");
        std::fs::write(&other, &img).expect("cannot write the scratch file");
        let mut d = dev.clone();
        let g = uuid::Uuid::from_u128(c.index as u128 + 1);
        let (a, y) = watch(None, || lib("write_header", || header::write_header(&other, Some(g), geo.lbs()).map_err(|e| herr(&e))));
        let a = a?;
        y.gently("write_header", true)?;
        let n = img.len() as u64 / lb;
        let b = lib("write_primary", || {
            if n < 3 {
                return Err(herr(&header::HeaderError::ToSmallForBackup));
            }
            let mut h = header::HeaderBuilder::new().disk_guid(g).backup_lba(n - 1).build(geo.lbs()).map_err(|e| herr(&e))?;
            h.write_primary(&mut d, geo.lbs()).map(|_| g).map_err(|e| herr(&e))
        })?;
        ensure!(a == b, "write_header by path gives {a:?}, on the device {b:?}");
        ensure!(read(&other) == d.to_vec(), "write_header by path and on the device leave different bytes");
        if a.is_ok() {
            cx.label("header written by path");
        }
    }
    ensure!(read(&path) == img, "reading changed the file");

    // one entry
    {
        let raw = c.raw.bytes();
        let e = crate::refgpt::RefEntry::parse(&raw);
        let p = Partition {
            part_type_guid: uuid::Uuid::from_bytes(e.ty).into(),
            part_guid: uuid::Uuid::from_bytes(e.guid),
            first_lba: e.first,
            last_lba: e.last,
            flags: e.flags,
            name: e.name_text(),
        };
        let (start, index) = (c.start as u64 % 40, c.index as u64);
        let at = start * lb + index * 128;
        if at + 128 <= img.len() as u64 {
            let other = dir.path.join("entry");
            std::fs::write(&other, &img).expect("cannot write the scratch file");
            let mut d = dev.clone();
            let (a, y) = watch(None, || lib("Partition::write", || p.write(&other, index, start, geo.lbs()).is_ok()));
            let a = a?;
            y.gently("Partition::write", true)?;
            let b = lib("write_to_device", || p.write_to_device(&mut d, index, start, geo.lbs(), 128).is_ok())?;
            ensure!(a == b, "Partition::write succeeded: {a}, write_to_device: {b}");
            ensure!(read(&other) == d.to_vec(), "Partition::write and write_to_device leave different bytes");
        }
    }

    // the disk
    let cfg = c.cfg;
    let what = if c.fresh { "create" } else { "open" };
    let (a, y) = watch(None, || lib(what, || {
        let g = cfg.gpt(geo.big);
        if c.fresh { g.create(&path) } else { g.open(&path) }.map_err(|e| E::from(&e))
    }));
    let a: Result<GptDisk<File>, E> = a?;
    y.gently(what, cfg.writable)?;
    let b = if c.fresh { create(dev.clone(), cfg, geo.big, None)? } else { open(dev.clone(), cfg, geo.big)? };
    ensure!(same_error(&a, &b), "{what} by path gives {}, on the device {}", name_of(&a), name_of(&b));
    ensure!(read(&path) == img, "{what} changed the file");
    let (Ok(mut a), Ok(b)) = (a, b) else {
        cx.label("refused");
        return Ok(());
    };
    ensure!(a.logical_block_size() == b.logical_block_size(), "{what} by path uses another block size");
    if c.fresh {
        ensure!(no_guid(&Snap::of(&a)) == no_guid(&Snap::of(&b)), "{what} by path makes another table than on the device");
        ensure!(a.guid().get_version_num() == 4, "{what} by path made the GUID {}", a.guid());
    } else {
        ensure!(Snap::of(&a) == Snap::of(&b), "{what} by path reports another table than on the device");
    }
    cx.label(if c.fresh { "created" } else { "opened" });
    let mut geo_now = *geo;
    geo_now.blocks = img.len() as u64 / lb;
    let mut current = path.clone();
    let mut cfg = cfg;
    if let Some(writable) = c.swap_device {
        // a replaced file is written and synced like the one that was opened
        current = dir.path.join("other");
        std::fs::write(&current, &img).expect("cannot write the scratch file");
        let _old = lib("update_disk_device", || a.update_disk_device(rw(&current), writable))?;
        cx.label(if cfg.writable == writable { "file replaced" } else { "file replaced, with other access" });
        cfg.writable = writable;
    }
    let mut fails = c.fails.iter();
    let mut ops: Vec<Op> = c.ops.clone();
    ops.push(Op::Write);
    let n_ops = ops.len();
    let mut slot = Some(a);
    for (i, o) in ops.iter().enumerate() {
        let Some(mut a) = slot.take() else { break };
        let s = Snap::of(&a);
        let before = read(&current);
        let h = s.header();
        if h.current_lba.max(h.backup_lba) >= geo_now.blocks {
            // a file grows when it is written beyond its end, a device does not
            cx.label("table reaches beyond the file");
            break;
        }
        match o {
            Op::Reopen { .. } => slot = Some(a),
            Op::Write => {
                // the counterpart on a device with the bytes of the file
                let mut twin = lib("with_disk_device", || a.with_disk_device(Dev::from_bytes(&before), cfg.writable))?;
                let want = lib("write_inplace", || twin.write_inplace().map_err(|e| E::from(&e)))?;
                let fail = fails.next().copied().flatten().map(|f| f as u32);
                let consume = i + 1 == n_ops;
                let (r, syncs, snap) = if consume {
                    let (r, y) = watch(fail, || lib("write", || a.write().map(|_| ()).map_err(|e| E::from(&e))));
                    // the object is gone
                    (r?, y, None)
                } else {
                    let (r, y) = watch(fail, || lib("write_inplace", || a.write_inplace().map_err(|e| E::from(&e))));
                    let s = Snap::of(&a);
                    slot = Some(a);
                    (r?, y, Some(s))
                };
                let after = read(&current);
                ensure!(after.len() == before.len(), "write {i}: the length of the file changed from {} to {}", before.len(), after.len());
                if syncs.failed {
                    cx.nt("sync failed");
                    ensure!(r.is_err(), "write {i}: success although a sync of the file failed");
                } else {
                    ensure!(r == want, "write {i}: by path {r:?}, on the device {want:?}");
                    let bytes = twin.device_ref().to_vec();
                    if after != bytes {
                        let at = (0..after.len()).find(|k| after[*k] != bytes[*k]).unwrap();
                        return Err(format!("write {i}: byte {at} is {:#x} in the file and {:#x} on the device", after[at], bytes[at]));
                    }
                    if let Some(s) = &snap {
                        ensure!(*s == Snap::of(&twin), "write {i}: other state in memory than on the device");
                    }
                }
                if r.is_ok() {
                    cx.nt("written and synced");
                    let id = contents_of(&current);
                    let last = syncs.seen.iter().rev().find(|(k, _)| *k == id);
                    let Some((_, durable)) = last else {
                        return Err(format!("write {i}: success, but the file was never synced"));
                    };
                    if *durable != after {
                        let at = (0..after.len()).find(|k| durable.get(*k) != Some(&after[*k])).unwrap();
                        return Err(format!("write {i}: byte {at} was written after the last sync of the file"));
                    }
                }
            }
            o => {
                let cop = concrete(o, &s, &geo_now, cfg, &a)?;
                if let COp::Add { .. } | COp::AddAt { .. } | COp::Map(_) = cop {
                    // keep to tables that fit, as the known finding of C03 does
                    let mut probe = lib("with_disk_device", || a.with_disk_device(Dev::from_bytes(&before), true))?;
                    let _ = apply(&mut probe, &cop)?;
                    if collides(&Snap::of(&probe), &geo_now) {
                        slot = Some(a);
                        continue;
                    }
                }
                apply(&mut a, &cop)?;
                slot = Some(a);
                ensure!(read(&current) == before, "{} changed the file", brief(&cop, &Out::Done));
            }
        }
    }
    Ok(())
}

fn contents_of(p: &Path) -> (u64, u64) {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(p).expect("cannot stat the scratch file");
    (m.dev(), m.ino())
}
