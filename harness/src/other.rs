//! Other implementations of GPT, for comparison: util-linux's libfdisk (reads, checks and writes
//! tables) and libblkid (reads them). Both are loaded at run time and work on memory files.

use crate::dev::Dev;
use crate::hist::View;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::FileExt;
use std::sync::OnceLock;
use uuid::Uuid;

type P = *mut c_void;

macro_rules! api {
    ($name:ident, $lib:literal, $($f:ident: fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(dead_code)]
        pub struct $name { $($f: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl $name {
            pub fn get() -> Option<&'static $name> {
                static A: OnceLock<Option<$name>> = OnceLock::new();
                A.get_or_init(|| unsafe {
                    let h = libc::dlopen($lib.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                    if h.is_null() {
                        return None;
                    }
                    $(
                        let p = libc::dlsym(h, concat!(stringify!($f), "\0").as_ptr() as *const c_char);
                        if p.is_null() {
                            return None;
                        }
                        let $f = std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>(p);
                    )*
                    Some($name { $($f),* })
                })
                .as_ref()
            }
        }
    };
}

api! { Fdisk, c"libfdisk.so.1",
    fdisk_new_context: fn() -> P;
    fdisk_unref_context: fn(P);
    fdisk_disable_dialogs: fn(P, c_int) -> c_int;
    fdisk_save_user_sector_size: fn(P, u32, u32) -> c_int;
    fdisk_assign_device: fn(P, *const c_char, c_int) -> c_int;
    fdisk_deassign_device: fn(P, c_int) -> c_int;
    fdisk_is_labeltype: fn(P, c_int) -> c_int;
    fdisk_verify_disklabel: fn(P) -> c_int;
    fdisk_get_disklabel_id: fn(P, *mut *mut c_char) -> c_int;
    fdisk_set_disklabel_id_from_string: fn(P, *const c_char) -> c_int;
    fdisk_get_npartitions: fn(P) -> usize;
    fdisk_get_first_lba: fn(P) -> u64;
    fdisk_get_last_lba: fn(P) -> u64;
    fdisk_get_partitions: fn(P, *mut P) -> c_int;
    fdisk_table_get_nents: fn(P) -> usize;
    fdisk_table_get_partition: fn(P, usize) -> P;
    fdisk_unref_table: fn(P);
    fdisk_partition_get_partno: fn(P) -> usize;
    fdisk_partition_get_start: fn(P) -> u64;
    fdisk_partition_get_end: fn(P) -> u64;
    fdisk_partition_get_name: fn(P) -> *const c_char;
    fdisk_partition_get_uuid: fn(P) -> *const c_char;
    fdisk_partition_get_type: fn(P) -> P;
    fdisk_parttype_get_string: fn(P) -> *const c_char;
    fdisk_gpt_get_partition_attrs: fn(P, usize, *mut u64) -> c_int;
    fdisk_gpt_set_partition_attrs: fn(P, usize, u64) -> c_int;
    fdisk_gpt_set_npartitions: fn(P, u32) -> c_int;
    fdisk_create_disklabel: fn(P, *const c_char) -> c_int;
    fdisk_write_disklabel: fn(P) -> c_int;
    fdisk_get_label: fn(P, *const c_char) -> P;
    fdisk_label_parse_parttype: fn(P, *const c_char) -> P;
    fdisk_unref_parttype: fn(P);
    fdisk_new_partition: fn() -> P;
    fdisk_unref_partition: fn(P);
    fdisk_partition_set_partno: fn(P, usize) -> c_int;
    fdisk_partition_set_start: fn(P, u64) -> c_int;
    fdisk_partition_set_size: fn(P, u64) -> c_int;
    fdisk_partition_size_explicit: fn(P, c_int) -> c_int;
    fdisk_partition_set_name: fn(P, *const c_char) -> c_int;
    fdisk_partition_set_uuid: fn(P, *const c_char) -> c_int;
    fdisk_partition_set_type: fn(P, P) -> c_int;
    fdisk_add_partition: fn(P, P, *mut usize) -> c_int;
    fdisk_delete_partition: fn(P, usize) -> c_int;
}

api! { Blkid, c"libblkid.so.1",
    blkid_new_probe: fn() -> P;
    blkid_free_probe: fn(P);
    blkid_probe_set_device: fn(P, c_int, i64, i64) -> c_int;
    blkid_probe_set_sectorsize: fn(P, u32) -> c_int;
    blkid_probe_enable_partitions: fn(P, c_int) -> c_int;
    blkid_probe_set_partitions_flags: fn(P, c_int) -> c_int;
    blkid_probe_get_partitions: fn(P) -> P;
    blkid_partlist_numof_partitions: fn(P) -> c_int;
    blkid_partlist_get_partition: fn(P, c_int) -> P;
    blkid_partition_get_table: fn(P) -> P;
    blkid_parttable_get_type: fn(P) -> *const c_char;
    blkid_parttable_get_id: fn(P) -> *const c_char;
    blkid_partition_get_partno: fn(P) -> c_int;
    blkid_partition_get_start: fn(P) -> i64;
    blkid_partition_get_size: fn(P) -> i64;
    blkid_partition_get_name: fn(P) -> *const c_char;
    blkid_partition_get_uuid: fn(P) -> *const c_char;
    blkid_partition_get_type_string: fn(P) -> *const c_char;
    blkid_partition_get_flags: fn(P) -> u64;
}

/// What another implementation says about a table.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Seen {
    pub guid: Option<Uuid>,
    pub num: Option<u64>,
    pub usable: Option<(u64, u64)>,
    pub parts: Vec<(u32, View)>,
    /// problems it found
    pub problems: i32,
}

/// A partition to create.
#[derive(Clone, Debug)]
pub struct Wanted {
    pub slot: u32,
    pub first: u64,
    pub len: u64,
    pub ty: Uuid,
    pub guid: Uuid,
    pub flags: u64,
    pub name: String,
}

unsafe fn text(p: *const c_char) -> Option<String> {
    (!p.is_null()).then(|| CStr::from_ptr(p).to_string_lossy().into_owned())
}

fn uuid(s: Option<String>) -> Uuid {
    s.and_then(|s| Uuid::parse_str(&s).ok()).unwrap_or(Uuid::from_u128(u128::MAX))
}

/// A memory file.
pub struct Image {
    pub file: File,
}

impl Image {
    pub fn empty(len: u64) -> Option<Image> {
        let fd = unsafe { libc::memfd_create(c"gpt".as_ptr(), libc::MFD_CLOEXEC) };
        assert!(fd >= 0, "memfd_create failed");
        let file = unsafe { File::from_raw_fd(fd) };
        file.set_len(len).ok().map(|_| Image { file })
    }
    /// A copy of a device (which is either small or empty where it was not written).
    pub fn of(d: &Dev) -> Option<Image> {
        let i = Image::empty(d.len)?;
        if d.fill != 0 {
            i.file.write_all_at(&d.to_vec(), 0).expect("cannot write a memory file");
            return Some(i);
        }
        for (o, b) in d.touched() {
            let n = (d.len - o).min(b.len() as u64) as usize;
            i.file.write_all_at(&b[..n], o).expect("cannot write a memory file");
        }
        Some(i)
    }
    /// The contents as a device (its holes are not looked at).
    pub fn dev(&self) -> Dev {
        let fd = self.file.as_raw_fd();
        let mut d = Dev::new(self.file.metadata().expect("cannot stat a memory file").len(), 0);
        let mut at = 0i64;
        loop {
            let a = unsafe { libc::lseek(fd, at, libc::SEEK_DATA) };
            if a < 0 {
                return d;
            }
            at = unsafe { libc::lseek(fd, a, libc::SEEK_HOLE) };
            let mut buf = vec![0; (at - a) as usize];
            self.file.read_exact_at(&mut buf, a as u64).expect("cannot read a memory file");
            d.poke(a as u64, &buf);
        }
    }
    fn path(&self) -> CString {
        CString::new(format!("/proc/self/fd/{}", self.file.as_raw_fd())).unwrap()
    }
}

struct Context(P, &'static Fdisk);

impl Drop for Context {
    fn drop(&mut self) {
        unsafe {
            (self.1.fdisk_deassign_device)(self.0, 1);
            (self.1.fdisk_unref_context)(self.0);
        }
    }
}

impl Fdisk {
    fn open(&'static self, i: &Image, lb: u64, readonly: bool) -> Result<Context, String> {
        unsafe {
            let c = Context((self.fdisk_new_context)(), self);
            (self.fdisk_disable_dialogs)(c.0, 1);
            (self.fdisk_save_user_sector_size)(c.0, lb as u32, lb as u32);
            let r = (self.fdisk_assign_device)(c.0, i.path().as_ptr(), readonly as c_int);
            if r != 0 {
                return Err(format!("libfdisk cannot open the image ({r})"));
            }
            Ok(c)
        }
    }

    /// The table on an image; an error if libfdisk finds none.
    pub fn read(&'static self, i: &Image, lb: u64) -> Result<Seen, String> {
        let c = self.open(i, lb, true)?;
        self.view(&c)
    }

    fn view(&'static self, c: &Context) -> Result<Seen, String> {
        unsafe {
            if (self.fdisk_is_labeltype)(c.0, 1 << 5) == 0 {
                return Err("libfdisk finds no GPT".into());
            }
            let mut id: *mut c_char = std::ptr::null_mut();
            (self.fdisk_get_disklabel_id)(c.0, &mut id);
            let guid = text(id).and_then(|s| Uuid::parse_str(&s).ok());
            libc::free(id.cast());
            let mut parts = vec![];
            let mut t: P = std::ptr::null_mut();
            if (self.fdisk_get_partitions)(c.0, &mut t) != 0 {
                return Err("libfdisk cannot list the partitions".into());
            }
            for k in 0..(self.fdisk_table_get_nents)(t) {
                let p = (self.fdisk_table_get_partition)(t, k);
                let no = (self.fdisk_partition_get_partno)(p);
                let mut flags = 0;
                (self.fdisk_gpt_get_partition_attrs)(c.0, no, &mut flags);
                let ty = (self.fdisk_partition_get_type)(p);
                parts.push((
                    no as u32 + 1,
                    View {
                        ty: uuid(text((self.fdisk_parttype_get_string)(ty))),
                        guid: uuid(text((self.fdisk_partition_get_uuid)(p))),
                        first: (self.fdisk_partition_get_start)(p),
                        last: (self.fdisk_partition_get_end)(p),
                        flags,
                        name: text((self.fdisk_partition_get_name)(p)).unwrap_or_default(),
                    },
                ));
            }
            (self.fdisk_unref_table)(t);
            parts.sort_by_key(|p| p.0);
            Ok(Seen {
                guid,
                num: Some((self.fdisk_get_npartitions)(c.0) as u64),
                usable: Some(((self.fdisk_get_first_lba)(c.0), (self.fdisk_get_last_lba)(c.0))),
                parts,
                problems: (self.fdisk_verify_disklabel)(c.0),
            })
        }
    }

    /// Creates and writes a table (partitions it refuses are left out); none if libfdisk cannot.
    pub fn create(&'static self, i: &Image, lb: u64, guid: Uuid, num: u32, parts: &[Wanted], gone: &[u32]) -> Option<Seen> {
        let c = self.open(i, lb, false).ok()?;
        unsafe {
            if (self.fdisk_create_disklabel)(c.0, c"gpt".as_ptr()) != 0 {
                return None;
            }
            let g = CString::new(guid.to_string()).unwrap();
            (self.fdisk_set_disklabel_id_from_string)(c.0, g.as_ptr());
            if num != 128 && (self.fdisk_gpt_set_npartitions)(c.0, num) != 0 {
                return None;
            }
            let label = (self.fdisk_get_label)(c.0, c"gpt".as_ptr());
            for w in parts {
                let p = (self.fdisk_new_partition)();
                (self.fdisk_partition_set_partno)(p, w.slot as usize - 1);
                (self.fdisk_partition_set_start)(p, w.first);
                (self.fdisk_partition_set_size)(p, w.len);
                (self.fdisk_partition_size_explicit)(p, 1);
                let t = CString::new(w.ty.to_string().to_uppercase()).unwrap();
                let t = (self.fdisk_label_parse_parttype)(label, t.as_ptr());
                (self.fdisk_partition_set_type)(p, t);
                let s = CString::new(w.guid.to_string()).unwrap();
                (self.fdisk_partition_set_uuid)(p, s.as_ptr());
                if let Ok(n) = CString::new(w.name.as_str()) {
                    (self.fdisk_partition_set_name)(p, n.as_ptr());
                }
                let mut no = 0;
                if (self.fdisk_add_partition)(c.0, p, &mut no) == 0 {
                    (self.fdisk_gpt_set_partition_attrs)(c.0, no, w.flags);
                }
                (self.fdisk_unref_partition)(p);
                (self.fdisk_unref_parttype)(t);
            }
            for g in gone {
                (self.fdisk_delete_partition)(c.0, *g as usize - 1);
            }
            ((self.fdisk_write_disklabel)(c.0) == 0).then_some(())?;
        }
        drop(c);
        self.read(i, lb).ok()
    }
}

impl Blkid {
    pub fn read(&'static self, i: &Image, lb: u64) -> Result<Seen, String> {
        unsafe {
            let pr = (self.blkid_new_probe)();
            if (self.blkid_probe_set_device)(pr, i.file.as_raw_fd(), 0, 0) != 0 {
                (self.blkid_free_probe)(pr);
                return Err("libblkid cannot use the image".into());
            }
            (self.blkid_probe_set_sectorsize)(pr, lb as u32);
            (self.blkid_probe_enable_partitions)(pr, 1);
            let ls = (self.blkid_probe_get_partitions)(pr);
            let r = if ls.is_null() { Err("libblkid finds no partition table".to_string()) } else { self.view(ls, lb) };
            (self.blkid_free_probe)(pr);
            r
        }
    }

    unsafe fn view(&self, ls: P, lb: u64) -> Result<Seen, String> {
        let mut s = Seen { guid: None, num: None, usable: None, parts: vec![], problems: 0 };
        let per = lb / 512;
        for k in 0..(self.blkid_partlist_numof_partitions)(ls) {
            let p = (self.blkid_partlist_get_partition)(ls, k);
            let t = (self.blkid_partition_get_table)(p);
            let kind = text((self.blkid_parttable_get_type)(t)).unwrap_or_default();
            if kind != "gpt" {
                return Err(format!("libblkid takes it for a {kind} table"));
            }
            s.guid = Some(uuid(text((self.blkid_parttable_get_id)(t))));
            let (first, len) = ((self.blkid_partition_get_start)(p) as u64, (self.blkid_partition_get_size)(p) as u64);
            s.parts.push((
                (self.blkid_partition_get_partno)(p) as u32,
                View {
                    ty: uuid(text((self.blkid_partition_get_type_string)(p))),
                    guid: uuid(text((self.blkid_partition_get_uuid)(p))),
                    first: first / per,
                    last: (first + len) / per - 1,
                    flags: (self.blkid_partition_get_flags)(p),
                    name: text((self.blkid_partition_get_name)(p)).unwrap_or_default(),
                },
            ));
        }
        s.parts.sort_by_key(|p| p.0);
        Ok(s)
    }
}
