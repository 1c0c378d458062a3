#![allow(dead_code, unused_imports, unused_macros)]
use gpt::disk::LogicalBlockSize::{self, Lb4096, Lb512};
use gpt::header::{Header, HeaderBuilder};
use gpt::partition::{file_read_partitions, Partition};
use gpt::{partition_types, GptConfig, GptDisk, GptError};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use uuid::Uuid;

type Mem = Cursor<Vec<u8>>;

fn mem(bytes: usize) -> Mem {
    Cursor::new(vec![0; bytes])
}
fn rw() -> GptConfig {
    GptConfig::new().writable(true)
}
fn new_disk(bytes: usize) -> GptDisk<Mem> {
    rw().create_from_device(mem(bytes), None).unwrap()
}
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { println!("BROKEN: {}", format!($($t)*)); std::process::exit(1); } };
}
fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
/// stores the checksums of the header at this block (array, then header)
fn seal(img: &mut [u8], lba: usize, lbs: usize) {
    let o = lba * lbs;
    let rd = |img: &[u8], a: usize| u32::from_le_bytes(img[o + a..o + a + 4].try_into().unwrap()) as usize;
    let (start, n, s) = (rd(img, 72), rd(img, 80), rd(img, 84));
    let a = crc32(&img[start * lbs..start * lbs + n * s]);
    img[o + 88..o + 92].copy_from_slice(&a.to_le_bytes());
    img[o + 16..o + 20].fill(0);
    let h = crc32(&img[o..o + 92]);
    img[o + 16..o + 20].copy_from_slice(&h.to_le_bytes());
}

