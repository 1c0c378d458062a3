//! An independent reading and writing of the GPT format, straight from the UEFI
//! specification (2.10, chapter 5). Shares no code with the crate under test.

use crate::dev::Dev;
use serde::{Deserialize, Serialize};

/// CRC-32 (IEEE 802.3, reflected, as UEFI prescribes); bit by bit with a small table.
pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

pub fn le16(b: &[u8]) -> u16 {
    b[0] as u16 | (b[1] as u16) << 8
}
pub fn le32(b: &[u8]) -> u32 {
    (0..4).map(|i| (b[i] as u32) << (8 * i)).sum()
}
pub fn le64(b: &[u8]) -> u64 {
    (0..8).map(|i| (b[i] as u64) << (8 * i)).sum()
}

/// A GUID in the order it is printed in (big-endian fields).
pub type Guid = [u8; 16];

/// Printed order <-> on-disk order (first three fields little-endian). An involution.
pub fn guid_swap(g: &[u8]) -> Guid {
    [
        g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15],
    ]
}

pub fn guid_text(g: &Guid) -> String {
    let h: Vec<String> = g.iter().map(|b| format!("{b:02x}")).collect();
    format!(
        "{}-{}-{}-{}-{}",
        h[0..4].concat(),
        h[4..6].concat(),
        h[6..8].concat(),
        h[8..10].concat(),
        h[10..16].concat()
    )
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct RefHeader {
    pub sig: [u8; 8],
    pub revision: u32,
    pub header_size: u32,
    pub crc: u32,
    pub reserved: u32,
    pub my_lba: u64,
    pub alt_lba: u64,
    pub first_usable: u64,
    pub last_usable: u64,
    pub guid: Guid,
    pub part_start: u64,
    pub num: u32,
    pub size: u32,
    pub crc_parts: u32,
}

impl RefHeader {
    pub fn parse(b: &[u8]) -> RefHeader {
        RefHeader {
            sig: b[0..8].try_into().unwrap(),
            revision: le32(&b[8..]),
            header_size: le32(&b[12..]),
            crc: le32(&b[16..]),
            reserved: le32(&b[20..]),
            my_lba: le64(&b[24..]),
            alt_lba: le64(&b[32..]),
            first_usable: le64(&b[40..]),
            last_usable: le64(&b[48..]),
            guid: guid_swap(&b[56..72]),
            part_start: le64(&b[72..]),
            num: le32(&b[80..]),
            size: le32(&b[84..]),
            crc_parts: le32(&b[88..]),
        }
    }

    pub fn encode(&self) -> [u8; 92] {
        let mut b = [0u8; 92];
        b[0..8].copy_from_slice(&self.sig);
        b[8..12].copy_from_slice(&self.revision.to_le_bytes());
        b[12..16].copy_from_slice(&self.header_size.to_le_bytes());
        b[16..20].copy_from_slice(&self.crc.to_le_bytes());
        b[20..24].copy_from_slice(&self.reserved.to_le_bytes());
        b[24..32].copy_from_slice(&self.my_lba.to_le_bytes());
        b[32..40].copy_from_slice(&self.alt_lba.to_le_bytes());
        b[40..48].copy_from_slice(&self.first_usable.to_le_bytes());
        b[48..56].copy_from_slice(&self.last_usable.to_le_bytes());
        b[56..72].copy_from_slice(&guid_swap(&self.guid));
        b[72..80].copy_from_slice(&self.part_start.to_le_bytes());
        b[80..84].copy_from_slice(&self.num.to_le_bytes());
        b[84..88].copy_from_slice(&self.size.to_le_bytes());
        b[88..92].copy_from_slice(&self.crc_parts.to_le_bytes());
        b
    }

    /// The encoding with its own CRC filled in.
    pub fn sealed(&self) -> [u8; 92] {
        let mut h = self.clone();
        h.crc = 0;
        h.crc = crc32(&h.encode());
        h.encode()
    }

    pub fn array_bytes(&self) -> u64 {
        self.num as u64 * self.size as u64
    }
    pub fn array_blocks(&self, lb: u64) -> u64 {
        self.array_bytes().div_ceil(lb)
    }
}

/// Does the 92-byte header pass its signature and CRC?
pub fn header_ok(b: &[u8]) -> bool {
    let mut c = b[..92].to_vec();
    let stored = le32(&c[16..]);
    c[16..20].copy_from_slice(&[0; 4]);
    &b[0..8] == b"EFI PART" && crc32(&c) == stored
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct RefEntry {
    pub ty: Guid,
    pub guid: Guid,
    pub first: u64,
    pub last: u64,
    pub flags: u64,
    /// the 36 UTF-16 units as stored
    pub name: Vec<u16>,
}

impl RefEntry {
    pub fn parse(b: &[u8]) -> RefEntry {
        RefEntry {
            ty: guid_swap(&b[0..16]),
            guid: guid_swap(&b[16..32]),
            first: le64(&b[32..]),
            last: le64(&b[40..]),
            flags: le64(&b[48..]),
            name: (0..36).map(|i| le16(&b[56 + 2 * i..])).collect(),
        }
    }
    pub fn encode(&self) -> [u8; 128] {
        let mut b = [0u8; 128];
        b[0..16].copy_from_slice(&guid_swap(&self.ty));
        b[16..32].copy_from_slice(&guid_swap(&self.guid));
        b[32..40].copy_from_slice(&self.first.to_le_bytes());
        b[40..48].copy_from_slice(&self.last.to_le_bytes());
        b[48..56].copy_from_slice(&self.flags.to_le_bytes());
        for (i, u) in self.name.iter().take(36).enumerate() {
            b[56 + 2 * i..58 + 2 * i].copy_from_slice(&u.to_le_bytes());
        }
        b
    }
    /// The name as text: up to the first NUL unit.
    pub fn name_text(&self) -> String {
        let end = self.name.iter().position(|u| *u == 0).unwrap_or(self.name.len());
        String::from_utf16_lossy(&self.name[..end])
    }
    pub fn used(&self) -> bool {
        self.ty != [0; 16]
    }
}

/// The longest prefix of whole characters of `s` that fits in 36 UTF-16 units, as units.
pub fn name_units(s: &str) -> Vec<u16> {
    let mut out: Vec<u16> = vec![];
    for c in s.chars() {
        let mut b = [0u16; 2];
        let e = c.encode_utf16(&mut b);
        if out.len() + e.len() > 36 {
            break;
        }
        out.extend_from_slice(e);
    }
    out
}

/// What a stored name reads back as.
pub fn name_readback(s: &str) -> String {
    let u = name_units(s);
    let end = u.iter().position(|u| *u == 0).unwrap_or(u.len());
    String::from_utf16(&u[..end]).unwrap()
}

/// One GPT copy as found on a device.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefCopy {
    pub header: RefHeader,
    pub array: Vec<u8>,
}

impl RefCopy {
    /// Non-zero entries by 1-based position.
    pub fn entries(&self) -> Vec<(u32, RefEntry)> {
        let s = self.header.size as usize;
        self.array
            .chunks_exact(s)
            .enumerate()
            .filter(|(_, c)| c.iter().any(|b| *b != 0))
            .map(|(i, c)| (i as u32 + 1, RefEntry::parse(c)))
            .collect()
    }
}

/// Reads and fully validates the copy whose header should be at `lba`.
pub fn read_copy(d: &Dev, lb: u64, lba: u64, alt: u64) -> Result<RefCopy, String> {
    let end = d.len;
    let off = lba.checked_mul(lb).ok_or("header offset overflows")?;
    if off + lb > end {
        return Err(format!("header block {lba} outside the device"));
    }
    let b = d.peek(off, lb as usize);
    let h = RefHeader::parse(&b);
    if &h.sig != b"EFI PART" {
        return Err(format!("LBA {lba}: bad signature"));
    }
    if h.revision != 0x0001_0000 {
        return Err(format!("LBA {lba}: revision {:#x}", h.revision));
    }
    if h.header_size != 92 {
        return Err(format!("LBA {lba}: header size {}", h.header_size));
    }
    if !header_ok(&b) {
        return Err(format!("LBA {lba}: header CRC mismatch"));
    }
    if h.reserved != 0 {
        return Err(format!("LBA {lba}: reserved field {:#x}", h.reserved));
    }
    if b[92..].iter().any(|x| *x != 0) {
        return Err(format!("LBA {lba}: rest of the header block not zero"));
    }
    if h.my_lba != lba {
        return Err(format!("LBA {lba}: own LBA field is {}", h.my_lba));
    }
    if h.alt_lba != alt {
        return Err(format!("LBA {lba}: alternate LBA field is {}, expected {alt}", h.alt_lba));
    }
    if h.size != 128 {
        return Err(format!("LBA {lba}: entry size {}", h.size));
    }
    let aoff = h.part_start.checked_mul(lb).ok_or("array offset overflows")?;
    let alen = h.array_bytes();
    if aoff.checked_add(alen).map_or(true, |e| e > end) {
        return Err(format!("LBA {lba}: array outside the device"));
    }
    if alen > 1 << 26 {
        return Err(format!("LBA {lba}: unreasonable array size {alen}"));
    }
    let array = d.peek(aoff, alen as usize);
    if crc32(&array) != h.crc_parts {
        return Err(format!("LBA {lba}: entry array CRC mismatch"));
    }
    Ok(RefCopy { header: h, array })
}

/// The metadata byte ranges of a copy, as its header states them.
pub fn copy_regions(h: &RefHeader, lb: u64) -> Vec<(u64, u64)> {
    vec![
        (h.my_lba * lb, (h.my_lba + 1) * lb),
        (h.part_start * lb, h.part_start * lb + h.array_bytes()),
    ]
}

/// Checks the order and disjointness of the regions of a disk with both copies.
pub fn check_layout(p: &RefHeader, b: &RefHeader, lb: u64, last_lba: u64) -> Result<(), String> {
    let a = p.array_blocks(lb);
    let ab = b.array_blocks(lb);
    if p.my_lba != 1 {
        return Err(format!("primary header at {}", p.my_lba));
    }
    if p.part_start < 2 {
        return Err(format!("primary array at {}", p.part_start));
    }
    if p.part_start + a > p.first_usable {
        return Err(format!("primary array {}+{a} reaches into the usable range from {}", p.part_start, p.first_usable));
    }
    if p.first_usable > p.last_usable {
        return Err(format!("usable range {}..{} is empty", p.first_usable, p.last_usable));
    }
    if b.part_start <= p.last_usable {
        return Err(format!("backup array at {} inside the usable range to {}", b.part_start, p.last_usable));
    }
    if b.part_start + ab > b.my_lba {
        return Err(format!("backup array {}+{ab} overlaps the backup header at {}", b.part_start, b.my_lba));
    }
    if b.my_lba != last_lba {
        return Err(format!("backup header at {}, last LBA is {last_lba}", b.my_lba));
    }
    Ok(())
}

/// Full conformance of a disk with both copies; returns them.
pub fn check_disk(d: &Dev, lb: u64) -> Result<(RefCopy, RefCopy), String> {
    let last = d.len / lb - 1;
    let p = read_copy(d, lb, 1, last).map_err(|e| format!("primary copy: {e}"))?;
    let b = read_copy(d, lb, last, 1).map_err(|e| format!("backup copy: {e}"))?;
    let (hp, hb) = (&p.header, &b.header);
    if hp.guid != hb.guid {
        return Err(format!("disk GUID differs between the copies: {} {}", guid_text(&hp.guid), guid_text(&hb.guid)));
    }
    if (hp.first_usable, hp.last_usable) != (hb.first_usable, hb.last_usable) {
        return Err(format!(
            "usable range differs between the copies: {}..{} {}..{}",
            hp.first_usable, hp.last_usable, hb.first_usable, hb.last_usable
        ));
    }
    if (hp.num, hp.size) != (hb.num, hb.size) {
        return Err(format!("entry count/size differs between the copies: {}x{} {}x{}", hp.num, hp.size, hb.num, hb.size));
    }
    if p.array != b.array {
        return Err("entry arrays differ between the copies".into());
    }
    check_layout(hp, hb, lb, last)?;
    for (i, e) in p.entries() {
        if !e.used() {
            return Err(format!("entry {i} is unused but not all zero"));
        }
    }
    Ok((p, b))
}

/// Free runs (first, length) of [lo, hi] given occupied intervals in any order, orientation and
/// overlap. Obviously correct: sweep over sorted intervals.
pub fn free_runs(lo: u64, hi: u64, used: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let mut iv: Vec<(u128, u128)> = used
        .iter()
        .map(|(a, b)| ((*a).min(*b) as u128, (*a).max(*b) as u128))
        .collect();
    iv.sort_unstable();
    let mut out = vec![];
    let mut cur = lo as u128;
    let end = hi as u128 + 1; // exclusive
    if lo > hi {
        return out;
    }
    for (a, b) in iv {
        if a >= end {
            break;
        }
        if a > cur {
            out.push((cur as u64, (a - cur) as u64));
        }
        cur = cur.max(b + 1);
        if cur >= end {
            break;
        }
    }
    if cur < end {
        out.push((cur as u64, (end - cur).min(u64::MAX as u128) as u64));
    }
    out
}

/// Writes both copies of a table, with arrays wherever the headers say.
pub fn write_copy(d: &mut Dev, lb: u64, h: &RefHeader, entries: &[(u32, RefEntry)]) {
    let mut arr = vec![0u8; h.array_bytes() as usize];
    for (i, e) in entries {
        let o = (*i as usize - 1) * h.size as usize;
        arr[o..o + 128].copy_from_slice(&e.encode());
    }
    let mut h = h.clone();
    h.crc_parts = crc32(&arr);
    let mut blk = vec![0u8; lb as usize];
    blk[..92].copy_from_slice(&h.sealed());
    d.poke(h.my_lba * lb, &blk);
    d.poke(h.part_start * lb, &arr);
}
