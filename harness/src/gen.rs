//! Generators and small value types shared by the properties. Everything a case holds is
//! plain data that serialises, so that a failing case is its own replay file.

use crate::dev::Dev;
use crate::refgpt::{Guid, RefEntry, RefHeader};
use gpt::disk::LogicalBlockSize;
use gpt::partition_types::{OperatingSystem, Type};
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use uuid::Uuid;

/// A GUID in a case (hex string when serialised).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct G(pub Guid);

impl std::fmt::Debug for G {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", crate::refgpt::guid_text(&self.0))
    }
}
impl Serialize for G {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for G {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<G, D::Error> {
        let s = String::deserialize(d)?;
        let mut g = [0u8; 16];
        for (i, b) in g.iter_mut().enumerate() {
            *b = u8::from_str_radix(s.get(2 * i..2 * i + 2).unwrap_or("00"), 16).unwrap_or(0);
        }
        Ok(G(g))
    }
}
impl G {
    pub fn uuid(&self) -> Uuid {
        Uuid::from_bytes(self.0)
    }
}
pub fn guid_of(u: &Uuid) -> Guid {
    *u.as_bytes()
}

pub fn guid() -> BoxedStrategy<G> {
    prop_oneof![
        12 => any::<[u8; 16]>().prop_map(G),
        1 => Just(G([0; 16])),
        1 => Just(G([0xff; 16])),
        1 => crate::dict::guid(),
        1 => crate::dict::int().prop_map(|n| {
            let mut g = [0; 16];
            g[..8].copy_from_slice(&n.to_le_bytes());
            G(g)
        }),
        1 => (0u8..16, any::<u8>()).prop_map(|(i, v)| {
            let mut g = [0; 16];
            g[i as usize] = v;
            G(g)
        }),
    ]
    .boxed()
}

/// A GUID that is not nil.
pub fn real_guid() -> BoxedStrategy<G> {
    guid().prop_map(|mut g| {
        if g.0 == [0; 16] {
            g.0[15] = 1;
        }
        g
    })
    .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Geo {
    /// 4096-byte blocks instead of 512
    pub big: bool,
    /// complete blocks of the device
    pub blocks: u64,
    /// bytes of a trailing partial block
    pub tail: u16,
    /// pattern the device is filled with
    pub fill: u64,
    /// a table that was on the device before (0: none)
    #[serde(default)]
    pub old: u16,
}

impl Geo {
    pub fn lb(&self) -> u64 {
        if self.big {
            4096
        } else {
            512
        }
    }
    pub fn lbs(&self) -> LogicalBlockSize {
        lbs(self.big)
    }
    pub fn len(&self) -> u64 {
        self.blocks * self.lb() + (self.tail as u64 % self.lb())
    }
    pub fn dev(&self) -> Dev {
        let mut d = Dev::new(self.len(), self.fill);
        if self.old != 0 {
            self.lay_old(&mut d);
        }
        d
    }
    /// Puts what is left of an older table on the device: another entry count, usable range and
    /// GUID, perhaps for the other block size, perhaps with one copy damaged or stale.
    fn lay_old(&self, d: &mut Dev) {
        let o = self.old as u64;
        let lb = if o & 7 == 7 { 4608 - self.lb() } else { self.lb() };
        let blocks = d.len / lb;
        let num = [128, 4, 256, 160, 1, 200, 512, 132][(o >> 3 & 7) as usize];
        let a = (num as u64 * 128).div_ceil(lb);
        if blocks < 2 * a + 3 + 14 {
            return;
        }
        // a disk that was shorter then has its backup further to the front
        let last = if o >> 6 & 3 == 3 { blocks - 1 - (blocks - 2 * a - 16).min(o % 5) } else { blocks - 1 };
        let gap = o >> 8 & 3;
        let guid = [(o >> 4) as u8 | 1; 16];
        let prim = RefHeader {
            sig: *b"EFI PART",
            revision: 0x10000,
            header_size: 92,
            crc: 0,
            reserved: 0,
            my_lba: 1,
            alt_lba: last,
            first_usable: 2 + a + 2 * gap,
            last_usable: last - a - 1 - gap,
            guid,
            part_start: 2 + gap,
            num,
            size: 128,
            crc_parts: 0,
        };
        let back = RefHeader { my_lba: last, alt_lba: 1, part_start: last - a, ..prim.clone() };
        let part = |slot: u32, first, last| {
            let guid = [slot as u8 | 0x40; 16];
            let name = crate::hist::pad(crate::refgpt::name_units("old"));
            (slot.min(num), RefEntry { ty: [9; 16], guid, first, last, flags: 1, name })
        };
        let f = prim.first_usable;
        let entries = match o >> 10 & 3 {
            0 => vec![],
            1 => vec![part(1, f, f)],
            2 => vec![part(1, f, f + 1), part(num, f + 2, f + 3)],
            _ => (1..=num.min(9)).map(|i| part(i, f + i as u64 - 1, f + i as u64 - 1)).collect(),
        };
        for h in [&prim, &back] {
            crate::refgpt::write_copy(d, lb, h, &entries);
        }
        match o >> 12 & 7 {
            0 => d.poke(lb + 60, &[0x55]),
            1 => d.poke(last * lb + 60, &[0x55]),
            2 => d.poke(prim.part_start * lb, &[0x55]),
            3 => d.poke(last * lb, &[0; 512]),
            4 => d.poke(lb, &[0; 512]),
            _ => {}
        }
    }
    pub fn last(&self) -> u64 {
        self.blocks - 1
    }
    /// Blocks of an array of `num` entries of 128 bytes.
    pub fn arr(&self, num: u64) -> u64 {
        (num * 128).div_ceil(self.lb())
    }
}

pub fn lbs(big: bool) -> LogicalBlockSize {
    if big {
        LogicalBlockSize::Lb4096
    } else {
        LogicalBlockSize::Lb512
    }
}

/// Fewest blocks a new table fits on.
pub fn min_blocks(big: bool) -> u64 {
    if big {
        12
    } else {
        68
    }
}

fn geo_with(extra: BoxedStrategy<u64>) -> BoxedStrategy<Geo> {
    (
        any::<bool>(),
        extra,
        prop_oneof![3 => Just(0u16), 1 => any::<u16>()],
        prop_oneof![1 => Just(0u64), 2 => 1u64..1000],
        prop_oneof![5 => Just(0u16), 1 => any::<u16>()],
    )
        .prop_map(|(big, extra, tail, fill, old)| Geo { big, blocks: min_blocks(big) + extra, tail, fill, old })
        .boxed()
}

/// Devices on which a table fits: from the smallest to 2^62 bytes.
pub fn geo() -> BoxedStrategy<Geo> {
    geo_with(
        prop_oneof![
            3 => 0u64..8,
            6 => 0u64..300,
            4 => 300u64..20_000,
            2 => 20_000u64..5_000_000,
            1 => (33u32..49).prop_flat_map(|e| (1u64 << e)..(2u64 << e)),
            1 => Just((1u64 << 50) - 68),
            1 => crate::dict::int_in(0, 1 << 49),
        ]
        .boxed(),
    )
}

/// Devices of at most a few thousand blocks.
pub fn geo_small() -> BoxedStrategy<Geo> {
    geo_with(prop_oneof![3 => 0u64..8, 6 => 0u64..300, 2 => 300u64..3000, 1 => crate::dict::int_in(0, 3000)].boxed())
}

pub fn name() -> BoxedStrategy<String> {
    let filler = prop_oneof![Just('a'), Just('é'), Just('字'), Just('😀')];
    prop_oneof![
        3 => proptest::collection::vec(proptest::char::range(' ', '~'), 0..14).prop_map(|v| v.into_iter().collect()),
        1 => Just(String::new()),
        1 => crate::dict::text(),
        // a number of characters the sources mention
        1 => (any::<char>(), crate::dict::int_in(0, 80)).prop_map(|(c, n)| c.to_string().repeat(n as usize)),
        // around the 36-unit limit, with one- and two-unit characters
        3 => (filler, 30usize..40, proptest::collection::vec(any::<char>(), 0..6)).prop_map(|(c, n, t)| {
            let mut s = String::new();
            let mut u = 0;
            while u + c.len_utf16() <= n {
                s.push(c);
                u += c.len_utf16();
            }
            s.extend(t);
            s
        }),
        2 => proptest::collection::vec(any::<char>(), 0..60).prop_map(|v| v.into_iter().collect()),
        // embedded NUL
        1 => (proptest::collection::vec(any::<char>(), 0..10), proptest::collection::vec(any::<char>(), 0..40)).prop_map(|(a, b)| {
            let mut s: String = a.into_iter().collect();
            s.push('\0');
            s.extend(b);
            s
        }),
        1 => proptest::collection::vec(prop_oneof![
            Just('\u{FFFF}'), Just('\u{FEFF}'), Just('\u{D7FF}'), Just('\u{E000}'), Just('\u{10FFFF}'), Just('\u{10000}'), Just('\u{FFFD}')
        ], 0..40).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

/// A partition type for a case; never "unused".
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    Known(u8),
    Custom(G),
    /// with an operating-system label of its own
    Labelled(G, String),
}

impl Ty {
    pub fn get(&self) -> Type {
        let nz = |g: &G| {
            let mut g = *g;
            if g.0 == [0; 16] {
                g.0[0] = 1;
            }
            g.uuid()
        };
        match self {
            // index 0 is UNUSED
            Ty::Known(i) => {
                let k = &crate::known_types::KNOWN;
                crate::known_types::konst(1 + *i as usize % (k.len() - 1))
            }
            Ty::Custom(g) => Type { guid: nz(g), os: OperatingSystem::None },
            Ty::Labelled(g, s) => Type { guid: nz(g), os: OperatingSystem::Custom(s.clone()) },
        }
    }
}

pub fn ty() -> BoxedStrategy<Ty> {
    prop_oneof![
        4 => any::<u8>().prop_map(Ty::Known),
        3 => guid().prop_map(Ty::Custom),
        1 => (guid(), "x".prop_map_str()).prop_map(|(g, s)| Ty::Labelled(g, s)),
    ]
    .boxed()
}

trait PropStr {
    fn prop_map_str(self) -> BoxedStrategy<String>;
}
impl PropStr for &'static str {
    fn prop_map_str(self) -> BoxedStrategy<String> {
        proptest::collection::vec(proptest::char::range('a', 'z'), 0..6).prop_map(|v| v.into_iter().collect()).boxed()
    }
}

pub fn flags() -> BoxedStrategy<u64> {
    prop_oneof![3 => Just(0u64), 2 => any::<u64>(), 1 => crate::dict::int(), 1 => (0u32..64).prop_map(|b| 1 << b), 1 => Just(u64::MAX)].boxed()
}

/// 64-bit values with the boundaries made likely.
pub fn edge64() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => 0u64..70,
        3 => any::<u64>(),
        3 => (0u32..64, -3i64..4).prop_map(|(e, d)| (1u64 << e).wrapping_add(d as u64)),
        2 => (0u64..5).prop_map(|d| u64::MAX - d),
        1 => (0u64..5).prop_map(|d| i64::MAX as u64 - 2 + d),
        2 => 0u64..5000,
        3 => crate::dict::int(),
    ]
    .boxed()
}

pub fn edge32() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => 0u32..300,
        2 => any::<u32>(),
        3 => (0u32..32, -3i32..4).prop_map(|(e, d)| (1u32 << e).wrapping_add(d as u32)),
        2 => (0u32..5).prop_map(|d| u32::MAX - d),
        2 => crate::dict::int().prop_map(|n| n as u32),
    ]
    .boxed()
}
