//! Literals of the code under test, as a fuzzer's dictionary: numbers, texts and GUIDs that the
//! sources mention are likelier to matter than others. They only weight the generators; nothing
//! is judged by them.

use crate::gen::G;
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub guids: Vec<G>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut texts = vec![];
        collect(std::path::Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut texts);
        mine(&texts)
    })
}

fn collect(dir: &std::path::Path, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            collect(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                let end = s.find("#[cfg(test)]").unwrap_or(s.len());
                out.push(s[..end].to_string());
            }
        }
    }
}

fn mine(texts: &[String]) -> Dict {
    let (mut ints, mut strs, mut guids) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for t in texts {
        let c: Vec<char> = t.chars().collect();
        let mut i = 0;
        // the last two numbers with what stands between them
        let mut prev: Option<u64> = None;
        let mut between = String::new();
        while i < c.len() {
            if c[i] == '/' && c.get(i + 1) == Some(&'/') {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            } else if c[i] == '"' {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        if let Some(x) = c.get(i) {
                            s.push(match x {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                '0' => '\0',
                                x => *x,
                            });
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                if let Ok(u) = uuid::Uuid::parse_str(&s) {
                    guids.insert(*u.as_bytes());
                } else if !s.is_empty() && s.chars().count() <= 60 {
                    strs.insert(s);
                }
                prev = None;
            } else if c[i] == '\'' && c.get(i + 2) == Some(&'\'') {
                strs.insert(c[i + 1].to_string());
                i += 3;
            } else if c[i].is_ascii_digit() {
                let mut s = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    if c[i] != '_' {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                let Some(n) = number(&s) else { continue };
                ints.insert(n);
                if let Some(p) = prev {
                    match between.trim() {
                        "<<" if n < 64 => drop(ints.insert(p << n)),
                        "*" => drop(ints.insert(p.wrapping_mul(n))),
                        "+" => drop(ints.insert(p.wrapping_add(n))),
                        "-" => drop(ints.insert(p.wrapping_sub(n))),
                        _ => {}
                    }
                }
                prev = Some(n);
                between.clear();
            } else if c[i].is_alphabetic() || c[i] == '_' {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                prev = None;
            } else {
                between.push(c[i]);
                i += 1;
            }
        }
    }
    Dict { ints: ints.into_iter().collect(), strs: strs.into_iter().collect(), guids: guids.into_iter().map(G).collect() }
}

fn number(s: &str) -> Option<u64> {
    let (radix, digits) = match s.get(..2) {
        Some("0x") => (16, &s[2..]),
        Some("0b") => (2, &s[2..]),
        Some("0o") => (8, &s[2..]),
        _ => (10, s),
    };
    let mut d = digits;
    for suffix in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
        if let Some(x) = digits.strip_suffix(suffix) {
            d = x;
        }
    }
    u64::from_str_radix(d, radix).ok()
}

/// A number the sources mention, or one next to it, or so many blocks of it.
pub fn int() -> BoxedStrategy<u64> {
    let mut v = dict().ints.clone();
    if v.is_empty() {
        v.push(0);
    }
    (proptest::sample::select(v), prop_oneof![3 => Just(0i64), 1 => -1i64..=1], prop_oneof![6 => Just(0u8), 1 => 1u8..5])
        .prop_map(|(n, d, scale)| {
            let n = match scale {
                0 => n,
                1 => n.wrapping_mul(512),
                2 => n.wrapping_mul(4096),
                3 => n / 512,
                _ => n / 4096,
            };
            n.wrapping_add(d as u64)
        })
        .boxed()
}

/// Such a number within a range.
pub fn int_in(lo: u64, hi: u64) -> BoxedStrategy<u64> {
    int().prop_map(move |n| if (lo..hi).contains(&n) { n } else { lo + n % (hi - lo) }).boxed()
}

pub fn text() -> BoxedStrategy<String> {
    let mut v = dict().strs.clone();
    if v.is_empty() {
        v.push(String::new());
    }
    (proptest::sample::select(v.clone()), proptest::option::weighted(0.2, proptest::sample::select(v)))
        .prop_map(|(a, b)| a + &b.unwrap_or_default())
        .boxed()
}

pub fn guid() -> BoxedStrategy<G> {
    let mut v = dict().guids.clone();
    if v.is_empty() {
        v.push(G([7; 16]));
    }
    proptest::sample::select(v).boxed()
}
