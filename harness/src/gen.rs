//! Generators shared by the properties.

use crate::dict::dict;
use crate::oracle::hpack::Table;
use crate::oracle::tables::STATIC;
use crate::src::{mix, Src};
use crate::types::B;

const NAMES: &[&str] = &["a", "b", "x-custom", "cookie", ":method", ":status", ":path", "accept-encoding", "set-cookie", "via", ":authority", "age", "x", "www-authenticate"];
const VALUES: &[&str] = &["", "1", "GET", "POST", "200", "404", "/", "/index.html", "gzip, deflate", "b", "no-cache", "PATCH", "https"];
/// What else turns up in real traffic, or should not.
const OTHER_NAMES: &[&str] = &["connection", "te", "upgrade", "proxy-connection", "keep-alive", ":protocol", "x-forwarded-for", "proxy-authorization", "grpc-status", "Content-Type", "COOKIE", "cookie2", ":", ":unknown", "content_type", " a", "a ", "a\0", "host:", "dnt", "priority", "sec-ch-ua"];
const OTHER_VALUES: &[&str] = &["text/html; charset=utf-8", "Mon, 21 Oct 2013 20:13:21 GMT", " leading", "trailing ", "\ttab\t", "\r\n", "a\r\nb: c", "a\0b", "\0", "0", "00", "-1", "+5", "1.0", "a=1; b=2", "trailers", "\u{e9}t\u{e9}", "\"quoted\"", "%20", "Get", "get", "HTTPS", "/index.html/", "//", "a,b , c", "close"];

/// Lengths next to which integer and string encodings change.
pub const EDGE_LENS: &[usize] = &[0, 1, 14, 15, 16, 30, 31, 32, 33, 62, 63, 64, 78, 79, 80, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513];
/// Longer ones, drawn rarely.
pub const FAR_LENS: &[usize] = &[1000, 4064, 4065, 4096, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 16509, 16510, 16511, 16512, 16513, 20000, 32768, 65535, 65536, 65537];

/// Octets that are in an output vector beforehand; rarely a great many.
pub fn earlier(src: &mut Src) -> Vec<u8> {
    let len = match src.weighted(&[100, 80, 10, 3, 1]) {
        0 => 0,
        1 => 1 + src.usize(12),
        2 => src.usize(300),
        3 => src.usize(6000),
        _ => 16_000 + src.usize(60_000),
    };
    if len == 0 {
        return vec![];
    }
    blob(src, len)
}

/// How many elements a vector has beforehand; rarely a great many.
pub fn held(src: &mut Src) -> u32 {
    match src.weighted(&[100, 100, 4, 1]) {
        0 => 0,
        1 => 1 + src.below(3) as u32,
        2 => src.below(300) as u32,
        _ if src.chance(1, 40) => 60_000 + src.below(10_000) as u32,
        _ => src.below(5000) as u32,
    }
}

/// Repeated or pseudo-random bytes from a constant number of choices.
pub fn blob(src: &mut Src, len: usize) -> Vec<u8> {
    let style = src.below(6);
    let seed = src.below(1 << 32);
    fill(style, seed, len)
}

/// The bytes `blob` makes from its two choices.
pub fn fill(style: u64, seed: u64, len: usize) -> Vec<u8> {
    if style == 5 {
        // runs of equal octets, mostly of common ones
        let mut out = Vec::with_capacity(len);
        let mut i = seed;
        while out.len() < len {
            i = i.wrapping_add(1);
            let r = mix(i);
            let c = if r & 7 == 0 { (r >> 8) as u8 } else { b"0120aceiost /:-XZ{"[(r >> 8) as usize % 18] };
            let n = [1, 1, 2, 3, 8, 9, 16, 33][(r >> 16) as usize % 8];
            out.resize((out.len() + n).min(len), c);
        }
        return out;
    }
    (0..len as u64)
        .map(|i| {
            let r = mix(seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i));
            match style {
                0 => seed as u8,
                1 => b'a' + (r % 26) as u8,
                2 => 0x20 + (r % 95) as u8,
                3 => r as u8,
                _ => 0x80 | r as u8,
            }
        })
        .collect()
}

/// A byte string whose length is small most of the time.
pub fn bytes(src: &mut Src) -> Vec<u8> {
    let v = new_bytes(src);
    src.note_str(&v);
    v
}

fn new_bytes(src: &mut Src) -> Vec<u8> {
    if let Some(v) = mentioned(src).or_else(|| similar(src)) {
        return v;
    }
    match src.weighted(&[30, 30, 12, 1]) {
        0 => {
            let n = src.usize(8);
            (0..n).map(|_| b'a' + src.below(4) as u8).collect()
        }
        1 => {
            let n = src.usize(20);
            (0..n).map(|_| src.byte()).collect()
        }
        2 => {
            let n = *src.pick(EDGE_LENS);
            blob(src, n)
        }
        _ => {
            let n = *src.pick(FAR_LENS);
            blob(src, n)
        }
    }
}

/// Now and then, a string that is new in the tree under test, or one whose
/// length is.
fn mentioned(src: &mut Src) -> Option<Vec<u8>> {
    let d = dict();
    if !d.strs.is_empty() && src.chance(1, 6) {
        let s = src.pick(&d.strs).clone();
        return Some(match src.below(6) {
            0 => near(src, &s),
            1 => [s.clone(), fill(2, src.below(1000), 5)].concat(),
            2 => [fill(2, src.below(1000), 5), s.clone()].concat(),
            _ => s,
        });
    }
    if !d.lens.is_empty() && src.chance(1, 6) {
        let n = *src.pick(&d.lens) + *src.pick(&[0usize, 0, 0, 1, 2]);
        let n = n.saturating_sub(*src.pick(&[0usize, 0, 1]));
        if n <= 2000 || src.chance(1, 40) {
            return Some(blob(src, n));
        }
    }
    None
}

/// Now and then, a string like one of the last ones of the case.
fn similar(src: &mut Src) -> Option<Vec<u8>> {
    let s = src.again()?;
    Some(match src.below(8) {
        0 => s,
        1 => blob(src, s.len()),
        2 => blob(src, s.len() + 1),
        3 => blob(src, s.len().saturating_sub(1)),
        4 => s[..src.usize(s.len() + 1)].to_vec(),
        5 => s[src.usize(s.len() + 1)..].to_vec(),
        6 => [&s[..], &s[..]].concat(),
        _ => near(src, &s),
    })
}

/// One of the usual numbers, or now and then one that is new in the tree
/// under test.
pub fn or_new(src: &mut Src, usual: u64, lo: u64, hi: u64) -> u64 {
    let v = match src.related(lo, hi) {
        Some(v) => v,
        None => or_mentioned(src, usual, lo, hi),
    };
    src.note(v);
    v
}

fn or_mentioned(src: &mut Src, usual: u64, lo: u64, hi: u64) -> u64 {
    let d = dict();
    if !d.nums.is_empty() && src.chance(1, 6) {
        let n = src.pick(&d.nums).wrapping_add(src.below(3)).wrapping_sub(1);
        let n = match src.below(8) {
            0 if hi == u64::MAX => n.wrapping_neg(),
            0 if hi == u32::MAX as u64 => (n as u32).wrapping_neg() as u64,
            _ => n,
        };
        if lo <= n && n <= hi {
            return n;
        }
    }
    usual
}

/// A byte string that differs little from another one: in the case of its
/// letters, one octet, its length, or that it shares both ends.
pub fn near(src: &mut Src, s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    if v.is_empty() {
        return vec![*src.pick(&[0u8, b' ', b'a', 0xff])];
    }
    let at = match src.below(4) {
        0 => 0,
        1 => v.len() - 1,
        _ => src.usize(v.len()),
    };
    match src.below(10) {
        7 => {
            // the same octets in another order
            let to = src.usize(v.len());
            v.swap(at, to);
        }
        8 => {
            // the same sum of octets
            let to = src.usize(v.len());
            v[at] = v[at].wrapping_add(1);
            v[to] = v[to].wrapping_sub(1);
        }
        9 => {
            // the same exclusive-or
            let to = src.usize(v.len());
            let bit = 1 << src.below(8);
            v[at] ^= bit;
            v[to] ^= bit;
        }
        0 => v = v.to_ascii_uppercase(),
        1 if v[at].is_ascii_alphabetic() => v[at] ^= 0x20,
        1 | 2 => v[at] ^= 1 << src.below(8),
        3 => v[at] = src.byte(),
        4 => {
            v.pop();
        }
        5 => v.insert(at, src.byte()),
        _ => v.push(*src.pick(&[0u8, b' ', b'a', b'1', 0xff])),
    }
    v
}

/// A header name, often one that is or may be in the table.
pub fn name(src: &mut Src, t: &Table) -> B {
    let n = new_name(src, t);
    src.note_str(&n);
    n
}

fn new_name(src: &mut Src, t: &Table) -> B {
    if let Some(n) = mentioned(src).or_else(|| similar(src)) {
        return B(n);
    }
    match src.weighted(&[10, 3, 4, 3, 2]) {
        4 => {
            let n = match src.below(3) {
                0 => STATIC[src.usize(STATIC.len())].0.as_bytes().to_vec(),
                1 if !t.entries.is_empty() => t.entries[src.usize(t.entries.len())].0.clone(),
                _ => b"x-application-session-identifier-0001".to_vec(),
            };
            B(if src.chance(1, 6) { n } else { near(src, &n) })
        }
        0 => B(src.pick(NAMES).as_bytes().to_vec()),
        1 => B(STATIC[src.usize(STATIC.len())].0.as_bytes().to_vec()),
        2 if !t.entries.is_empty() => B(t.entries[src.usize(t.entries.len())].0.clone()),
        3 if src.chance(1, 4) => B(src.pick(OTHER_NAMES).as_bytes().to_vec()),
        _ => B(bytes(src)),
    }
}

/// A header value for a name, often one that is in the table or that makes
/// the entry just fit or just not fit into it.
pub fn value(src: &mut Src, name: &[u8], t: &Table) -> B {
    let v = new_value(src, name, t);
    src.note_str(&v);
    v
}

fn new_value(src: &mut Src, name: &[u8], t: &Table) -> B {
    if let Some(v) = mentioned(src).or_else(|| similar(src)) {
        return B(v);
    }
    match src.weighted(&[10, 3, 4, 3, 3, 1]) {
        5 => {
            let v = if t.entries.is_empty() || src.chance(1, 4) {
                STATIC[src.usize(STATIC.len())].1.as_bytes().to_vec()
            } else {
                t.entries[src.usize(t.entries.len())].1.clone()
            };
            B(near(src, &v))
        }
        0 => B(src.pick(VALUES).as_bytes().to_vec()),
        1 => B(STATIC[src.usize(STATIC.len())].1.as_bytes().to_vec()),
        2 if !t.entries.is_empty() => B(t.entries[src.usize(t.entries.len())].1.clone()),
        3 => {
            // entry of the size that is left, or of the whole table, +-1
            let room = if src.flip() { t.max } else { t.max - t.size };
            let want = (room + 1).saturating_sub(src.below(3));
            let len = want.saturating_sub(32 + name.len() as u64);
            if len <= 5000 {
                B(blob(src, len as usize))
            } else {
                B(vec![])
            }
        }
        4 if src.chance(1, 4) => B(src.pick(OTHER_VALUES).as_bytes().to_vec()),
        _ => B(bytes(src)),
    }
}

/// A (name, value) pair, often an exact table entry.
pub fn header(src: &mut Src, t: &Table) -> (B, B) {
    match src.weighted(&[20, 4, 8, 1]) {
        3 => {
            // one of the two as in the table, the other close to it
            let (n, v) = if t.entries.is_empty() || src.chance(1, 4) {
                let (n, v) = STATIC[src.usize(STATIC.len())];
                (n.as_bytes().to_vec(), v.as_bytes().to_vec())
            } else {
                t.entries[src.usize(t.entries.len())].clone()
            };
            if src.flip() {
                let n = near(src, &n);
                (B(n), B(v))
            } else {
                let v = near(src, &v);
                (B(n), B(v))
            }
        }
        0 => {
            let n = name(src, t);
            let v = value(src, &n, t);
            (n, v)
        }
        1 => {
            let (n, v) = STATIC[src.usize(STATIC.len())];
            (B(n.as_bytes().to_vec()), B(v.as_bytes().to_vec()))
        }
        _ if !t.entries.is_empty() => {
            let (n, v) = t.entries[src.usize(t.entries.len())].clone();
            (B(n), B(v))
        }
        _ => (B(b"a".to_vec()), B(b"1".to_vec())),
    }
}

/// A live index of the table.
pub fn live_index(src: &mut Src, t: &Table) -> u32 {
    let usual = usual_index(src, t);
    or_new(src, usual as u64, 1, t.len()) as u32
}

fn usual_index(src: &mut Src, t: &Table) -> u32 {
    let dynamic = t.entries.len() as u64;
    if dynamic > 0 && src.chance(3, 4) {
        match src.below(4) {
            0 => 62,
            1 => 61 + dynamic as u32,
            _ => 62 + src.below(dynamic) as u32,
        }
    } else {
        match src.below(4) {
            0 => 61,
            1 => 1,
            _ => 1 + src.below(61) as u32,
        }
    }
}

/// An index, live or not.
pub fn index(src: &mut Src, t: &Table, bad: u64) -> u32 {
    if src.chance(bad, 16) {
        dead_index(src, t)
    } else {
        live_index(src, t)
    }
}

/// An index that is not live.
pub fn dead_index(src: &mut Src, t: &Table) -> u32 {
    let past = t.len() as u32 + 1;
    let new = or_new(src, 0, past as u64, u32::MAX as u64);
    if new != 0 {
        return new as u32;
    }
    match src.below(9) {
        7 | 8 => {
            // one that a narrower integer would take for a live index (or for 0)
            let bits = *src.pick(&[7u32, 8, 14, 15, 16, 21, 24, 28, 31]);
            let live = if src.chance(1, 5) { 0 } else { live_index(src, t) };
            let k = 1 + src.below(3).min((1 << (32 - bits)) - 2);
            live.saturating_add(((k << bits) as u32).max(1)).max(past)
        }
        0 => 0,
        1 => past,
        2 => past + 1 + src.below(4) as u32,
        3 => past + src.below(200) as u32,
        4 => (*src.pick(&[126u32, 127, 128, 254, 255, 256, 16383, 16384, 65535, 65536, 1 << 24, (1 << 28) - 1, 1 << 28, 1 << 30])).max(past),
        5 => (u32::MAX - src.below(70) as u32).max(past),
        _ => (past as u64 + src.below((1u64 << 32) - past as u64)) as u32,
    }
}

/// Capacity of a dynamic table.
pub fn capacity(src: &mut Src) -> u32 {
    let usual = usual_capacity(src);
    or_new(src, usual as u64, 0, 1 << 20) as u32
}

fn usual_capacity(src: &mut Src) -> u32 {
    match src.weighted(&[6, 8, 6, 1]) {
        0 => 4096,
        1 => *src.pick(&[0, 1, 31, 32, 33, 34, 35, 50, 64, 68, 70, 96, 100, 102, 128, 136, 160, 200, 256]),
        2 => src.below(1200) as u32,
        _ => *src.pick(&[8192, 16384, 65536, 1 << 20]),
    }
}

/// Any 32-bit value, often next to a power of two.
pub fn edge_u32(src: &mut Src) -> u32 {
    let usual = usual_edge_u32(src);
    or_new(src, usual as u64, 0, u32::MAX as u64) as u32
}

fn usual_edge_u32(src: &mut Src) -> u32 {
    match src.below(4) {
        0 => src.below(200) as u32,
        1 => (1u64 << src.below(33)).wrapping_sub(src.below(3)).wrapping_add(src.below(2)) as u32,
        2 => {
            // next to the value at which the integer gets one octet longer
            let prefix = *src.pick(&[4u32, 5, 6, 7]);
            let step = *src.pick(&[0u32, 7, 14, 21, 28]);
            let v = (1u64 << prefix) - 1 + if step == 0 { 0 } else { 1u64 << step };
            (v + src.below(3)).wrapping_sub(1).min(u32::MAX as u64) as u32
        }
        _ => {
            let bits = 1 + src.below(32);
            src.below(1u64 << bits) as u32
        }
    }
}

/// Any 64-bit value, often next to a power of two.
pub fn edge_u64(src: &mut Src) -> u64 {
    let usual = usual_edge_u64(src);
    or_new(src, usual as u64, 0, u64::MAX) as u64
}

fn usual_edge_u64(src: &mut Src) -> u64 {
    match src.below(5) {
        0 => src.below(300),
        1 => (1u128 << src.below(65)).wrapping_sub(src.below(3) as u128).wrapping_add(src.below(2) as u128) as u64,
        2 => {
            let bits = 7 * (1 + src.below(9));
            (1u64 << bits).wrapping_sub(src.below(2))
        }
        3 => u64::MAX - src.below(3),
        _ => {
            let bits = 1 + src.below(64);
            let v = src.any64();
            if bits == 64 {
                v
            } else {
                v & ((1 << bits) - 1)
            }
        }
    }
}

/// Encoder flags: mostly combinations of the documented bits.
pub fn flags(src: &mut Src) -> u8 {
    let mut f = 0u8;
    if src.flip() {
        f |= 0x4;
    } else if src.chance(1, 3) {
        f |= 0x8;
    }
    if src.chance(1, 3) {
        f |= 0x1;
    }
    if src.chance(1, 3) {
        f |= 0x2;
    }
    if src.chance(2, 5) {
        f |= 0x10;
    }
    f
}
