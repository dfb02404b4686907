//! Reference model of the proto3 wire format.

use serde::{Deserialize, Serialize};

/// The scalar types.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum K {
    Bool,
    Int32,
    Int64,
    UInt32,
    UInt64,
    SInt32,
    SInt64,
    Fixed32,
    Fixed64,
    SFixed32,
    SFixed64,
    Float,
    Double,
}

pub const KINDS: [K; 13] = [K::Bool, K::Int32, K::Int64, K::UInt32, K::UInt64, K::SInt32, K::SInt64, K::Fixed32, K::Fixed64, K::SFixed32, K::SFixed64, K::Float, K::Double];

pub const VARINT: u8 = 0;
pub const BIT64: u8 = 1;
pub const LD: u8 = 2;
pub const BIT32: u8 = 5;

impl K {
    pub fn wire(self) -> u8 {
        match self {
            K::Fixed32 | K::SFixed32 | K::Float => BIT32,
            K::Fixed64 | K::SFixed64 | K::Double => BIT64,
            _ => VARINT,
        }
    }
    /// Brings any 64 bits into the range of the type's raw bits.
    pub fn clip(self, raw: u64) -> u64 {
        match self {
            K::Bool => raw & 1,
            K::Int64 | K::UInt64 | K::SInt64 | K::Fixed64 | K::SFixed64 | K::Double => raw,
            _ => raw & 0xffff_ffff,
        }
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64, extra: usize) {
    while v >= 0x80 {
        out.push(v as u8 & 0x7f | 0x80);
        v >>= 7;
    }
    if extra == 0 {
        out.push(v as u8);
    } else {
        out.push(v as u8 | 0x80);
        for _ in 1..extra {
            out.push(0x80);
        }
        out.push(0);
    }
}

pub fn varint_len(v: u64) -> usize {
    let mut o = vec![];
    put_varint(&mut o, v, 0);
    o.len()
}

/// Encodes a scalar given by its raw bits.
pub fn put_elem(out: &mut Vec<u8>, k: K, raw: u64) {
    match k {
        K::Bool => out.push((raw != 0) as u8),
        K::Int32 => put_varint(out, raw as u32 as i32 as i64 as u64, 0),
        K::Int64 | K::UInt64 => put_varint(out, raw, 0),
        K::UInt32 => put_varint(out, raw & 0xffff_ffff, 0),
        K::SInt32 => put_varint(out, zigzag(raw as u32 as i32 as i64), 0),
        K::SInt64 => put_varint(out, zigzag(raw as i64), 0),
        K::Fixed32 | K::SFixed32 | K::Float => {
            for i in 0..4 {
                out.push((raw >> (8 * i)) as u8);
            }
        }
        K::Fixed64 | K::SFixed64 | K::Double => {
            for i in 0..8 {
                out.push((raw >> (8 * i)) as u8);
            }
        }
    }
}

/// 0, -1, 1, -2, 2 ... are 0, 1, 2, 3, 4 ...
fn zigzag(v: i64) -> u64 {
    let w = v as i128;
    (if w >= 0 { 2 * w } else { -2 * w - 1 }) as u64
}

fn unzigzag(v: u64) -> i64 {
    if v % 2 == 0 {
        (v / 2) as i64
    } else {
        (-((v / 2) as i128) - 1) as i64
    }
}

/// Reading a varint at the start of a buffer.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Varint {
    /// Value and length.
    Value(u64, usize),
    /// 10 octets of which the last holds bits beyond 64: implementations differ.
    Wide(usize),
    More,
    /// More than 10 octets; the 10 seen may be all there is so far.
    TooLong,
}

pub fn get_varint(buf: &[u8]) -> Varint {
    let mut v: u64 = 0;
    for i in 0..10 {
        let Some(b) = buf.get(i) else { return Varint::More };
        if i == 9 && *b < 0x80 && *b > 1 {
            return Varint::Wide(10);
        }
        if i < 9 || *b & 0x7f <= 1 {
            v |= ((b & 0x7f) as u64) << (7 * i);
        }
        if *b < 0x80 {
            return Varint::Value(v, i + 1);
        }
    }
    Varint::TooLong
}

/// Raw bits of a scalar at the start of the buffer.
#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    Value(u64, usize),
    Unspecified,
    Bad,
}

pub fn get_elem(k: K, buf: &[u8]) -> Elem {
    match k.wire() {
        VARINT => match get_varint(buf) {
            Varint::Value(v, n) => {
                let raw = match k {
                    K::Bool => (v != 0) as u64,
                    K::Int32 | K::UInt32 => v & 0xffff_ffff,
                    K::SInt32 => unzigzag(v & 0xffff_ffff) as i32 as u32 as u64,
                    K::SInt64 => unzigzag(v) as u64,
                    _ => v,
                };
                Elem::Value(raw, n)
            }
            Varint::Wide(_) => Elem::Unspecified,
            Varint::More | Varint::TooLong => Elem::Bad,
        },
        w => {
            let n = if w == BIT32 { 4 } else { 8 };
            if buf.len() < n {
                return Elem::Bad;
            }
            let raw = (0..n).fold(0u64, |a, i| a | (buf[i] as u64) << (8 * i));
            Elem::Value(raw, n)
        }
    }
}

/// What converting the bytes of a scalar field yields: `Some(raw)`, the
/// default, or nothing that is specified.
#[derive(Clone, Debug, PartialEq)]
pub enum Conv<T> {
    Value(T),
    Default,
    Unspecified,
}

pub fn scalar(k: K, buf: &[u8]) -> Conv<u64> {
    match get_elem(k, buf) {
        Elem::Value(raw, n) if n == buf.len() => Conv::Value(raw),
        Elem::Value(..) | Elem::Unspecified => Conv::Unspecified,
        Elem::Bad => Conv::Default,
    }
}

pub fn packed(k: K, buf: &[u8]) -> Conv<Vec<u64>> {
    let mut at = 0;
    let mut out = vec![];
    let mut unsure = false;
    while at < buf.len() {
        match get_elem(k, &buf[at..]) {
            Elem::Value(raw, n) => {
                out.push(raw);
                at += n;
            }
            Elem::Unspecified => {
                unsure = true;
                at += 10;
            }
            Elem::Bad => return if unsure { Conv::Unspecified } else { Conv::Default },
        }
    }
    if unsure {
        Conv::Unspecified
    } else {
        Conv::Value(out)
    }
}

/// How reading a sequence of fields ended.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// After the last field.
    Complete,
    /// Inside a field of which octets are missing.
    More,
    /// At an element that must be refused: its field starts here, the element
    /// itself there.
    Bad { field: usize, element: usize, why: &'static str },
    /// At ten octets that go on: it may be refused now or with the next octet.
    Soon { field: usize, element: usize },
    /// At an element whose reading is not specified.
    Unsure,
}

pub struct Frames {
    pub fields: Vec<(u32, u8, Vec<u8>)>,
    /// Offset behind the last complete field.
    pub used: usize,
    pub end: End,
}

pub fn frames(buf: &[u8]) -> Frames {
    let mut f = Frames { fields: vec![], used: 0, end: End::Complete };
    loop {
        let start = f.used;
        if start == buf.len() {
            return f;
        }
        let long = |f: &mut Frames, at: usize| {
            f.end = if buf.len() > at + 10 { End::Bad { field: start, element: at, why: "overlong varint" } } else { End::Soon { field: start, element: at } };
        };
        let (key, mut at) = match get_varint(&buf[start..]) {
            Varint::Value(v, n) => (v, start + n),
            Varint::Wide(_) => {
                f.end = End::Unsure;
                return f;
            }
            Varint::More => {
                f.end = End::More;
                return f;
            }
            Varint::TooLong => {
                long(&mut f, start);
                return f;
            }
        };
        let bad = |f: &mut Frames, why| f.end = End::Bad { field: start, element: start, why };
        if key > u32::MAX as u64 {
            bad(&mut f, "key of more than 32 bits");
            return f;
        }
        let tag = (key >> 3) as u32;
        let typ = (key & 7) as u8;
        if ![VARINT, BIT64, LD, BIT32].contains(&typ) {
            bad(&mut f, "unsupported wire type");
            return f;
        }
        if tag == 0 {
            bad(&mut f, "tag 0");
            return f;
        }
        let mut len = match typ {
            BIT64 => 8u64,
            BIT32 => 4,
            _ => 0,
        };
        if typ == VARINT || typ == LD {
            match get_varint(&buf[at..]) {
                Varint::Value(v, n) => {
                    if typ == LD {
                        at += n;
                        len = v;
                    } else {
                        len = n as u64;
                    }
                }
                Varint::Wide(n) if typ == VARINT => len = n as u64,
                Varint::Wide(_) => {
                    f.end = End::Unsure;
                    return f;
                }
                Varint::More => {
                    f.end = End::More;
                    return f;
                }
                Varint::TooLong => {
                    long(&mut f, at);
                    return f;
                }
            }
            if typ == VARINT && get_varint(&buf[at..]) == Varint::Wide(10) {
                f.end = End::Unsure;
                return f;
            }
        }
        if len > (buf.len() - at) as u64 {
            f.end = End::More;
            return f;
        }
        let value = buf[at..at + len as usize].to_vec();
        f.fields.push((tag, typ, value));
        f.used = at + len as usize;
    }
}
