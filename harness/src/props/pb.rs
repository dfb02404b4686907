//! What the Protocol Buffers properties share.

use crate::engine::{spare, sut, Fail};
use crate::gen;
use crate::oracle::proto::{self as ora, K};
use crate::src::Src;
use crate::types::{show, B};
use calls::{Value, Way};
use httlib_protos::{Decoder, DecoderError, DecoderLit, EncoderError, Typ};
use serde::{Deserialize, Serialize};
use std::io::Write;

/// A value by its raw bits.
#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum V {
    One(K, u64),
    Many(K, Vec<u64>),
    Bytes(B),
    /// A message, encoded as bytes.
    Msg(Vec<(u32, V)>),
}

pub type Fields = Vec<(u32, Typ, Vec<u8>)>;

impl V {
    pub fn wire(&self) -> u8 {
        match self {
            V::One(k, _) => k.wire(),
            _ => ora::LD,
        }
    }
    /// The reference encoding of the field.
    pub fn put(&self, out: &mut Vec<u8>, tag: u32) {
        ora::put_varint(out, (tag as u64) << 3 | self.wire() as u64, 0);
        let mut body = vec![];
        match self {
            V::One(k, raw) => return ora::put_elem(out, *k, *raw),
            V::Many(k, raws) => raws.iter().for_each(|r| ora::put_elem(&mut body, *k, *r)),
            V::Bytes(b) => body = b.0.clone(),
            V::Msg(fields) => fields.iter().for_each(|(t, v)| v.put(&mut body, *t)),
        }
        ora::put_varint(out, body.len() as u64, 0);
        out.extend(body);
    }
}

pub fn wire_type(t: Typ) -> u8 {
    match t {
        Typ::Varint => ora::VARINT,
        Typ::Bit64 => ora::BIT64,
        Typ::LengthDelimited => ora::LD,
        Typ::Bit32 => ora::BIT32,
        Typ::Unknown => 0xff,
    }
}

/// The ways to encode a value.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq)]
pub enum Path {
    /// `encode` with a literal.
    Lit,
    /// `encode` with a plain reference, for the types that have one.
    Ref,
    /// The method of the type.
    Method,
}
pub const PATHS: [Path; 3] = [Path::Lit, Path::Ref, Path::Method];

fn list<T>(raws: &[u64], f: impl Fn(u64) -> T) -> Vec<T> {
    raws.iter().map(|r| f(*r)).collect()
}

/// Calls the encoder. `None`: there is no plain reference for the type.
pub fn encode(path: Path, tag: u32, v: &V, dst: &mut dyn Write) -> Result<Option<Result<usize, EncoderError>>, Fail> {
    let way = match path {
        Path::Lit => Way::Lit,
        Path::Ref => Way::Ref,
        Path::Method => Way::Method,
    };
    let value = match v {
        V::One(k, r) => {
            let r = *r;
            match k {
                K::Bool => Value::Bool(r != 0),
                K::Int32 => Value::Int32(r as u32 as i32),
                K::Int64 => Value::Int64(r as i64),
                K::UInt32 => Value::UInt32(r as u32),
                K::UInt64 => Value::UInt64(r),
                K::SInt32 => Value::SInt32(r as u32 as i32),
                K::SInt64 => Value::SInt64(r as i64),
                K::Fixed32 => Value::Fixed32(r as u32),
                K::Fixed64 => Value::Fixed64(r),
                K::SFixed32 => Value::SFixed32(r as u32 as i32),
                K::SFixed64 => Value::SFixed64(r as i64),
                K::Float => Value::Float(f32::from_bits(r as u32)),
                K::Double => Value::Double(f64::from_bits(r)),
            }
        }
        V::Many(k, rs) => match k {
            K::Bool => Value::BoolVec(list(rs, |r| r != 0)),
            K::Int32 => Value::Int32Vec(list(rs, |r| r as u32 as i32)),
            K::Int64 => Value::Int64Vec(list(rs, |r| r as i64)),
            K::UInt32 => Value::UInt32Vec(list(rs, |r| r as u32)),
            K::UInt64 => Value::UInt64Vec(list(rs, |r| r)),
            K::SInt32 => Value::SInt32Vec(list(rs, |r| r as u32 as i32)),
            K::SInt64 => Value::SInt64Vec(list(rs, |r| r as i64)),
            K::Fixed32 => Value::Fixed32Vec(list(rs, |r| r as u32)),
            K::Fixed64 => Value::Fixed64Vec(list(rs, |r| r)),
            K::SFixed32 => Value::SFixed32Vec(list(rs, |r| r as u32 as i32)),
            K::SFixed64 => Value::SFixed64Vec(list(rs, |r| r as i64)),
            K::Float => Value::FloatVec(list(rs, |r| f32::from_bits(r as u32))),
            K::Double => Value::DoubleVec(list(rs, |r| f64::from_bits(r))),
        },
        V::Bytes(b) => Value::Bytes(b.0.clone()),
        V::Msg(fields) => {
            let mut body: Vec<u8> = vec![];
            for (t, v) in fields {
                match encode(path, *t, v, &mut body)? {
                    Some(Ok(_)) => {}
                    Some(Err(e)) => return Ok(Some(Err(e))),
                    None => return Ok(None),
                }
            }
            Value::Bytes(body)
        }
    };
    sut("encode", || calls::encode(way, tag, &value, dst))
}

/// A literal of the decoder's side.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq)]
pub enum L {
    One(K),
    Many(K),
    Bytes,
}

pub fn all_lits() -> Vec<L> {
    let mut v: Vec<L> = ora::KINDS.iter().map(|k| L::One(*k)).collect();
    v.extend(ora::KINDS.iter().map(|k| L::Many(*k)));
    v.push(L::Bytes);
    v
}

/// The Rust types a literal converts to.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq)]
pub enum T {
    Bool,
    I32,
    I64,
    U32,
    U64,
    F32,
    F64,
    BoolVec,
    I32Vec,
    I64Vec,
    U32Vec,
    U64Vec,
    F32Vec,
    F64Vec,
    Bytes,
    Str,
}
pub const TARGETS: [T; 16] = [T::Bool, T::I32, T::I64, T::U32, T::U64, T::F32, T::F64, T::BoolVec, T::I32Vec, T::I64Vec, T::U32Vec, T::U64Vec, T::F32Vec, T::F64Vec, T::Bytes, T::Str];

impl L {
    /// The Rust type that holds it.
    pub fn target(self) -> T {
        match self {
            L::One(k) => match k {
                K::Bool => T::Bool,
                K::Int32 | K::SInt32 | K::SFixed32 => T::I32,
                K::Int64 | K::SInt64 | K::SFixed64 => T::I64,
                K::UInt32 | K::Fixed32 => T::U32,
                K::UInt64 | K::Fixed64 => T::U64,
                K::Float => T::F32,
                K::Double => T::F64,
            },
            L::Many(k) => match L::One(k).target() {
                T::Bool => T::BoolVec,
                T::I32 => T::I32Vec,
                T::I64 => T::I64Vec,
                T::U32 => T::U32Vec,
                T::U64 => T::U64Vec,
                T::F32 => T::F32Vec,
                _ => T::F64Vec,
            },
            L::Bytes => T::Bytes,
        }
    }
}

fn literal(l: L, b: Vec<u8>) -> DecoderLit {
    match l {
        L::One(k) => match k {
            K::Bool => DecoderLit::Bool(b),
            K::Int32 => DecoderLit::Int32(b),
            K::Int64 => DecoderLit::Int64(b),
            K::UInt32 => DecoderLit::UInt32(b),
            K::UInt64 => DecoderLit::UInt64(b),
            K::SInt32 => DecoderLit::SInt32(b),
            K::SInt64 => DecoderLit::SInt64(b),
            K::Fixed32 => DecoderLit::Fixed32(b),
            K::Fixed64 => DecoderLit::Fixed64(b),
            K::SFixed32 => DecoderLit::SFixed32(b),
            K::SFixed64 => DecoderLit::SFixed64(b),
            K::Float => DecoderLit::Float(b),
            K::Double => DecoderLit::Double(b),
        },
        L::Many(k) => match k {
            K::Bool => DecoderLit::BoolVec(b),
            K::Int32 => DecoderLit::Int32Vec(b),
            K::Int64 => DecoderLit::Int64Vec(b),
            K::UInt32 => DecoderLit::UInt32Vec(b),
            K::UInt64 => DecoderLit::UInt64Vec(b),
            K::SInt32 => DecoderLit::SInt32Vec(b),
            K::SInt64 => DecoderLit::SInt64Vec(b),
            K::Fixed32 => DecoderLit::Fixed32Vec(b),
            K::Fixed64 => DecoderLit::Fixed64Vec(b),
            K::SFixed32 => DecoderLit::SFixed32Vec(b),
            K::SFixed64 => DecoderLit::SFixed64Vec(b),
            K::Float => DecoderLit::FloatVec(b),
            K::Double => DecoderLit::DoubleVec(b),
        },
        L::Bytes => DecoderLit::Bytes(b),
    }
}

/// A converted value by its raw bits.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    One(u64),
    Many(Vec<u64>),
    Bytes(B),
}

impl Out {
    pub fn default_of(t: T) -> Out {
        match t {
            T::Bool | T::I32 | T::I64 | T::U32 | T::U64 | T::F32 | T::F64 => Out::One(0),
            T::Bytes | T::Str => Out::Bytes(B(vec![])),
            _ => Out::Many(vec![]),
        }
    }
}

/// Converts with the code under test.
pub fn convert(l: L, bytes: &[u8], t: T) -> Result<Out, Fail> {
    let lit = literal(l, bytes.to_vec());
    let r = sut("it", move || match t {
        T::Bool => Out::One(bool::from(lit) as u64),
        T::I32 => Out::One(i32::from(lit) as u32 as u64),
        T::I64 => Out::One(i64::from(lit) as u64),
        T::U32 => Out::One(u32::from(lit) as u64),
        T::U64 => Out::One(u64::from(lit)),
        T::F32 => Out::One(f32::from(lit).to_bits() as u64),
        T::F64 => Out::One(f64::from(lit).to_bits()),
        T::BoolVec => Out::Many(Vec::<bool>::from(lit).into_iter().map(|x| x as u64).collect()),
        T::I32Vec => Out::Many(Vec::<i32>::from(lit).into_iter().map(|x| x as u32 as u64).collect()),
        T::I64Vec => Out::Many(Vec::<i64>::from(lit).into_iter().map(|x| x as u64).collect()),
        T::U32Vec => Out::Many(Vec::<u32>::from(lit).into_iter().map(|x| x as u64).collect()),
        T::U64Vec => Out::Many(Vec::<u64>::from(lit)),
        T::F32Vec => Out::Many(Vec::<f32>::from(lit).into_iter().map(|x| x.to_bits() as u64).collect()),
        T::F64Vec => Out::Many(Vec::<f64>::from(lit).into_iter().map(|x| x.to_bits()).collect()),
        T::Bytes => Out::Bytes(B(Vec::<u8>::from(lit))),
        T::Str => Out::Bytes(B(String::from(lit).into_bytes())),
    });
    r.map_err(|f| Fail(format!("converting {:?}({}) to {:?}: {}", l, show(bytes), t, f.0)))
}

pub fn decode(d: &mut Decoder, buf: &mut Vec<u8>, dst: &mut Fields) -> Result<Result<usize, DecoderError>, Fail> {
    spare(buf, 3);
    spare(dst, 4);
    sut("decode", || d.decode(buf, dst))
}

// ---------------------------------------------------------------- generators

pub const TAG_MAX: u32 = (1 << 29) - 1;

pub fn gen_tag(src: &mut Src) -> u32 {
    let usual = usual_tag(src);
    gen::or_new(src, usual as u64, 1, TAG_MAX as u64) as u32
}

fn usual_tag(src: &mut Src) -> u32 {
    match src.below(4) {
        0 => 1 + src.below(20) as u32,
        1 => *src.pick(&[1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, TAG_MAX - 1, TAG_MAX, 18999, 19000, 19999]),
        2 => 1 + src.below(TAG_MAX as u64) as u32,
        _ => (gen::edge_u32(src) & TAG_MAX).max(1),
    }
}

pub fn gen_raw(src: &mut Src, k: K) -> u64 {
    let raw = match (k, src.below(6)) {
        (K::Bool, _) => src.below(2),
        (K::Float, 0) => *src.pick(&[0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0001, 0x7fa0_0000, 1, 0x007f_ffff, 0x3f80_0000]) as u64,
        (K::Double, 0) => *src.pick(&[0u64, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0xfff8 << 48) + 1, 0x7ff4 << 48, 1, 0x3ff0 << 48]),
        (_, 1) => *src.pick(&[0u64, 1, 2, 127, 128, 255, 256, 16383, 16384, i32::MAX as u64, i32::MAX as u64 + 1, u32::MAX as u64, i32::MIN as i64 as u64, u64::MAX, i64::MAX as u64, i64::MIN as u64, i64::MIN as u64 + 1, (i32::MIN as i64 + 1) as u64]),
        (_, 2) => (src.below(400) as i64 - 200) as u64,
        _ => gen::edge_u64(src),
    };
    k.clip(gen::or_new(src, raw, 0, u64::MAX))
}

/// Numbers of octets, elements or fields that 16 or 21 bits do not hold.
const BULK: [usize; 9] = [65535, 65536, 65537, 65791, 66000, 70000, 98304, 131071, 131073];
const BULK_BYTES: [usize; 6] = [262_145, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, (1 << 22) + 5];

/// A value of an unusual size.
pub fn gen_bulk(src: &mut Src) -> V {
    let n = *src.pick(&BULK);
    let seed = src.below(1 << 16);
    let style = src.below(4);
    match src.below(4) {
        0 => {
            let k = *src.pick(&ora::KINDS);
            let raw = |i: u64| match style {
                0 => i,
                1 => i % 3,
                2 => seed,
                _ => crate::src::mix(seed + i) >> (i % 64),
            };
            V::Many(k, (0..n as u64).map(|i| k.clip(raw(i))).collect())
        }
        1 => V::Bytes(B(gen::fill(style, seed, n))),
        2 if src.chance(1, 4) => V::Bytes(B({
            let n = *src.pick(&BULK_BYTES);
            gen::fill(style, seed, n)
        })),
        2 => V::Msg((0..n as u64).map(|i| (1 + (i % 3) as u32, V::One(K::UInt64, if style == 0 { 0 } else { i & 0x7f }))).collect()),
        _ => {
            let mut v = V::Bytes(B(gen::fill(style, seed, seed as usize % 40)));
            for i in 0..30 + seed % 100 {
                let mut f = vec![(1 + (i % 17) as u32, v)];
                if style == 0 || i % 7 == 3 {
                    f.push((2, V::One(K::Bool, 1)));
                }
                v = V::Msg(f);
            }
            v
        }
    }
}

/// A message of an unusual size.
pub fn bulk_message(src: &mut Src) -> Vec<Raw> {
    let mut all = gen_message(src, 3);
    let at = src.usize(all.len() + 1);
    let n = *src.pick(&BULK);
    let seed = src.below(1 << 16);
    let small = |i: u64| {
        let body = match (i + seed) % 5 {
            0 => Body::Ld(B(vec![]), 0),
            1 => Body::Bit32(i as u32),
            _ => Body::Varint(i & 0x7f, 0),
        };
        Raw { tag: 1 + (i % 15) as u32, key_extra: 0, body }
    };
    let big: Vec<Raw> = match src.below(3) {
        0 => (0..n as u64).map(small).collect(),
        1 => vec![Raw { tag: gen_tag(src), key_extra: 0, body: Body::Ld(B(gen::fill(3, seed, n)), 0) }],
        _ => vec![Raw { tag: 1, key_extra: 0, body: Body::Ld(B(gen::fill(3, seed, if src.chance(1, 4) { *src.pick(&BULK_BYTES) } else { n })), src.below(3) as u8) }],
    };
    all.splice(at..at, big);
    all
}

pub fn gen_value(src: &mut Src, depth: u32) -> V {
    match src.weighted(&[10, 6, 3, if depth > 0 { 2 } else { 0 }]) {
        0 => {
            let k = *src.pick(&ora::KINDS);
            V::One(k, gen_raw(src, k))
        }
        1 => {
            let k = *src.pick(&ora::KINDS);
            let n = match src.weighted(&[6, 6, 1]) {
                0 => src.usize(4),
                1 => src.usize(20),
                _ => *src.pick(&[0usize, 1, 31, 32, 33, 63, 64, 127, 128, 129, 200]),
            };
            let n = gen::or_new(src, n as u64, 0, 2000) as usize;
            // some lists repeat their elements, or go up or down in steps
            let runs = src.chance(1, 4);
            let step = if src.chance(1, 8) { gen::edge_u64(src) } else { 0 };
            let mut all: Vec<u64> = vec![];
            for i in 0..n {
                let v = if (runs || step != 0) && i > 0 && src.flip() { k.clip(all[i - 1].wrapping_add(step)) } else { gen_raw(src, k) };
                all.push(v);
            }
            V::Many(k, all)
        }
        2 => V::Bytes(B(gen::bytes(src))),
        _ => {
            let n = src.usize(5);
            V::Msg((0..n).map(|_| (gen_tag(src), gen_value(src, depth - 1))).collect())
        }
    }
}

/// A field as any proto3 encoder may write it.
#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub struct Raw {
    pub tag: u32,
    #[serde(default)]
    pub key_extra: u8,
    pub body: Body,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Body {
    Varint(u64, u8),
    Bit64(u64),
    Ld(B, u8),
    Bit32(u32),
}

impl Raw {
    pub fn wire(&self) -> u8 {
        match self.body {
            Body::Varint(..) => ora::VARINT,
            Body::Bit64(_) => ora::BIT64,
            Body::Ld(..) => ora::LD,
            Body::Bit32(_) => ora::BIT32,
        }
    }
    /// Appends the field and returns the octets of its value.
    pub fn put(&self, out: &mut Vec<u8>) -> Vec<u8> {
        ora::put_varint(out, (self.tag as u64) << 3 | self.wire() as u64, self.key_extra as usize);
        let mut value = vec![];
        match &self.body {
            Body::Varint(v, x) => ora::put_varint(&mut value, *v, *x as usize),
            Body::Bit64(v) => ora::put_elem(&mut value, K::Fixed64, *v),
            Body::Bit32(v) => ora::put_elem(&mut value, K::Fixed32, *v as u64),
            Body::Ld(b, x) => {
                ora::put_varint(out, b.len() as u64, *x as usize);
                value = b.0.clone();
            }
        }
        out.extend_from_slice(&value);
        value
    }
}

fn gen_slack(src: &mut Src, v: u64) -> u8 {
    let room = 10 - ora::varint_len(v);
    if room > 0 && src.chance(1, 4) {
        1 + src.below(room as u64) as u8
    } else {
        0
    }
}

pub fn gen_field(src: &mut Src) -> Raw {
    let tag = if src.flip() { 1 + src.below(3) as u32 } else { gen_tag(src) };
    gen_field_of(src, tag)
}

fn gen_field_of(src: &mut Src, tag: u32) -> Raw {
    let body = match src.weighted(&[4, 2, 5, 2]) {
        0 => {
            let v = gen::edge_u64(src);
            Body::Varint(v, gen_slack(src, v))
        }
        1 => Body::Bit64(gen::edge_u64(src)),
        2 => {
            let b = if src.chance(1, 3) { vec![] } else { gen::bytes(src) };
            let x = gen_slack(src, b.len() as u64);
            Body::Ld(B(b), x)
        }
        _ => Body::Bit32(gen::edge_u32(src)),
    };
    let typ = match body {
        Body::Varint(..) => 0,
        Body::Bit64(_) => 1,
        Body::Ld(..) => 2,
        Body::Bit32(_) => 5,
    };
    Raw { tag, key_extra: gen_slack(src, (tag as u64) << 3 | typ), body }
}

/// A field that differs from another in one respect at most.
fn echo(src: &mut Src, f: &Raw) -> Raw {
    let mut f = f.clone();
    match src.below(4) {
        0 => {
            f.tag = match src.below(4) {
                0 => f.tag - 1,
                1 => f.tag + 1,
                _ => f.tag ^ 1 << src.below(29),
            }
            .clamp(1, TAG_MAX)
        }
        1 => f.key_extra = 0,
        2 => match &mut f.body {
            Body::Varint(v, x) => {
                *v ^= 1;
                *x = 0;
            }
            Body::Bit32(v) => *v ^= 1,
            Body::Bit64(v) => *v ^= 1 << 63,
            Body::Ld(b, x) => {
                b.0 = gen::near(src, &b.0);
                *x = 0;
            }
        },
        _ => {}
    }
    let typ = f.wire() as u64;
    f.key_extra = f.key_extra.min((10 - ora::varint_len((f.tag as u64) << 3 | typ)) as u8);
    f
}

pub fn gen_message(src: &mut Src, max: usize) -> Vec<Raw> {
    let n = src.usize(max + 1);
    let mut all: Vec<Raw> = vec![];
    // some messages have tags next to one another, of any size
    let base = if src.chance(1, 4) { gen_tag(src) } else { 0 };
    for _ in 0..n {
        let f = match all.len() {
            _ if base > 0 && src.chance(3, 4) => {
                let tag = (base + src.below(4) as u32).clamp(1, TAG_MAX);
                gen_field_of(src, tag)
            }
            0 => gen_field(src),
            len => match src.weighted(&[12, 1, 1]) {
                0 => gen_field(src),
                1 => all[len - 1].clone(),
                _ => {
                    let i = src.weighted(&[2, 1]) * (len - 1);
                    echo(src, &all[i])
                }
            },
        };
        all.push(f);
    }
    all
}

pub fn message(fields: &[Raw]) -> (Vec<u8>, Vec<(u32, u8, Vec<u8>)>) {
    let mut out = vec![];
    let mut want = vec![];
    for f in fields {
        let v = f.put(&mut out);
        want.push((f.tag, f.wire(), v));
    }
    (out, want)
}

pub fn same_fields(got: &[(u32, Typ, Vec<u8>)], want: &[(u32, u8, Vec<u8>)]) -> Result<(), Fail> {
    if got.len() != want.len() {
        return Err(Fail(format!("{} fields delivered, expected {}", got.len(), want.len())));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.0 != w.0 || wire_type(g.1) != w.1 || g.2 != w.2 {
            return Err(Fail(format!("field {} is ({}, {:?}, {:?}), expected ({}, type {}, {:?})", i, g.0, g.1, B(g.2.clone()), w.0, w.1, B(w.2.clone()))));
        }
    }
    Ok(())
}
