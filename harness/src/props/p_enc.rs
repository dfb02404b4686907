//! Properties of the Protocol Buffers encoder: P01 round trip, P02 wire
//! format, P07 tag range, P08 failing writers.

use super::pb::{self, Fields, Path, L, PATHS, T, TAG_MAX, V};
use crate::engine::{spare, enumerated, random, Ctx, Phase, Prop, Res, Tier};
use crate::gen;
use crate::oracle::proto::{self as ora, K, KINDS};
use crate::src::Src;
use crate::types::{show, B};
use httlib_protos::{Decoder, Encoder, EncoderError};
use serde::{Deserialize, Serialize};
use std::io::{self, Write};

fn extreme(k: K, raw: u64) -> bool {
    let mut e = vec![];
    ora::put_elem(&mut e, k, raw);
    match k.wire() {
        ora::VARINT => e.len() > 1,
        _ => raw > 255,
    }
}

fn weight(v: &V) -> usize {
    match v {
        V::One(k, r) => extreme(*k, *r) as usize,
        V::Many(k, rs) => 1 + rs.iter().any(|r| extreme(*k, *r)) as usize,
        V::Bytes(b) => (b.len() != 1) as usize,
        V::Msg(f) => 1 + f.iter().map(|(_, v)| weight(v)).sum::<usize>(),
    }
}

fn classes(v: &V, ctx: &mut Ctx) {
    match v {
        V::One(k, r) => ctx.class(match k.wire() {
            ora::VARINT if (*r as i64) < 0 || (*r as u32 as i32) < 0 => "varint scalar, top bit set",
            ora::VARINT => "varint scalar",
            ora::BIT32 => "32-bit scalar",
            _ => "64-bit scalar",
        }),
        V::Many(_, rs) => ctx.class(match rs.len() {
            0 => "empty list",
            1 => "list of one",
            n if n > 127 => "list of 128 or more",
            _ => "list",
        }),
        V::Bytes(b) => ctx.class(match b.len() {
            0 => "empty bytes",
            n if n > 16383 => "bytes of 16384 or more",
            n if n > 127 => "bytes of 128 or more",
            _ => "bytes",
        }),
        V::Msg(f) => {
            ctx.class(if f.is_empty() { "empty message" } else { "nested message" });
            f.iter().for_each(|(_, v)| classes(v, ctx));
        }
    }
}

// ---------------------------------------------------------------- P01

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Seq {
    pub path: Path,
    #[serde(default)]
    pub before: B,
    pub fields: Vec<(u32, V)>,
}

fn gen_seq(src: &mut Src, max: usize) -> Seq {
    let n = 1 + src.usize(max);
    let path = *src.pick(&PATHS);
    let before = B(gen::earlier(src));
    // some have tags next to one another, and some repeat their values
    let base = if src.chance(1, 4) { pb::gen_tag(src) } else { 0 };
    let repeat = src.chance(1, 6);
    let mut fields: Vec<(u32, V)> = vec![];
    for i in 0..n {
        let tag = if base > 0 && src.chance(3, 4) {
            (base + src.below(i as u64 + 2) as u32).clamp(1, pb::TAG_MAX)
        } else {
            pb::gen_tag(src)
        };
        let v = if i > 0 && repeat && src.flip() { fields[src.usize(i)].1.clone() } else { pb::gen_value(src, 3) };
        fields.push((tag, v));
    }
    Seq { path, before, fields }
}

/// One field of an unusual size among others.
fn bulk_seq(src: &mut Src) -> Seq {
    let mut s = gen_seq(src, 2);
    let at = src.usize(s.fields.len() + 1);
    s.fields.insert(at, (pb::gen_tag(src), pb::gen_bulk(src)));
    s
}

/// Encodes with the code under test; types without a plain reference go
/// through the literal.
fn encode_into(path: Path, tag: u32, v: &V, dst: &mut dyn Write) -> Result<Result<usize, EncoderError>, crate::engine::Fail> {
    match pb::encode(path, tag, v, dst)? {
        Some(r) => Ok(r),
        None => Ok(pb::encode(Path::Lit, tag, v, dst)?.unwrap()),
    }
}

/// Decodes a message with the code under test and compares it with what was
/// encoded.
fn decode_back(bytes: &[u8], fields: &[(u32, V)], within: &str) -> Res {
    let mut buf = bytes.to_vec();
    let mut got: Fields = vec![];
    let r = pb::decode(&mut Decoder::default(), &mut buf, &mut got)?;
    ensure!(r.is_ok(), "decoding{} {} failed with {:?}", within, show(bytes), r);
    ensure!(got.len() == fields.len(), "decoding{} {} gave {} fields, {} were encoded", within, show(bytes), got.len(), fields.len());
    for (i, ((tag, typ, val), (want, v))) in got.into_iter().zip(fields).enumerate() {
        ensure!(tag == *want, "field {}{}: tag {} was decoded as {}", i, within, want, tag);
        ensure!(pb::wire_type(typ) == v.wire(), "field {}{}: wire type {} was decoded as {:?}", i, within, v.wire(), typ);
        match v {
            V::One(k, raw) => {
                let l = L::One(*k);
                let out = pb::convert(l, &val, l.target())?;
                ensure!(out == pb::Out::One(*raw), "field {}{}: {:?} {:#x} came back as {:x?} (bytes {})", i, within, k, raw, out, show(&val));
            }
            V::Many(k, raws) => {
                let l = L::Many(*k);
                let out = pb::convert(l, &val, l.target())?;
                ensure!(out == pb::Out::Many(raws.clone()), "field {}{}: list of {:?} {:x?} came back as {:x?} (bytes {})", i, within, k, raws, out, show(&val));
            }
            V::Bytes(b) => {
                let out = pb::convert(L::Bytes, &val, T::Bytes)?;
                ensure!(out == pb::Out::Bytes(b.clone()), "field {}{}: bytes {:?} came back as {:?}", i, within, b, out);
                if std::str::from_utf8(b).is_ok() {
                    let out = pb::convert(L::Bytes, &val, T::Str)?;
                    ensure!(out == pb::Out::Bytes(b.clone()), "field {}{}: the string {:?} came back as {:?}", i, within, b, out);
                }
            }
            V::Msg(inner) => {
                let out = pb::convert(L::Bytes, &val, T::Bytes)?;
                ensure!(out == pb::Out::Bytes(B(val.clone())), "field {}{}: a nested message came back as {:?}", i, within, out);
                decode_back(&val, inner, " a nested message")?;
            }
        }
    }
    Ok(())
}

pub struct P01;

impl Prop for P01 {
    type Case = Seq;
    const ID: &'static str = "P01";
    const QUICK: u64 = 14;
    const RULE: &'static str = "Sequences of fields (13 scalar formats, their 13 packed lists, bytes, messages nested up to three deep; tags next to every key length and random; values next to every power of two, special floats, lists and byte strings from empty to thousands) are encoded by the crate through one of its entry points, decoded by the crate in one call and converted back; tags, wire types and the bits of every value are compared with the originals. Some have lists, byte strings, messages or nestings of up to 131 073 elements, 4 MiB, 131 073 fields or 130 levels. Non-trivial: at least two fields or one list, message or value wider than one octet.";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("messages", tier.n(400_000, 12_000_000)), random("long", tier.n(4_000, 150_000)), random("bulk", tier.n(8, 400))]
    }
    fn gen(phase: &str, _: u64, src: &mut Src) -> Seq {
        match phase {
            "bulk" => bulk_seq(src),
            "long" => gen_seq(src, 60),
            _ => gen_seq(src, 8),
        }
    }
    fn check(case: &Seq, ctx: &mut Ctx) -> Res {
        ctx.nontrivial(case.fields.len() > 1 || case.fields.iter().any(|(_, v)| weight(v) > 0));
        case.fields.iter().for_each(|(_, v)| classes(v, ctx));
        let mut dst: Vec<u8> = vec![];
        for (i, (tag, v)) in case.fields.iter().enumerate() {
            let r = encode_into(case.path, *tag, v, &mut dst)?;
            ensure!(r.is_ok(), "encoding field {} ({:?}) failed: {:?}", i, v, r);
        }
        decode_back(&dst, &case.fields, "")
    }
}

// ---------------------------------------------------------------- P02

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Wire {
    Seq(Seq),
    /// Values of a format next to a power of two, alone and in lists.
    Near { kind: K, bit: u32 },
    /// Tags next to a power of two, with every format.
    Tags { bit: u32 },
    /// Bytes of these lengths.
    Lengths { from: u32, to: u32 },
}

fn exact(path: Path, before: &[u8], fields: &[(u32, V)]) -> Res {
    let mut dst = before.to_vec();
    let mut want = before.to_vec();
    for (i, (tag, v)) in fields.iter().enumerate() {
        let at = dst.len();
        spare(&mut dst, i as u64);
        let r = match pb::encode(path, *tag, v, &mut dst)? {
            Some(r) => r,
            None => {
                v.put(&mut want, *tag);
                v.put(&mut dst, *tag);
                continue;
            }
        };
        let from = want.len();
        v.put(&mut want, *tag);
        ensure!(r.is_ok(), "encoding field {} (tag {}, {:?}) via {:?} failed: {:?}", i, tag, v, path, r);
        ensure!(dst.len() >= at && dst[..at] == want[..from], "encoding field {} via {:?} changed what was in the output", i, path);
        ensure!(dst[at..] == want[from..], "field {} (tag {}, {:?}) was encoded via {:?} as {}, expected {}", i, tag, v, path, show(&dst[at..]), show(&want[from..]));
        ensure!(r == Ok(want.len() - from), "field {} (tag {}, {:?}): {:?} returned {:?}, {} bytes were written", i, tag, v, path, r, want.len() - from);
    }
    Ok(())
}

fn near(bit: u32) -> Vec<u64> {
    let p = 1u128 << bit;
    let mut v = vec![];
    for d in [-3i128, -2, -1, 0, 1, 2] {
        v.push((p as i128 + d) as u64);
        v.push((-(p as i128) + d) as u64);
    }
    v
}

pub struct P02;

impl Prop for P02 {
    type Case = Wire;
    const ID: &'static str = "P02";
    const QUICK: u64 = 20;
    const RULE: &'static str = "Fields of the 27 formats (values, tags and lengths next to every power of two enumerated, and random sequences as for P01) are encoded behind earlier output through all three entry points (literal, plain reference, method of the format); the appended bytes and the returned size are compared with an independent writer of the proto3 wire format. Some have up to 131 073 elements or fields or 4 MiB. Non-trivial: at least two fields or one list, message or value wider than one octet.";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("near", 13 * 65), enumerated("tags", 30), enumerated("lengths", 70), random("messages", tier.n(300_000, 10_000_000)), random("bulk", tier.n(4, 300))]
    }
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Wire {
        match phase {
            "near" => Wire::Near { kind: KINDS[(idx / 65) as usize], bit: (idx % 65) as u32 },
            "tags" => Wire::Tags { bit: idx as u32 },
            "lengths" => {
                let i = idx as u32;
                let (from, to) = match i {
                    0..=63 => (i * 8, i * 8 + 8),
                    64 => (16380, 16388),
                    65 => (65534, 65538),
                    66 => (2097149, 2097151),
                    67 => (2097151, 2097153),
                    68 => (2097153, 2097154),
                    _ => (4096, 4098),
                };
                Wire::Lengths { from, to }
            }
            "bulk" => Wire::Seq(bulk_seq(src)),
            _ => Wire::Seq(gen_seq(src, 5)),
        }
    }
    fn check(case: &Wire, ctx: &mut Ctx) -> Res {
        match case {
            Wire::Seq(s) => {
                ctx.nontrivial(s.fields.len() > 1 || s.fields.iter().any(|(_, v)| weight(v) > 0));
                s.fields.iter().for_each(|(_, v)| classes(v, ctx));
                for p in PATHS {
                    exact(p, &s.before, &s.fields)?;
                }
                Ok(())
            }
            Wire::Near { kind, bit } => {
                ctx.nontrivial(true);
                let raws: Vec<u64> = near(*bit).into_iter().map(|r| kind.clip(r)).collect();
                for p in PATHS {
                    for r in &raws {
                        exact(p, b"", &[(1, V::One(*kind, *r))])?;
                        exact(p, b"x", &[(16, V::Many(*kind, vec![*r, 1, *r]))])?;
                    }
                    exact(p, b"", &[(2048, V::Many(*kind, raws.clone()))])?;
                }
                Ok(())
            }
            Wire::Tags { bit } => {
                ctx.nontrivial(true);
                for d in [-2i64, -1, 0, 1] {
                    let t = (1i64 << bit) + d;
                    if t < 1 || t > TAG_MAX as i64 {
                        continue;
                    }
                    for p in PATHS {
                        for v in one_of_each() {
                            exact(p, b"", &[(t as u32, v)])?;
                        }
                    }
                }
                Ok(())
            }
            Wire::Lengths { from, to } => {
                ctx.nontrivial(true);
                for n in *from..*to {
                    let b = gen::fill(3, n as u64, n as usize);
                    for p in PATHS {
                        exact(p, b"", &[(1, V::Bytes(B(b.clone())))])?;
                        if n < 70_000 {
                            // packed lists and messages of this length
                            exact(p, b"", &[(1, V::Many(K::Bool, b.iter().map(|x| (x & 1) as u64).collect()))])?;
                            exact(p, b"", &[(1, V::Many(K::Int32, b.iter().map(|x| (x & 0x7f) as u64).collect()))])?;
                            exact(p, b"", &[(1, V::Msg(vec![(1, V::Bytes(B(b.clone())))]))])?;
                        }
                        if n < 600 {
                            for k in KINDS {
                                exact(p, b"", &[(3, V::Many(k, (0..n as u64).map(|i| k.clip(i.wrapping_mul(0x9e37_79b9_7f4a_7c15))).collect()))])?;
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    }
}

/// A value of each of the 27 formats.
fn one_of_each() -> Vec<V> {
    let mut v = vec![];
    for k in KINDS {
        v.push(V::One(k, k.clip(0xfedc_ba98_7654_3211)));
        v.push(V::Many(k, vec![]));
        v.push(V::Many(k, vec![k.clip(0x8123_4567_89ab_cdef), 1]));
    }
    v.push(V::Bytes(B(b"value".to_vec())));
    v.push(V::Bytes(B(vec![])));
    v
}

// ---------------------------------------------------------------- P07

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Tags {
    pub v: V,
    pub tags: Vec<u32>,
}

pub struct P07;

impl Prop for P07 {
    type Case = Tags;
    const ID: &'static str = "P07";
    const QUICK: u64 = 60;
    const RULE: &'static str = "Every format (a filled and an empty value of each, enumerated) is encoded through every entry point with all tags within 3 of a power of two or of the limits, and random values of every format with random tags of all widths. Non-trivial: the case has a tag in the range and one outside of it.";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("formats", one_of_each().len() as u64), random("random", tier.n(150_000, 6_000_000))]
    }
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Tags {
        match phase {
            "formats" => {
                let mut tags = vec![];
                for bit in 0..=32u32 {
                    for d in -3i64..=3 {
                        let t = (1i64 << bit) + d;
                        if t >= 0 && t <= u32::MAX as i64 {
                            tags.push(t as u32);
                        }
                    }
                }
                tags.sort();
                tags.dedup();
                Tags { v: one_of_each().swap_remove(idx as usize), tags }
            }
            _ => {
                let v = pb::gen_value(src, 1);
                let n = 2 + src.usize(4);
                let tags = (0..n)
                    .map(|_| match src.below(4) {
                        0 => pb::gen_tag(src),
                        1 => gen::edge_u32(src),
                        2 => src.range(TAG_MAX as u64 + 1, u32::MAX as u64) as u32,
                        _ => src.below(1 << 32) as u32,
                    })
                    .collect();
                Tags { v, tags }
            }
        }
    }
    fn check(case: &Tags, ctx: &mut Ctx) -> Res {
        let ok = |t: u32| (1..=TAG_MAX).contains(&t);
        // the limits a user reads
        let (min, max) = (Encoder::TAG_MIN, Encoder::TAG_MAX);
        ensure!(ok(min) && ok(max) && !ok(min.wrapping_sub(1)) && !ok(max.wrapping_add(1)), "TAG_MIN is {} and TAG_MAX is {}", min, max);
        ctx.nontrivial(case.tags.iter().any(|t| ok(*t)) && case.tags.iter().any(|t| !ok(*t)));
        ctx.class_if(case.tags.contains(&0), "tag 0");
        for tag in &case.tags {
            for path in PATHS {
                let mut dst: Vec<u8> = b"before".to_vec();
                let Some(r) = pb::encode(path, *tag, &case.v, &mut dst)? else { continue };
                if !ok(*tag) {
                    ensure!(r == Err(EncoderError::InvalidTag), "tag {} with {:?} via {:?} returned {:?}, expected the invalid tag error", tag, case.v, path, r);
                    ensure!(dst == b"before", "tag {} with {:?} via {:?} was refused but {} was written", tag, case.v, path, show(&dst[6..]));
                    continue;
                }
                ensure!(r.is_ok(), "tag {} with {:?} via {:?} was refused: {:?}", tag, case.v, path, r);
                ensure!(dst.starts_with(b"before"), "tag {} via {:?} changed what was in the output", tag, path);
                let bytes = dst[6..].to_vec();
                let f = ora::frames(&bytes);
                ensure!(f.fields.len() == 1 && f.end == ora::End::Complete && f.fields[0].0 == *tag, "tag {} with {:?} via {:?} was written as {} (fields {:?}, {:?})", tag, case.v, path, show(&bytes), f.fields, f.end);
                let mut got: Fields = vec![];
                let mut buf = bytes.clone();
                let r = pb::decode(&mut Decoder::default(), &mut buf, &mut got)?;
                ensure!(r.is_ok() && got.len() == 1 && got[0].0 == *tag, "tag {} with {:?} via {:?} was read back as {:?} ({:?})", tag, case.v, path, got.first().map(|g| g.0), r);
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P08

/// What the writer does with a call.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq)]
pub enum Step {
    /// Takes up to so many bytes.
    Take(u16),
    /// Asks to be called again (`ErrorKind::Interrupted`).
    Retry,
    /// Fails with one of the kinds.
    Fail(u8),
    /// Takes nothing.
    Zero,
}

const ERRORS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::WriteZero,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::OutOfMemory,
];

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Faults {
    /// A script; afterwards everything is taken.
    Script { path: Path, tag: u32, v: V, steps: Vec<Step> },
    /// Fails once every number of bytes.
    Everywhere { path: Path, tag: u32, v: V },
}

struct Faulty {
    /// Bytes to take before the script begins.
    room: usize,
    steps: Vec<Step>,
    at: usize,
    got: Vec<u8>,
    failed: bool,
    short: bool,
    retried: bool,
}

impl Faulty {
    fn new(room: usize, steps: &[Step]) -> Faulty {
        Faulty { room, steps: steps.to_vec(), at: 0, got: vec![], failed: false, short: false, retried: false }
    }
    fn take(&mut self, buf: &[u8], n: usize) -> io::Result<usize> {
        let n = n.min(buf.len());
        self.short |= n < buf.len();
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

impl Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.room > 0 {
            let n = self.room.min(buf.len());
            self.room -= n;
            return self.take(buf, n);
        }
        let Some(step) = self.steps.get(self.at).copied() else {
            return self.take(buf, usize::MAX);
        };
        self.at += 1;
        match step {
            Step::Take(n) => self.take(buf, n.max(1) as usize),
            Step::Retry => {
                self.retried = true;
                Err(io::ErrorKind::Interrupted.into())
            }
            Step::Fail(k) => {
                self.failed = true;
                Err(ERRORS[k as usize % ERRORS.len()].into())
            }
            Step::Zero => {
                self.failed = true;
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn with_faults(path: Path, tag: u32, v: &V, room: usize, steps: &[Step], want: &[u8]) -> Result<Option<Faulty>, crate::engine::Fail> {
    let mut w = Faulty::new(room, steps);
    let Some(r) = pb::encode(path, tag, v, &mut w)? else { return Ok(None) };
    let what = || format!("tag {}, {:?} via {:?}, writer taking {} bytes and then {:?}", tag, v, path, room, steps);
    if w.failed {
        ensure!(r == Err(EncoderError::Interrupted), "{}: the writer failed but encode returned {:?}", what(), r);
        ensure!(want.starts_with(&w.got), "{}: the writer received {}, which is no prefix of {}", what(), show(&w.got), show(want));
    } else {
        ensure!(r.is_ok(), "{}: encode returned {:?} though the writer took everything", what(), r);
        ensure!(w.got == want, "{}: the writer received {}, expected {}", what(), show(&w.got), show(want));
        ensure!(r == Ok(want.len()), "{}: encode returned {:?}, {} bytes were written", what(), r, want.len());
    }
    Ok(Some(w))
}

pub struct P08;

impl Prop for P08 {
    type Case = Faults;
    const ID: &'static str = "P08";
    const QUICK: u64 = 15;
    const RULE: &'static str = "Fields of the 27 formats are encoded into a writer that follows a generated script of short writes, retry requests (ErrorKind::Interrupted), zero-length writes and errors of eight kinds, and takes everything afterwards; and, for every number k of bytes up to the length of the field, into writers that fail after k bytes in ten ways, or take one byte at a time. The result and the bytes the writer received are compared with the reference encoding. Contents of up to 4 MiB are among them. Non-trivial: the writer failed, wrote short or asked for a retry.";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("formats", one_of_each().len() as u64 * 3), random("everywhere", tier.n(20_000, 800_000)), random("scripts", tier.n(400_000, 15_000_000)), random("bulk", tier.n(8, 400))]
    }
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Faults {
        match phase {
            "formats" => Faults::Everywhere { path: PATHS[idx as usize % 3], tag: 300, v: one_of_each().swap_remove(idx as usize / 3) },
            "everywhere" => Faults::Everywhere { path: *src.pick(&PATHS), tag: pb::gen_tag(src), v: small_value(src) },
            p => {
                let path = *src.pick(&PATHS);
                let tag = pb::gen_tag(src);
                let bulk = p == "bulk";
                let v = if bulk { pb::gen_bulk(src) } else { pb::gen_value(src, 1) };
                let n = src.usize(16);
                let steps = (0..n)
                    .map(|_| match src.weighted(&[10, 4, 1, 1]) {
                        0 if bulk && src.flip() => Step::Take(*src.pick(&[255, 256, 4096, 8192, 32768, 65535])),
                        0 => Step::Take(1 + src.below(9) as u16),
                        1 => Step::Retry,
                        2 => Step::Fail(src.below(ERRORS.len() as u64) as u8),
                        _ => Step::Zero,
                    })
                    .collect();
                Faults::Script { path, tag, v, steps }
            }
        }
    }
    fn check(case: &Faults, ctx: &mut Ctx) -> Res {
        match case {
            Faults::Script { path, tag, v, steps } => {
                let mut want = vec![];
                v.put(&mut want, *tag);
                let Some(w) = with_faults(*path, *tag, v, 0, steps, &want)? else { return Ok(()) };
                ctx.nontrivial(w.failed || w.short || w.retried);
                ctx.class_if(w.failed, "failed");
                ctx.class_if(!w.failed && w.short, "short writes, complete");
                ctx.class_if(!w.failed && w.retried, "retries, complete");
                Ok(())
            }
            Faults::Everywhere { path, tag, v } => {
                let mut want = vec![];
                v.put(&mut want, *tag);
                for k in 0..want.len() {
                    for e in 0..ERRORS.len() as u8 {
                        let Some(w) = with_faults(*path, *tag, v, k, &[Step::Fail(e)], &want)? else { return Ok(()) };
                        if !w.failed {
                            fail!("the writer was not asked to take byte {} of {}", k, want.len());
                        }
                    }
                    with_faults(*path, *tag, v, k, &[Step::Zero], &want)?;
                    with_faults(*path, *tag, v, k, &[Step::Retry, Step::Fail(0)], &want)?;
                    with_faults(*path, *tag, v, k, &[Step::Retry, Step::Retry], &want)?;
                    with_faults(*path, *tag, v, k, &[Step::Take(1), Step::Retry], &want)?;
                }
                // complete, and room for exactly all of it
                with_faults(*path, *tag, v, want.len(), &[Step::Fail(0)], &want)?;
                with_faults(*path, *tag, v, 0, &vec![Step::Take(1); want.len()], &want)?;
                ctx.nontrivial(true);
                Ok(())
            }
        }
    }
}

fn small_value(src: &mut Src) -> V {
    match src.below(4) {
        0 => {
            let k = *src.pick(&KINDS);
            V::One(k, pb::gen_raw(src, k))
        }
        1 => {
            let k = *src.pick(&KINDS);
            let n = src.usize(6);
            V::Many(k, (0..n).map(|_| pb::gen_raw(src, k)).collect())
        }
        2 => {
            let n = src.usize(20);
            V::Bytes(B(gen::blob(src, n)))
        }
        _ => V::Bytes(B(gen::blob(src, 130))),
    }
}
