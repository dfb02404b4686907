//! What the HPACK properties share: encoder operations, wire-level field
//! representations, and probes of the code under test.

use crate::engine::{spare, sut, Fail, Res};
use crate::gen;
use crate::oracle::hpack::{self as ora, Item, Kind, Table};
use crate::src::Src;
use crate::types::{show, B};
use httlib_hpack::{Decoder, DecoderError, Encoder, EncoderError};
use httlib_hpack::table::Table as SutTable;
use serde::{Deserialize, Serialize};

pub type Dst = Vec<(Vec<u8>, Vec<u8>, u8)>;

pub const NEVER: u8 = 0x8;
pub const INDEXING: u8 = 0x4;
pub const BEST: u8 = 0x10;

/// One call of the encoder.
#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Op {
    Indexed(u32),
    Named(u32, B, u8),
    Literal(B, B, u8),
    Resize(u32),
}

impl Op {
    pub fn flags(&self) -> u8 {
        match self {
            Op::Named(_, _, f) | Op::Literal(_, _, f) => *f,
            _ => 0,
        }
    }
}

/// The literal representation the flags ask for; `None` when they ask for two.
pub fn asked(flags: u8) -> Option<Kind> {
    match flags & 0xc {
        0x4 => Some(Kind::Incremental),
        0x8 => Some(Kind::Never),
        0 => Some(Kind::Without),
        _ => None,
    }
}

/// What the op does to a table, as far as a generator needs to know.
pub fn predict(op: &Op, t: &mut Table) {
    match op {
        Op::Indexed(_) => {}
        Op::Named(i, v, f) => {
            if f & INDEXING != 0 {
                if let Some((n, _)) = t.get(*i as u64) {
                    let n = n.to_vec();
                    t.insert(&n, v);
                }
            }
        }
        Op::Literal(n, v, f) => {
            if f & INDEXING != 0 && !(f & BEST != 0 && t.has_exact(n, v)) {
                t.insert(n, v);
            }
        }
        Op::Resize(s) => t.set_max(*s as u64),
    }
}

/// How a sequence of operations is drawn.
#[derive(Clone, Copy)]
pub struct Mix {
    pub indexed: u64,
    pub named: u64,
    pub literal: u64,
    pub resize: u64,
    /// Out of 16: how often an index is not live.
    pub bad: u64,
}

pub const USUAL: Mix = Mix { indexed: 4, named: 4, literal: 10, resize: 1, bad: 0 };

pub fn gen_op(src: &mut Src, t: &Table, limit: u32, m: Mix) -> Op {
    match src.weighted(&[m.literal, m.indexed, m.named, m.resize]) {
        0 => {
            let (n, v) = gen::header(src, t);
            Op::Literal(n, v, gen::flags(src))
        }
        1 => Op::Indexed(gen::index(src, t, m.bad)),
        2 => {
            let i = gen::index(src, t, m.bad);
            let n = t.get(i as u64).map(|e| e.0.to_vec()).unwrap_or_default();
            let v = gen::value(src, &n, t);
            Op::Named(i, v, gen::flags(src))
        }
        _ => Op::Resize(gen_size(src, t, limit)),
    }
}

/// A table size up to the limit, often one that evicts.
pub fn gen_size(src: &mut Src, t: &Table, limit: u32) -> u32 {
    let v = match src.below(5) {
        0 => limit as u64,
        1 => 0,
        2 => {
            let at = t.size + 1;
            at.saturating_sub(src.below(3))
        }
        3 => src.below(t.size + 2),
        _ => gen::capacity(src) as u64,
    };
    v.min(limit as u64) as u32
}

/// The constructors: a capacity of 4096 is the default one.
pub fn new_encoder<'a>(cap: u32) -> Encoder<'a> {
    if cap == 4096 {
        Encoder::default()
    } else {
        Encoder::with_dynamic_size(cap)
    }
}

pub fn new_decoder<'a>(cap: u32) -> Decoder<'a> {
    if cap == 4096 {
        Decoder::default()
    } else {
        Decoder::with_dynamic_size(cap)
    }
}

pub fn new_table<'a>(cap: u32) -> SutTable<'a> {
    if cap == 4096 {
        SutTable::default()
    } else {
        SutTable::with_dynamic_size(cap)
    }
}

/// The same flags, each documented one through its public constant.
pub fn flags(f: u8) -> u8 {
    let named = [
        (0x1, Encoder::HUFFMAN_NAME),
        (0x2, Encoder::HUFFMAN_VALUE),
        (0x4, Encoder::WITH_INDEXING),
        (0x8, Encoder::NEVER_INDEXED),
        (0x10, Encoder::BEST_FORMAT),
    ];
    named.iter().fold(f & 0xe0, |acc, (bit, c)| if f & bit == 0 { acc } else { acc | c })
}

/// Calls the encoder through the generic method, with the public flags.
pub fn encode(e: &mut Encoder, op: &Op, dst: &mut Vec<u8>) -> Result<Result<(), EncoderError>, Fail> {
    spare(dst, 1);
    sut("encoding", || match op {
        Op::Indexed(i) => calls::indexed(e, *i, dst),
        Op::Named(i, v, f) => calls::named(e, (*i, v.0.clone(), flags(*f)), dst),
        Op::Literal(n, v, f) => calls::literal(e, (n.0.clone(), v.0.clone(), flags(*f)), dst),
        Op::Resize(s) => e.update_max_dynamic_size(*s, dst),
    })
}

/// Calls the encoder through the method for that representation.
pub fn encode_direct(e: &mut Encoder, op: &Op, dst: &mut Vec<u8>) -> Result<Result<(), EncoderError>, Fail> {
    spare(dst, 2);
    sut("encoding (direct)", || match op {
        Op::Indexed(i) => e.encode_indexed(*i, dst),
        Op::Named(i, v, f) => e.encode_indexed_name(*i, v.0.clone(), *f, dst),
        Op::Literal(n, v, f) => e.encode_literal(n.0.clone(), v.0.clone(), *f, dst),
        Op::Resize(s) => e.update_max_dynamic_size(*s, dst),
    })
}

/// By either method, which is the same one throughout a case.
pub fn encode_either(e: &mut Encoder, op: &Op, dst: &mut Vec<u8>) -> Result<Result<(), EncoderError>, Fail> {
    if crate::engine::salt() >> 8 & 3 == 0 && !matches!(op, Op::Literal(_, _, f) if f & BEST != 0) {
        encode_direct(e, op, dst)
    } else {
        encode(e, op, dst)
    }
}

pub fn decode(d: &mut Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<Result<usize, DecoderError>, Fail> {
    spare(buf, 3);
    spare(dst, 4);
    sut("decode", || d.decode(buf, dst))
}

pub fn decode_exact(d: &mut Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<Result<usize, DecoderError>, Fail> {
    spare(buf, 5);
    sut("decode_exact", || d.decode_exact(buf, dst))
}

/// Decodes everything there is, in one of the ways a user may.
pub fn deliver(d: &mut Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<Result<usize, DecoderError>, Fail> {
    deliver_by(crate::engine::salt() % 8, d, buf, dst)
}

pub fn deliver_by(way: u64, d: &mut Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<Result<usize, DecoderError>, Fail> {
    let mut total = 0;
    for turn in 0.. {
        let room = match way {
            4 => buf.len() + 1,
            5 => 1,
            6 => 2,
            7 if turn % 2 == 0 => 1,
            _ => 0,
        };
        let mut part: Dst = Vec::with_capacity(room);
        let r = match room {
            0 => return Ok(decode(d, buf, dst)?.map(|n| n + total)),
            _ => decode_exact(d, buf, &mut part)?,
        };
        let full = part.len() == part.capacity();
        dst.append(&mut part);
        match r {
            Ok(n) => total += n,
            Err(e) => return Ok(Err(e)),
        }
        if buf.is_empty() || !full {
            break;
        }
    }
    Ok(Ok(total))
}

/// The encoder's bytes as one item, read by the reference.
pub fn read_item(bytes: &[u8], t: &Table) -> Result<Item, Fail> {
    if bytes.is_empty() {
        fail!("a successful encode wrote nothing");
    }
    if bytes[0] & 0xe0 == 0x20 {
        // the encoder may announce sizes its own decoder would not read
        return match ora::get_int_within(bytes, 5, 6) {
            Ok((v, n)) if n == bytes.len() => Ok(Item::Update(v)),
            _ => Err(Fail(format!("encoder wrote an invalid size update: {}", show(bytes)))),
        };
    }
    match ora::parse(bytes, t, u64::MAX) {
        Ok((item, n)) if n == bytes.len() => Ok(item),
        Ok((_, n)) => Err(Fail(format!("encoder wrote {} octets after the field: {}", bytes.len() - n, show(bytes)))),
        Err(e) => Err(Fail(format!("encoder wrote an invalid field ({:?}): {}", e, show(bytes)))),
    }
}

pub fn err_of(e: &DecoderError) -> Option<ora::Err> {
    Some(match e {
        DecoderError::InvalidInput => ora::Err::Input,
        DecoderError::InvalidIndex => ora::Err::Index,
        DecoderError::IntegerOverflow => ora::Err::Overflow,
        DecoderError::IntegerUnderflow => ora::Err::Underflow,
        DecoderError::InvalidMaxDynamicSize => ora::Err::MaxSize,
        DecoderError::InvalidPrefix => return None,
    })
}

/// Indices at which a table of `len` entries is looked at.
fn probe_points(len: u64) -> Vec<u64> {
    let mut p: Vec<u64> = vec![1, 2, 61];
    let dynamic = len - 61;
    if dynamic <= 150 {
        p.extend(62..=len);
    } else {
        p.extend(62..62 + 50);
        p.extend(len - 50..=len);
        let step = dynamic / 50 + 1;
        p.extend((62..=len).step_by(step as usize));
        for e in [126, 127, 128, 190, 191, 254, 255, 256, 16383, 16384, 16510, 16511] {
            if e <= len {
                p.push(e);
            }
        }
    }
    p
}

/// The decoder's table must be `t`: indexed fields are fed to it, which do not
/// change it.
pub fn probe_decoder(d: &mut Decoder, t: &Table) -> Res {
    for i in probe_points(t.len()) {
        let mut buf = vec![];
        ora::put_int(&mut buf, 0x80, 7, i, 0);
        let mut dst: Dst = vec![];
        let r = decode(d, &mut buf, &mut dst)?;
        let (n, v) = t.get(i).unwrap();
        match r {
            Ok(_) => ensure!(
                dst.len() == 1 && dst[0].0 == n && dst[0].1 == v,
                "decoder's table has {:?} at index {}, expected ({}, {})",
                dst.iter().map(|h| (show(&h.0), show(&h.1))).collect::<Vec<_>>(), i, show(n), show(v)
            ),
            Err(e) => fail!("decoder's table has nothing at index {} ({:?}), expected ({}, {})", i, e, show(n), show(v)),
        }
    }
    for i in [0, t.len() + 1, t.len() + 2] {
        let mut buf = vec![];
        ora::put_int(&mut buf, 0x80, 7, i, 0);
        let mut dst: Dst = vec![];
        let r = decode(d, &mut buf, &mut dst)?;
        ensure!(r.is_err() && dst.is_empty(), "decoder's table has an entry at index {}, expected it to end at {}", i, t.len());
    }
    Ok(())
}

/// The encoder's table must be `t`, as seen through calls that leave it as it
/// is: references by index, and a search for each entry.
pub fn probe_encoder(e: &mut Encoder, t: &Table, gone: &[(Vec<u8>, Vec<u8>)]) -> Res {
    for i in probe_points(t.len()) {
        let mut dst = vec![];
        let r = sut("encode_indexed", || e.encode_indexed(i as u32, &mut dst))?;
        ensure!(r.is_ok(), "encoder's table has nothing at index {}, expected it to reach {}", i, t.len());
        let (n, v) = t.get(i).unwrap();
        let (n, v) = (n.to_vec(), v.to_vec());
        let mut dst = vec![];
        let r = sut("encode", || e.encode((n.clone(), v.clone(), BEST), &mut dst))?;
        ensure!(r.is_ok(), "encoding an entry of the table failed: {:?}", r);
        match read_item(&dst, t)? {
            Item::Field(f) if f.kind == Kind::Indexed && f.name == n && f.value == v => {}
            other => fail!("entry ({}, {}) at index {} was not found in the encoder's table: {:?}", show(&n), show(&v), i, other),
        }
    }
    for i in [0, t.len() + 1, t.len() + 2] {
        let mut dst = vec![];
        let r = sut("encode_indexed", || e.encode_indexed(i as u32, &mut dst))?;
        ensure!(r.is_err(), "encoder's table has an entry at index {}, expected it to end at {}", i, t.len());
    }
    for (n, v) in gone {
        if t.has_exact(n, v) {
            continue;
        }
        let mut dst = vec![];
        let r = sut("encode", || e.encode((n.clone(), v.clone(), BEST), &mut dst))?;
        ensure!(r.is_ok(), "encoding failed: {:?}", r);
        match read_item(&dst, t)? {
            Item::Field(f) if f.kind != Kind::Indexed && f.name == *n && f.value == *v => {}
            other => fail!("({}, {}) is not in the table but was encoded as {:?}", show(n), show(v), other),
        }
    }
    Ok(())
}

/// A string on the wire: octets, Huffman, superfluous length octets.
#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub struct S {
    pub s: B,
    #[serde(default)]
    pub huffman: bool,
    #[serde(default)]
    pub extra: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Name {
    Index(u32, u8),
    New(S),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq)]
pub enum Lit {
    Incremental,
    Without,
    Never,
}

impl Lit {
    pub fn kind(self) -> Kind {
        match self {
            Lit::Incremental => Kind::Incremental,
            Lit::Without => Kind::Without,
            Lit::Never => Kind::Never,
        }
    }
}

/// One representation of a header block, as any RFC 7541 encoder may emit it.
#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Rep {
    Indexed(u32, u8),
    Literal(Lit, Name, S),
    Update(u32, u8),
}

impl Rep {
    pub fn write(&self, out: &mut Vec<u8>) {
        match self {
            Rep::Indexed(i, x) => ora::put_int(out, 0x80, 7, *i as u64, *x as usize),
            Rep::Literal(k, n, v) => {
                let (flags, prefix) = k.kind().pattern();
                match n {
                    Name::Index(i, x) => ora::put_int(out, flags, prefix, *i as u64, *x as usize),
                    Name::New(s) => {
                        ora::put_int(out, flags, prefix, 0, 0);
                        ora::put_str(out, &s.s, s.huffman, s.extra as usize);
                    }
                }
                ora::put_str(out, &v.s, v.huffman, v.extra as usize);
            }
            Rep::Update(s, x) => ora::put_int(out, 0x20, 5, *s as u64, *x as usize),
        }
    }
    /// The header it stands for, and its effect on the table.
    pub fn apply(&self, t: &mut Table) -> Option<(Vec<u8>, Vec<u8>, u8)> {
        match self {
            Rep::Indexed(i, _) => {
                let (n, v) = t.get(*i as u64)?;
                Some((n.to_vec(), v.to_vec(), 0))
            }
            Rep::Literal(k, n, v) => {
                let n = match n {
                    Name::Index(i, _) => t.get(*i as u64)?.0.to_vec(),
                    Name::New(s) => s.s.0.clone(),
                };
                if *k == Lit::Incremental {
                    t.insert(&n, &v.s);
                }
                Some((n, v.s.0.clone(), k.kind().flag()))
            }
            Rep::Update(s, _) => {
                t.set_max(*s as u64);
                None
            }
        }
    }
}

fn gen_extra(src: &mut Src, prefix: u8, value: u64) -> u8 {
    let slack = ora::int_slack(prefix, value);
    if slack > 0 && src.chance(1, 4) {
        src.range(1, slack as u64) as u8
    } else {
        0
    }
}

pub fn gen_s(src: &mut Src, b: B) -> S {
    let huffman = src.flip();
    let len = if huffman { crate::oracle::huff::encoded_len(&b) } else { b.len() };
    let extra = gen_extra(src, 7, len as u64);
    S { s: b, huffman, extra }
}

/// Draws a valid representation for the table (no size update).
pub fn gen_rep(src: &mut Src, t: &Table) -> Rep {
    match src.weighted(&[10, 5]) {
        0 => {
            let k = *src.pick(&[Lit::Incremental, Lit::Incremental, Lit::Without, Lit::Never]);
            let (name, n) = if src.flip() {
                let i = gen::live_index(src, t);
                let x = gen_extra(src, k.kind().pattern().1, i as u64);
                (Name::Index(i, x), t.get(i as u64).unwrap().0.to_vec())
            } else {
                let n = gen::name(src, t);
                let raw = n.0.clone();
                (Name::New(gen_s(src, n)), raw)
            };
            let v = gen::value(src, &n, t);
            Rep::Literal(k, name, gen_s(src, v))
        }
        _ => {
            let i = gen::live_index(src, t);
            let x = gen_extra(src, 7, i as u64);
            Rep::Indexed(i, x)
        }
    }
}

pub fn gen_update(src: &mut Src, t: &Table, limit: u32) -> Rep {
    let s = gen_size(src, t, limit.min((1 << 28) + 30));
    let x = gen_extra(src, 5, s as u64);
    Rep::Update(s, x)
}

/// Draws a valid header block; size updates only at its beginning.
pub fn gen_block(src: &mut Src, t: &mut Table, limit: u32, max_fields: usize) -> Vec<Rep> {
    let mut block = vec![];
    if src.chance(1, 4) {
        for _ in 0..1 + src.usize(2) {
            let r = gen_update(src, t, limit);
            r.apply(t);
            block.push(r);
        }
    }
    let n = src.usize(max_fields + 1);
    for _ in 0..n {
        let r = gen_rep(src, t);
        r.apply(t);
        block.push(r);
    }
    block
}

pub fn wire(reps: &[Rep]) -> Vec<u8> {
    let mut out = vec![];
    for r in reps {
        r.write(&mut out);
    }
    out
}

/// Compares headers, with a short message.
pub fn same_headers(got: &[(Vec<u8>, Vec<u8>, u8)], want: &[(Vec<u8>, Vec<u8>, u8)]) -> Res {
    ensure!(got.len() == want.len(), "{} headers delivered, expected {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(
            g == w,
            "header {} is ({}, {}, {:#x}), expected ({}, {}, {:#x})",
            i, show(&g.0), show(&g.1), g.2, show(&w.0), show(&w.1), w.2
        );
        // the flags as a user reads them
        let (with, never) = (g.2 & Decoder::WITH_INDEXING != 0, g.2 & Decoder::NEVER_INDEXED != 0);
        ensure!(with == (w.2 & 0x4 != 0), "header {}: flags {:#x} say WITH_INDEXING {}", i, g.2, with);
        ensure!(never == (w.2 & 0x8 != 0), "header {}: flags {:#x} say NEVER_INDEXED {}", i, g.2, never);
    }
    Ok(())
}

/// Runs one `decode` and compares everything observable with the reference:
/// headers, rest of the buffer, error. (The returned count is H12's.)
pub fn step_rest(d: &mut Decoder, r: &mut ora::Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<ora::Decoded, Fail> {
    let input = buf.clone();
    let want = step(d, r, buf, dst)?;
    ensure!(buf[..] == input[want.used..], "decode left {} octets in the buffer, expected {}", buf.len(), input.len() - want.used);
    Ok(want)
}

/// The same without the rest of the buffer, which after an error is H08's.
pub fn step(d: &mut Decoder, r: &mut ora::Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<ora::Decoded, Fail> {
    step_by(crate::engine::salt() % 8, d, r, buf, dst)
}

pub fn step_by(way: u64, d: &mut Decoder, r: &mut ora::Decoder, buf: &mut Vec<u8>, dst: &mut Dst) -> Result<ora::Decoded, Fail> {
    let input = buf.clone();
    let before = dst.clone();
    let want = r.decode(&input);
    let got = deliver_by(way, d, buf, dst)?;
    ensure!(dst.len() >= before.len() && dst[..before.len()] == before[..], "decode changed what the vector already held");
    same_headers(&dst[before.len()..], &want.headers)?;
    match (&got, &want.error) {
        (Ok(_), None) => {}
        (Err(e), Some(allowed)) => {
            let k = err_of(e);
            ensure!(k.map_or(false, |k| allowed.contains(&k)), "decode failed with {:?}, expected one of {:?}", e, allowed);
        }
        (Ok(_), Some(e)) => fail!("decode accepted a malformed block ({:?}): {}", e, show(&input)),
        (Err(e), None) => fail!("decode refused a valid block with {:?}: {}", e, show(&input)),
    }
    Ok(want)
}
