//! Properties of the HPACK encoder: H01 lossless connections, H02 exact bytes,
//! H03 best format, H04 never-indexed headers, H13 invalid references.

use super::h_dec::MAX_UPDATE;
use super::hp::*;
use crate::engine::{enumerated, random, Ctx, Fail, Phase, Prop, Res, Tier};
use crate::gen;
use crate::oracle::hpack::{self as ora, Item, Kind, Table};
use crate::src::Src;
use crate::types::{show, B};
use httlib_hpack::{Decoder, Encoder, EncoderError};
use serde::{Deserialize, Serialize};

/// The `i`-th header of a filling run.
pub fn filler(seed: u32, i: u32) -> (Vec<u8>, Vec<u8>) {
    (format!("k{}-{}", seed, i).into_bytes(), format!("v{}", i % 7).into_bytes())
}

fn field(item: Item) -> Result<ora::Field, Fail> {
    match item {
        Item::Field(f) => Ok(f),
        Item::Update(s) => Err(Fail(format!("a header was encoded as a size update to {}", s))),
    }
}

/// The header an operation stands for, given the table.
fn meant(op: &Op, t: &Table) -> Option<(Vec<u8>, Vec<u8>)> {
    match op {
        Op::Indexed(i) => t.get(*i as u64).map(|(n, v)| (n.to_vec(), v.to_vec())),
        Op::Named(i, v, _) => t.get(*i as u64).map(|(n, _)| (n.to_vec(), v.0.clone())),
        Op::Literal(n, v, _) => Some((n.0.clone(), v.0.clone())),
        Op::Resize(_) => None,
    }
}

fn is_resize(op: &Op) -> bool {
    matches!(op, Op::Resize(_))
}

fn live(op: &Op, t: &Table) -> bool {
    match op {
        Op::Indexed(i) | Op::Named(i, _, _) => t.get(*i as u64).is_some(),
        _ => true,
    }
}

fn apply(item: &Item, t: &mut Table) {
    match item {
        Item::Field(f) if f.kind == Kind::Incremental => t.insert(&f.name, &f.value),
        Item::Field(_) => {}
        Item::Update(s) => t.set_max(*s),
    }
}

/// A table capacity, also one of the largest.
fn any_capacity(src: &mut Src) -> u32 {
    match src.weighted(&[16, 1]) {
        0 => gen::capacity(src),
        _ => *src.pick(&[1 << 21, (1 << 21) + 30, (1 << 21) + 31, 1 << 24, MAX_UPDATE - 1, MAX_UPDATE, u32::MAX]),
    }
}

/// Capacities and numbers of entries at which indices need more than 16 bits.
pub const HUGE_CAPS: [u32; 3] = [1 << 22, 1 << 23, u32::MAX];

pub fn huge_fill(src: &mut Src) -> u32 {
    match src.below(4) {
        0 => *src.pick(&[65473, 65474, 65475, 65476, 65535, 65536]),
        _ => 65_300 + src.below(600) as u32,
    }
}

/// Tables of an ordinary size that so many headers pass through.
pub const TURN_CAPS: [u32; 8] = [64, 200, 1000, 4096, 4096, 4096, 1 << 14, 1 << 16];

// ---------------------------------------------------------------- H01

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Act {
    Enc(Op),
    /// Inserts that many numbered headers.
    Fill(u32, u32),
    /// Hands what was written so far to the decoder: 0 by one `decode`, else by
    /// `decode_exact` with that capacity.
    Flush(u8),
    /// The decoder's application sets a new limit and the encoder follows.
    Limit(u32, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Connections {
    pub caps: Vec<u32>,
    pub steps: Vec<(u8, Act)>,
}

pub struct H01;

struct Conn {
    enc: Encoder<'static>,
    dec: Decoder<'static>,
    mirror: Table,
    wire: Vec<u8>,
    expected: Dst,
    seen: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Conn {
    fn encode(&mut self, op: &Op) -> Result<Option<Item>, Fail> {
        let at = self.wire.len();
        let want = meant(op, &self.mirror);
        match encode_either(&mut self.enc, op, &mut self.wire)? {
            Ok(()) => {}
            Err(_) => {
                // Refusing is H13's business; here it must not leave anything behind.
                ensure!(self.wire.len() == at, "a refused call left {} octets on the wire", self.wire.len() - at);
                return Ok(None);
            }
        }
        let item = read_item(&self.wire[at..], &self.mirror)?;
        if !is_resize(op) {
            let Some((n, v)) = want else { fail!("encoder accepted {:?}, which refers to nothing", op) };
            self.expected.push((n.clone(), v.clone(), 0));
            if self.seen.len() < 200 {
                self.seen.push((n, v));
            }
        }
        apply(&item, &mut self.mirror);
        Ok(Some(item))
    }
    fn flush(&mut self, mode: u8) -> Res {
        let mut got: Dst = vec![];
        let mut buf = std::mem::take(&mut self.wire);
        let all = show(&buf);
        if mode == 0 {
            let r = decode(&mut self.dec, &mut buf, &mut got)?;
            ensure!(r.is_ok(), "the decoder refused the encoder's output with {:?}: {}", r, all);
        } else {
            while !buf.is_empty() {
                let before = buf.len();
                let mut dst: Dst = Vec::with_capacity(mode as usize);
                let r = decode_exact(&mut self.dec, &mut buf, &mut dst)?;
                ensure!(r.is_ok(), "the decoder refused the encoder's output with {:?}: {}", r, all);
                ensure!(buf.len() < before, "decode_exact made no progress");
                got.append(&mut dst);
            }
        }
        ensure!(buf.is_empty(), "{} octets of the encoder's output were not decoded", buf.len());
        let got: Vec<_> = got.into_iter().map(|(n, v, _)| (n, v, 0)).collect();
        same_headers(&got, &self.expected)?;
        self.expected.clear();
        Ok(())
    }
}

impl Prop for H01 {
    type Case = Connections;
    const ID: &'static str = "H01";
    const QUICK: u64 = 8;
    const RULE: &'static str = "Histories over 1-3 encoder/decoder pairs with small, default and large tables: encode calls in every representation with every flag, drawn so that names, values and indices often hit the table, size updates up to the limit, limit changes, block boundaries with decode or decode_exact. Every history ends with a reference to every live index and a search for every header seen. Some fill tables of more than 66 000 entries, or insert more than 65 536 headers through a table of 64 to 65 536 octets. Non-trivial: at least one index of a dynamic entry was sent, or an entry was evicted, or a table was resized with entries in it.";
    const ASSUMPTIONS: &'static [&'static str] = &["string lengths up to 2^17 octets in this check, size updates up to 2^28+30 (the documented 5-octet limit of the decoder)"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("history", tier.n(60_000, 2_500_000)), random("long", tier.n(1_500, 60_000)), random("wide", tier.n(400, 12_000)), random("huge", tier.n(24, 600)), random("turnover", tier.n(30, 1_500))]
    }

    fn gen(phase: &str, _idx: u64, src: &mut Src) -> Connections {
        let n = if phase == "wide" || phase == "huge" || phase == "turnover" { 1 } else { 1 + src.weighted(&[6, 3, 1]) };
        let mut caps = vec![];
        let mut sim = vec![];
        for _ in 0..n {
            let c = match phase {
                "wide" => *src.pick(&[65536, 1 << 20, 20000]),
                "huge" => *src.pick(&HUGE_CAPS),
                "turnover" => *src.pick(&TURN_CAPS),
                _ => any_capacity(src),
            };
            caps.push(c);
            sim.push((Table::new(c as u64), c.min(MAX_UPDATE)));
        }
        let mut steps = vec![];
        if phase == "wide" || phase == "huge" || phase == "turnover" {
            let count = match src.below(40) {
                _ if phase != "wide" => huge_fill(src) as u64,
                0 => 16300 + src.below(400),
                1..=9 => 60 + src.below(500),
                _ => src.below(260),
            } as u32;
            steps.push((0, Act::Fill(0, count)));
            for i in 0..count {
                let (n, v) = filler(0, i);
                sim[0].0.insert(&n, &v);
            }
        }
        let len = match phase {
            "long" => 60 + src.usize(240),
            _ => 1 + src.usize(30),
        };
        // a history prefers small tables or some kind of call
        let mix = *src.pick(&[
            USUAL,
            Mix { resize: 5, ..USUAL },
            Mix { indexed: 12, ..USUAL },
            Mix { indexed: 1, named: 1, ..USUAL },
        ]);
        for _ in 0..len {
            let c = src.usize(n);
            let (t, limit) = &mut sim[c];
            let act = match src.weighted(&[20, 3, 1]) {
                0 => {
                    let op = gen_op(src, t, *limit, mix);
                    predict(&op, t);
                    Act::Enc(op)
                }
                1 => Act::Flush(src.weighted(&[6, 2, 2, 1, 1]) as u8),
                _ => {
                    let l = any_capacity(src);
                    *limit = l.min(MAX_UPDATE);
                    let s = gen_size(src, t, *limit);
                    t.set_max(s as u64);
                    Act::Limit(l, s)
                }
            };
            steps.push((c as u8, act));
        }
        Connections { caps, steps }
    }

    fn check(case: &Connections, ctx: &mut Ctx) -> Res {
        let mut conns: Vec<Conn> = case
            .caps
            .iter()
            .map(|c| Conn {
                enc: new_encoder(*c),
                dec: new_decoder(*c),
                mirror: Table::new(*c as u64),
                wire: vec![],
                expected: vec![],
                seen: vec![],
            })
            .collect();
        for (c, act) in &case.steps {
            let conn = &mut conns[*c as usize];
            match act {
                Act::Enc(op) => {
                    let (entries, size) = (conn.mirror.entries.len(), conn.mirror.size);
                    let item = conn.encode(op)?;
                    let evicted = conn.mirror.entries.len() < entries + matches!(&item, Some(Item::Field(f)) if f.kind == Kind::Incremental) as usize;
                    let dynamic = matches!(&item, Some(Item::Field(f)) if f.index > 61);
                    ctx.nontrivial(evicted || dynamic || (is_resize(op) && size > 0));
                    ctx.class_if(evicted, "evicts");
                    ctx.class_if(dynamic, "dynamic index");
                    ctx.class_if(is_resize(op) && size > 0, "resize of a table with entries");
                }
                Act::Fill(seed, n) => {
                    for i in 0..*n {
                        let (n, v) = filler(*seed, i);
                        conn.encode(&Op::Literal(B(n), B(v), INDEXING))?;
                        if i % 4096 == 4095 {
                            conn.flush(0)?;
                        }
                    }
                }
                Act::Flush(m) => {
                    conn.flush(*m)?;
                    ctx.class_if(case.caps.len() > 1, "several connections");
                }
                Act::Limit(l, s) => {
                    conn.flush(0)?;
                    conn.dec.set_max_dynamic_size(*l);
                    conn.encode(&Op::Resize(*s))?;
                }
            }
        }
        for conn in &mut conns {
            conn.flush(0)?;
            let len = conn.mirror.len();
            let points: Vec<u64> = if len < 300 { (60..=len + 1).collect() } else { (60..180).chain(len - 60..=len + 1).collect() };
            for i in points {
                conn.encode(&Op::Indexed(i as u32))?;
            }
            let mut seen = std::mem::take(&mut conn.seen);
            seen.dedup();
            seen.truncate(60);
            for (n, v) in seen {
                if n.len() + v.len() < 4096 {
                    conn.encode(&Op::Literal(B(n.clone()), B(v), BEST))?;
                    conn.encode(&Op::Literal(B(n), B(b"other".to_vec()), BEST))?;
                }
            }
            conn.flush(0)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- H02

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Exact {
    pub cap: u32,
    /// What the output vector holds at first.
    pub before: B,
    /// Headers inserted at first.
    pub fill: u32,
    pub ops: Vec<Op>,
}

pub struct H02;

/// Lengths swept for strings.
fn swept_lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    v.extend(500..=520);
    v.extend(16370..=16392);
    v.extend(16500..=16520);
    v.extend(26410..=26430);
    v.extend([65535, 65536, 65537]);
    v
}

fn swept_sizes() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=300).collect();
    for k in 8..=32u32 {
        for d in 0..5 {
            v.push(((1u64 << k) + d).wrapping_sub(2).min(u32::MAX as u64) as u32);
        }
    }
    for k in [7u32, 14, 21, 28] {
        for p in [31u64, 15, 63, 127] {
            for d in 0..3 {
                v.push(((1u64 << k) + p + d - 1) as u32);
            }
        }
    }
    v.push(u32::MAX - 1);
    v.push(u32::MAX);
    v
}

impl Prop for H02 {
    type Case = Exact;
    const ID: &'static str = "H02";
    const QUICK: u64 = 6;
    const RULE: &'static str = "The octets appended by each successful call are parsed by the reference, compared with the requested representation, re-serialised in the shortest form and compared octet by octet; a second encoder runs the dedicated methods. Random histories with prefilled output, and enumerated sweeps over string lengths, indices and table sizes next to the points where encodings get longer. Non-trivial: the calls emit an integer that needs a continuation octet, or a Huffman string, or a dynamic index.";
    const ASSUMPTIONS: &'static [&'static str] = &["a call that sets both the indexing and the never-indexed flag may use either representation", "strings up to 2^21 octets, tables up to 17000 entries"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![
            random("history", tier.n(90_000, 4_000_000)),
            enumerated("length", swept_lengths().len() as u64),
            enumerated("size", swept_sizes().len() as u64),
            enumerated("index", 4),
            enumerated("huge", 1),
        ]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Exact {
        let mut ops = vec![];
        match phase {
            "history" => {
                let cap = gen::capacity(src);
                let before = B(if src.chance(1, 4) { gen::bytes(src) } else { gen::earlier(src) });
                let fill = if src.chance(1, 12) { src.below(300) as u32 } else { 0 };
                let mut t = Table::new(cap as u64);
                for i in 0..fill {
                    let (n, v) = filler(0, i);
                    t.insert(&n, &v);
                }
                let n = 1 + src.usize(12);
                for _ in 0..n {
                    let mut op = gen_op(src, &t, u32::MAX, USUAL);
                    if let Op::Resize(s) = &mut op {
                        if src.flip() {
                            *s = gen::edge_u32(src);
                        }
                    }
                    predict(&op, &mut t);
                    ops.push(op);
                }
                Exact { cap, before, fill, ops }
            }
            "length" => {
                let len = swept_lengths()[idx as usize];
                for style in 0..3u64 {
                    let s = match style {
                        0 => vec![b'0'; len],
                        1 => vec![10; len.min(600)],
                        _ => gen::fill(3, idx, len),
                    };
                    for f in [0u8, 0x3, 0x4 | 0x1, 0x8 | 0x2] {
                        ops.push(Op::Literal(B(s.clone()), B(b"v".to_vec()), f));
                        ops.push(Op::Literal(B(b"n".to_vec()), B(s.clone()), f ^ 0x3));
                        ops.push(Op::Named(5, B(s.clone()), f));
                    }
                }
                Exact { cap: 200_000, before: B(b"!".to_vec()), fill: 0, ops }
            }
            "size" => {
                let s = swept_sizes()[idx as usize];
                ops.push(Op::Literal(B(b"n".to_vec()), B(b"v".to_vec()), INDEXING));
                ops.push(Op::Resize(s));
                ops.push(Op::Indexed(2));
                if s > 100 {
                    ops.push(Op::Indexed(62));
                }
                Exact { cap: 100, before: B(vec![]), fill: 0, ops }
            }
            "index" => {
                let fill = [0u32, 300, 600, 16700][idx as usize];
                let last = 61 + fill;
                let all: Vec<u32> = if fill < 1000 { (1..=last).collect() } else { (60..=200).chain(16380..=16390).chain(16395..=16405).chain(16440..=16450).chain(16505..=16515).chain(last - 5..=last).collect() };
                for i in all {
                    ops.push(Op::Indexed(i));
                    ops.push(Op::Named(i, B(b"x".to_vec()), 0));
                    ops.push(Op::Named(i, B(b"x".to_vec()), 0x8 | 0x2));
                }
                // inserting shifts the dynamic entries: the oldest is referenced
                for _ in 0..20 {
                    ops.push(Op::Named(last, B(b"x".to_vec()), 0x4));
                }
                for i in [60, 61, 62, 63, 64, 65, 66, 126, 127, 128, 190] {
                    if i <= last {
                        ops.push(Op::Named(i, B(b"y".to_vec()), 0x4 | 0x2));
                    }
                }
                Exact { cap: 1 << 20, before: B(vec![]), fill, ops }
            }
            _ => {
                let s = vec![b'0'; (1 << 21) + 128];
                ops.push(Op::Literal(B(s[..(1 << 21) + 126].to_vec()), B(s[..(1 << 21) + 127].to_vec()), 0));
                ops.push(Op::Literal(B(s), B(b"x".to_vec()), 0x1));
                Exact { cap: 100, before: B(vec![]), fill: 0, ops }
            }
        }
    }

    fn check(case: &Exact, ctx: &mut Ctx) -> Res {
        let mut e = new_encoder(case.cap);
        let mut direct = Encoder::with_dynamic_size(case.cap);
        let mut t = Table::new(case.cap as u64);
        let mut dst = case.before.0.clone();
        let mut dst2 = case.before.0.clone();
        let fills = (0..case.fill).map(|i| {
            let (n, v) = filler(0, i);
            Op::Literal(B(n), B(v), INDEXING)
        });
        for op in fills.chain(case.ops.iter().cloned()) {
            if dst.len() > 1 << 20 {
                dst.clear();
                dst2.clear();
            }
            let prior = dst.clone();
            let at = dst.len();
            let r = encode(&mut e, &op, &mut dst)?;
            ensure!(dst.len() >= at && dst[..at] == prior[..], "{:?} changed earlier output", op);
            if let Err(_) = r {
                // H13 decides on refusals; the twin must not fall out of step
                ctx.class("refused");
                continue;
            }
            let bytes = dst[at..].to_vec();
            let item = read_item(&bytes, &t)?;
            let mut want = vec![];
            let twin;
            match (&op, &item) {
                (Op::Resize(s), Item::Update(_)) => {
                    ora::put_int(&mut want, 0x20, 5, *s as u64, 0);
                    twin = op.clone();
                }
                (Op::Resize(_), Item::Field(_)) => fail!("{:?} was encoded as a header: {}", op, show(&bytes)),
                (_, Item::Update(_)) => fail!("{:?} was encoded as a size update: {}", op, show(&bytes)),
                (_, Item::Field(f)) => {
                    let flags = op.flags();
                    let literal_kind = |k: Kind| asked(flags).map_or(k == Kind::Incremental || k == Kind::Never, |a| a == k);
                    match &op {
                        Op::Indexed(i) => ensure!(f.kind == Kind::Indexed && f.index == *i as u64, "{:?} was encoded as {:?}", op, f),
                        Op::Named(i, v, _) => ensure!(literal_kind(f.kind) && f.index == *i as u64 && f.value == v.0, "{:?} was encoded as {:?}", op, f),
                        Op::Literal(n, v, fl) => {
                            ensure!(f.name == n.0 && f.value == v.0, "{:?} was encoded as {:?}", op, f);
                            if fl & BEST == 0 {
                                ensure!(literal_kind(f.kind) && f.index == 0, "{:?} was encoded as {:?}", op, f);
                            } else {
                                ensure!(f.kind == Kind::Indexed || literal_kind(f.kind), "{:?} was encoded as {:?}", op, f);
                            }
                        }
                        Op::Resize(_) => {}
                    }
                    let (pattern, prefix) = f.kind.pattern();
                    ora::put_int(&mut want, pattern, prefix, f.index, 0);
                    if f.kind != Kind::Indexed {
                        if f.index == 0 {
                            ora::put_str(&mut want, &f.name, flags & 1 != 0, 0);
                        }
                        ora::put_str(&mut want, &f.value, flags & 2 != 0, 0);
                    }
                    ctx.nontrivial(f.index > 61 || f.name_huffman || f.value_huffman || f.index >= (1 << prefix) - 1 || f.name.len() > 126 || f.value.len() > 126);
                    twin = if f.kind == Kind::Indexed {
                        Op::Indexed(f.index as u32)
                    } else if f.index != 0 {
                        Op::Named(f.index as u32, B(f.value.clone()), flags)
                    } else {
                        Op::Literal(B(f.name.clone()), B(f.value.clone()), flags)
                    };
                }
            }
            ensure!(bytes == want, "{:?} was written as {}, expected {}", op, show(&bytes), show(&want));
            if let Op::Resize(s) = op {
                ctx.nontrivial(s >= 31);
            }
            let at2 = dst2.len();
            let r2 = encode_direct(&mut direct, &twin, &mut dst2)?;
            ensure!(r2.is_ok() && dst2[at2..] == bytes[..], "the dedicated method wrote {} ({:?}) for {:?}, the generic one {}", show(&dst2[at2..]), r2, twin, show(&bytes));
            ensure!(at2 == at && dst2[..at2] == prior[..], "the dedicated method for {:?} changed earlier output", twin);
            apply(&item, &mut t);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- H03

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Ops {
    pub cap: u32,
    pub fill: u32,
    pub ops: Vec<Op>,
}

pub struct H03;

impl Prop for H03 {
    type Case = Ops;
    const ID: &'static str = "H03";
    const QUICK: u64 = 9;
    const RULE: &'static str = "Histories of encode calls, most of them literals with BEST_FORMAT whose name and value are drawn from the current table, from what was evicted, and from near misses; after each call the reference table (fed with the encoder's own output) says which of the three formats is due. Some use tables of up to 66 000 entries or insert more than 65 536 headers. Non-trivial: a BEST_FORMAT header was found in the dynamic table, or one that had been evicted was encoded.";
    const ASSUMPTIONS: &'static [&'static str] = &["a never-indexed header whose name and value are in the table may use an indexed or a literal name", "flags asking for indexing and never indexed at once are contradictory; only the format's validity is checked for them"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("history", tier.n(60_000, 3_000_000)), random("long", tier.n(2_000, 80_000)), random("wide", tier.n(300, 10_000)), random("huge", tier.n(12, 400)), random("turnover", tier.n(30, 1_500)), enumerated("static", 61 * 6)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Ops {
        if phase == "static" {
            let (n, v) = crate::oracle::tables::STATIC[idx as usize / 6];
            let (n, v) = (n.as_bytes().to_vec(), v.as_bytes().to_vec());
            let f = BEST | [0u8, 0x4, 0x8, 0x3, 0x7, 0xb][idx as usize % 6];
            let mut cut = n.clone();
            cut.pop();
            let mut more = n.clone();
            more.push(b'x');
            let mut upper = n.clone();
            let k = if n[0] == b':' { 1 } else { 0 };
            upper[k] = upper[k].to_ascii_uppercase();
            let mut v2 = v.clone();
            v2.push(b'x');
            let ops = vec![
                Op::Literal(B(n.clone()), B(v.clone()), f),
                Op::Literal(B(n.clone()), B(v2.clone()), f),
                Op::Literal(B(n.clone()), B(v2), BEST),
                Op::Literal(B(n.clone()), B(v.clone()), BEST),
                Op::Literal(B(cut), B(v.clone()), f),
                Op::Literal(B(more), B(v.clone()), f),
                Op::Literal(B(upper), B(v.clone()), f),
                Op::Literal(B(v.clone()), B(n.clone()), f),
                Op::Literal(B(n), B(v), f),
            ];
            return Ops { cap: 4096, fill: 0, ops };
        }
        let (cap, fill) = match phase {
            "wide" => (*src.pick(&[1 << 15, 65536, 1 << 20, 1 << 20]), *src.pick(&[200, 300, 600, 1300, 3000]) + src.below(200) as u32),
            "huge" => (*src.pick(&HUGE_CAPS), huge_fill(src)),
            "turnover" => (*src.pick(&TURN_CAPS), huge_fill(src)),
            _ => (gen::capacity(src), if src.chance(1, 10) { src.below(150) as u32 } else { 0 }),
        };
        let mut t = Table::new(cap as u64);
        for i in 0..fill {
            let (n, v) = filler(0, i);
            t.insert(&n, &v);
        }
        let len = if phase == "long" { 40 + src.usize(150) } else { 1 + src.usize(24) };
        let mut ops: Vec<Op> = vec![];
        for _ in 0..len {
            let op = if src.chance(2, 3) {
                let old: Vec<&Op> = ops.iter().filter(|o| matches!(o, Op::Literal(..))).collect();
                let (n, v) = if !old.is_empty() && src.flip() {
                    match old[src.usize(old.len())] {
                        Op::Literal(n, v, _) => (n.clone(), v.clone()),
                        _ => unreachable!(),
                    }
                } else {
                    gen::header(src, &t)
                };
                let (n, v) = match src.weighted(&[12, 1, 1, 1, 1]) {
                    0 => (n, v),
                    1 => (n, B([&v.0[..], b"x"].concat())),
                    2 => (B([&n.0[..], b"x"].concat()), v),
                    3 => (v, n),
                    _ => {
                        let k = n.len() / 2;
                        (B(n[..k].to_vec()), B([&n[k..], &v[..]].concat()))
                    }
                };
                Op::Literal(n, v, gen::flags(src) | BEST)
            } else {
                gen_op(src, &t, cap, USUAL)
            };
            predict(&op, &mut t);
            ops.push(op);
        }
        Ops { cap, fill, ops }
    }

    fn check(case: &Ops, ctx: &mut Ctx) -> Res {
        let mut e = new_encoder(case.cap);
        let mut t = Table::new(case.cap as u64);
        let mut gone: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let fills = (0..case.fill).map(|i| {
            let (n, v) = filler(0, i);
            Op::Literal(B(n), B(v), INDEXING)
        });
        for (at, op) in fills.chain(case.ops.iter().cloned()).enumerate() {
            let filling = at < case.fill as usize;
            let mut dst = vec![];
            if let Err(_) = encode(&mut e, &op, &mut dst)? {
                ensure!(!matches!(op, Op::Literal(..)), "{:?} was refused", op);
                ctx.class("refused");
                continue;
            }
            let item = read_item(&dst, &t)?;
            if let Op::Literal(n, v, flags) = &op {
                let f = field(item.clone())?;
                if flags & BEST != 0 {
                    let exact = t.has_exact(n, v);
                    let named = t.has_name(n);
                    let never = asked(*flags) == Some(Kind::Never);
                    ensure!(f.name == n.0, "{:?} refers to an entry with another name: {:?}", op, f);
                    ensure!(f.value == v.0, "{:?} refers to an entry with another value: {:?}", op, f);
                    match (exact, asked(*flags)) {
                        (_, None) => {}
                        (true, Some(Kind::Never)) => ensure!(f.kind == Kind::Never, "never-indexed {:?} was sent as {:?}", op, f),
                        (true, _) => ensure!(f.kind == Kind::Indexed, "{:?} is in the table but was sent as {:?}", op, f),
                        (false, Some(k)) => {
                            ensure!(f.kind == k, "{:?} was sent as {:?}", op, f.kind);
                            ensure!((f.index != 0) == named, "{:?}: its name is {}in the table but it was sent with index {}", op, if named { "" } else { "not " }, f.index);
                        }
                    }
                    ctx.nontrivial(f.index > 61);
                    ctx.class_if(f.index > 61 && f.kind == Kind::Indexed, "found in the dynamic table");
                    ctx.class_if(f.index > 61 && f.kind != Kind::Indexed, "name found in the dynamic table");
                    ctx.class_if(f.index == 0, "not found");
                    ctx.class_if(exact && never, "never indexed, in the table");
                    let was = !exact && gone.iter().any(|g| g.0 == n.0 && g.1 == v.0);
                    ctx.nontrivial(was);
                    ctx.class_if(was, "was evicted");
                }
            }
            if case.fill >= 1000 {
                apply(&item, &mut t);
                if let (Op::Literal(n, v, _), false, true) = (&op, filling, gone.len() < 200) {
                    gone.push((n.0.clone(), v.0.clone()));
                }
                continue;
            }
            let before: Vec<_> = t.entries.iter().cloned().collect();
            apply(&item, &mut t);
            for g in before {
                if gone.len() < 200 && !t.has_exact(&g.0, &g.1) {
                    gone.push(g);
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- H04

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Sensitive {
    Encoder { cap: u32, ops: Vec<Op> },
    Wire { cap: u32, reps: Vec<Rep> },
}

pub struct H04;

impl Prop for H04 {
    type Case = Sensitive;
    const ID: &'static str = "H04";
    const QUICK: u64 = 7;
    const RULE: &'static str = "Histories mixing never-indexed, plain and indexed headers (many equal to table entries, all Huffman and BEST_FORMAT flags) through encoder and decoder, and the same on wire level with any legal representation. Checked: representation and delivered flag of each header; the table of each side against one that only saw the incrementally indexed headers; and the history without the not-indexed headers must give the same octets and headers for the others. Non-trivial: a never-indexed or plain literal was processed and a later header referred to the dynamic table.";
    const ASSUMPTIONS: &'static [&'static str] = &["flags asking for indexing and never indexed at once are contradictory and not generated"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("encoder", tier.n(50_000, 2_500_000)), random("wire", tier.n(50_000, 2_500_000)), enumerated("flags", 32 * 4)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Sensitive {
        if phase == "flags" {
            // every flag combination, for a header that is fully, partly, not in the table
            let flags = (idx % 32) as u8;
            let flags = if flags & 0xc == 0xc { flags & !0x4 } else { flags };
            let (n, v): (&[u8], &[u8]) = [(&b":method"[..], &b"GET"[..]), (b":method", b"x"), (b"new", b"x"), (b"dyn", b"amic")][idx as usize / 32];
            let ops = vec![
                Op::Literal(B(b"dyn".to_vec()), B(b"amic".to_vec()), INDEXING),
                Op::Literal(B(n.to_vec()), B(v.to_vec()), flags),
                Op::Literal(B(b"dyn".to_vec()), B(b"amic".to_vec()), BEST),
                Op::Named(62, B(v.to_vec()), flags),
                Op::Literal(B(n.to_vec()), B(v.to_vec()), BEST),
                Op::Literal(B(n.to_vec()), B(b"z".to_vec()), BEST),
            ];
            return Sensitive::Encoder { cap: 4096, ops };
        }
        let cap = gen::capacity(src);
        let mut t = Table::new(cap as u64);
        let n = 2 + src.usize(22);
        if phase == "wire" {
            let mut reps = vec![];
            for _ in 0..n {
                let r = if src.chance(1, 16) { gen_update(src, &t, cap) } else { gen_rep(src, &t) };
                r.apply(&mut t);
                reps.push(r);
            }
            return Sensitive::Wire { cap, reps };
        }
        let mut ops = vec![];
        for _ in 0..n {
            let op = gen_op(src, &t, cap, Mix { indexed: 3, named: 5, ..USUAL });
            predict(&op, &mut t);
            ops.push(op);
        }
        Sensitive::Encoder { cap, ops }
    }

    fn check(case: &Sensitive, ctx: &mut Ctx) -> Res {
        match case {
            Sensitive::Encoder { cap, ops } => {
                let mut e = new_encoder(*cap);
                let mut bare = Encoder::with_dynamic_size(*cap);
                let mut d = new_decoder(*cap);
                let mut t = Table::new(*cap as u64);
                let mut mine: Vec<(Vec<u8>, Vec<u8>)> = vec![];
                let mut seen_plain = false;
                for op in ops {
                    let ask = match op {
                        Op::Named(..) | Op::Literal(..) => asked(op.flags()),
                        _ => None,
                    };
                    let mut dst = vec![];
                    if let Err(_) = encode_either(&mut e, op, &mut dst)? {
                        // the invalid references are those of H13; a literal cannot be one
                        ensure!(live(op, &t) == false, "{:?} was refused", op);
                        continue;
                    }
                    let item = read_item(&dst, &t)?;
                    let want = meant(op, &t);
                    let mut headers: Dst = vec![];
                    let mut buf = dst.clone();
                    let r = deliver(&mut d, &mut buf, &mut headers)?;
                    ensure!(r.is_ok(), "the decoder refused {:?}: {:?}", op, r);
                    if let Item::Field(f) = &item {
                        let best = matches!(op, Op::Literal(_, _, fl) if fl & BEST != 0);
                        match ask {
                            Some(Kind::Never) => ensure!(f.kind == Kind::Never, "never-indexed {:?} was emitted as {:?}", op, f.kind),
                            Some(k) => ensure!(f.kind == k || (best && f.kind == Kind::Indexed), "{:?} was emitted as {:?}", op, f.kind),
                            None => {}
                        }
                        let (n, v) = want.ok_or(Fail(format!("{:?} refers to nothing", op)))?;
                        same_headers(&headers, &[(n.clone(), v.clone(), f.kind.flag())])?;
                        ctx.nontrivial(seen_plain && f.index > 61);
                        ctx.class_if(f.kind == Kind::Never && t.has_exact(&n, &v), "never indexed, equal to an entry");
                        if f.kind == Kind::Without || f.kind == Kind::Never {
                            seen_plain = true;
                            if mine.len() < 40 && n.len() + v.len() < 5000 {
                                mine.push((n, v));
                            }
                        }
                    } else {
                        ensure!(headers.is_empty(), "a size update delivered a header");
                    }
                    // the same history without plain and never-indexed headers
                    let skip = matches!(&item, Item::Field(f) if f.kind == Kind::Without || f.kind == Kind::Never);
                    if !skip {
                        let mut dst2 = vec![];
                        let r = encode(&mut bare, op, &mut dst2)?;
                        ensure!(r.is_ok() && dst2 == dst, "{:?} is encoded as {} after headers that are not indexed, and as {} ({:?}) without them", op, show(&dst), show(&dst2), r);
                    }
                    apply(&item, &mut t);
                }
                mine.truncate(12);
                probe_encoder(&mut e, &t, &mine)?;
                probe_decoder(&mut d, &t)
            }
            Sensitive::Wire { cap, reps } => {
                let mut d = new_decoder(*cap);
                let mut t = Table::new(*cap as u64);
                let mut seen_plain = false;
                for r in reps {
                    let mut buf = vec![];
                    r.write(&mut buf);
                    ctx.nontrivial(seen_plain && matches!(r, Rep::Indexed(i, _) | Rep::Literal(_, Name::Index(i, _), _) if *i > 61));
                    seen_plain |= matches!(r, Rep::Literal(Lit::Without | Lit::Never, ..));
                    let want: Dst = r.apply(&mut t).into_iter().collect();
                    let mut got: Dst = vec![];
                    let res = deliver(&mut d, &mut buf, &mut got)?;
                    ensure!(res.is_ok(), "the decoder refused {:?}: {:?}", r, res);
                    same_headers(&got, &want)?;
                }
                probe_decoder(&mut d, &t)
            }
        }
    }
}

// ---------------------------------------------------------------- H13

pub struct H13;

impl Prop for H13 {
    type Case = Ops;
    const ID: &'static str = "H13";
    const QUICK: u64 = 20;
    const RULE: &'static str = "Histories of encode calls with any flags octet, any u32 index (0, just live, just past the table, next to powers of two, near u32::MAX) and any u32 size; each call with an index must succeed exactly when the reference table (fed with the encoder's output) has it, and otherwise fail with InvalidIndex, leave the output as it was and change nothing: a second encoder that never saw the refused calls must write the same octets, and the table is probed at the end. Some make up to 65 600 refused calls in a row, or insert more than 65 536 headers. Non-trivial: a refused reference with entries in the dynamic table, or a reference that had been valid earlier.";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("history", tier.n(80_000, 4_000_000)), random("wide", tier.n(300, 8_000)), random("huge", tier.n(12, 300)), random("turnover", tier.n(20, 1_000)), random("insistent", tier.n(300, 12_000)), enumerated("past", 400)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Ops {
        if phase == "past" {
            // tables of every length: around the end, both ways to refer
            let fill = idx as u32;
            let mut ops = vec![];
            for i in [0, 1, 61, 62, 60 + fill, 61 + fill, 62 + fill, 63 + fill, 61 + 2 * fill + 1, 256 + 61 + fill, 65536 + 61 + fill, u32::MAX] {
                ops.push(Op::Indexed(i));
                ops.push(Op::Named(i, B(b"x".to_vec()), 0));
                ops.push(Op::Named(i, B(b"x".to_vec()), 0x8));
            }
            ops.push(Op::Named(62 + fill, B(b"x".to_vec()), 0x4));
            ops.push(Op::Indexed(61 + fill));
            return Ops { cap: 1 << 20, fill, ops };
        }
        let (cap, fill) = match phase {
            "wide" => (1 << 20, src.below(600) as u32),
            "huge" => (*src.pick(&HUGE_CAPS), huge_fill(src)),
            "turnover" => (*src.pick(&TURN_CAPS), huge_fill(src)),
            _ => (gen::capacity(src), 0),
        };
        let mut t = Table::new(cap as u64);
        for i in 0..fill {
            let (n, v) = filler(0, i);
            t.insert(&n, &v);
        }
        let n = 1 + src.usize(24);
        let mut ops = vec![];
        for _ in 0..n {
            let mut op = gen_op(src, &t, u32::MAX, Mix { indexed: 6, named: 8, literal: 6, resize: 2, bad: 6 });
            match &mut op {
                Op::Named(_, _, f) | Op::Literal(_, _, f) => {
                    if src.chance(1, 4) {
                        *f = src.byte();
                    }
                }
                Op::Resize(s) => {
                    if src.chance(1, 4) {
                        *s = gen::edge_u32(src);
                    }
                }
                _ => {}
            }
            predict(&op, &mut t);
            let times = match src.weighted(&[1, 6, 60]) {
                _ if phase != "insistent" || live(&op, &t) => 1,
                0 => 65_536,
                1 => 300,
                _ => 1 + src.below(20) as usize,
            };
            if ops.len() < 70_000 {
                ops.resize(ops.len() + times, op);
            }
        }
        Ops { cap, fill, ops }
    }

    fn check(case: &Ops, ctx: &mut Ctx) -> Res {
        let mut e = new_encoder(case.cap);
        let mut twin = Encoder::with_dynamic_size(case.cap);
        let mut t = Table::new(case.cap as u64);
        let mut highest = 0;
        let fills = (0..case.fill).map(|i| {
            let (n, v) = filler(0, i);
            Op::Literal(B(n), B(v), INDEXING)
        });
        let mut dst = b"before".to_vec();
        for op in fills.chain(case.ops.iter().cloned()) {
            if dst.len() > if case.fill > 1000 { 1000 } else { 100_000 } {
                dst.truncate(6);
            }
            let prior = dst.clone();
            let direct = matches!(op.flags() & 0xe0, 0x40);
            let r = if direct { encode_direct(&mut e, &op, &mut dst)? } else { encode(&mut e, &op, &mut dst)? };
            let live = live(&op, &t);
            match (r, live) {
                (Ok(()), true) => {
                    ensure!(dst.len() > prior.len() && dst[..prior.len()] == prior[..], "{:?} changed earlier output", op);
                    let bytes = &dst[prior.len()..];
                    let item = read_item(bytes, &t)?;
                    let mut dst2 = vec![];
                    let r2 = if direct { encode_direct(&mut twin, &op, &mut dst2)? } else { encode(&mut twin, &op, &mut dst2)? };
                    ensure!(r2.is_ok() && dst2 == bytes, "{:?} gives {} after refused calls, and {} ({:?}) without them", op, show(bytes), show(&dst2), r2);
                    apply(&item, &mut t);
                    highest = highest.max(t.len());
                }
                (Err(EncoderError::InvalidIndex), false) => {
                    ensure!(dst == prior, "the refused {:?} changed the output", op);
                    if let Op::Indexed(i) | Op::Named(i, _, _) = op {
                        ctx.nontrivial(!t.entries.is_empty() || (i != 0 && i as u64 <= highest));
                        ctx.class_if(i as u64 <= highest && i > 61, "evicted index");
                        ctx.class_if(i == 0, "index 0");
                    }
                }
                (Ok(()), false) => fail!("{:?} was accepted with a table of {} entries", op, t.len()),
                (Err(x), true) => fail!("{:?} was refused with {:?} though the table has {} entries", op, x, t.len()),
                (Err(x), false) => fail!("{:?} failed with {:?}, expected InvalidIndex", op, x),
            }
        }
        if case.fill < 50 || case.fill % 16 == 0 || case.fill > 1000 {
            probe_encoder(&mut e, &t, &[])?;
        }
        Ok(())
    }
}

