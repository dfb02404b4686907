//! Properties of the HPACK tables: H09 size bound and eviction, H10 index
//! space and search, H11 size limits.

use super::h_dec::MAX_UPDATE;
use super::h_enc::{filler, huge_fill, HUGE_CAPS, TURN_CAPS};
use super::hp::*;
use crate::engine::{enumerated, random, salt, sut, usage, Ctx, Fail, Phase, Prop, Res, Tier};
use crate::gen;
use crate::oracle::hpack::{self as ora, Item, Table as Model};
use crate::oracle::tables::STATIC;
use crate::src::Src;
use crate::types::{show, B};
use httlib_hpack::table::Table;
use httlib_hpack::{Decoder, DecoderError, Encoder};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum TOp {
    Insert(B, B),
    Resize(u32),
    /// Inserts that many numbered headers.
    Fill(u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq)]
pub enum Via {
    Table,
    Encoder,
    Decoder,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct History {
    pub via: Via,
    pub cap: u32,
    pub ops: Vec<TOp>,
    /// Headers searched for, besides those that were inserted.
    pub find: Vec<(B, B)>,
    /// How often the operations are carried out once more; what the table
    /// then keeps is measured.
    #[serde(default)]
    pub rounds: u32,
}

/// Operations of the enumerated histories: every sequence of them.
fn small_op(k: u64) -> TOp {
    let s = |x: &str| B(x.as_bytes().to_vec());
    match k {
        0 => TOp::Insert(s("a"), s("")),   // 33
        1 => TOp::Insert(s("a"), s("1")),  // 34
        2 => TOp::Insert(s("b"), s("22")), // 35
        3 => TOp::Insert(s(""), s("")),    // 32
        4 => TOp::Insert(s("big"), B(vec![b'x'; 34])), // 69
        5 => TOp::Resize(34),
        6 => TOp::Resize(68),
        7 => TOp::Resize(0),
        _ => TOp::Resize(103),
    }
}
const SMALL: u64 = 9;

fn small_history(via: Via, len: u32, idx: u64) -> History {
    let mut i = idx;
    let ops = (0..len)
        .map(|_| {
            let op = small_op(i % SMALL);
            i /= SMALL;
            op
        })
        .collect();
    History { via, cap: 101, ops, find: vec![(B(b"a".to_vec()), B(b"2".to_vec())), (B(b"".to_vec()), B(b"".to_vec()))], rounds: 0 }
}

fn apply(t: &mut Model, op: &TOp) {
    match op {
        TOp::Insert(n, v) => t.insert(n, v),
        TOp::Resize(s) => t.set_max(*s as u64),
        TOp::Fill(k) => {
            for i in 0..*k {
                let (n, v) = filler(0, i);
                t.insert(&n, &v);
            }
        }
    }
}

/// A table that more than 65536 entries are put into, and that holds them all
/// or a few of them.
fn huge_history(src: &mut Src, via: Via, caps: &[u32]) -> History {
    let cap = *src.pick(caps);
    let k = huge_fill(src);
    let mut t = Model::new(cap as u64);
    let mut ops = vec![TOp::Fill(k)];
    apply(&mut t, &ops[0]);
    for _ in 0..src.usize(8) {
        let op = match src.below(3) {
            0 => TOp::Resize((t.size.saturating_sub(src.below(200)) as u32).min(cap).min(MAX_UPDATE)),
            1 => TOp::Resize(cap.min(MAX_UPDATE)),
            _ => {
                let (n, v) = gen::header(src, &t);
                TOp::Insert(n, v)
            }
        };
        apply(&mut t, &op);
        ops.push(op);
    }
    let find = (0..6)
        .map(|_| {
            let i = if src.flip() { k - 1 - src.below(100) as u32 } else { src.below(k as u64) as u32 };
            let (n, v) = filler(0, i);
            (B(n), B(v))
        })
        .collect();
    History { via, cap, ops, find, rounds: 0 }
}

fn gen_history(src: &mut Src, via: Via, long: bool) -> History {
    let cap = if src.chance(1, 10) { *src.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16]) } else { gen::capacity(src) };
    let mut t = Model::new(cap as u64);
    let mut ops = vec![];
    if long || src.chance(1, 20) {
        let k = if long && src.chance(1, 20) { src.below(5000) } else { src.below(300) };
        ops.push(TOp::Fill(k as u32));
        apply(&mut t, &ops[0]);
    }
    let n = if long { 20 + src.usize(150) } else { 1 + src.usize(20) };
    for _ in 0..n {
        let op = if src.chance(1, 6) {
            let s = match src.below(3) {
                0 => gen_size(src, &t, u32::MAX),
                1 => {
                    // the size of the newest k entries, or one off
                    let k = src.usize(t.entries.len() + 1);
                    let s: u64 = t.entries.iter().take(k).map(|e| ora::entry_size(&e.0, &e.1)).sum();
                    (s + src.below(3)).saturating_sub(1) as u32
                }
                _ => {
                    if via == Via::Decoder {
                        gen::capacity(src)
                    } else {
                        gen::edge_u32(src)
                    }
                }
            };
            TOp::Resize(s)
        } else {
            let (n, v) = gen::header(src, &t);
            TOp::Insert(n, v)
        };
        let op = match op {
            TOp::Resize(s) if via == Via::Decoder => TOp::Resize(s.min(cap).min(MAX_UPDATE)),
            op => op,
        };
        apply(&mut t, &op);
        ops.push(op);
    }
    let mut find = vec![];
    for _ in 0..src.usize(6) {
        let (n, v) = gen::header(src, &t);
        find.push(match src.below(4) {
            0 => (v, n),
            1 => (n, B([&v.0[..], b"x"].concat())),
            2 => (B([&n.0[..], b"x"].concat()), v),
            _ => (n, v),
        });
    }
    History { via, cap, ops, find, rounds: 0 }
}

/// What is driven: the table itself, or the one inside an encoder or decoder.
/// One `Table` at most per history.
enum Driver {
    Table(Table<'static>),
    Encoder(Encoder<'static>),
    Decoder(Decoder<'static>),
}

impl Driver {
    fn new(via: Via, cap: u32) -> Driver {
        match via {
            Via::Table => Driver::Table(new_table(cap)),
            Via::Encoder => Driver::Encoder(new_encoder(cap)),
            Via::Decoder => Driver::Decoder(new_decoder(cap)),
        }
    }
    fn insert(&mut self, n: &[u8], v: &[u8]) -> Res {
        match self {
            Driver::Table(t) => sut("insert", || t.insert(n.to_vec(), v.to_vec())),
            Driver::Encoder(e) => {
                let mut dst = vec![];
                let r = encode_either(e, &Op::Literal(B(n.to_vec()), B(v.to_vec()), INDEXING), &mut dst)?;
                ensure!(r.is_ok(), "inserting through the encoder failed: {:?}", r);
                Ok(())
            }
            Driver::Decoder(d) => {
                let s = |b: &[u8]| S { s: B(b.to_vec()), huffman: false, extra: 0 };
                let mut buf = wire(&[Rep::Literal(Lit::Incremental, Name::New(s(n)), s(v))]);
                let r = deliver(d, &mut buf, &mut vec![])?;
                ensure!(r.is_ok(), "inserting through the decoder failed: {:?}", r);
                Ok(())
            }
        }
    }
    /// Carries out the operations again and again; what the heap then holds
    /// more is measured.
    /// With a capacity, a new one is made for every round.
    fn rounds(&mut self, ops: &[TOp], times: u32, fresh: Option<u32>) -> Res {
        match self {
            Driver::Table(t) => sut("inserting again and again", || {
                for _ in 0..times {
                    if let Some(cap) = fresh {
                        *t = new_table(cap);
                    }
                    for op in ops {
                        match op {
                            TOp::Insert(n, v) => t.insert(n.0.clone(), v.0.clone()),
                            TOp::Resize(s) => t.update_max_dynamic_size(*s),
                            TOp::Fill(_) => {}
                        }
                    }
                }
            }),
            Driver::Encoder(e) => sut("encoding again and again", || {
                for _ in 0..times {
                    if let Some(cap) = fresh {
                        *e = new_encoder(cap);
                    }
                    for op in ops {
                        let mut dst = vec![];
                        let _ = match op {
                            TOp::Insert(n, v) => e.encode_literal(n.0.clone(), v.0.clone(), INDEXING | v.len() as u8 & 3, &mut dst),
                            TOp::Resize(s) => e.update_max_dynamic_size(*s, &mut dst),
                            TOp::Fill(_) => Ok(()),
                        };
                    }
                }
            }),
            Driver::Decoder(d) => {
                let s = |b: &B| S { s: b.clone(), huffman: false, extra: 0 };
                let inputs: Vec<Vec<u8>> = ops
                    .iter()
                    .map(|op| match op {
                        TOp::Insert(n, v) => wire(&[Rep::Literal(Lit::Incremental, Name::New(s(n)), s(v))]),
                        TOp::Resize(s) => wire(&[Rep::Update(*s, 0)]),
                        TOp::Fill(_) => vec![],
                    })
                    .collect();
                sut("decoding again and again", || {
                    for _ in 0..times {
                        if let Some(cap) = fresh {
                            *d = new_decoder(cap);
                        }
                        for i in &inputs {
                            let _ = d.decode(&mut i.clone(), &mut vec![]);
                        }
                    }
                })
            }
        }
    }
    fn resize(&mut self, size: u32) -> Res {
        match self {
            Driver::Table(t) => sut("update_max_dynamic_size", || t.update_max_dynamic_size(size)),
            Driver::Encoder(e) => {
                let r = encode_either(e, &Op::Resize(size), &mut vec![])?;
                ensure!(r.is_ok(), "resizing through the encoder failed: {:?}", r);
                Ok(())
            }
            Driver::Decoder(d) => {
                let r = deliver(d, &mut wire(&[Rep::Update(size, 0)]), &mut vec![])?;
                ensure!(r.is_ok(), "resizing through the decoder failed: {:?}", r);
                Ok(())
            }
        }
    }
}

/// The dynamic part of a table is exactly the model's.
fn same_entries(t: &Table, m: &Model) -> Res {
    let (len, size, max, total) = sut("table getters", || (t.dynamic_len(), t.dynamic_size(), t.max_dynamic_size(), t.len()))?;
    let count = m.entries.len();
    ensure!(max as u64 == m.max, "max_dynamic_size is {}, expected {}", max, m.max);
    ensure!(size as u64 <= m.max, "dynamic_size {} exceeds the maximum {}", size, m.max);
    ensure!(len == count, "the dynamic table has {} entries, expected {}", len, count);
    ensure!(size as u64 == m.size, "dynamic_size is {}, expected {}", size, m.size);
    ensure!(total == STATIC.len() + count, "len is {}, expected {}", total, STATIC.len() + count);
    let step = if count > 400 { count / 200 } else { 1 };
    for k in (0..count).step_by(step).chain(count.saturating_sub(3)..count) {
        let i = 62 + k as u32;
        let got = sut("get", || t.get(i))?;
        let want = m.get(i as u64);
        ensure!(got == want, "index {} is {:?}, expected {:?}", i, got.map(|g| (show(g.0), show(g.1))), want.map(|g| (show(g.0), show(g.1))));
    }
    let past = sut("get", || t.get(62 + count as u32))?;
    ensure!(past.is_none(), "there is an entry beyond the last one");
    Ok(())
}

// ---------------------------------------------------------------- H09

pub struct H09;

impl Prop for H09 {
    type Case = History;
    const ID: &'static str = "H09";
    const QUICK: u64 = 15;
    const RULE: &'static str = "Histories of insertions and maximum-size changes whose sizes are drawn to just fit, just not fit, or equal the sum of the newest entries, driven through the table API (entries, count, size and maximum compared with the model after every operation) and through encoder and decoder (tables probed by index and search at the end and at every eviction); all histories of 5 (thorough: 6) operations over 9 small operations are enumerated for each of the three. Some histories insert more than 65 536 entries, at once or through a small table. Histories are repeated up to 33 000 times, and the heap they hold then is bounded (4 KiB + 16 x capacity + 8 x largest entry). Non-trivial: at least one entry was evicted or refused.";
    const ASSUMPTIONS: &'static [&'static str] = &["total sizes below 2^32"];

    fn phases(tier: Tier) -> Vec<Phase> {
        let k = tier.n(0, 1) as usize;
        vec![
            random("table", tier.n(60_000, 3_000_000)),
            random("long", tier.n(1_500, 60_000)),
            random("encoder", tier.n(15_000, 800_000)),
            random("decoder", tier.n(15_000, 800_000)),
            random("huge", tier.n(15, 400)),
            random("turnover", tier.n(30, 1_200)),
            random("rounds", tier.n(600, 25_000)),
            enumerated(["table-5", "table-6"][k], SMALL.pow(5 + k as u32)),
            enumerated(["encoder-4", "encoder-5"][k], SMALL.pow(4 + k as u32)),
            enumerated(["decoder-4", "decoder-5"][k], SMALL.pow(4 + k as u32)),
        ]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> History {
        match phase {
            "table" => gen_history(src, Via::Table, false),
            "long" => {
                let via = *src.pick(&[Via::Table, Via::Encoder, Via::Decoder]);
                gen_history(src, via, true)
            }
            "encoder" => gen_history(src, Via::Encoder, false),
            "rounds" => {
                let via = *src.pick(&[Via::Table, Via::Encoder, Via::Decoder]);
                let mut h = gen_history(src, via, false);
                h.cap = *src.pick(&[0, 32, 64, 100, 200, 1000, 4096]);
                h.ops.retain(|op| !matches!(op, TOp::Fill(_)));
                h.find.clear();
                let most = h.cap;
                for op in &mut h.ops {
                    if let TOp::Resize(s) = op {
                        *s = (*s).min(most);
                    }
                }
                let size: u64 = h.ops.iter().map(|op| if let TOp::Insert(n, v) = op { n.len() as u64 + v.len() as u64 + 80 } else { 60 }).sum();
                let budget = *src.pick(&[50_000u64, 400_000, 1_600_000]);
                h.rounds = (budget / size.max(1)).clamp(2, 33_000) as u32;
                h
            }
            "decoder" => gen_history(src, Via::Decoder, false),
            "huge" | "turnover" => {
                let via = *src.pick(&[Via::Table, Via::Encoder, Via::Decoder]);
                huge_history(src, via, if phase == "huge" { &HUGE_CAPS } else { &TURN_CAPS })
            }
            _ => {
                let (via, len) = phase.split_once('-').unwrap();
                let via = match via {
                    "table" => Via::Table,
                    "encoder" => Via::Encoder,
                    _ => Via::Decoder,
                };
                let mut h = small_history(via, len.parse().unwrap(), idx);
                // a decoder's table is resized up to its limit only
                h.cap = 103;
                h
            }
        }
    }

    fn check(case: &History, ctx: &mut Ctx) -> Res {
        let mut d = Driver::new(case.via, case.cap);
        let mut m = Model::new(case.cap as u64);
        let mut gone: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut probes = 0;
        for op in &case.ops {
            let before: Vec<_> = if m.entries.len() < 300 { m.entries.iter().cloned().collect() } else { vec![] };
            let entries = m.entries.len();
            match op {
                TOp::Insert(n, v) => {
                    d.insert(n, v)?;
                    m.insert(n, v);
                }
                TOp::Resize(s) => {
                    d.resize(*s)?;
                    m.set_max(*s as u64);
                }
                TOp::Fill(k) => {
                    for i in 0..*k {
                        let (n, v) = filler(0, i);
                        d.insert(&n, &v)?;
                        m.insert(&n, &v);
                    }
                }
            }
            let evicted = m.entries.len() < entries + matches!(op, TOp::Insert(..)) as usize;
            ctx.nontrivial(evicted);
            ctx.class_if(evicted && matches!(op, TOp::Resize(_)), "evicted by a resize");
            ctx.class_if(evicted && matches!(op, TOp::Insert(..)) && !m.entries.is_empty(), "evicted by an insertion");
            ctx.class_if(evicted && matches!(op, TOp::Insert(..)) && m.entries.is_empty(), "entry larger than the table");
            ctx.class_if(m.size == m.max && m.size > 0, "exactly full");
            for g in before {
                if gone.len() < 30 && g.0.len() + g.1.len() < 3000 && !m.has_exact(&g.0, &g.1) {
                    gone.push(g);
                }
            }
            match &mut d {
                Driver::Table(t) => same_entries(t, &m)?,
                Driver::Decoder(x) if evicted && probes < 6 => {
                    probes += 1;
                    probe_decoder(x, &m)?
                }
                Driver::Encoder(x) if evicted && probes < 3 => {
                    probes += 1;
                    probe_encoder(x, &m, &gone)?
                }
                _ => {}
            }
        }
        if case.rounds > 0 {
            let (mut cap, mut longest) = (case.cap as i64, 0);
            for op in &case.ops {
                match op {
                    TOp::Resize(s) => cap = cap.max(*s as i64),
                    TOp::Insert(n, v) => longest = longest.max(n.len() as i64 + v.len() as i64),
                    TOp::Fill(_) => {}
                }
            }
            d.rounds(&case.ops, case.rounds, None)?;
            let kept = usage().kept;
            let bound = 4096 + 16 * cap + 8 * longest;
            let mut other = Driver::new(case.via, case.cap);
            other.rounds(&case.ops, case.rounds, Some(case.cap))?;
            let left = usage().kept;
            ensure!(left <= bound, "after {} tables of at most {} octets with {} operations each {} octets are left, bound {}", case.rounds, cap, case.ops.len(), left, bound);
            ensure!(kept <= bound, "after {} rounds of {} operations the table of at most {} octets keeps {} more than before, bound {}", case.rounds, case.ops.len(), cap, kept, bound);
            for _ in 0..case.rounds {
                for op in &case.ops {
                    apply(&mut m, op);
                }
            }
            ctx.class("rounds");
        }
        match &mut d {
            Driver::Table(t) => same_entries(t, &m),
            Driver::Encoder(e) => probe_encoder(e, &m, &gone),
            Driver::Decoder(x) => probe_decoder(x, &m),
        }
    }
}

// ---------------------------------------------------------------- H10

pub struct H10;

fn check_find(t: &Table, m: &Model, n: &[u8], v: &[u8], ctx: &mut Ctx) -> Res {
    let got = sut("find", || t.find(n, v))?;
    let (exact, named) = (m.has_exact(n, v), m.has_name(n));
    match got {
        Some((i, whole)) => {
            let Some((en, ev)) = m.get(i as u64) else { fail!("find({}, {}) returned index {} of {}", show(n), show(v), i, m.len()) };
            ensure!(en == n, "find({}, {}) returned index {}, whose name is {}", show(n), show(v), i, show(en));
            ensure!(whole == exact, "find({}, {}) returned ({}, {}) but the table {} that header", show(n), show(v), i, whole, if exact { "holds" } else { "does not hold" });
            ensure!(!whole || ev == v, "find({}, {}) returned index {}, whose value is {}", show(n), show(v), i, show(ev));
            ctx.nontrivial(i > 61);
            ctx.class_if(whole && i > 61, "exact dynamic match");
            ctx.class_if(!whole && i > 61, "dynamic name match");
        }
        None => {
            ensure!(!named, "find({}, {}) found nothing", show(n), show(v));
            ctx.class("not found");
        }
    }
    Ok(())
}

impl Prop for H10 {
    type Case = History;
    const ID: &'static str = "H10";
    const QUICK: u64 = 25;
    const RULE: &'static str = "After histories as for H09 (with duplicates, evictions and resizes): get of every index up to beyond the table and of u32 boundary values, the whole iteration (one by one, with jumps and steps, its length and last entry), and searches for every static and dynamic header, for evicted ones and for near misses, against the model; through encoder and decoder the same is done with indexed fields and BEST_FORMAT. Histories of 4 (thorough: 5) of 9 small operations are enumerated. Some histories insert more than 65 536 entries, at once or through a small table. Non-trivial: a search ended at a dynamic entry, or an evicted header was searched for.";
    const ASSUMPTIONS: &'static [&'static str] = &["when several entries match equally well any of them may be found"];

    fn phases(tier: Tier) -> Vec<Phase> {
        let k = tier.n(0, 1) as usize;
        vec![
            random("table", tier.n(30_000, 1_500_000)),
            random("long", tier.n(500, 20_000)),
            random("codec", tier.n(12_000, 600_000)),
            random("huge", tier.n(15, 400)),
            random("turnover", tier.n(16, 800)),
            enumerated(["small-4", "small-5"][k], SMALL.pow(4 + k as u32)),
            enumerated("static", 1),
        ]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> History {
        match phase {
            "table" => gen_history(src, Via::Table, false),
            "long" => gen_history(src, Via::Table, true),
            "codec" => {
                let via = *src.pick(&[Via::Encoder, Via::Decoder]);
                gen_history(src, via, false)
            }
            "huge" | "turnover" => {
                let via = *src.pick(&[Via::Table, Via::Encoder, Via::Decoder]);
                huge_history(src, via, if phase == "huge" { &HUGE_CAPS } else { &TURN_CAPS })
            }
            "small-4" => small_history(Via::Table, 4, idx),
            "small-5" => small_history(Via::Table, 5, idx),
            _ => {
                let mut find = vec![];
                for (n, v) in STATIC {
                    let (n, v) = (n.as_bytes().to_vec(), v.as_bytes().to_vec());
                    let mut short = n.clone();
                    short.pop();
                    find.push((B(short), B(v.clone())));
                    find.push((B(n.clone()), B([&v[..], b"x"].concat())));
                    find.push((B([&n[..], b"\0"].concat()), B(v.clone())));
                    find.push((B(n.to_ascii_uppercase()), B(v.clone())));
                    for (_, w) in STATIC {
                        find.push((B(n.clone()), B(w.as_bytes().to_vec())));
                    }
                }
                History { via: Via::Table, cap: 4096, ops: vec![], find, rounds: 0 }
            }
        }
    }

    fn check(case: &History, ctx: &mut Ctx) -> Res {
        let mut d = Driver::new(case.via, case.cap);
        let mut m = Model::new(case.cap as u64);
        let mut all: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        for op in &case.ops {
            match op {
                TOp::Insert(n, v) => {
                    d.insert(n, v)?;
                    all.push((n.0.clone(), v.0.clone()));
                }
                TOp::Resize(s) => d.resize(*s)?,
                TOp::Fill(k) => {
                    for i in 0..*k {
                        let (n, v) = filler(0, i);
                        d.insert(&n, &v)?;
                    }
                    all.extend((0..*k).step_by(if *k > 10_000 { 2000 } else { 37 }).map(|i| filler(0, i)));
                }
            }
            apply(&mut m, op);
        }
        let gone = all.iter().any(|h| !m.has_exact(&h.0, &h.1));
        ctx.nontrivial(gone);
        ctx.class_if(gone, "search for an evicted header");
        let t = match &mut d {
            Driver::Table(t) => t,
            Driver::Encoder(e) => {
                let near: Vec<_> = all.iter().cloned().chain(case.find.iter().map(|f| (f.0 .0.clone(), f.1 .0.clone()))).filter(|h| h.0.len() + h.1.len() < 3000).take(40).collect();
                return probe_encoder(e, &m, &near);
            }
            Driver::Decoder(x) => return probe_decoder(x, &m),
        };
        // indices
        let len = m.len();
        let mut points: Vec<u64> = if len < 500 { (0..=len + 70).collect() } else { (0..130).chain((130..len).step_by(if len > 10_000 { 501 } else { 17 })).chain(len - 3..len + 70).collect() };
        points.extend([255, 256, 257, 65535, 65536, 65597, 65598, 1 << 31, (1 << 31) + 61, u32::MAX as u64 - 61, u32::MAX as u64 - 60, u32::MAX as u64 - 1, u32::MAX as u64]);
        for i in points {
            let got = sut("get", || t.get(i as u32))?;
            let want = m.get(i);
            ensure!(got == want, "index {} of {} is {:?}, expected {:?}", i, len, got.map(|g| (show(g.0), show(g.1))), want.map(|g| (show(g.0), show(g.1))));
        }
        // iteration
        let got: Vec<(Vec<u8>, Vec<u8>)> = sut("iter", || t.iter().take(len as usize + 3).map(|h| (h.0.to_vec(), h.1.to_vec())).collect())?;
        ensure!(got.len() as u64 == len, "iteration yields {} entries, expected {}", got.len(), len);
        for (k, h) in got.iter().enumerate() {
            let want = m.get(k as u64 + 1).unwrap();
            ensure!((&h.0[..], &h.1[..]) == want, "iteration yields ({}, {}) as entry {}, expected ({}, {})", show(&h.0), show(&h.1), k + 1, show(want.0), show(want.1));
        }
        // an iterator that starts elsewhere, jumps, or is asked for its length
        let x = salt();
        for k in [0, x % (len + 3), (x >> 20) % (len + 70), 59, 60, 61, len.saturating_sub(1), len, len + 1] {
            let want = m.get(k + 1).map(|h| (h.0.to_vec(), h.1.to_vec()));
            let got = sut("nth", || t.iter().nth(k as usize).map(|h| (h.0.to_vec(), h.1.to_vec())))?;
            ensure!(got == want, "jumping over {} entries of {} yields {:?}, expected {:?}", k, len, got.map(|g| (show(&g.0), show(&g.1))), want.map(|g| (show(&g.0), show(&g.1))));
        }
        let (first, step) = ((x >> 8) % 70, 1 + (x >> 16) % 5);
        let got: Vec<(Vec<u8>, Vec<u8>)> = sut("iter", || {
            let mut it = t.iter();
            let mut got = vec![];
            for _ in 0..first {
                it.next();
            }
            if first < len {
                while let Some(h) = it.nth(step as usize - 1) {
                    got.push((h.0.to_vec(), h.1.to_vec()));
                    if got.len() > len as usize {
                        break;
                    }
                }
            }
            got
        })?;
        let want: Vec<(Vec<u8>, Vec<u8>)> = (first + step..=len).step_by(step as usize).map(|i| m.get(i).map(|h| (h.0.to_vec(), h.1.to_vec())).unwrap()).collect();
        ensure!(got == want, "after {} entries of {}, steps of {} yield {} entries or other ones than the expected {}", first, len, step, got.len(), want.len());
        let (hint, count, last) = sut("iter", || (t.iter().size_hint(), t.iter().count(), t.iter().last().map(|h| (h.0.to_vec(), h.1.to_vec()))))?;
        ensure!(hint.0 as u64 <= len && hint.1.map_or(true, |u| u as u64 >= len), "the iterator announces {:?} entries, there are {}", hint, len);
        ensure!(count as u64 == len, "the iterator counts {} entries, expected {}", count, len);
        let want = m.get(len).map(|h| (h.0.to_vec(), h.1.to_vec()));
        ensure!(last == want, "the last entry of the iteration is {:?}, expected {:?}", last.map(|g| (show(&g.0), show(&g.1))), want.map(|g| (show(&g.0), show(&g.1))));
        // from the middle on, and by copies that go their own ways
        let first = first.min(len);
        let (hint, count, last, rest) = sut("iter", || {
            let mut it = t.iter();
            for _ in 0..first {
                it.next();
            }
            let mut other = it.clone();
            for _ in 0..step {
                other.next();
            }
            let hint = it.size_hint();
            let count = it.clone().count();
            let last = it.clone().last().map(|h| (h.0.to_vec(), h.1.to_vec()));
            let rest = it.fold(vec![], |mut all, h| {
                all.push((h.0.to_vec(), h.1.to_vec()));
                all
            });
            (hint, count, last, rest)
        })?;
        let left = len - first;
        ensure!(hint.0 as u64 <= left && hint.1.map_or(true, |u| u as u64 >= left), "after {} of {} entries the iterator announces {:?}", first, len, hint);
        ensure!(count as u64 == left, "after {} of {} entries the iterator counts {} more", first, len, count);
        ensure!(last == if left > 0 { want } else { None }, "after {} of {} entries the last one is {:?}", first, len, last.map(|g| (show(&g.0), show(&g.1))));
        ensure!(rest.len() as u64 == left && rest.iter().zip(first + 1..).all(|(h, i)| m.get(i) == Some((&h.0[..], &h.1[..]))), "after {} of {} entries a fold sees {} or other ones than there are", first, len, rest.len());
        // search
        let entries: Vec<_> = m.entries.iter().take(if len > 10_000 { 20 } else { 200 }).cloned().collect();
        let last: Vec<_> = m.entries.iter().rev().take(3).cloned().collect();
        for (n, v) in entries.iter().chain(&last).chain(&all) {
            check_find(t, &m, n, v, ctx)?;
            check_find(t, &m, n, b"no such value", ctx)?;
        }
        for (n, v) in &case.find {
            check_find(t, &m, n, v, ctx)?;
        }
        if case.ops.len() % 8 == 0 {
            for (n, v) in STATIC {
                check_find(t, &m, n.as_bytes(), v.as_bytes(), ctx)?;
                check_find(t, &m, v.as_bytes(), n.as_bytes(), ctx)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- H11

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Act {
    /// The application sets the decoder's limit.
    Limit(u32),
    /// A size update reaches the decoder, with superfluous octets.
    Update(u32, u8),
    /// A header with incremental indexing reaches the decoder.
    Header(B, B),
    /// The encoder is resized.
    Resize(u32),
    /// The encoder indexes a header.
    Encode(B, B),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Limits {
    /// `None`: constructed by default.
    pub cap: Option<u32>,
    pub acts: Vec<Act>,
}

pub struct H11;

impl Prop for H11 {
    type Case = Limits;
    const ID: &'static str = "H11";
    const QUICK: u64 = 60;
    const RULE: &'static str = "Histories of limit changes, size updates (next to the limit, next to the current table size, any size a decoder can read) and indexed headers on a decoder, and of resizes (any u32) and indexed headers on an encoder; after each step the getters are compared with the limit in force, each update with whether it exceeds that limit, and both tables are probed. Non-trivial: an update was refused, or a limit change or resize met a table with entries.";
    const ASSUMPTIONS: &'static [&'static str] = &["size updates a decoder can read: up to 2^28+30"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("history", tier.n(40_000, 2_000_000)), enumerated("edges", 29 * 5 * 5)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Limits {
        if phase == "edges" {
            let limit = ((1u64 << (idx / 25)) + 29 + idx / 5 % 5) as u32;
            let delta = idx % 5;
            let size = (limit as u64 + delta).saturating_sub(2).min(MAX_UPDATE as u64) as u32;
            let h = |n: &str| Act::Header(B(n.as_bytes().to_vec()), B(b"1".to_vec()));
            let acts = if idx % 2 == 0 {
                vec![h("a"), h("b"), Act::Limit(limit), Act::Update(size, 0), h("c"), Act::Resize(size), Act::Encode(B(b"a".to_vec()), B(vec![]))]
            } else {
                vec![Act::Limit(4096), h("a"), Act::Update(size.min(4097), 0), Act::Limit(limit), Act::Update(size, 0), h("c")]
            };
            return Limits { cap: if idx % 3 == 0 { None } else { Some(limit) }, acts };
        }
        let cap = if src.chance(1, 6) { None } else { Some(if src.chance(1, 8) { gen::edge_u32(src) } else { gen::capacity(src) }) };
        let mut limit = cap.unwrap_or(4096);
        let mut dt = Model::new(limit as u64);
        let mut et = Model::new(limit as u64);
        let n = 1 + src.usize(16);
        let mut acts = vec![];
        for _ in 0..n {
            acts.push(match src.weighted(&[6, 4, 4, 3, 3]) {
                0 => {
                    let (n, v) = gen::header(src, &dt);
                    dt.insert(&n, &v);
                    Act::Header(n, v)
                }
                1 => {
                    limit = match src.below(4) {
                        0 => gen_size(src, &dt, u32::MAX),
                        1 => gen::edge_u32(src),
                        _ => gen::capacity(src),
                    };
                    Act::Limit(limit)
                }
                2 => {
                    let s = match src.below(5) {
                        0 => limit,
                        1 => limit.saturating_add(1),
                        2 => limit.saturating_sub(1),
                        3 => gen_size(src, &dt, u32::MAX),
                        _ => gen::edge_u32(src),
                    }
                    .min(MAX_UPDATE);
                    if s <= limit {
                        dt.set_max(s as u64);
                    }
                    let slack = ora::int_slack(5, s as u64) as u64;
                    Act::Update(s, if slack > 0 && src.chance(1, 5) { src.range(1, slack) as u8 } else { 0 })
                }
                3 => {
                    let s = if src.flip() { gen_size(src, &et, u32::MAX) } else { gen::edge_u32(src) };
                    et.set_max(s as u64);
                    Act::Resize(s)
                }
                _ => {
                    let (n, v) = gen::header(src, &et);
                    et.insert(&n, &v);
                    Act::Encode(n, v)
                }
            });
        }
        Limits { cap, acts }
    }

    fn check(case: &Limits, ctx: &mut Ctx) -> Res {
        let mut d = case.cap.map_or_else(Decoder::default, Decoder::with_dynamic_size);
        let mut e = case.cap.map_or_else(Encoder::default, Encoder::with_dynamic_size);
        let mut limit = case.cap.unwrap_or(4096);
        let mut dt = Model::new(limit as u64);
        let mut et = Model::new(limit as u64);
        for act in &case.acts {
            match act {
                Act::Limit(l) => {
                    sut("set_max_dynamic_size", || d.set_max_dynamic_size(*l))?;
                    limit = *l;
                    ctx.nontrivial(!dt.entries.is_empty());
                    ctx.class_if((*l as u64) < dt.size, "limit below the table size");
                }
                Act::Update(s, x) => {
                    let bytes = wire(&[Rep::Update(*s, *x)]);
                    let mut buf = bytes.clone();
                    let mut dst: Dst = vec![];
                    let r = deliver(&mut d, &mut buf, &mut dst)?;
                    ensure!(dst.is_empty(), "a size update delivered a header");
                    if *s <= limit {
                        ensure!(r.is_ok() && buf.is_empty(), "a size update to {} was refused with a limit of {}: {:?}", s, limit, r);
                        ctx.class_if((*s as u64) < dt.size, "update evicts");
                        ctx.class_if(*s == limit, "update to the limit");
                        dt.set_max(*s as u64);
                    } else {
                        ensure!(r == Err(DecoderError::InvalidMaxDynamicSize), "a size update to {} with a limit of {} gave {:?}", s, limit, r);
                        ensure!(buf == bytes, "a refused size update was consumed");
                        ctx.nontrivial(true);
                        ctx.class("update refused");
                    }
                }
                Act::Header(n, v) => {
                    let s = |b: &B| S { s: b.clone(), huffman: false, extra: 0 };
                    let mut buf = wire(&[Rep::Literal(Lit::Incremental, Name::New(s(n)), s(v))]);
                    let r = deliver(&mut d, &mut buf, &mut vec![])?;
                    ensure!(r.is_ok(), "a valid literal was refused: {:?}", r);
                    dt.insert(n, v);
                }
                Act::Resize(s) => {
                    let mut dst = b"before".to_vec();
                    let r = encode_either(&mut e, &Op::Resize(*s), &mut dst)?;
                    ensure!(r.is_ok(), "resizing the encoder to {} failed: {:?}", s, r);
                    ensure!(&dst[..6] == b"before", "resizing changed earlier output");
                    match read_item(&dst[6..], &et)? {
                        Item::Update(v) if v == *s as u64 => {}
                        other => return Err(Fail(format!("resizing to {} was signalled as {:?}", s, other))),
                    }
                    ctx.nontrivial(!et.entries.is_empty());
                    ctx.class_if((*s as u64) < et.size, "resize evicts");
                    et.set_max(*s as u64);
                }
                Act::Encode(n, v) => {
                    let r = encode_either(&mut e, &Op::Literal(n.clone(), v.clone(), INDEXING), &mut vec![])?;
                    ensure!(r.is_ok(), "encoding a literal failed: {:?}", r);
                    et.insert(n, v);
                }
            }
            match act {
                Act::Resize(_) | Act::Encode(..) => probe_encoder(&mut e, &et, &[])?,
                _ => probe_decoder(&mut d, &dt)?,
            }
            let got = sut("max_dynamic_size", || d.max_dynamic_size())?;
            ensure!(got == limit, "the decoder reports a limit of {}, in force is {}", got, limit);
            let got = sut("max_dynamic_size", || e.max_dynamic_size())?;
            ensure!(got as u64 == et.max, "the encoder reports a maximum of {}, in force is {}", got, et.max);
        }
        Ok(())
    }
}
