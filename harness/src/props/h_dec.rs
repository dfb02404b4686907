//! Properties of the HPACK decoder: H05 valid blocks, H06 malformed blocks,
//! H07 hostile input, H08 failure and resumption, H12 decode_exact.

use super::h_enc::filler;
use super::hp::*;
use crate::engine::{enumerated, random, sut, usage, Ctx, Phase, Prop, Res, Tier};
use crate::gen;
use crate::oracle::hpack::{self as ora, Table};
use crate::oracle::huff;
use crate::src::Src;
use crate::types::{show, B};
use httlib_hpack::Decoder;
use serde::{Deserialize, Serialize};

/// Largest size update a decoder can read.
pub const MAX_UPDATE: u32 = 31 + (1 << 28) - 1;

fn prefill(n: usize) -> Dst {
    (0..n).map(|i| (format!("p{}", i).into_bytes(), b"kept".to_vec(), 0xff)).collect()
}

fn fill_reps(n: u32) -> Vec<Rep> {
    (0..n)
        .map(|i| {
            let (n, v) = filler(0, i);
            Rep::Literal(Lit::Incremental, Name::New(S { s: B(n), huffman: i % 2 == 0, extra: 0 }), S { s: B(v), huffman: i % 3 == 0, extra: 0 })
        })
        .collect()
}

/// Fills the decoder and the table with `n` entries.
fn fill_decoder(d: &mut Decoder, t: &mut Table, n: u32) -> Res {
    let mut buf = vec![];
    for chunk in fill_reps(n).chunks(200) {
        buf.clear();
        chunk.iter().for_each(|r| {
            r.write(&mut buf);
            r.apply(t);
        });
        let r = decode(d, &mut buf, &mut vec![])?;
        ensure!(r.is_ok(), "decoder refused incrementally indexed literals: {:?}", r);
    }
    Ok(())
}

/// The limit, and how many entries the table holds at first: in a wide phase
/// so many that indices take two octets or more.
fn start(src: &mut Src, wide: bool) -> (u32, u32, Table) {
    let (limit, fill) = if wide {
        let n = match src.weighted(&[4, 4, 2]) {
            0 => 60 + src.below(20),
            1 => 60 + src.below(160),
            _ => src.below(420),
        };
        (*src.pick(&[1 << 20, u32::MAX, 60000]), n as u32)
    } else {
        (limit(src), 0)
    };
    let mut t = Table::new(limit as u64);
    for r in fill_reps(fill) {
        r.apply(&mut t);
    }
    (limit, fill, t)
}

fn limit(src: &mut Src) -> u32 {
    match src.weighted(&[12, 1]) {
        0 => gen::capacity(src),
        _ => *src.pick(&[u32::MAX, 1 << 28, MAX_UPDATE, MAX_UPDATE - 1, MAX_UPDATE + 1, 1 << 16]),
    }
}

/// Classes of what a block exercises.
fn classify(reps: &[Rep], ctx: &mut Ctx) {
    for r in reps {
        match r {
            Rep::Indexed(i, x) => {
                ctx.class_if(*i > 61, "dynamic index");
                ctx.class_if(*x > 0, "non-shortest integer");
                ctx.nontrivial(*i > 61 || *x > 0);
            }
            Rep::Literal(_, n, v) => {
                if let Name::Index(i, x) = n {
                    ctx.class_if(*i > 61, "dynamic name");
                    ctx.class_if(*x > 0, "non-shortest integer");
                    ctx.nontrivial(*i > 61 || *x > 0);
                }
                let h = v.huffman || matches!(n, Name::New(s) if s.huffman);
                ctx.class_if(h, "Huffman string");
                ctx.nontrivial(h);
                ctx.class_if(v.extra > 0, "non-shortest integer");
            }
            Rep::Update(..) => {
                ctx.class("size update");
                ctx.nontrivial(true);
            }
        }
    }
}

// ---------------------------------------------------------------- H05

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Blocks {
    pub limit: u32,
    pub fill: u32,
    /// Representations, headers the vector already holds, and 0 for `decode`
    /// or the capacity for `decode_exact`.
    pub blocks: Vec<(Vec<Rep>, u32, u8)>,
}

pub struct H05;

fn swept() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    v.extend([511, 512, 513, 4096, 16382, 16383, 16384, 16509, 16510, 16511, 16512, 16513, 26420, 26421, 26422, 65536]);
    v
}

impl Prop for H05 {
    type Case = Blocks;
    const ID: &'static str = "H05";
    const QUICK: u64 = 8;
    const RULE: &'static str = "Sequences of header blocks made of wire-level representations an arbitrary RFC 7541 encoder may choose (any index or literal name, Huffman or not, integers with superfluous octets, size updates at block start), serialised by the reference and decoded by decode or decode_exact into vectors that already hold headers; headers, flags, remaining buffer and count are compared with the meaning of the representations, and the table is probed at the end. Some use tables of up to 66 000 entries, or insert more than 65 536 headers in the life of one decoder. Non-trivial: a dynamic index, a Huffman string, a non-shortest integer or a size update occurs.";
    const ASSUMPTIONS: &'static [&'static str] = &["integers of at most 5 octets, the documented limit", "size updates only at the beginning of a block, as RFC 7541 requires"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![
            random("blocks", tier.n(60_000, 2_500_000)),
            random("wide", tier.n(250, 8_000)),
            random("turnover", tier.n(40, 1_500)),
            enumerated("length", swept().len() as u64 * 2),
            enumerated("index", 3),
            enumerated("update", 33 * 5 * 5),
            enumerated("huge", 2),
        ]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Blocks {
        match phase {
            "length" => {
                let len = swept()[idx as usize / 2];
                let huffman = idx % 2 == 1;
                let mut reps = vec![];
                for style in [0u64, 3] {
                    let s = if style == 0 { vec![b'0'; len] } else { gen::fill(3, idx, len) };
                    let n = if huffman { huff::encoded_len(&s) } else { len };
                    for extra in 0..=ora::int_slack(7, n as u64) as u8 {
                        let s = S { s: B(s.clone()), huffman, extra };
                        let one = S { s: B(b"a".to_vec()), huffman: false, extra: 0 };
                        reps.push(Rep::Literal(Lit::Without, Name::New(s.clone()), one.clone()));
                        reps.push(Rep::Literal(Lit::Never, Name::New(one), s.clone()));
                        reps.push(Rep::Literal(Lit::Incremental, Name::Index(7, 0), s));
                    }
                }
                return Blocks { limit: 4096, fill: 0, blocks: vec![(reps, 1, 0)] };
            }
            "huge" => {
                let len = [(1usize << 21) + 126, (1 << 21) + 127][idx as usize];
                let s = S { s: B(vec![b'0'; len]), huffman: idx == 1, extra: 0 };
                return Blocks { limit: 4096, fill: 0, blocks: vec![(vec![Rep::Literal(Lit::Without, Name::New(s.clone()), s)], 0, 0)] };
            }
            "index" => {
                let fill = [500u32, 16600, 66_000][idx as usize];
                let last = 61 + fill;
                let all: Vec<u32> = if fill < 1000 { (1..=last).collect() } else { (50..=200).chain(16380..=16400).chain(16440..=16450).chain(16505..=16515).chain(65530..=65540).chain(65590..=65600).filter(|i| *i <= last).chain(last - 5..=last).collect() };
                let mut reps = vec![];
                for i in all {
                    for extra in 0..=ora::int_slack(7, i as u64) as u8 {
                        reps.push(Rep::Indexed(i, extra));
                    }
                    for (k, p) in [(Lit::Without, 4), (Lit::Never, 4)] {
                        for extra in 0..=ora::int_slack(p, i as u64) as u8 {
                            reps.push(Rep::Literal(k, Name::Index(i, extra), S { s: B(b"x".to_vec()), huffman: false, extra: 0 }));
                        }
                    }
                }
                for i in [1, 61, 62, 63, 64, 65, 126, 127, 128, 190, 191, 255, 256, last.min(65_535), last.min(65_536), last] {
                    for extra in 0..=ora::int_slack(6, i as u64) as u8 {
                        reps.push(Rep::Literal(Lit::Incremental, Name::Index(i, extra), S { s: B(b"x".to_vec()), huffman: false, extra: 0 }));
                    }
                }
                return Blocks { limit: if fill > 20_000 { 1 << 26 } else { 1 << 20 }, fill, blocks: vec![(reps, 0, 0)] };
            }
            "update" => {
                let bits = idx / 25;
                let delta = idx / 5 % 5;
                let v = ((1u64 << bits) + 29 + delta).saturating_sub(if delta == 4 { 32 } else { 0 }).min(MAX_UPDATE as u64) as u32;
                let extra = (idx % 5).min(ora::int_slack(5, v as u64) as u64) as u8;
                let lit = |b: &[u8]| Rep::Literal(Lit::Incremental, Name::New(S { s: B(b.to_vec()), huffman: false, extra: 0 }), S { s: B(b.to_vec()), huffman: false, extra: 0 });
                let mut t = Table::new(u32::MAX as u64);
                let mut first = vec![lit(b"a"), lit(b"b"), lit(&[b'c'; 200])];
                first.iter().for_each(|r| {
                    r.apply(&mut t);
                });
                let mut second = vec![Rep::Update(v, extra)];
                second[0].apply(&mut t);
                second.push(lit(b"d"));
                second[1].apply(&mut t);
                for i in 62..=t.len() as u32 {
                    second.push(Rep::Indexed(i, 0));
                }
                first.push(Rep::Indexed(62, 0));
                return Blocks { limit: u32::MAX, fill: 0, blocks: vec![(first, 0, 0), (second, 0, 0)] };
            }
            _ => {}
        }
        let (limit, fill) = if phase == "wide" {
            let n = match src.weighted(&[60, 5, 1]) {
                0 => src.below(400),
                1 => src.below(17000),
                _ => super::h_enc::huge_fill(src) as u64,
            };
            (if n > 20_000 { *src.pick(&super::h_enc::HUGE_CAPS) } else { *src.pick(&[1 << 20, u32::MAX, 20000]) }, n as u32)
        } else if phase == "turnover" {
            (*src.pick(&super::h_enc::TURN_CAPS), super::h_enc::huge_fill(src))
        } else {
            (limit(src), 0)
        };
        let mut t = Table::new(limit as u64);
        for r in fill_reps(fill) {
            r.apply(&mut t);
        }
        let n = 1 + src.usize(5);
        let mut blocks = vec![];
        for _ in 0..n {
            let b = gen_block(src, &mut t, limit, 10);
            blocks.push((b, gen::held(src), src.weighted(&[6, 1, 1, 1, 1]) as u8));
        }
        Blocks { limit, fill, blocks }
    }

    fn check(case: &Blocks, ctx: &mut Ctx) -> Res {
        let mut d = new_decoder(case.limit);
        let mut t = Table::new(case.limit as u64);
        fill_decoder(&mut d, &mut t, case.fill)?;
        for (reps, pre, mode) in &case.blocks {
            classify(reps, ctx);
            let mut buf = wire(reps);
            let len = buf.len();
            let want: Dst = reps.iter().filter_map(|r| r.apply(&mut t)).collect();
            let mut dst = prefill(*pre as usize);
            if *mode == 0 {
                let r = decode(&mut d, &mut buf, &mut dst)?;
                match r {
                    Ok(_) => ensure!(buf.is_empty(), "decode left {} octets of a valid block of {}", buf.len(), len),
                    Err(e) => fail!("decode refused a valid block with {:?}: {}", e, show(&wire(reps))),
                }
            } else {
                let mut rounds = 0;
                while !buf.is_empty() {
                    let mut part: Dst = Vec::with_capacity(*mode as usize);
                    let r = decode_exact(&mut d, &mut buf, &mut part)?;
                    ensure!(r.is_ok(), "decode_exact refused a valid block with {:?}: {}", r, show(&wire(reps)));
                    dst.append(&mut part);
                    rounds += 1;
                    ensure!(rounds <= len, "decode_exact makes no progress");
                }
            }
            ensure!(dst[..*pre as usize] == prefill(*pre as usize)[..], "decoding changed what the vector already held");
            same_headers(&dst[*pre as usize..], &want)?;
        }
        probe_decoder(&mut d, &t)
    }
}

// ---------------------------------------------------------------- bad fields

/// Continuation octets of an integer that is too long.
fn put_overlong(src: &mut Src, out: &mut Vec<u8>, flags: u8, prefix: u8) {
    out.push(flags | ((1u32 << prefix) - 1) as u8);
    let n = 4 + src.usize(5);
    let style = src.below(3);
    for _ in 0..n {
        out.push(match style {
            0 => 0x80,
            1 => 0xff,
            _ => 0x80 | src.byte(),
        });
    }
    out.push(src.below(128) as u8);
}

/// A Huffman string that is no valid sequence.
pub fn bad_huffman(src: &mut Src) -> Vec<u8> {
    let mut b = huff::Bits::default();
    let n = src.usize(6);
    for _ in 0..n {
        let s = huff_symbol(src);
        b.push_sym(s);
    }
    match src.below(6) {
        0 => {
            // EOS, and perhaps more
            b.push_sym(huff::EOS);
            for _ in 0..src.usize(3) {
                let s = huff_symbol(src);
                b.push_sym(s);
            }
            while b.room() > 0 {
                b.push(true);
            }
        }
        1 => {
            // zero padding
            if b.room() == 0 {
                b.push_sym(b'0' as usize);
            }
            while b.room() > 0 {
                b.push(false);
            }
        }
        2 => {
            // one wrong padding bit
            if b.room() == 0 {
                b.push_sym(b'0' as usize);
            }
            let room = b.room();
            let at = src.usize(room);
            for i in 0..room {
                b.push(i != at);
            }
        }
        3 => {
            // 8 to 29 bits of padding
            while b.room() > 0 {
                b.push(true);
            }
            for _ in 0..1 + src.usize(3) {
                for _ in 0..8 {
                    b.push(true);
                }
            }
        }
        4 => {
            // a code that ends too early
            let s = huff_symbol(src);
            let (code, len) = crate::oracle::tables::CODES[s];
            let keep = 1 + src.below(len as u64 - 1) as u8;
            b.push_code(code >> (len - keep), keep);
            while b.room() > 0 {
                b.push(src.flip());
            }
        }
        _ => {
            for _ in 0..1 + src.usize(5) {
                for _ in 0..8 {
                    b.push(src.flip());
                }
            }
        }
    }
    b.bytes
}

pub fn huff_symbol(src: &mut Src) -> usize {
    match src.below(3) {
        0 => b'0' as usize + src.usize(10),
        1 => src.usize(256),
        _ => *src.pick(&[0usize, 10, 13, 22, 60, 92, 124, 127, 128, 195, 208, 249, 255, 38, 42, 59]),
    }
}

/// A field that is (in all but rare cases) malformed.
pub fn gen_bad(src: &mut Src, t: &Table, limit: u32) -> Vec<u8> {
    let mut out = vec![];
    let lit = *src.pick(&[Lit::Incremental, Lit::Without, Lit::Never]);
    let (pattern, prefix) = lit.kind().pattern();
    let valid_name = |src: &mut Src, out: &mut Vec<u8>| {
        if src.flip() {
            let i = gen::live_index(src, t);
            ora::put_int(out, pattern, prefix, i as u64, 0);
        } else {
            ora::put_int(out, pattern, prefix, 0, 0);
            let n = gen::name(src, t);
            ora::put_str(out, &n, src.flip(), 0);
        }
    };
    match src.below(10) {
        0 => {
            let i = gen::dead_index(src, t).min(126 + (1 << 28));
            ora::put_int(&mut out, 0x80, 7, i as u64, 0);
        }
        1 => {
            let i = gen::dead_index(src, t).max(1).min(14 + (1 << 28));
            if t.get(i as u64).is_some() {
                ora::put_int(&mut out, 0x80, 7, 0, 0);
            } else {
                ora::put_int(&mut out, pattern, prefix, i as u64, 0);
                ora::put_str(&mut out, b"value", src.flip(), 0);
            }
        }
        2 => put_overlong(src, &mut out, 0x80, 7),
        3 => {
            put_overlong(src, &mut out, pattern, prefix);
            ora::put_str(&mut out, b"value", src.flip(), 0);
        }
        4 => {
            // name length
            ora::put_int(&mut out, pattern, prefix, 0, 0);
            let h = if src.flip() { 0x80 } else { 0 };
            put_overlong(src, &mut out, h, 7);
        }
        5 => {
            valid_name(src, &mut out);
            let h = if src.flip() { 0x80 } else { 0 };
            put_overlong(src, &mut out, h, 7);
        }
        6 => {
            // a bad Huffman name
            ora::put_int(&mut out, pattern, prefix, 0, 0);
            let s = bad_huffman(src);
            ora::put_int(&mut out, 0x80, 7, s.len() as u64, 0);
            out.extend(s);
            ora::put_str(&mut out, b"value", src.flip(), 0);
        }
        7 => {
            valid_name(src, &mut out);
            let s = bad_huffman(src);
            ora::put_int(&mut out, 0x80, 7, s.len() as u64, 0);
            out.extend(s);
        }
        8 => {
            if src.flip() || limit >= MAX_UPDATE {
                put_overlong(src, &mut out, 0x20, 5);
            } else {
                let v = match src.below(4) {
                    0 => limit + 1,
                    1 => MAX_UPDATE,
                    2 => {
                        // one that a narrower integer would take for a valid size
                        let bits = *src.pick(&[8u32, 13, 14, 16, 21, 24, 27]);
                        (src.below(limit as u64 + 1) as u32).saturating_add(1 << bits).max(limit + 1).min(MAX_UPDATE)
                    }
                    _ => src.range(limit as u64 + 1, MAX_UPDATE as u64) as u32,
                };
                ora::put_int(&mut out, 0x20, 5, v as u64, 0);
            }
        }
        _ => {
            // a declared length beyond the end
            valid_name(src, &mut out);
            let n = *src.pick(&[1u64, 2, 126, 127, 128, 255, 16511, 1 << 21, (1 << 28) - 1, (1 << 28) + 126]);
            ora::put_int(&mut out, if src.flip() { 0x80 } else { 0 }, 7, n, 0);
            let have = (n - 1).min(src.below(8));
            for _ in 0..have {
                out.push(src.byte());
            }
        }
    }
    out
}

/// Random octets that often look like header blocks.
pub fn gen_noise(src: &mut Src, t: &Table, limit: u32) -> Vec<u8> {
    match src.below(4) {
        0 => {
            let n = src.usize(24);
            (0..n).map(|_| src.byte()).collect()
        }
        1 => {
            let n = src.usize(24);
            (0..n).map(|_| *src.pick(&[0u8, 1, 2, 0x10, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x82, 0xbe, 0xbf, 0xff, 0x0f, 0x1f, b'a', 0x41, 0x83])).collect()
        }
        _ => {
            // a mutated valid block
            let mut t = t.clone();
            let block = gen_block(src, &mut t, limit.min(MAX_UPDATE), 6);
            let mut b = wire(&block);
            for _ in 0..1 + src.usize(3) {
                if b.is_empty() {
                    break;
                }
                let at = src.usize(b.len());
                match src.below(5) {
                    0 => b[at] ^= 1 << src.below(8),
                    1 => b[at] = src.byte(),
                    2 => {
                        b.remove(at);
                    }
                    3 => b.insert(at, src.byte()),
                    _ => b.truncate(at),
                }
            }
            b
        }
    }
}

// ---------------------------------------------------------------- H06

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Malformed {
    /// Valid representations, then buffers decoded one after another by the
    /// same decoder, each from its own vector.
    Blocks {
        limit: u32,
        #[serde(default)]
        fill: u32,
        before: Vec<Rep>,
        inputs: Vec<B>,
    },
    /// Every input that begins with these octets and has at most one more, by
    /// a decoder in a given state.
    Sweep { primed: u8, start: B },
}

pub struct H06;

/// States in which the sweep runs.
fn primed(kind: u8) -> (u32, Vec<Rep>) {
    let s = |b: &[u8]| S { s: B(b.to_vec()), huffman: false, extra: 0 };
    let lit = |n: &[u8], v: &[u8]| Rep::Literal(Lit::Incremental, Name::New(s(n)), s(v));
    match kind {
        0 => (4096, vec![]),
        1 => (100, vec![lit(b"a", b"1"), lit(b"b", b"2")]),
        _ => (4096, (0..66).map(|i| lit(b"n", format!("{}", i).as_bytes())).collect()),
    }
}

impl Prop for H06 {
    type Case = Malformed;
    const ID: &'static str = "H06";
    const QUICK: u64 = 4;
    const RULE: &'static str = "Differential against the reference decoder (headers, remaining octets, kind of error; any fault present in the failing field may be the one reported): all inputs of up to 3 octets on a fresh decoder and of up to 2 octets on two primed ones, enumerated; one malformed field of every kind (dead index, overlong integer in every position, bad Huffman padding or EOS, cut off, oversized update) behind valid fields and before a tail; mutated and random buffers, several per decoder. Non-trivial: an input the reference refuses.";
    const ASSUMPTIONS: &'static [&'static str] = &["a size update is accepted at any place of a block", "the documented limit of 5 octets per integer"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![
            random("malformed", tier.n(120_000, 6_000_000)),
            random("noise", tier.n(120_000, 6_000_000)),
            random("wide", tier.n(12_000, 600_000)),
            enumerated("sweep3", 65536 + 1 + 256),
            enumerated("sweep2", 257 * 2),
        ]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Malformed {
        match phase {
            "sweep3" => {
                let start = match idx {
                    0 => vec![],
                    1..=256 => vec![(idx - 1) as u8],
                    _ => vec![((idx - 257) >> 8) as u8, (idx - 257) as u8],
                };
                return Malformed::Sweep { primed: 0, start: B(start) };
            }
            "sweep2" => {
                let start = if idx % 257 == 0 { vec![] } else { vec![(idx % 257 - 1) as u8] };
                return Malformed::Sweep { primed: 1 + (idx / 257) as u8, start: B(start) };
            }
            _ => {}
        }
        let (limit, fill, mut t) = start(src, phase == "wide");
        let before = gen_block(src, &mut t, limit, 6);
        let mut inputs = vec![];
        let n = 1 + src.usize(3);
        for _ in 0..n {
            if phase == "malformed" || (phase == "wide" && src.flip()) {
                let mut b = vec![];
                if src.flip() {
                    let mut t2 = t.clone();
                    b = wire(&gen_block(src, &mut t2, limit, 3));
                    b.extend(gen_bad(src, &t2, limit));
                } else {
                    b.extend(gen_bad(src, &t, limit));
                }
                if src.flip() {
                    let tail = gen_noise(src, &t, limit);
                    b.extend(tail);
                }
                inputs.push(B(b));
            } else {
                inputs.push(B(gen_noise(src, &t, limit)));
            }
        }
        Malformed::Blocks { limit, fill, before, inputs }
    }

    fn check(case: &Malformed, ctx: &mut Ctx) -> Res {
        match case {
            Malformed::Blocks { limit, fill, before, inputs } => {
                let mut d = new_decoder(*limit);
                let mut r = ora::Decoder::new(*limit as u64);
                fill_decoder(&mut d, &mut r.table, *fill)?;
                step(&mut d, &mut r, &mut wire(before), &mut vec![])?;
                for input in inputs {
                    let mut buf = input.0.clone();
                    let want = step(&mut d, &mut r, &mut buf, &mut prefill(1))?;
                    ctx.nontrivial(want.error.is_some());
                    match &want.error {
                        None => ctx.class("accepted"),
                        Some(e) => ctx.class(match e[0] {
                            ora::Err::Input => "bad Huffman string",
                            ora::Err::Index => "dead index",
                            ora::Err::Overflow => "overlong integer",
                            ora::Err::Underflow => "cut off",
                            ora::Err::MaxSize => "oversized update",
                        }),
                    }
                    ctx.class_if(want.error.is_some() && !want.headers.is_empty(), "fails after a delivered header");
                }
                probe_decoder(&mut d, &r.table)
            }
            Malformed::Sweep { primed: kind, start } => {
                let (limit, prime) = primed(*kind);
                let prime = wire(&prime);
                let mut base = ora::Decoder::new(limit as u64);
                base.decode(&prime);
                let mut one = |input: Vec<u8>| -> Res {
                    // once by decode, once by decode_exact
                    for way in [0, 4 + input.last().map_or(0, |b| *b as u64) % 4] {
                        let mut d = new_decoder(limit);
                        if !prime.is_empty() {
                            let _ = decode(&mut d, &mut prime.clone(), &mut vec![])?;
                        }
                        let mut r = base.clone();
                        let want = step_by(way, &mut d, &mut r, &mut input.clone(), &mut vec![])?;
                        ctx.nontrivial(want.error.is_some());
                    }
                    Ok(())
                };
                if start.is_empty() {
                    one(vec![])?;
                }
                let mut input = start.0.clone();
                input.push(0);
                let last = input.len() - 1;
                for b in 0..=255u8 {
                    input[last] = b;
                    one(input.clone())?;
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- H07

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Call {
    Decode,
    Exact(u8),
    Limit(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Hostile {
    pub limit: u32,
    #[serde(default)]
    pub fill: u32,
    /// For each call: octets, how often they are repeated, and whether what
    /// the call before left over is kept in front of them.
    pub calls: Vec<(Call, B, u16, bool)>,
    /// How often the calls are made once more, on fresh buffers; what the
    /// decoder then keeps is measured.
    #[serde(default)]
    pub rounds: u32,
}

pub struct H07;

/// A few calls on a decoder with a small table, to be made many times.
fn gen_rounds(src: &mut Src) -> Hostile {
    let limit = *src.pick(&[0, 33, 64, 100, 200, 1000, 4096]);
    let t = Table::new(limit as u64);
    let mut calls = vec![];
    for _ in 0..1 + src.usize(4) {
        let call = match src.weighted(&[8, 4, 1]) {
            0 => Call::Decode,
            1 => Call::Exact(src.below(6) as u8),
            _ => Call::Limit(src.below(limit as u64 + 1) as u32),
        };
        let b = match src.weighted(&[3, 4, 1, 1]) {
            0 => gen_bad(src, &t, limit),
            1 => {
                let reps: Vec<Rep> = (0..1 + src.usize(3)).map(|_| gen_rep(src, &t)).collect();
                let mut b = wire(&reps);
                if src.chance(1, 3) {
                    let keep = src.usize(b.len() + 1);
                    b.truncate(keep);
                }
                b
            }
            2 => gen_noise(src, &t, limit),
            _ => {
                // one header of a chosen length
                let n = src.below(3000);
                let mut b = vec![*src.pick(&[0x40u8, 0x00, 0x10]), 1, b'a'];
                ora::put_int(&mut b, 0, 7, n, 0);
                b.extend(vec![src.byte(); n as usize]);
                b
            }
        };
        calls.push((call, B(b), 1, false));
    }
    let size: u64 = calls.iter().map(|c| c.1.len() as u64 + 60).sum();
    let budget = *src.pick(&[50_000u64, 400_000, 1_600_000]);
    Hostile { limit, fill: 0, calls, rounds: (budget / size).clamp(2, 66_000) as u32 }
}

/// Makes all calls of a case again and again.
fn rounds(d: &mut Decoder, case: &Hostile, limit: u32, cap: u64, ctx: &mut Ctx) -> Res {
    let inputs: Vec<(&Call, Vec<u8>)> = case.calls.iter().map(|(c, b, times, _)| (c, b.repeat((*times as usize).min(50)))).collect();
    let longest = inputs.iter().map(|i| i.1.len()).max().unwrap_or(0) as u64;
    let mut errors = 0u32;
    let mut all = |d: &mut Decoder| {
        for (call, bytes) in &inputs {
            let mut buf = bytes.clone();
            let r = match call {
                Call::Limit(l) => {
                    d.set_max_dynamic_size(*l);
                    continue;
                }
                Call::Decode => d.decode(&mut buf, &mut vec![]),
                Call::Exact(n) => d.decode_exact(&mut buf, &mut Vec::with_capacity(*n as usize)),
            };
            errors += r.is_err() as u32;
        }
    };
    sut("decoding the same blocks again and again", || {
        for _ in 0..case.rounds {
            all(d);
        }
        d.set_max_dynamic_size(limit);
    })?;
    let kept = usage().kept;
    // as many decoders, one after another
    sut("decoding the same blocks with new decoders", || {
        for _ in 0..case.rounds {
            all(&mut new_decoder(limit));
        }
    })?;
    let left = usage().kept;
    let bound = 4096 + 16 * cap + 8 * longest;
    ensure!(kept <= bound as i64, "after {} rounds of {} calls ({} refused) on blocks of up to {} octets the decoder keeps {} octets more than before, bound {} (table capacity {})", case.rounds, inputs.len(), errors, longest, kept, bound, cap);
    ensure!(left <= bound as i64, "{} decoders that made {} calls each on blocks of up to {} octets and were dropped leave {} octets, bound {} (table capacity {})", case.rounds, inputs.len(), longest, left, bound, cap);
    ctx.class(if errors > 0 { "rounds with refusals" } else { "rounds" });
    Ok(())
}

impl Prop for H07 {
    type Case = Hostile;
    const ID: &'static str = "H07";
    const QUICK: u64 = 15;
    const RULE: &'static str = "Histories of decode, decode_exact and limit changes over random, mutated, malformed and cut-off input, repeated patterns (table lookups, insertions, long runs of one octet) and huge declared lengths, with and without what the failed call before left over. No call may panic or run away; the heap growth of each call, measured by a counting allocator, is bounded by the octets given, the headers delivered and the table capacity; the decoder must then still decode, insert and look up. Calls are made again up to 66 000 times, and what the decoder then keeps is measured. Blocks of many thousand octets are among them. Non-trivial: at least one call failed and a later one was made.";
    const ASSUMPTIONS: &'static [&'static str] = &["bound used: 64 KiB + 24 x input + 8 x (delivered octets + 128 per header) + 16 x min(table capacity, 32 x input + delivered) + 128 per entry the table may have held before the call", "bound used for what is kept after many rounds: 4 KiB + 16 x table capacity + 8 x longest block"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("calls", tier.n(100_000, 5_000_000)), random("wide", tier.n(10_000, 500_000)), random("bulk", tier.n(600, 25_000)), random("rounds", tier.n(800, 30_000)), enumerated("declared", 4 * 2 * 29)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Hostile {
        if phase == "declared" {
            // every declared length 2^k (+-), in every position, with nothing behind it
            let n = 1u64 << (idx % 29);
            let h = if idx / 29 % 2 == 1 { 0x80 } else { 0 };
            let mut b = vec![];
            match idx / 58 {
                0 => b.push(0x00),
                1 => b.push(0x40),
                2 => b.extend([0x10, 1, b'a']),
                _ => b.push(0x41),
            }
            ora::put_int(&mut b, h, 7, n + 130, 0);
            b.extend(b"some octets");
            return Hostile { limit: 4096, fill: 0, calls: vec![(Call::Decode, B(b.clone()), 1, false), (Call::Exact(3), B(b), 1, false)], rounds: 0 };
        }
        if phase == "rounds" {
            return gen_rounds(src);
        }
        let (limit, fill, t) = start(src, phase == "wide");
        let mut calls = vec![];
        if phase == "bulk" {
            let unit = match src.below(6) {
                0 => vec![0xbe],
                1 => wire(&[gen_rep(src, &t)]),
                2 => vec![0x40, 1, src.byte(), 1, src.byte()],
                3 => vec![0x20],
                4 => vec![src.byte()],
                _ => gen_noise(src, &t, limit),
            };
            let first = wire(&[gen_rep(src, &t)]);
            calls.push((Call::Decode, B(first), 1, false));
            let times = 1 + src.below(1500) as u16;
            let c = if src.flip() { Call::Decode } else { Call::Exact(200) };
            calls.push((c, B(unit), times, false));
            // one long octet run as a string
            let n = src.below(60000);
            let mut b = vec![0x40];
            ora::put_int(&mut b, 0, 7, n, 0);
            b.extend(vec![b'x'; n as usize]);
            let huffman = src.flip();
            ora::put_int(&mut b, if huffman { 0x80 } else { 0 }, 7, n, 0);
            let fillb = if huffman { *src.pick(&[0u8, 0xff, 0x55]) } else { b'y' };
            b.extend(vec![fillb; n as usize]);
            calls.push((Call::Decode, B(b), 1, src.flip()));
            calls.push((Call::Decode, B(vec![]), 1, true));
            return Hostile { limit, fill, calls, rounds: 0 };
        }
        let n = 1 + src.usize(8);
        for _ in 0..n {
            let call = match src.weighted(&[8, 4, 1]) {
                0 => Call::Decode,
                1 => Call::Exact(src.below(6) as u8),
                _ => Call::Limit(if src.flip() { gen::edge_u32(src) } else { gen::capacity(src) }),
            };
            let b = match src.below(4) {
                0 => gen_bad(src, &t, limit.min(MAX_UPDATE)),
                1 => {
                    let mut b = wire(&[gen_rep(src, &t)]);
                    let keep = src.usize(b.len() + 1);
                    b.truncate(keep);
                    b
                }
                _ => gen_noise(src, &t, limit),
            };
            let times = if src.chance(1, 20) { 1 + src.below(60) as u16 } else { 1 };
            calls.push((call, B(b), times, src.chance(1, 3)));
        }
        Hostile { limit, fill, calls, rounds: 0 }
    }

    fn check(case: &Hostile, ctx: &mut Ctx) -> Res {
        let mut d = new_decoder(case.limit);
        fill_decoder(&mut d, &mut Table::new(case.limit as u64), case.fill)?;
        let mut limit = case.limit;
        let mut cap = case.limit as u64;
        let mut rest: Vec<u8> = vec![];
        let mut failed = false;
        // how many entries the table may have before the call: it may move to
        // twice the room for one more
        let mut held = case.fill as u64;
        for (call, bytes, times, keep) in &case.calls {
            let mut buf = if *keep { std::mem::take(&mut rest) } else { vec![] };
            for _ in 0..*times {
                if buf.len() > 400_000 {
                    break;
                }
                buf.extend_from_slice(bytes);
            }
            let len = buf.len();
            let mut dst: Dst = vec![];
            ctx.nontrivial(failed);
            let (r, room) = match call {
                Call::Limit(l) => {
                    sut("set_max_dynamic_size", || d.set_max_dynamic_size(*l))?;
                    limit = *l;
                    cap = cap.max(*l as u64);
                    rest = buf;
                    continue;
                }
                Call::Decode => (decode(&mut d, &mut buf, &mut dst)?, 0),
                Call::Exact(n) => {
                    dst = Vec::with_capacity(*n as usize);
                    (decode_exact(&mut d, &mut buf, &mut dst)?, *n as u64)
                }
            };
            let u = usage();
            let delivered: u64 = dst.iter().map(|h| h.0.len() as u64 + h.1.len() as u64).sum();
            let bound = 65536 + 24 * len as u64 + 8 * (delivered + 128 * (dst.len() as u64 + room)) + 16 * cap.min(32 * len as u64 + delivered) + 128 * held.min(cap / 32);
            held += len as u64 / 2;
            ensure!(u.peak as u64 <= bound, "{:?} on {} octets, delivering {} octets in {} headers, grew the heap by {} (largest allocation {}), bound {}", call, len, delivered, dst.len(), u.peak, u.largest, bound);
            ensure!(buf.len() <= len, "{:?} left {} of {} octets", call, buf.len(), len);
            match r {
                Ok(_) => {}
                Err(_) => {
                    failed = true;
                    ctx.class("failed call");
                }
            }
            rest = buf;
        }
        if case.rounds > 0 {
            rounds(&mut d, case, limit, cap, ctx)?;
            ctx.nontrivial(true);
        }
        // the decoder is still usable
        let mut block = vec![];
        let size = limit.min(MAX_UPDATE);
        ora::put_int(&mut block, 0x20, 5, 0, 0);
        ora::put_int(&mut block, 0x20, 5, size as u64, 0);
        block.extend([0x40, 1, b'a', 0x81, 0x1f]);
        if size >= 34 {
            block.push(0xbe);
        }
        block.push(0x82);
        let mut r = ora::Decoder::new(limit as u64);
        step(&mut d, &mut r, &mut block, &mut vec![])?;
        Ok(())
    }
}

// ---------------------------------------------------------------- H08

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Resume {
    /// Blocks, each fed in pieces; the numbers pick the cut points. `exact`
    /// feeds them to `decode_exact`.
    Cut { limit: u32, #[serde(default)] fill: u32, blocks: Vec<Vec<Rep>>, cuts: Vec<u16>, exact: bool },
    /// A valid block; a malformed field behind a few valid ones, and a tail;
    /// then valid blocks again.
    After { limit: u32, #[serde(default)] fill: u32, before: Vec<Rep>, head: Vec<Rep>, bad: B, tail: B, #[serde(default)] again: u32, after: Vec<Vec<Rep>> },
}

pub struct H08;

impl Prop for H08 {
    type Case = Resume;
    const ID: &'static str = "H08";
    const QUICK: u64 = 5;
    const RULE: &'static str = "Valid streams fed to the decoder in pieces: every single cut point of each stream (fresh decoder per cut), one octet at a time, and random cut sets, appending what is missing after each IntegerUnderflow; headers, remaining octets and table are compared with the reference after every call and with decoding everything at once. And a malformed field of every kind in front of a tail: the octets from that field on must stay, earlier fields be delivered once, and the following valid blocks decode as if the malformed field had never been there. The same malformed field is refused up to 65 600 times in a row, and one field arrives in up to 1500 calls. Non-trivial: a cut inside a field that changes the table or refers to the dynamic table, or a malformed field with entries in the table.";
    const ASSUMPTIONS: &'static [&'static str] = &["cut points of streams longer than 160 octets are sampled"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("cut", tier.n(20_000, 900_000)), random("after", tier.n(80_000, 4_000_000)), random("wide", tier.n(8_000, 400_000)), random("widecut", tier.n(600, 30_000)), random("insistent", tier.n(600, 30_000)), random("drip", tier.n(4, 200))]
    }

    fn gen(phase: &str, _idx: u64, src: &mut Src) -> Resume {
        let (limit, fill, mut t) = start(src, phase.starts_with("wide"));
        if phase == "drip" {
            // long strings, of which every call gets a few octets more
            let len = 2000 + src.usize(2000);
            let mut s = |len: usize| S { s: B(gen::blob(src, len)), huffman: src.flip(), extra: 0 };
            let reps = vec![Rep::Literal(Lit::Incremental, Name::New(s(30)), s(len)), Rep::Indexed(2, 0), Rep::Literal(Lit::Never, Name::Index(4, 0), s(len / 2))];
            return Resume::Cut { limit, fill, blocks: vec![reps], cuts: (0..1500).map(|_| src.below(65536) as u16).collect(), exact: src.flip() };
        }
        if phase.ends_with("cut") {
            let n = 1 + src.usize(3);
            let blocks = (0..n).map(|_| gen_block(src, &mut t, limit, 5)).collect();
            let n = src.usize(12);
            let cuts = (0..n).map(|_| src.below(65536) as u16).collect();
            return Resume::Cut { limit, fill, blocks, cuts, exact: src.flip() };
        }
        let before = gen_block(src, &mut t, limit, 5);
        let head = gen_block(src, &mut t, limit, 3);
        let bad = B(gen_bad(src, &t, limit));
        let tail = if src.flip() { B(gen_noise(src, &t, limit)) } else { B(vec![]) };
        let n = 1 + src.usize(2);
        let after = (0..n).map(|_| gen_block(src, &mut t, limit, 4)).collect();
        let again = if phase != "insistent" {
            0
        } else if src.chance(1, 40) {
            65_400 + src.below(200) as u32
        } else {
            2 + src.below(400) as u32
        };
        Resume::After { limit, fill, before, head, bad, tail, again, after }
    }

    fn check(case: &Resume, ctx: &mut Ctx) -> Res {
        match case {
            Resume::Cut { limit, fill, blocks, cuts, exact } => {
                let wires: Vec<Vec<u8>> = blocks.iter().map(|b| wire(b)).collect();
                let mut whole: Dst = vec![];
                let mut t = Table::new(*limit as u64);
                fill_reps(*fill).iter().for_each(|r| {
                    r.apply(&mut t);
                });
                for b in blocks {
                    for r in b {
                        ctx.nontrivial(matches!(r, Rep::Literal(Lit::Incremental, ..) | Rep::Update(..)) || matches!(r, Rep::Indexed(i, _) if *i > 61));
                        whole.extend(r.apply(&mut t));
                    }
                }
                // plans: cut sets for the whole stream
                let total: usize = wires.iter().map(|w| w.len()).sum();
                let mut plans: Vec<Vec<usize>> = vec![];
                if total <= 160 {
                    plans.extend((0..=total).map(|c| vec![c]));
                    plans.push((0..=total).collect());
                } else {
                    plans.extend(cuts.iter().map(|c| vec![*c as usize * (total + 1) / 65536]));
                    let short: Vec<usize> = (0..wires[0].len().min(40)).collect();
                    plans.push(short);
                }
                let mut multi: Vec<usize> = cuts.iter().map(|c| *c as usize * (total + 1) / 65536).collect();
                multi.sort();
                plans.push(multi);
                for plan in plans {
                    let mut d = new_decoder(*limit);
                    let mut r = ora::Decoder::new(*limit as u64);
                    fill_decoder(&mut d, &mut r.table, *fill)?;
                    let mut got: Dst = vec![];
                    let mut base = 0;
                    for w in &wires {
                        let mut buf: Vec<u8> = vec![];
                        let mut at = 0;
                        let ends = plan.iter().filter(|c| **c > base && **c < base + w.len()).map(|c| c - base).chain([w.len()]);
                        for end in ends {
                            buf.extend_from_slice(&w[at..end]);
                            at = end;
                            if *exact {
                                let want = r.decode(&buf);
                                let mut part: Dst = Vec::with_capacity(buf.len() + 1);
                                let input = buf.clone();
                                let res = decode_exact(&mut d, &mut buf, &mut part)?;
                                same_headers(&part, &want.headers)?;
                                ensure!(buf[..] == input[want.used..], "decode_exact left {} octets, expected {}", buf.len(), input.len() - want.used);
                                ensure!(res.is_err() == want.error.is_some(), "decode_exact returned {:?} at cut {}", res, base + at);
                                got.extend(part);
                            } else {
                                let mut part: Dst = vec![];
                                step_rest(&mut d, &mut r, &mut buf, &mut part)?;
                                got.extend(part);
                            }
                        }
                        ensure!(buf.is_empty(), "the complete block was not consumed (cuts {:?})", plan);
                        base += w.len();
                    }
                    same_headers(&got, &whole)?;
                    if plan.len() > 1 || plan.first().map_or(false, |c| c % 8 == 3) {
                        probe_decoder(&mut d, &t)?;
                    }
                }
                Ok(())
            }
            Resume::After { limit, fill, before, head, bad, tail, again, after } => {
                let mut d = new_decoder(*limit);
                let mut r = ora::Decoder::new(*limit as u64);
                fill_decoder(&mut d, &mut r.table, *fill)?;
                step_rest(&mut d, &mut r, &mut wire(before), &mut vec![])?;
                let mut buf = wire(head);
                buf.extend_from_slice(bad);
                buf.extend_from_slice(tail);
                let want = step_rest(&mut d, &mut r, &mut buf, &mut prefill(1))?;
                if want.error.is_some() {
                    ctx.nontrivial(!r.table.entries.is_empty());
                    ctx.class_if(!r.table.entries.is_empty(), "with entries in the table");
                    // the same call again fails again, and has no effect
                    let left = buf.clone();
                    step_rest(&mut d, &mut r, &mut buf, &mut vec![])?;
                    ensure!(buf == left, "a second attempt consumed octets of the failing field");
                    // nor has a later one
                    let first = decode(&mut d, &mut buf, &mut vec![])?;
                    for k in 0..*again {
                        let r = decode(&mut d, &mut buf, &mut vec![])?;
                        ensure!(r.is_err() && r == first && buf == left, "attempt {} gave {:?} and left {} of {} octets; before it was {:?}", k + 4, r, buf.len(), left.len(), first);
                    }
                    ctx.class_if(*again > 1000, "more than 65 000 attempts");
                }
                // The field is given up; an update the bad field held may have
                // changed the reference, so representations are re-read there.
                for block in after {
                    step_rest(&mut d, &mut r, &mut wire(block), &mut vec![])?;
                }
                probe_decoder(&mut d, &r.table)
            }
        }
    }
}

// ---------------------------------------------------------------- H12

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Pulls {
    pub limit: u32,
    #[serde(default)]
    pub fill: u32,
    pub blocks: Vec<Vec<Rep>>,
    /// For each call: headers the vector holds, and its free capacity.
    pub pulls: Vec<(u32, u32)>,
}

pub struct H12;

impl Prop for H12 {
    type Case = Pulls;
    const ID: &'static str = "H12";
    const QUICK: u64 = 6;
    const RULE: &'static str = "Valid streams with size updates at any place, pulled out by decode_exact into vectors with from none to tens of thousands of held headers and of free slots; each call must deliver exactly min(free slots, remaining headers), return the octets it removed, cut the input at a field boundary, and all calls together must give what one decode call gives to a second decoder (whose count is checked too). Some blocks have up to 140 000 headers. Non-trivial: some call fills the vector before the input ends, or a size update precedes, follows or lies between headers.";
    const ASSUMPTIONS: &'static [&'static str] = &["size updates behind the last header a call has room for may or may not be consumed by it"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("pulls", tier.n(120_000, 6_000_000)), random("wide", tier.n(12_000, 600_000)), enumerated("grid", 9 * 9 * 9), random("many", tier.n(600, 30_000)), enumerated("huge", 8)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Pulls {
        if phase == "grid" {
            // n headers, held p, free k
            let (n, p, k) = (idx / 81, (idx / 9 % 9) as u32, (idx % 9) as u32);
            let block = (0..n as u32).map(|i| Rep::Indexed(2 + i, 0)).collect();
            return Pulls { limit: 4096, fill: 0, blocks: vec![block], pulls: vec![(p, k)] };
        }
        if phase == "huge" {
            // more headers, and octets, than 16 bits count
            let n = [66_000u32, 140_000][idx as usize % 2];
            let value = S { s: B(vec![b'0'; 7]), huffman: idx % 3 == 0, extra: 0 };
            let block = (0..n).map(|i| if i % 1000 == 999 { Rep::Literal(Lit::Without, Name::Index(8, 0), value.clone()) } else { Rep::Indexed(1 + i % 61, 0) }).collect();
            let pulls = [vec![(0, 200_000)], vec![(3, 65_535), (0, 1)], vec![(0, 65_536), (1, 2)], vec![(70_000, 65_537), (300, 256)]][idx as usize / 2].clone();
            return Pulls { limit: 4096, fill: 0, blocks: vec![block], pulls };
        }
        if phase == "many" {
            // more headers than 8 bits count
            let (limit, fill, mut t) = start(src, false);
            let mut block = vec![];
            for _ in 0..src.usize(60) {
                let r = if src.chance(1, 9) { gen_update(src, &t, limit) } else { gen_rep(src, &t) };
                for _ in 0..if src.flip() { 1 } else { 1 + src.usize(40) } {
                    // its own insertion may have evicted what it refers to
                    if let Rep::Indexed(i, _) | Rep::Literal(_, Name::Index(i, _), _) = &r {
                        if *i as u64 > t.len() {
                            break;
                        }
                    }
                    r.apply(&mut t);
                    block.push(r.clone());
                }
            }
            let slots = |src: &mut Src| match src.below(3) {
                0 => src.below(9) as u32,
                1 => *src.pick(&[127, 128, 255, 256, 257, 511, 512]),
                _ => src.below(700) as u32,
            };
            let n = 1 + src.usize(5);
            let pulls = (0..n).map(|_| (slots(src), slots(src))).collect();
            return Pulls { limit, fill, blocks: vec![block], pulls };
        }
        let (limit, fill, mut t) = start(src, phase == "wide");
        let n = 1 + src.usize(2);
        let mut blocks = vec![];
        for _ in 0..n {
            let mut block = vec![];
            for _ in 0..src.usize(12) {
                let r = if src.chance(1, 5) { gen_update(src, &t, limit) } else { gen_rep(src, &t) };
                r.apply(&mut t);
                block.push(r);
            }
            blocks.push(block);
        }
        let n = 1 + src.usize(8);
        let pulls = (0..n).map(|_| (src.weighted(&[6, 2, 2, 1, 1, 1, 1, 1]) as u32, src.weighted(&[2, 6, 4, 2, 2, 1, 1, 1]) as u32)).collect();
        Pulls { limit, fill, blocks, pulls }
    }

    fn check(case: &Pulls, ctx: &mut Ctx) -> Res {
        let mut d = new_decoder(case.limit);
        let mut whole = Decoder::with_dynamic_size(case.limit);
        let mut r = ora::Decoder::new(case.limit as u64);
        fill_decoder(&mut d, &mut Table::new(case.limit as u64), case.fill)?;
        fill_decoder(&mut whole, &mut r.table, case.fill)?;
        let mut turn = 0;
        for block in &case.blocks {
            let bytes = wire(block);
            let want = r.decode(&bytes);
            if want.error.is_some() {
                fail!("harness: the reference refuses a generated block");
            }
            ctx.class_if(block.iter().any(|x| matches!(x, Rep::Update(..))), "size update");
            ctx.nontrivial(block.iter().any(|x| matches!(x, Rep::Update(..))));
            // the offsets at which the first n headers are complete
            let ends: Vec<usize> = [0].into_iter().chain(want.marks.iter().filter(|m| m.1).map(|m| m.0)).collect();
            let mut buf = bytes.clone();
            let mut pos = 0;
            let mut done = 0;
            let mut zeros = 0;
            while !buf.is_empty() {
                let (held, free) = case.pulls[turn % case.pulls.len()];
                turn += 1;
                // capacity 0 must make no progress for ever
                let free = if zeros > 2 { free.max(1) } else { free };
                let mut dst: Dst = Vec::with_capacity(held as usize + free as usize);
                dst.extend(prefill(held as usize));
                let slots = dst.capacity() - dst.len();
                let n = match decode_exact(&mut d, &mut buf, &mut dst)? {
                    Ok(n) => n,
                    Err(e) => fail!("decode_exact failed with {:?} at octet {} of a valid stream", e, pos),
                };
                let removed = bytes.len() - pos - buf.len().min(bytes.len() - pos);
                ensure!(buf[..] == bytes[pos + removed..], "decode_exact changed the octets it left");
                ensure!(n == removed, "decode_exact returned {} but removed {} octets", n, removed);
                ensure!(dst.len() >= held as usize && dst[..held as usize] == prefill(held as usize)[..], "decode_exact changed what the vector held");
                let fresh = &dst[held as usize..];
                let due = slots.min(want.headers.len() - done);
                ensure!(fresh.len() == due, "decode_exact delivered {} headers into {} free slots with {} remaining", fresh.len(), slots, want.headers.len() - done);
                same_headers(fresh, &want.headers[done..done + due])?;
                done += due;
                pos += removed;
                // the end of the last delivered header, or behind following updates
                let low = ends[done];
                let high = if done + 1 < ends.len() { ends[done + 1] } else { bytes.len() };
                let ok = (pos == low && (due > 0 || slots == 0 || removed == 0)) || (pos > low && pos <= high && want.marks.iter().any(|m| m.0 == pos && !m.1)) || (done == 0 && pos == 0);
                ensure!(ok, "decode_exact stopped at octet {}, which is no boundary behind header {}", pos, done);
                if slots > due {
                    ensure!(buf.is_empty(), "decode_exact left {} octets though the vector had room", buf.len());
                }
                ctx.class_if(due == slots && !buf.is_empty() && slots > 0, "vector filled");
                ctx.nontrivial(due == slots && !buf.is_empty() && slots > 0);
                ctx.class_if(slots == 0, "no free slot");
                ctx.class_if(held > 0, "vector already holds headers");
                zeros = if removed == 0 { zeros + 1 } else { 0 };
                ensure!(zeros < 8, "decode_exact makes no progress");
            }
            ensure!(done == want.headers.len(), "{} headers of {} were delivered", done, want.headers.len());
            // an exhausted buffer
            let mut dst: Dst = Vec::with_capacity(2);
            let n = decode_exact(&mut d, &mut buf, &mut dst)?;
            ensure!(matches!(n, Ok(0)) && dst.is_empty(), "decode_exact of an empty buffer returned {:?}", n);

            let mut buf = bytes.clone();
            let mut dst = prefill(turn % 3);
            let held = dst.len();
            let n = match decode(&mut whole, &mut buf, &mut dst)? {
                Ok(n) => n,
                Err(e) => fail!("decode failed with {:?} on a valid stream", e),
            };
            ensure!(n == bytes.len() - buf.len(), "decode returned {} but removed {} octets", n, bytes.len() - buf.len());
            same_headers(&dst[held..], &want.headers)?;
        }
        Ok(())
    }
}
