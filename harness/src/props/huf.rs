//! Properties of the Huffman crate: F01 encoding and round trip, F02 accepted
//! sequences, F03 translation matrices and the parser.

use super::h_dec::{bad_huffman, huff_symbol};
use crate::engine::{enumerated, random, salt, spare, sut, Ctx, Fail, Phase, Placed, Prop, Res, Tier};
use crate::gen;
use crate::oracle::huff;
use crate::oracle::tables::CODES;
use crate::src::Src;
use crate::types::{show, B};
use httlib_huffman::{self as hm, DecoderError, DecoderSpeed};
use serde::{Deserialize, Serialize};

pub const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];

fn bits_of(data: &[u8]) -> usize {
    data.iter().map(|c| CODES[*c as usize].1 as usize).sum()
}

// ---------------------------------------------------------------- F01

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Plain {
    Data { data: B, before: B },
    /// All strings of this octet and a second one, at every bit offset.
    Pairs(u8),
}

pub struct F01;

fn round_trip(data: &[u8], before: &[u8]) -> Res {
    let want = huff::encode(data);
    let mut dst = before.to_vec();
    spare(&mut dst, 0);
    let placed = Placed::new(data);
    let r = sut("encode", || hm::encode(placed.get(), &mut dst))?;
    ensure!(r.is_ok(), "encoding {} failed: {:?}", show(data), r);
    ensure!(dst.len() >= before.len() && dst[..before.len()] == *before, "encoding changed earlier output");
    let got = dst.split_off(before.len());
    ensure!(got == want, "{} was encoded as {}, expected {}", show(data), show(&got), show(&want));
    let placed = Placed::new(&got);
    for s in SPEEDS {
        let mut out = before.to_vec();
        spare(&mut out, s as u64);
        let r = sut("decode", || hm::decode(placed.get(), &mut out, s))?;
        ensure!(r.is_ok(), "decoding the encoding of {} with {:?} failed: {:?}", show(data), s, r);
        ensure!(out.len() >= before.len() && out[..before.len()] == *before, "decoding with {:?} changed earlier output", s);
        ensure!(out[before.len()..] == *data, "decoding the encoding of {} with {:?} gave {}", show(data), s, show(&out[before.len()..]));
    }
    Ok(())
}

/// Lengths far beyond 16 and 21 bits, as are the numbers of their bits.
const FAR: [usize; 8] = [65_600, 300_000, 1 << 20, (1 << 21) + 3, 2_800_000, (1 << 22) + 1, 1 << 24, (1 << 25) + 7];

impl Prop for F01 {
    type Case = Plain;
    const ID: &'static str = "F01";
    const QUICK: u64 = 8;
    const RULE: &'static str = "Byte strings (all pairs of octets at all 8 bit offsets, enumerated; all strings of up to 2 octets; random ones of many distributions; lengths up to 2.8 million, thorough 32 million) are encoded behind earlier output, compared bit by bit with the code table of RFC 7541 taken from another implementation, and decoded at the five speeds behind earlier output. Non-trivial: the string has at least two octets and one with a code of 10 bits or more, or its bits do not fill whole octets.";
    const ASSUMPTIONS: &'static [&'static str] = &[];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("pairs", 256), random("strings", tier.n(60_000, 3_000_000)), random("long", tier.n(300, 12_000)), enumerated("far", tier.n(5, 8))]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Plain {
        match phase {
            "pairs" => Plain::Pairs(idx as u8),
            "strings" => {
                let data = match src.below(3) {
                    0 => gen::bytes(src),
                    1 => {
                        let n = src.usize(40);
                        (0..n).map(|_| huff_symbol(src) as u8).collect()
                    }
                    _ => {
                        let n = src.usize(300);
                        gen::blob(src, n)
                    }
                };
                let before = gen::earlier(src);
                Plain::Data { data: B(data), before: B(before) }
            }
            "far" => Plain::Data { data: B(gen::fill([3, 1, 2][idx as usize % 3], idx, FAR[idx as usize])), before: B(b"x".to_vec()) },
            _ => {
                let n = *src.pick(gen::FAR_LENS);
                Plain::Data { data: B(gen::blob(src, n)), before: B(b"x".to_vec()) }
            }
        }
    }

    fn check(case: &Plain, ctx: &mut Ctx) -> Res {
        match case {
            Plain::Data { data, before } => {
                let bits = bits_of(data);
                ctx.nontrivial(bits % 8 != 0 || data.len() > 1 && data.iter().any(|c| CODES[*c as usize].1 >= 10));
                ctx.class_if(bits % 8 == 0 && bits > 0, "no padding");
                ctx.class_if(bits % 8 == 1, "7 bits of padding");
                ctx.class_if(data.is_empty(), "empty");
                round_trip(data, before)
            }
            Plain::Pairs(a) => {
                ctx.nontrivial(true);
                round_trip(&[*a], b"")?;
                let mut s = vec![];
                for offset in 0..8 {
                    for b in 0..=255u8 {
                        s.clear();
                        s.resize(offset, b'0');
                        s.extend([*a, b]);
                        round_trip(&s, b"")?;
                    }
                }
                if *a == 0 {
                    round_trip(b"", b"before")?;
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- F02

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Coded {
    Data(B),
    /// All sequences that begin with these octets and have one more.
    Sweep(B),
}

pub struct F02;

fn differ(data: &[u8], before: &[u8]) -> Result<bool, Fail> {
    let mut want = vec![];
    let ok = huff::decode(data, &mut want);
    let placed = Placed::new(data);
    for s in SPEEDS {
        let mut out = before.to_vec();
        spare(&mut out, s as u64);
        let r = sut("decode", || hm::decode(placed.get(), &mut out, s))?;
        match (&ok, r) {
            (Ok(()), Ok(())) => {
                ensure!(out.len() >= before.len() && out[..before.len()] == *before, "decoding {} with {:?} changed earlier output", show(data), s);
                ensure!(out[before.len()..] == want[..], "decoding {} with {:?} gave {}, expected {}", show(data), s, show(&out[before.len()..]), show(&want));
            }
            (Ok(()), Err(e)) => fail!("{:?} refused {} ({:?}), which is {}", s, show(data), e, show(&want)),
            (Err(bad), Ok(())) => fail!("{:?} accepted {} as {}, which is invalid ({:?})", s, show(data), show(&out[before.len()..]), bad),
            (Err(_), Err(DecoderError::InvalidInput)) => {}
        }
    }
    Ok(ok.is_ok())
}

impl Prop for F02 {
    type Case = Coded;
    const ID: &'static str = "F02";
    const QUICK: u64 = 5;
    const RULE: &'static str = "Differential against a bit-by-bit reference at the five speeds: every sequence of up to 3 octets (thorough: also every 4-octet sequence whose first octet is one of 16), coded symbols followed by every kind of padding (0 to 29 bits, one wrong bit, zeros), EOS at any place, truncated codes, and mutated and random octets of up to some thousand. Sequences of up to megabytes, valid and broken at their end, are among them. Non-trivial: the sequence is not empty and has a complete code or is refused.";
    const ASSUMPTIONS: &'static [&'static str] = &["what a refused sequence leaves in the output vector is not looked at"];

    fn phases(tier: Tier) -> Vec<Phase> {
        let mut v = vec![enumerated("sweep3", 65536 + 256 + 1), random("structured", tier.n(150_000, 8_000_000)), random("random", tier.n(80_000, 4_000_000)), random("long", tier.n(300, 12_000)), enumerated("padding", 257 * 31 * 3), enumerated("far", 2 * tier.n(5, 8))];
        if tier == Tier::Thorough {
            v.push(enumerated("sweep4", 16 * 65536));
        }
        v
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Coded {
        match phase {
            "sweep3" => Coded::Sweep(B(match idx {
                0 => vec![],
                1..=256 => vec![(idx - 1) as u8],
                _ => vec![((idx - 257) >> 8) as u8, (idx - 257) as u8],
            })),
            "sweep4" => {
                let first = [0xff, 0xfe, 0x00, 0xf8, 0x7f, 0xfd, 0xa5, 0x1f, 0xfb, 0xc7, 0x80, 0x3f, 0xef, 0xbf, 0x57, 0xf0][(idx >> 16) as usize];
                Coded::Sweep(B(vec![first, (idx >> 8) as u8, idx as u8]))
            }
            "padding" => {
                // symbol, number of one-bits behind it, number of symbols before
                let mut b = huff::Bits::default();
                for _ in 0..idx % 3 {
                    b.push_sym(b'0' as usize);
                }
                b.push_sym((idx / 3 / 31) as usize);
                for _ in 0..idx / 3 % 31 {
                    b.push(true);
                }
                // the rest of the last octet: zeros make most of these invalid,
                // every 8th has none
                Coded::Data(B(b.bytes))
            }
            "structured" => {
                if src.flip() {
                    return Coded::Data(B(bad_huffman(src)));
                }
                let mut b = huff::Bits::default();
                for _ in 0..src.usize(12) {
                    let s = huff_symbol(src);
                    b.push_sym(s);
                }
                while b.room() > 0 {
                    b.push(true);
                }
                let mut b = b.bytes;
                if !b.is_empty() && src.flip() {
                    let at = src.usize(b.len());
                    match src.below(4) {
                        0 => b[at] ^= 1 << src.below(8),
                        1 => b.truncate(at),
                        2 => b.insert(at, 0xff),
                        _ => b.push(0xff),
                    }
                }
                Coded::Data(B(b))
            }
            "random" => {
                let n = src.usize(24);
                let style = src.below(3);
                Coded::Data(B((0..n)
                    .map(|_| match style {
                        0 => src.byte(),
                        1 => src.byte() & src.byte(),
                        _ => src.byte() | src.byte() | src.byte(),
                    })
                    .collect()))
            }
            "far" => {
                let mut b = huff::encode(&gen::fill([3, 1, 2][idx as usize % 3], idx, FAR[idx as usize / 2]));
                if idx % 2 == 1 {
                    let last = b.len() - 1;
                    b[last] ^= 1;
                }
                Coded::Data(B(b))
            }
            _ => {
                let n = *src.pick(&[100usize, 1000, 5000, 16384]);
                let mut b = huff::encode(&gen::blob(src, n));
                match src.below(4) {
                    0 => {}
                    1 => {
                        let at = src.usize(b.len());
                        b[at] ^= 1 << src.below(8);
                    }
                    2 => b.push(0xff),
                    _ => b.truncate(b.len() - 1),
                }
                Coded::Data(B(b))
            }
        }
    }

    fn check(case: &Coded, ctx: &mut Ctx) -> Res {
        match case {
            Coded::Data(d) => {
                // mostly little, sometimes much in the output beforehand
                let x = salt();
                let before = match x % 256 {
                    0 => (x >> 8) % 80_000,
                    1..=8 => (x >> 8) % 6000,
                    9..=40 => (x >> 8) % 300,
                    _ => (x >> 8) % 6,
                };
                let ok = differ(d, &gen::fill(3, x, before as usize))?;
                ctx.nontrivial(!d.is_empty());
                ctx.class(if ok { "valid" } else { "invalid" });
            }
            Coded::Sweep(start) => {
                if start.is_empty() {
                    let known = DecoderSpeed::known();
                    ensure!(known.len() == 5 && SPEEDS.iter().all(|s| known.contains(s)), "the known speeds are {:?}", known);
                    differ(b"", b"kept")?;
                }
                let mut d = start.0.clone();
                d.push(0);
                let last = d.len() - 1;
                for b in 0..=255 {
                    d[last] = b;
                    differ(&d, b"")?;
                }
                ctx.nontrivial(true);
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- F03

type Matrix = Vec<Vec<(Option<u8>, Option<u16>, u8)>>;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Coding {
    /// A complete prefix code, symbol strings are walked over its matrices.
    Code { codes: Vec<(u8, u32)>, strings: Vec<Vec<u16>> },
    /// Strings walked over the shipped matrices.
    Shipped { strings: Vec<Vec<u16>> },
    /// A code table rendered in the layout of the RFC.
    Table { codes: Vec<(u8, u32)>, newline: bool },
}

pub struct F03;

/// Random complete prefix code of `n` symbols.
fn gen_code(src: &mut Src) -> Vec<(u8, u32)> {
    let n = match src.below(4) {
        0 => 2 + src.usize(6),
        1 => 2 + src.usize(60),
        2 => 257 - src.usize(4),
        _ => 2 + src.usize(256),
    };
    let style = src.below(4);
    let mut leaves: Vec<(u8, u32)> = vec![(1, 0), (1, 1)];
    while leaves.len() < n {
        let open: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i].0 < 30).collect();
        let at = match style {
            0 => open[src.usize(open.len())],
            // deep: the last one that was split
            1 => *open.last().unwrap(),
            // balanced
            2 => *open.iter().min_by_key(|i| leaves[**i].0).unwrap(),
            _ => {
                if src.chance(1, 4) {
                    open[src.usize(open.len())]
                } else {
                    *open.last().unwrap()
                }
            }
        };
        let (l, c) = leaves.remove(at);
        let (a, b) = ((l + 1, c << 1), (l + 1, c << 1 | 1));
        if src.flip() {
            leaves.push(a);
            leaves.push(b);
        } else {
            leaves.push(b);
            leaves.push(a);
        }
    }
    // which symbol has which code
    for i in (1..leaves.len()).rev() {
        let j = src.usize(i + 1);
        leaves.swap(i, j);
    }
    leaves
}

fn gen_strings(src: &mut Src, n: usize) -> Vec<Vec<u16>> {
    (0..1 + src.usize(3)).map(|_| (0..src.usize(20)).map(|_| src.usize(n) as u16).collect()).collect()
}

fn walk(m: &Matrix, speed: usize, codes: &[(u8, u32)], string: &[u16]) -> Res {
    let mut bits = huff::Bits::default();
    for s in string {
        let (l, c) = codes[*s as usize];
        bits.push_code(c, l);
    }
    let total = bits.len;
    // what lies behind the string must not matter
    for filler in [false, true] {
        let mut b = bits.clone();
        for _ in 0..speed {
            b.push(filler);
        }
        let (mut at, mut id, mut out) = (0usize, 0usize, vec![]);
        while at < total {
            let mut key = 0;
            for i in at..at + speed {
                key = key << 1 | (b.bytes[i / 8] >> (7 - i % 8) & 1) as usize;
            }
            let row = m.get(id).ok_or(Fail(format!("speed {}: there is no row {} (string {:?})", speed, id, string)))?;
            let (next, sym, left) = *row.get(key).ok_or(Fail(format!("speed {}: row {} has no transition {}", speed, id, key)))?;
            ensure!((left as usize) < speed, "speed {}: row {} transition {} leaves {} bits over", speed, id, key, left);
            match (sym, next) {
                (Some(s), _) => {
                    out.push(s);
                    at += speed - left as usize;
                    id = 0;
                }
                (None, Some(next)) => {
                    at += speed;
                    id = next as usize;
                }
                (None, None) => fail!("speed {}: row {} transition {} leads nowhere at bit {} of {:?}", speed, id, key, at, string),
            }
        }
        ensure!(out == string && at == total && id == 0, "speed {}: walking the codes of {:?} yields {:?} and {} of {} bits", speed, string, out, at, total);
    }
    Ok(())
}

fn walk_all(m: &Matrix, speed: usize, codes: &[(u8, u32)], strings: &[Vec<u16>]) -> Res {
    for s in 0..codes.len() as u16 {
        walk(m, speed, codes, &[s])?;
        walk(m, speed, codes, &[s, codes.len() as u16 - 1 - s, s])?;
    }
    for s in strings {
        walk(m, speed, codes, s)?;
    }
    Ok(())
}

/// Renders a code table like RFC 7541 appendix B.
pub fn render(codes: &[(u8, u32)], newline: bool) -> String {
    let lines: Vec<String> = codes
        .iter()
        .enumerate()
        .map(|(sym, (len, code))| {
            let mut bits = String::new();
            for i in 0..*len {
                if i % 8 == 0 {
                    bits.push('|');
                }
                bits.push(if code >> (len - 1 - i) & 1 == 1 { '1' } else { '0' });
            }
            let name = match sym {
                0x20..=0x7e => format!("'{}'", sym as u8 as char),
                256 => "EOS".into(),
                _ => "   ".into(),
            };
            format!("{} ({:>3})  {:<34} {:>12}  [{:>2}]", name, sym, bits, format!("{:x}", code), len)
        })
        .collect();
    let mut s = lines.join("\n");
    if newline && !codes.is_empty() {
        s.push('\n');
    }
    s
}

fn shipped() -> Vec<(usize, Matrix)> {
    fn own<const N: usize, const M: usize>(t: &[[(Option<u8>, Option<u16>, u8); M]; N]) -> Matrix {
        t.iter().map(|r| r.to_vec()).collect()
    }
    use hm::decoder::*;
    vec![
        (1, own(&table1::DECODE_TABLE)),
        (2, own(&table2::DECODE_TABLE)),
        (3, own(&table3::DECODE_TABLE)),
        (4, own(&table4::DECODE_TABLE)),
        (5, own(&table5::DECODE_TABLE)),
    ]
}

fn hpack_code() -> Vec<(u8, u32)> {
    CODES.iter().map(|(c, l)| (*l, *c)).collect()
}

impl Prop for F03 {
    type Case = Coding;
    const ID: &'static str = "F03";
    const QUICK: u64 = 3;
    const RULE: &'static str = "Random complete prefix codes (2 to 257 symbols, 1 to 30 bits, skewed, balanced and mixed trees, symbols shuffled): the matrix made for each speed is walked by an independent interpreter over the codes of every single symbol and of random strings, with both fillings behind the end; the shipped matrices likewise for the HPACK code, all symbol pairs enumerated; code tables rendered in the RFC layout must parse to the same codes. Non-trivial: a code with lengths that differ and some code that is no multiple of the speed.";
    const ASSUMPTIONS: &'static [&'static str] = &["complete prefix codes, whose matrices have at most 256 rows (row numbers are 8-bit)", "code tables list symbols 0, 1, 2, ... in order, as the RFC does"];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("code", tier.n(2_500, 120_000)), enumerated("shipped", 257), random("shipped-strings", tier.n(2_000, 100_000)), random("table", tier.n(6_000, 300_000)), enumerated("hpack", 2)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Coding {
        match phase {
            "code" => {
                let codes = gen_code(src);
                let strings = gen_strings(src, codes.len());
                Coding::Code { codes, strings }
            }
            "shipped" => Coding::Shipped { strings: (0..257).map(|b| vec![idx as u16, b]).collect() },
            "shipped-strings" => Coding::Shipped { strings: gen_strings(src, 257) },
            "table" => {
                let codes = if src.flip() {
                    gen_code(src)
                } else {
                    (0..src.usize(20))
                        .map(|_| {
                            let l = 1 + src.below(30) as u8;
                            (l, src.below(1 << l) as u32)
                        })
                        .collect()
                };
                Coding::Table { codes, newline: src.flip() }
            }
            _ => {
                if idx == 0 {
                    Coding::Table { codes: hpack_code(), newline: false }
                } else {
                    Coding::Code { codes: hpack_code(), strings: vec![] }
                }
            }
        }
    }

    fn check(case: &Coding, ctx: &mut Ctx) -> Res {
        match case {
            Coding::Code { codes, strings } => {
                ctx.nontrivial(codes.iter().any(|c| c.0 != codes[0].0));
                ctx.class_if(codes.len() == 257, "257 symbols");
                ctx.class_if(codes.iter().any(|c| c.0 == 30), "30-bit codes");
                for s in SPEEDS {
                    let m = sut("flatten", || hm::flattener::flatten(codes, s))?;
                    walk_all(&m, s as usize, codes, strings)?;
                }
            }
            Coding::Shipped { strings } => {
                ctx.nontrivial(strings.iter().any(|s| !s.is_empty()));
                let codes = hpack_code();
                for (speed, m) in shipped() {
                    for s in strings {
                        walk(&m, speed, &codes, s)?;
                    }
                }
            }
            Coding::Table { codes, newline } => {
                let text = render(codes, *newline);
                let got = sut("parse", || hm::parser::parse(&text))?;
                let want: Vec<(u16, u32)> = codes.iter().map(|c| (c.0 as u16, c.1)).collect();
                ctx.nontrivial(codes.len() > 1);
                ensure!(got.len() == want.len(), "{} codes parsed from a table of {}", got.len(), want.len());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    ensure!(g == w, "the line {:?} was parsed as {:?}", text.lines().nth(i), g);
                }
            }
        }
        Ok(())
    }
}
