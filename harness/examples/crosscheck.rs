//! Writes generated streams and what the reference models make of them, for
//! tools/crosscheck.sh to compare with other implementations.
//!   C limit          a new connection
//!   B hex            a block
//!   H name value 0|1 a header it delivers, and whether it is sensitive
//!   E kind           how the block ends: ok, or the first fault
//!   S hex hex|-      a Huffman sequence and what it decodes to
//!   P hex            a proto3 message
//!   F tag typ hex    a field of it
//!   Q kind           how the message ends
//!   V kind raw hex   the encoding of a scalar

use std::io::Write;
use vh::engine::{Prop, Tier};
use vh::oracle::{hpack as ora, huff, proto};
use vh::props::h_dec::{bad_huffman, huff_symbol, Malformed, H05, H06};
use vh::props::hp::wire;
use vh::src::{mix, Src};

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return ".".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let n: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(20000);
    let seed: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let _ = Tier::Quick;
    let mut emit = |limit: u32, blocks: Vec<Vec<u8>>| {
        writeln!(out, "C {}", limit).unwrap();
        let mut r = ora::Decoder::new(limit as u64);
        for b in blocks {
            writeln!(out, "B {}", hex(&b)).unwrap();
            let d = r.decode(&b);
            // x/net takes one update only, at the start
            let late = d.marks.iter().skip(1).any(|m| !m.1);
            for h in &d.headers {
                writeln!(out, "H {} {} {}", hex(&h.0), hex(&h.1), (h.2 & 8) / 8).unwrap();
            }
            match d.error {
                None if late => writeln!(out, "E late").unwrap(),
                None => writeln!(out, "E ok").unwrap(),
                Some(e) => writeln!(out, "E {:?}{}", e[0], if late { " late" } else { "" }).unwrap(),
            }
        }
    };
    for i in 0..n {
        let mut s = Src::seeded(mix(seed) ^ mix(i));
        let phase = if i % 97 == 0 { "wide" } else { "blocks" };
        let c = H05::gen(phase, i, &mut s);
        if c.fill == 0 {
            emit(c.limit, c.blocks.iter().map(|b| wire(&b.0)).collect());
        }
        let phase = if i % 2 == 0 { "malformed" } else { "noise" };
        if let Malformed::Blocks { limit, before, inputs, .. } = H06::gen(phase, i, &mut s) {
            // each input on its own: other decoders do not go on after an error
            for b in inputs {
                emit(limit, vec![wire(&before), b.0]);
            }
        }
    }
    for i in 0..n * 4 {
        let mut s = Src::seeded(mix(seed + 7) ^ mix(i));
        let b = match i % 3 {
            0 => bad_huffman(&mut s),
            1 => {
                let n = s.usize(12);
                let d: Vec<u8> = (0..n).map(|_| huff_symbol(&mut s) as u8).collect();
                huff::encode(&d)
            }
            _ => {
                let n = s.usize(6);
                (0..n).map(|_| s.byte()).collect()
            }
        };
        let mut d = vec![];
        let ok = huff::decode(&b, &mut d).is_ok();
        writeln!(out, "S {} {}", hex(&b), if ok { hex(&d) } else { "-".into() }).unwrap();
    }
    for i in 0..n * 4 {
        let mut s = Src::seeded(mix(seed + 9) ^ mix(i));
        let mut b = vec![];
        for _ in 0..s.usize(6) {
            let odd = 3 + s.below(5) / 4;
            let typ = *s.pick(&[0u64, 1, 2, 5, 2, 0, 0, odd]);
            let tag = if s.chance(1, 4) { vh::gen::edge_u32(&mut s) as u64 & 0x1fff_ffff } else { 1 + s.below(40) };
            let key = tag << 3 | typ;
            let spare = |v: u64| 10 - proto::varint_len(v);
            let x = if s.chance(1, 5) { s.usize(spare(key) + 1) } else { 0 };
            proto::put_varint(&mut b, key, x);
            match typ {
                0 => {
                    let v = vh::gen::edge_u64(&mut s);
                    let x = if s.chance(1, 5) { s.usize(spare(v) + 1) } else { 0 };
                    proto::put_varint(&mut b, v, x);
                }
                2 => {
                    let len = s.usize(200);
                    let x = if s.chance(1, 5) { s.usize(8) } else { 0 };
                    proto::put_varint(&mut b, len as u64, x);
                    b.extend((0..len).map(|_| s.byte()));
                }
                _ => b.extend((0..if typ == 1 { 8 } else { 4 }).map(|_| s.byte())),
            }
        }
        if i % 2 == 1 && !b.is_empty() {
            let at = s.usize(b.len());
            match s.below(4) {
                0 => b[at] = s.byte(),
                1 => b[at] ^= 0x80,
                2 => b.truncate(at),
                _ => b.insert(at, 0x80 | s.byte()),
            }
        }
        writeln!(out, "P {}", hex(&b)).unwrap();
        let f = proto::frames(&b);
        for (tag, typ, v) in f.fields {
            writeln!(out, "F {} {} {}", tag, typ, hex(&v)).unwrap();
        }
        match f.end {
            proto::End::Complete => writeln!(out, "Q complete"),
            proto::End::More => writeln!(out, "Q more"),
            proto::End::Bad { why, .. } => writeln!(out, "Q bad {}", why),
            proto::End::Soon { .. } => writeln!(out, "Q soon"),
            proto::End::Unsure => writeln!(out, "Q unsure"),
        }
        .unwrap();
        let k = proto::KINDS[(i % 13) as usize];
        let raw = k.clip(vh::gen::edge_u64(&mut s));
        let mut e = vec![];
        proto::put_elem(&mut e, k, raw);
        writeln!(out, "V {:?} {} {}", k, raw, hex(&e)).unwrap();
    }
}
