//! Properties of the Protocol Buffers decoder: P03 framing, P04 chunking, P05
//! malformed input, P06 conversions.

use super::pb::{self, Body, Fields, Out, Raw, L, T, TARGETS};
use crate::engine::{enumerated, random, sut, usage, Ctx, Phase, Prop, Res, Tier};
use crate::gen;
use crate::oracle::proto::{self as ora, Conv, End, K};
use crate::src::Src;
use crate::types::{show, B};
use httlib_protos::{Decoder, Typ};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;

fn plain(n: u64) -> Fields {
    let all = [(7u32, Typ::Bit32, vec![1u8, 2, 3, 4]), (1, Typ::LengthDelimited, vec![]), (9, Typ::Unknown, vec![0xff])];
    all.iter().cycle().take(n as usize).map(|(a, b, c)| (*a, *b, c.clone())).collect()
}

fn kept(dst: &Fields, n: u64) -> Res {
    let want = plain(n);
    ensure!(dst.len() >= want.len(), "fields that were in the output are gone");
    for (a, b) in dst.iter().zip(&want) {
        ensure!(a.0 == b.0 && a.1 == b.1 && a.2 == b.2, "a field that was in the output changed");
    }
    Ok(())
}

// ---------------------------------------------------------------- P03

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Msg {
    pub fields: Vec<Raw>,
    /// Fields that are in the output beforehand.
    #[serde(default)]
    pub before: u64,
    /// Messages that this decoder decodes first, of this many fields.
    #[serde(default)]
    pub warm: Vec<usize>,
}

pub struct P03;

fn unusual(f: &Raw) -> bool {
    f.key_extra > 0
        || match &f.body {
            Body::Varint(_, x) => *x > 0,
            Body::Ld(b, x) => *x > 0 || b.is_empty(),
            _ => false,
        }
}

fn whole(d: &mut Decoder, fields: &[Raw], before: u64) -> Res {
    let (bytes, want) = pb::message(fields);
    let mut buf = bytes.clone();
    let mut dst = plain(before);
    let r = pb::decode(d, &mut buf, &mut dst)?;
    ensure!(r == Ok(bytes.len()), "decoding {} returned {:?}, expected {}", show(&bytes), r, bytes.len());
    ensure!(buf.is_empty(), "decoding {} left {} in the buffer", show(&bytes), show(&buf));
    kept(&dst, before)?;
    pb::same_fields(&dst[before as usize..], &want)
}

impl Prop for P03 {
    type Case = Msg;
    const ID: &'static str = "P03";
    const QUICK: u64 = 20;
    const RULE: &'static str = "An independent writer makes valid messages: fields of the four wire types with tags next to every key length, repeated and unordered, varint values of all widths, empty and long length-delimited fields, and keys, values and lengths written with up to 10 octets; one decode call into an output that may hold earlier fields is compared with the list of fields. A decoder that has decoded other messages before is used too. Some repeat or nearly repeat earlier fields; some have up to 131 073 fields or contents of 4 MiB. Non-trivial: at least two fields, or one that is empty or not written the shortest way.";
    const ASSUMPTIONS: &'static [&'static str] = &["A varint of 10 octets has no bits beyond the 64th; what a decoder makes of those is not specified."];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("single", 4 * 65 * 10), random("messages", tier.n(500_000, 15_000_000)), random("long", tier.n(2_000, 60_000)), random("bulk", tier.n(8, 400))]
    }
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Msg {
        match phase {
            "single" => {
                // a field by width of its value and of its key
                let (typ, bit, key) = (idx / 650, (idx / 10 % 65) as u32, (idx % 10) as u8);
                let v = ((1u128 << bit) - 1) as u64;
                let tag = ((1u64 << (bit % 29 + 1)) - 1) as u32;
                let room = |v: u64| (10 - ora::varint_len(v)) as u8;
                let body = match typ {
                    0 => Body::Varint(v, (key / 2).min(room(v))),
                    1 => Body::Bit64(v),
                    2 => Body::Ld(B(gen::fill(3, idx, bit as usize * 5)), (key / 2).min(room(bit as u64 * 5))),
                    _ => Body::Bit32(v as u32),
                };
                let mut f = Raw { tag, key_extra: 0, body };
                f.key_extra = key.min(room((tag as u64) << 3 | f.wire() as u64));
                let end = Raw { tag: 1, key_extra: 0, body: Body::Varint(0, 0) };
                Msg { fields: vec![f, end], before: idx % 3, warm: vec![] }
            }
            p => {
                let fields = match p {
                    "bulk" => pb::bulk_message(src),
                    "long" => pb::gen_message(src, 300),
                    _ => pb::gen_message(src, 9),
                };
                let n = src.usize(3);
                let warm = (0..n).map(|_| src.usize(5)).collect();
                Msg { fields, before: gen::held(src) as u64, warm }
            }
        }
    }
    fn check(case: &Msg, ctx: &mut Ctx) -> Res {
        ctx.nontrivial(case.fields.len() > 1 || case.fields.iter().any(unusual));
        ctx.class_if(case.fields.is_empty(), "empty message");
        ctx.class_if(case.fields.iter().any(unusual), "empty or not shortest");
        ctx.class_if(matches!(case.fields.last(), Some(Raw { body: Body::Ld(b, _), .. }) if b.is_empty()), "empty field at the end");
        let mut d = Decoder::default();
        for n in &case.warm {
            whole(&mut d, &case.fields[..(*n).min(case.fields.len())], 0)?;
        }
        whole(&mut d, &case.fields, case.before)
    }
}

// ---------------------------------------------------------------- feeding

struct Feed {
    d: Decoder,
    buf: Vec<u8>,
    dst: Fields,
    before: u64,
    fed: Vec<u8>,
    removed: usize,
    calls: u64,
    /// Whether the returned number is looked at.
    counts: bool,
}

#[derive(PartialEq, Debug)]
enum Next {
    /// The input so far is fine.
    On,
    /// It was refused.
    Refused,
    /// What follows is not specified.
    Unsure,
}

impl Feed {
    fn new(before: u64, counts: bool) -> Feed {
        Feed { d: Decoder::default(), buf: vec![], dst: plain(before), before, fed: vec![], removed: 0, calls: 0, counts }
    }

    fn push(&mut self, chunk: &[u8]) -> Result<Next, crate::engine::Fail> {
        self.buf.extend_from_slice(chunk);
        self.fed.extend_from_slice(chunk);
        self.calls += 1;
        let had = self.buf.len();
        // the vector may grow to twice its size for what is added
        let held = self.dst.len() as i64;
        let r = pb::decode(&mut self.d, &mut self.buf, &mut self.dst)?;
        let used = usage();
        let what = format!("call {} after {} bytes ({})", self.calls, self.fed.len(), show(&self.fed));
        let limit = (64 << 10) + 256 * had as i64 + 128 * held;
        ensure!(used.peak <= limit, "{}: the call allocated {} bytes for a buffer of {}", what, used.peak, had);
        ensure!(self.buf.len() <= had, "{}: the buffer grew", what);
        let gone = had - self.buf.len();
        self.removed += gone;
        ensure!(self.buf[..] == self.fed[self.removed..], "{}: the buffer holds {}, which is not the end of the input", what, show(&self.buf));
        kept(&self.dst, self.before).map_err(|f| crate::engine::Fail(format!("{}: {}", what, f.0)))?;
        let got = &self.dst[self.before as usize..];
        let f = ora::frames(&self.fed);
        if f.end == End::Unsure {
            let n = f.fields.len().min(got.len());
            ensure!(n == f.fields.len(), "{}: {} fields delivered, {} are complete", what, got.len(), f.fields.len());
            pb::same_fields(&got[..n], &f.fields).map_err(|e| crate::engine::Fail(format!("{}: {}", what, e.0)))?;
            return Ok(Next::Unsure);
        }
        pb::same_fields(got, &f.fields).map_err(|e| crate::engine::Fail(format!("{}: {}", what, e.0)))?;
        match r {
            Ok(n) => {
                if let End::Bad { why, .. } = f.end {
                    fail!("{}: accepted, though it has an element that must be refused ({})", what, why);
                }
                ensure!(n == gone || !self.counts, "{}: returned {}, {} bytes were removed", what, n, gone);
                ensure!(self.removed >= f.used, "{}: bytes of delivered fields are still in the buffer", what);
                Ok(Next::On)
            }
            Err(e) => {
                let (field, element) = match f.end {
                    End::Bad { field, element, .. } | End::Soon { field, element } => (field, element),
                    _ => fail!("{}: failed with {:?}, though the input is only incomplete ({:?})", what, e, f.end),
                };
                ensure!(self.removed >= field && self.removed <= element, "{}: refused with {} bytes removed, the element at {} in the field at {} is the one to refuse", what, self.removed, element, field);
                Ok(Next::Refused)
            }
        }
    }
}

/// Splits into pieces of these lengths, repeated as needed.
fn pieces<'a>(bytes: &'a [u8], lens: &[u16]) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut at = 0;
    let mut i = 0;
    while at < bytes.len() || i < lens.len() {
        let n = if i < lens.len() { lens[i] as usize } else { bytes.len() };
        let end = (at + n).min(bytes.len());
        out.push(&bytes[at..end]);
        at = end;
        i += 1;
    }
    out
}

fn gen_lens(src: &mut Src) -> Vec<u16> {
    match src.below(4) {
        0 => vec![],
        1 => vec![1; 600],
        _ => {
            let n = src.usize(24);
            (0..n)
                .map(|_| match src.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => src.below(12) as u16,
                    _ => src.below(160) as u16,
                })
                .collect()
        }
    }
}

// ---------------------------------------------------------------- P04

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Chunks {
    pub fields: Vec<Raw>,
    /// Octets at the end that are never fed.
    #[serde(default)]
    pub short: u16,
    #[serde(default)]
    pub before: u64,
    /// `None`: every single cut, and byte by byte.
    #[serde(default)]
    pub lens: Option<Vec<u16>>,
    /// If not 0: chunks of this many octets, and calls with nothing new, so
    /// many at such an offset.
    #[serde(default)]
    pub step: u16,
    #[serde(default)]
    pub waits: Vec<(u32, u32)>,
}

/// Feeds a message in very many calls.
fn drip(case: &Chunks, ctx: &mut Ctx) -> Res {
    let mut ends = vec![];
    let mut bytes = vec![];
    let mut want = vec![];
    for f in &case.fields {
        let (b, w) = pb::message(std::slice::from_ref(f));
        bytes.extend(b);
        want.extend(w);
        ends.push(bytes.len());
    }
    let mut waits = case.waits.clone();
    waits.sort();
    let mut d = Decoder::default();
    let (mut buf, mut dst): (Vec<u8>, Fields) = (vec![], vec![]);
    let (mut at, mut calls, mut wait, mut done) = (0usize, 0u64, 0usize, 0usize);
    loop {
        let mut times = 1;
        while wait < waits.len() && waits[wait].0 as usize <= at {
            times += waits[wait].1;
            wait += 1;
        }
        while done < ends.len() && ends[done] <= at {
            done += 1;
        }
        for _ in 0..times {
            let len = buf.len();
            let r = pb::decode(&mut d, &mut buf, &mut dst)?;
            calls += 1;
            ensure!(r == Ok(len - buf.len().min(len)), "call {} after {} of {} octets returned {:?} and took {} octets", calls, at, bytes.len(), r, len as i64 - buf.len() as i64);
            ensure!(dst.len() == done, "call {} after {} of {} octets: {} fields delivered, expected {}", calls, at, bytes.len(), dst.len(), done);
        }
        if at == bytes.len() {
            break;
        }
        let to = (at + case.step as usize).min(bytes.len());
        buf.extend_from_slice(&bytes[at..to]);
        at = to;
    }
    ctx.nontrivial(calls > 256);
    ctx.class_if(calls > 65_536, "more than 65536 calls");
    pb::same_fields(&dst, &want)
}

fn gen_drip(src: &mut Src) -> Chunks {
    let mut fields = pb::gen_message(src, 5);
    let step = *src.pick(&[1u16, 1, 2, 3, 7]);
    if src.flip() {
        // one that takes many calls
        let n = match src.below(4) {
            0 => src.usize(500),
            1 => 4000 + src.usize(3000),
            2 => src.usize(20_000),
            _ => 65_000 + src.usize(2000),
        };
        let at = src.usize(fields.len() + 1);
        fields.insert(at, Raw { tag: pb::gen_tag(src), key_extra: 0, body: Body::Ld(B(gen::blob(src, n)), 0) });
    }
    let total = pb::message(&fields).0.len() as u64;
    let waits = (0..src.usize(4)).map(|_| (src.below(total.min(60) + 1) as u32, *src.pick(&[1u32, 10, 100, 255, 256, 300, 1000, 5000, 65_535, 65_537, 66_000]))).collect();
    Chunks { fields, short: 0, before: 0, lens: None, step, waits }
}

fn feed_all(bytes: &[u8], parts: &[&[u8]], before: u64) -> Res {
    let mut f = Feed::new(before, true);
    for p in parts {
        let next = f.push(p)?;
        ensure!(next == Next::On, "a valid message was not accepted ({:?})", next);
    }
    ensure!(f.fed == bytes, "harness: not everything was fed");
    // nothing more comes
    let removed = f.removed;
    for _ in 0..2 {
        f.push(b"")?;
    }
    ensure!(f.removed == removed, "a call without new input removed {} bytes", f.removed - removed);
    Ok(())
}

pub struct P04;

impl Prop for P04 {
    type Case = Chunks;
    const ID: &'static str = "P04";
    const QUICK: u64 = 2;
    const RULE: &'static str = "Valid messages from an independent writer (as for P03), some with the end missing, are fed to a decoder cut in two at every octet, byte by byte, and in random partitions with empty chunks; after every call the fields delivered so far, the bytes removed and the returned number are compared with an independent framing of the input so far. Some have up to 131 073 fields or contents of 4 MiB; some take more than 65 536 calls, with and without new input. Non-trivial: at least two chunks end inside of a field.";
    const ASSUMPTIONS: &'static [&'static str] = &["How much of an incomplete field a call takes out of the buffer is not specified."];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("every cut", tier.n(20_000, 600_000)), random("partitions", tier.n(250_000, 8_000_000)), random("long", tier.n(300, 8_000)), random("bulk", tier.n(20, 600)), random("drip", tier.n(300, 12_000))]
    }
    fn gen(phase: &str, _: u64, src: &mut Src) -> Chunks {
        if phase == "drip" {
            return gen_drip(src);
        }
        let mut fields = match phase {
            "bulk" => pb::bulk_message(src),
            "long" => pb::gen_message(src, 120),
            _ => pb::gen_message(src, 5),
        };
        let before = src.below(3);
        let short = if src.chance(1, 3) { src.below(12) as u16 } else { 0 };
        if phase == "every cut" {
            for f in fields.iter_mut() {
                if let Body::Ld(b, _) = &mut f.body {
                    b.0.truncate(140);
                }
            }
        }
        let lens = match phase {
            "every cut" => None,
            "bulk" => {
                let n = src.usize(7);
                let len = |src: &mut Src| if src.flip() { src.below(1 << 16) as u16 } else { *src.pick(&[0, 1, 2, 3, 65535, 32768]) };
                Some((0..n).map(|_| len(src)).collect())
            }
            _ => Some(gen_lens(src)),
        };
        Chunks { fields, short, before, lens, step: 0, waits: vec![] }
    }
    fn check(case: &Chunks, ctx: &mut Ctx) -> Res {
        if case.step > 0 {
            return drip(case, ctx);
        }
        let (mut bytes, _) = pb::message(&case.fields);
        let n = bytes.len().saturating_sub(case.short as usize);
        bytes.truncate(n);
        let parts = match &case.lens {
            Some(lens) => pieces(&bytes, lens),
            None => bytes.chunks(1).collect(),
        };
        let mut at = 0;
        let mut inside = 0;
        for p in &parts {
            at += p.len();
            inside += (ora::frames(&bytes[..at.min(400)]).end == End::More) as usize;
            if inside > 1 {
                break;
            }
        }
        ctx.nontrivial(inside > 1);
        ctx.class_if(ora::frames(&bytes).end == End::More, "end missing");
        ctx.class_if(parts.iter().any(|p| p.is_empty()), "empty chunk");
        feed_all(&bytes, &parts, case.before)?;
        if case.lens.is_none() {
            for cut in 0..=bytes.len() {
                feed_all(&bytes, &[&bytes[..cut], &bytes[cut..]], case.before)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- P05

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Hostile {
    Input { data: B, lens: Vec<u16>, more: B, #[serde(default)] again: u32 },
    /// All inputs that begin with this octet, a second one and one of some
    /// endings.
    Short(u8),
    /// The same input again and again, cut in two.
    Rounds { data: B, cut: u16, rounds: u32 },
}

/// A wrong element, behind which anything may follow.
fn gen_wrong(src: &mut Src) -> Vec<u8> {
    let mut o = vec![];
    let overlong = |src: &mut Src, o: &mut Vec<u8>| {
        let n = 10 + src.usize(6);
        let style = src.below(3);
        for _ in 0..n {
            o.push(match style {
                0 => 0x80,
                1 => 0xff,
                _ => 0x80 | src.byte(),
            });
        }
        o.push(src.byte() & 0x7f);
    };
    match src.below(8) {
        0 => {
            // tag 0
            let w = *src.pick(&[0u64, 1, 2, 5]);
            ora::put_varint(&mut o, w, src.usize(9));
        }
        1 => {
            let w = *src.pick(&[3u64, 4, 6, 7]);
            ora::put_varint(&mut o, (pb::gen_tag(src) as u64) << 3 | w, 0);
        }
        2 => {
            // a key of more than 32 bits whose low half is fine
            let key = (1 + src.below(3)) << (32 + src.below(30)) | (pb::gen_tag(src) as u64) << 3 | *src.pick(&[0u64, 1, 2, 5]);
            ora::put_varint(&mut o, key, 0);
        }
        3 => overlong(src, &mut o),
        4 => {
            ora::put_varint(&mut o, (pb::gen_tag(src) as u64) << 3, 0);
            overlong(src, &mut o);
        }
        5 => {
            ora::put_varint(&mut o, (pb::gen_tag(src) as u64) << 3 | 2, 0);
            overlong(src, &mut o);
        }
        6 => {
            // a huge length: valid, but never complete
            ora::put_varint(&mut o, (pb::gen_tag(src) as u64) << 3 | 2, 0);
            let n = match src.below(3) {
                0 => u64::MAX - src.below(3),
                1 => 1 << (20 + src.below(44)),
                _ => (1u64 << 31) + src.below(1 << 31),
            };
            ora::put_varint(&mut o, n, 0);
            let have = src.usize(20);
            o.extend(gen::blob(src, have));
        }
        _ => {
            // a 10th octet with more than the 64th bit
            if src.flip() {
                ora::put_varint(&mut o, (pb::gen_tag(src) as u64) << 3 | src.below(2) * 2, 0);
            }
            for _ in 0..9 {
                o.push(0x80 | src.byte());
            }
            o.push(2 + src.below(126) as u8);
        }
    }
    o
}

pub fn gen_hostile(src: &mut Src) -> Vec<u8> {
    let mut o = vec![];
    match src.below(4) {
        0 | 1 => {
            let (b, _) = pb::message(&pb::gen_message(src, 4));
            o.extend(b);
            o.extend(gen_wrong(src));
            if src.flip() {
                let (b, _) = pb::message(&pb::gen_message(src, 2));
                o.extend(b);
            }
        }
        2 => {
            // a valid message with a few octets changed
            let (b, _) = pb::message(&pb::gen_message(src, 6));
            o = b;
            let n = 1 + src.usize(4);
            for _ in 0..n {
                if o.is_empty() {
                    break;
                }
                let i = src.usize(o.len());
                match src.below(4) {
                    0 => o[i] ^= 1 << src.below(8),
                    1 => o[i] = src.byte(),
                    2 => {
                        o.remove(i);
                    }
                    _ => {
                        let c = src.byte();
                        o.insert(i, c);
                    }
                }
            }
        }
        _ => {
            let n = src.usize(60);
            let style = src.below(3);
            for _ in 0..n {
                o.push(match style {
                    0 => src.byte(),
                    1 => src.byte() & 0x7f & if src.flip() { 0x1f } else { 0x7f },
                    _ => src.byte() | if src.flip() { 0x80 } else { 0 },
                });
            }
        }
    }
    o
}

/// Feeds the chunks, and after a refusal calls again with and without more.
fn hostile(parts: &[&[u8]], more: &[u8], again: u32) -> Result<(Next, usize), crate::engine::Fail> {
    let mut f = Feed::new(1, false);
    let mut last = Next::On;
    for p in parts {
        last = f.push(p)?;
        if last != Next::On {
            break;
        }
    }
    if last == Next::Refused {
        for extra in std::iter::repeat(&b""[..]).take(2 + again as usize).chain([more]) {
            let n = f.push(extra)?;
            // what looked refusable may by now be an unspecified element
            ensure!(n != Next::On, "after a refusal, call {} succeeded without the bad bytes being gone", f.calls);
        }
    }
    if last == Next::On && !more.is_empty() {
        f.push(more)?;
    }
    Ok((last, f.dst.len() - 1))
}

pub struct P05;

impl Prop for P05 {
    type Case = Hostile;
    const ID: &'static str = "P05";
    const QUICK: u64 = 3;
    const RULE: &'static str = "Wrong elements (tag 0, wire types 3, 4, 6 and 7, keys of more than 32 bits, varints of more than 10 octets as key, value and length, lengths up to 2^64-1) behind valid fields, valid messages with changed octets, random octets and (enumerated) all inputs of two octets with 11 endings are fed whole, byte by byte and in random chunks; after every call the fields, the buffer and the result are compared with an independent framing of the input so far, and the heap growth is bounded. Calls are repeated after a refusal. A refused element is presented again up to 65 600 times. Inputs are repeated up to 20 000 times and what the decoder keeps is bounded. Every number of 64 bits next to those of wire types is converted to a Typ. Non-trivial: the input was refused after it delivered a field, or has an incomplete or unspecified end.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "Whether a varint whose 10th octet has bits beyond the 64th is accepted is not specified, nor what follows it.",
        "Ten octets that go on may be refused at once or with the next octet.",
        "After a refusal the buffer starts at the refused element or at the key of its field.",
    ];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("short", 256), random("hostile", tier.n(500_000, 20_000_000)), random("insistent", tier.n(1_000, 50_000)), random("rounds", tier.n(1_000, 50_000))]
    }
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Hostile {
        match phase {
            "short" => Hostile::Short(idx as u8),
            "rounds" => {
                let data = if src.flip() { gen_hostile(src) } else { pb::message(&pb::gen_message(src, 4)).0 };
                let cut = src.below(data.len() as u64 + 1).min(65_535) as u16;
                let budget = *src.pick(&[50_000u64, 400_000, 1_600_000]);
                let rounds = (budget / (data.len() as u64 + 80)).clamp(2, 66_000) as u32;
                Hostile::Rounds { data: B(data), cut, rounds }
            }
            _ => {
                let data = B(gen_hostile(src));
                let lens = gen_lens(src);
                let more = B(if src.flip() { pb::message(&pb::gen_message(src, 2)).0 } else { gen::blob(src, 3) });
                let again = if phase == "insistent" && src.chance(1, 20) {
                    65_400 + src.below(200) as u32
                } else if phase == "insistent" {
                    src.below(400) as u32
                } else {
                    0
                };
                Hostile::Input { data, lens, more, again }
            }
        }
    }
    fn check(case: &Hostile, ctx: &mut Ctx) -> Res {
        match case {
            Hostile::Input { data, lens, more, again } => {
                let end = ora::frames(data);
                let parts = pieces(data, lens);
                let (last, delivered) = hostile(&parts, more, *again)?;
                ctx.nontrivial(last == Next::Refused && delivered > 0 || matches!(end.end, End::More | End::Unsure | End::Soon { .. }));
                ctx.class(match end.end {
                    End::Complete => "valid",
                    End::More => "incomplete",
                    End::Bad { why, .. } => why,
                    End::Soon { .. } => "ten octets that go on",
                    End::Unsure => "unspecified",
                });
                Ok(())
            }
            Hostile::Rounds { data, cut, rounds } => {
                let (one, two) = data.split_at((*cut as usize).min(data.len()));
                let mut d = httlib_protos::Decoder::default();
                let mut refused = 0u32;
                let mut both = |d: &mut httlib_protos::Decoder| {
                    let (mut buf, mut dst) = (one.to_vec(), vec![]);
                    refused += d.decode(&mut buf, &mut dst).is_err() as u32;
                    buf.extend_from_slice(two);
                    refused += d.decode(&mut buf, &mut dst).is_err() as u32;
                };
                sut("decoding the same input again and again", || {
                    for _ in 0..*rounds {
                        both(&mut d);
                    }
                })?;
                let kept = crate::engine::usage().kept;
                sut("decoding the same input with new decoders", || {
                    for _ in 0..*rounds {
                        both(&mut httlib_protos::Decoder::default());
                    }
                })?;
                let left = crate::engine::usage().kept;
                let bound = 4096 + 8 * data.len() as i64;
                ensure!(kept <= bound, "after {} rounds ({} refusals) on {} octets the decoder keeps {} octets more than before, bound {}", rounds, refused, data.len(), kept, bound);
                ensure!(left <= bound, "{} decoders that decoded {} octets each and were dropped leave {} octets, bound {}", rounds, data.len(), left, bound);
                ctx.nontrivial(true);
                ctx.class(if refused > 0 { "rounds with refusals" } else { "rounds" });
                Ok(())
            }
            Hostile::Short(a) => {
                ctx.nontrivial(true);
                let ends: [&[u8]; 11] = [b"", &[0], &[1, 0x61], &[0x80], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x00], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 0x08, 1], &[0, 0, 0, 0, 0, 0, 0, 0, 0], &[0x7f], &[0xff, 0xff, 0xff, 0xff, 0x0f], &[0xff, 0xff, 0xff, 0xff, 0x1f], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01, 0x01, 0x02]];
                for b in 0..=255u8 {
                    for e in ends {
                        let mut data = vec![*a, b];
                        data.extend_from_slice(e);
                        hostile(&[&data], &[1], 0)?;
                        hostile(&data.chunks(1).collect::<Vec<_>>(), &[1], 0)?;
                    }
                }
                // wire types beyond those a key can hold
                for high in [0u64, 1 << 8, 1 << 16, 1 << 32, 1 << 63, u64::MAX - 255] {
                    let n = high | *a as u64;
                    let got = sut("Typ::try_from", || Typ::try_from(n))?.unwrap_or(Typ::Unknown);
                    let want = match n {
                        0 => Typ::Varint,
                        1 => Typ::Bit64,
                        2 => Typ::LengthDelimited,
                        5 => Typ::Bit32,
                        _ => Typ::Unknown,
                    };
                    ensure!(got == want, "wire type {} is taken for {:?}", n, got);
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- P06

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Convert {
    Bytes { lit: L, bytes: B },
    /// All byte strings of up to one octet, and of two octets that begin with
    /// one of some.
    Short { lit: L },
}

/// Compares the conversions of the bytes to every target type.
fn conversions(lit: L, bytes: &[u8]) -> Res {
    for t in TARGETS {
        let got = pb::convert(lit, bytes, t)?;
        let want = expected(lit, bytes, t);
        let Some(want) = want else { continue };
        ensure!(got == want, "{:?}({}) converts to {:?} as {:x?}, expected {:x?}", lit, show(bytes), t, got, want);
    }
    Ok(())
}

fn expected(lit: L, bytes: &[u8], t: T) -> Option<Out> {
    if lit == L::Bytes && t == T::Str {
        return Some(match std::str::from_utf8(bytes) {
            Ok(_) => Out::Bytes(B(bytes.to_vec())),
            Err(_) => Out::default_of(T::Str),
        });
    }
    if t != lit.target() {
        return Some(Out::default_of(t));
    }
    match lit {
        L::Bytes => Some(Out::Bytes(B(bytes.to_vec()))),
        L::One(k) => match ora::scalar(k, bytes) {
            Conv::Value(v) => Some(Out::One(v)),
            Conv::Default => Some(Out::default_of(t)),
            Conv::Unspecified => None,
        },
        L::Many(k) => match ora::packed(k, bytes) {
            Conv::Value(v) => Some(Out::Many(v)),
            Conv::Default => Some(Out::default_of(t)),
            Conv::Unspecified => None,
        },
    }
}

fn gen_elem(src: &mut Src, k: K, out: &mut Vec<u8>) {
    match k.wire() {
        ora::VARINT => {
            // often wider than the type, and not always the shortest
            let v = match src.below(3) {
                0 => {
                    let mut e = vec![];
                    ora::put_elem(&mut e, k, pb::gen_raw(src, k));
                    out.extend(e);
                    return;
                }
                1 => (gen::edge_u32(src) as u64) | (src.below(1 << 20) << 32),
                _ => gen::edge_u64(src),
            };
            let room = 10 - ora::varint_len(v);
            let extra = if room > 0 && src.chance(1, 4) { 1 + src.usize(room) } else { 0 };
            ora::put_varint(out, v, extra);
        }
        _ => ora::put_elem(out, k, pb::gen_raw(src, k)),
    }
}

fn gen_contents(src: &mut Src, lit: L) -> Vec<u8> {
    let mut b = vec![];
    match lit {
        L::One(k) => gen_elem(src, k, &mut b),
        L::Many(k) => {
            let n = match src.weighted(&[6, 3, 1]) {
                0 => src.usize(5),
                1 => src.usize(40),
                _ => src.usize(300),
            };
            for _ in 0..n {
                gen_elem(src, k, &mut b);
            }
        }
        L::Bytes => match src.below(3) {
            0 => b = gen::bytes(src),
            _ => {
                let n = src.usize(12);
                for _ in 0..n {
                    let c = match src.below(5) {
                        0 => src.below(0x80) as u32,
                        1 => 0x80 + src.below(0x780) as u32,
                        2 => 0x800 + src.below(0xd000) as u32,
                        3 => 0x10000 + src.below(0x100000) as u32,
                        _ => *src.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]),
                    };
                    let c = char::from_u32(c).unwrap_or('x');
                    let mut t = [0; 4];
                    b.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                }
            }
        },
    }
    // damage
    match src.weighted(&[6, 1, 1, 1]) {
        1 if !b.is_empty() => {
            let n = b.len() - 1 - src.usize(b.len().min(9));
            b.truncate(n);
        }
        2 => {
            let n = 9 + src.usize(4);
            b.extend(std::iter::repeat(0x80 | src.byte()).take(n));
            b.push(src.byte());
        }
        3 if !b.is_empty() => {
            let i = src.usize(b.len());
            b[i] = src.byte();
        }
        _ => {}
    }
    b
}

pub struct P06;

impl Prop for P06 {
    type Case = Convert;
    const ID: &'static str = "P06";
    const QUICK: u64 = 10;
    const RULE: &'static str = "For each of the 27 literals, its contents (values of all widths, wider than the type, not the shortest way; lists of up to hundreds; UTF-8 of all lengths; truncated, overlong, changed and random octets; all strings of up to one octet and many of two, enumerated) are converted to all 16 target types and compared with an independent reading of the bytes. Lists of up to 131 073 elements are among them. Non-trivial: the contents are malformed, wider than the type, a list of two or more, or text that is not plain ASCII.";
    const ASSUMPTIONS: &'static [&'static str] = &["A scalar with octets behind its value, and varints whose 10th octet has bits beyond the 64th, are not specified: the conversion only has to return."];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![enumerated("short", 27), random("contents", tier.n(250_000, 10_000_000)), random("noise", tier.n(60_000, 2_000_000)), enumerated("bulk", 27)]
    }
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Convert {
        let all = pb::all_lits();
        match phase {
            "bulk" => {
                // more elements and octets than 16 bits count, with one odd end
                let lit = all[idx as usize];
                let mut b = match lit {
                    L::Many(k) => {
                        let mut b = vec![];
                        for i in 0..66_000u64 {
                            ora::put_elem(&mut b, k, k.clip(if i % 16 == 0 { crate::src::mix(i) } else { i & 0x7f }));
                        }
                        b
                    }
                    _ => gen::fill(2, idx, 66_000),
                };
                if idx % 4 == 3 {
                    b.push(0x80);
                }
                Convert::Bytes { lit, bytes: B(b) }
            }
            "short" => Convert::Short { lit: all[idx as usize] },
            "contents" => {
                let lit = *src.pick(&all);
                Convert::Bytes { lit, bytes: B(gen_contents(src, lit)) }
            }
            _ => {
                let lit = *src.pick(&all);
                Convert::Bytes { lit, bytes: B(gen::bytes(src)) }
            }
        }
    }
    fn check(case: &Convert, ctx: &mut Ctx) -> Res {
        match case {
            Convert::Short { lit } => {
                ctx.nontrivial(true);
                conversions(*lit, b"")?;
                for a in 0..=255u8 {
                    conversions(*lit, &[a])?;
                    for b in [0u8, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff] {
                        conversions(*lit, &[a, b])?;
                        conversions(*lit, &[b, a])?;
                    }
                }
                // every number of octets of a repeated one
                for c in [0u8, 1, 0x7f, 0x80, 0xff, b'a'] {
                    for n in 2..40 {
                        let mut v = vec![c; n];
                        conversions(*lit, &v)?;
                        v.push(1);
                        conversions(*lit, &v)?;
                    }
                }
                Ok(())
            }
            Convert::Bytes { lit, bytes } => {
                let want = expected(*lit, bytes, lit.target());
                match (lit, &want) {
                    (L::Bytes, _) => {
                        let text = std::str::from_utf8(bytes);
                        ctx.nontrivial(!bytes.is_ascii());
                        ctx.class(if text.is_ok() { "text" } else { "not UTF-8" });
                    }
                    (_, None) => {
                        ctx.nontrivial(true);
                        ctx.class("unspecified");
                    }
                    (L::One(k), Some(w)) => {
                        let bad = ora::scalar(*k, bytes) == Conv::Default;
                        let mut short = vec![];
                        if let Out::One(v) = w {
                            ora::put_elem(&mut short, *k, *v);
                        }
                        ctx.nontrivial(bad || short != bytes.0);
                        ctx.class(if bad {
                            "malformed scalar"
                        } else if short != bytes.0 {
                            "wider or longer than the value"
                        } else {
                            "scalar"
                        });
                    }
                    (L::Many(k), Some(_)) => {
                        let p = ora::packed(*k, bytes);
                        let n = if let Conv::Value(v) = &p { v.len() } else { 0 };
                        ctx.nontrivial(p == Conv::Default || n > 1);
                        ctx.class(match (p == Conv::Default, n) {
                            (true, _) => "malformed list",
                            (_, 0) => "empty list",
                            (_, 1) => "list of one",
                            _ => "list",
                        });
                    }
                }
                conversions(*lit, bytes)
            }
        }
    }
}

