//! C01: codecs do not influence each other, whatever the schedule.

use super::h_dec::gen_bad;
use super::hp::{self, new_encoder, predict, wire, Op, Rep};
use super::pb::{self, Fields, Path, PATHS, V};
use crate::engine::{enumerated, random, sut, Ctx, Fail, Phase, Prop, Res, Tier};
use crate::gen;
use crate::oracle::hpack::Table;
use crate::oracle::tables::STATIC;
use crate::src::Src;
use crate::types::B;
use httlib_hpack::{Decoder, Encoder};
use httlib_huffman::DecoderSpeed;
use serde::{Deserialize, Serialize};
use std::sync::{mpsc, Arc, Barrier};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Codec {
    HpackEncoder { cap: u32, ops: Vec<Op> },
    HpackDecoder { cap: u32, blocks: Vec<Input> },
    Table { cap: u32, ops: Vec<Use> },
    /// Strings to encode and to decode at a speed.
    Huffman { calls: Vec<(B, u8)> },
    ProtosEncoder { path: Path, fields: Vec<(u32, V)> },
    ProtosDecoder { chunks: Vec<B> },
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Input {
    /// A block, and the capacity for `decode_exact` (0: `decode`).
    Block(Vec<Rep>, u8),
    /// Octets that are mostly refused.
    Raw(B, u8),
    Limit(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum Use {
    Insert(B, B),
    Resize(u32),
    Find(B, B),
    Get(u32),
    All,
}

impl Codec {
    fn steps(&self) -> usize {
        match self {
            Codec::HpackEncoder { ops, .. } => ops.len(),
            Codec::HpackDecoder { blocks, .. } => blocks.len(),
            Codec::Table { ops, .. } => ops.len(),
            Codec::Huffman { calls } => calls.len(),
            Codec::ProtosEncoder { fields, .. } => fields.len(),
            Codec::ProtosDecoder { chunks } => chunks.len(),
        }
    }
}

/// A codec at work.
struct Live {
    codec: Codec,
    at: usize,
    enc: Option<Encoder<'static>>,
    dec: Option<Decoder<'static>>,
    table: Option<httlib_hpack::table::Table<'static>>,
    pb: httlib_protos::Decoder,
    buf: Vec<u8>,
    log: Vec<String>,
}

const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];

impl Live {
    fn new(codec: &Codec) -> Live {
        let enc = if let Codec::HpackEncoder { cap, .. } = codec { Some(new_encoder(*cap)) } else { None };
        let dec = if let Codec::HpackDecoder { cap, .. } = codec { Some(hp::new_decoder(*cap)) } else { None };
        let table = if let Codec::Table { cap, .. } = codec { Some(httlib_hpack::table::Table::with_dynamic_size(*cap)) } else { None };
        Live { codec: codec.clone(), at: 0, enc, dec, table, pb: Default::default(), buf: vec![], log: vec![] }
    }

    /// One call; what it gave goes to the log.
    fn step(&mut self) -> Res {
        let at = self.at;
        self.at += 1;
        let entry = match &self.codec {
            Codec::HpackEncoder { ops, .. } => {
                let mut dst = vec![];
                let r = hp::encode(self.enc.as_mut().unwrap(), &ops[at], &mut dst)?;
                format!("{:?} {}", r, hex(&dst))
            }
            Codec::HpackDecoder { blocks, .. } => {
                let d = self.dec.as_mut().unwrap();
                let (mut buf, free) = match &blocks[at] {
                    Input::Block(reps, free) => (wire(reps), *free),
                    Input::Raw(b, free) => (b.0.clone(), *free),
                    Input::Limit(l) => {
                        d.set_max_dynamic_size(*l);
                        (vec![], 0)
                    }
                };
                let mut dst = Vec::with_capacity(free as usize);
                let r = if free == 0 { hp::decode(d, &mut buf, &mut dst)? } else { hp::decode_exact(d, &mut buf, &mut dst)? };
                format!("{:?} {:?} {} {}", r, dst, hex(&buf), d.max_dynamic_size())
            }
            Codec::Table { ops, .. } => {
                let t = self.table.as_mut().unwrap();
                let op = &ops[at];
                let found = sut("table", || match op {
                    Use::Insert(n, v) => {
                        t.insert(n.0.clone(), v.0.clone());
                        String::new()
                    }
                    Use::Resize(m) => {
                        t.update_max_dynamic_size(*m);
                        String::new()
                    }
                    Use::Find(n, v) => format!("{:?}", t.find(n, v)),
                    Use::Get(i) => format!("{:?}", t.get(*i)),
                    Use::All => format!("{:?}", t.iter().skip(STATIC.len()).collect::<Vec<_>>()),
                })?;
                format!("{} {} {} {}", found, t.len(), t.dynamic_len(), t.dynamic_size())
            }
            Codec::Huffman { calls } => {
                let (data, speed) = &calls[at];
                let (mut coded, mut plain, mut other) = (vec![], vec![], vec![]);
                let s = SPEEDS[*speed as usize % 5];
                let r = sut("Huffman coding", || {
                    let r = httlib_huffman::encode(data, &mut coded).is_ok();
                    (r, httlib_huffman::decode(&coded, &mut plain, s).is_ok(), httlib_huffman::decode(data, &mut other, s).is_ok())
                })?;
                if !r.2 {
                    other.clear();
                }
                format!("{:?} {} {} {}", r, hex(&coded), hex(&plain), hex(&other))
            }
            Codec::ProtosEncoder { path, fields } => {
                let (tag, v) = &fields[at];
                let mut dst = vec![];
                let r = pb::encode(*path, *tag, v, &mut dst)?;
                format!("{:?} {}", r, hex(&dst))
            }
            Codec::ProtosDecoder { chunks } => {
                self.buf.extend_from_slice(&chunks[at]);
                let mut dst: Fields = vec![];
                let r = pb::decode(&mut self.pb, &mut self.buf, &mut dst)?;
                let got: Vec<(u32, Option<u8>, String)> = dst.into_iter().map(|(t, w, b)| (t, Some(pb::wire_type(w)), hex(&b))).collect();
                format!("{:?} {:?} {}", r, got, hex(&self.buf))
            }
        };
        self.log.push(entry);
        Ok(())
    }

    fn finish(mut self) -> Result<Vec<String>, Fail> {
        while self.at < self.codec.steps() {
            self.step()?;
        }
        Ok(self.log)
    }
}

/// A codec that is handed over to another thread.
struct Handed(Live);

// Nothing else refers to what the codec owns while it changes hands.
unsafe impl Send for Handed {}

impl Handed {
    fn take(self) -> Live {
        self.0
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Schedule {
    pub codecs: Vec<Codec>,
    /// Which codec makes the next call; afterwards they finish in order.
    pub turns: Vec<u8>,
    /// Each on a thread of its own, too.
    pub threads: bool,
    /// If not 0: in a process of its own, the first codec lives this often
    /// between two lives of each.
    #[serde(default)]
    pub age: u32,
}

const KINDS: u64 = 6;

fn gen_codec(src: &mut Src, kind: u64) -> Codec {
    let cap = gen::capacity(src);
    match kind {
        0 => {
            let mut t = Table::new(cap as u64);
            let n = 1 + src.usize(10);
            let ops = (0..n)
                .map(|_| {
                    let op = hp::gen_op(src, &t, cap, hp::Mix { bad: 1, ..hp::USUAL });
                    predict(&op, &mut t);
                    op
                })
                .collect();
            Codec::HpackEncoder { cap, ops }
        }
        1 => {
            let mut t = Table::new(cap as u64);
            let mut limit = cap;
            let n = 1 + src.usize(5);
            let mut blocks = vec![];
            for _ in 0..n {
                let free = src.weighted(&[4, 1, 1, 1]) as u8;
                blocks.push(match src.weighted(&[6, 3, 1]) {
                    0 => Input::Block(hp::gen_block(src, &mut t, limit, 5), free),
                    1 => Input::Raw(B(gen_bad(src, &t, limit)), free),
                    _ => {
                        limit = gen::capacity(src);
                        Input::Limit(limit)
                    }
                });
            }
            Codec::HpackDecoder { cap, blocks }
        }
        2 => {
            let n = 1 + src.usize(5);
            Codec::Huffman { calls: (0..n).map(|_| (B(gen::bytes(src)), src.below(5) as u8)).collect() }
        }
        3 => {
            let n = 1 + src.usize(5);
            Codec::ProtosEncoder { path: *src.pick(&PATHS), fields: (0..n).map(|_| (pb::gen_tag(src), pb::gen_value(src, 1))).collect() }
        }
        4 => {
            let mut t = Table::new(cap as u64);
            let n = 2 + src.usize(12);
            let ops = (0..n)
                .map(|_| match src.weighted(&[5, 1, 4, 2, 1]) {
                    0 => {
                        let (n, v) = gen::header(src, &t);
                        t.insert(&n, &v);
                        Use::Insert(B(n.to_vec()), B(v.to_vec()))
                    }
                    1 => {
                        let m = gen::capacity(src);
                        t.set_max(m as u64);
                        Use::Resize(m)
                    }
                    2 => {
                        let (n, v) = gen::header(src, &t);
                        Use::Find(B(n.to_vec()), B(v.to_vec()))
                    }
                    3 => Use::Get(gen::live_index(src, &t)),
                    _ => Use::All,
                })
                .collect();
            Codec::Table { cap, ops }
        }
        _ => {
            let (bytes, _) = pb::message(&pb::gen_message(src, 5));
            let mut chunks = vec![];
            let mut at = 0;
            while at < bytes.len() {
                let n = (1 + if src.flip() { src.usize(5) } else { src.usize(bytes.len()) }).min(bytes.len() - at);
                chunks.push(B(bytes[at..at + n].to_vec()));
                at += n;
            }
            Codec::ProtosDecoder { chunks }
        }
    }
}

/// A codec that does nearly the same, for what is wrongly shared to matter.
fn twin(src: &mut Src, c: &Codec) -> Codec {
    let mut c = c.clone();
    let alter = |src: &mut Src, b: &mut B| {
        if src.flip() {
            *b = B(gen::near(src, b));
        }
    };
    match &mut c {
        Codec::HpackEncoder { ops, .. } => {
            for op in ops.iter_mut() {
                match op {
                    Op::Named(_, v, _) => alter(src, v),
                    Op::Literal(n, v, _) => {
                        if src.chance(1, 3) {
                            alter(src, n)
                        } else {
                            alter(src, v)
                        }
                    }
                    _ => {}
                }
            }
        }
        Codec::HpackDecoder { blocks, .. } => {
            if src.flip() {
                // some of the headers are missing in its table
                let i = src.usize(blocks.len());
                blocks.remove(i);
                return c;
            }
            let reps = blocks.iter_mut().filter_map(|b| if let Input::Block(r, _) = b { Some(r) } else { None });
            for r in reps.flat_map(|r| r.iter_mut()) {
                if let Rep::Literal(_, n, v) = r {
                    alter(src, &mut v.s);
                    v.extra = 0;
                    if let hp::Name::New(n) = n {
                        if src.chance(1, 4) {
                            alter(src, &mut n.s);
                            n.extra = 0;
                        }
                    }
                }
            }
        }
        Codec::Table { ops, .. } => {
            for op in ops.iter_mut() {
                match op {
                    Use::Insert(n, v) | Use::Find(n, v) => {
                        if src.chance(1, 4) {
                            alter(src, n)
                        } else {
                            alter(src, v)
                        }
                    }
                    _ => {}
                }
            }
        }
        Codec::Huffman { calls } => calls.iter_mut().for_each(|(b, _)| alter(src, b)),
        Codec::ProtosEncoder { fields, .. } => {
            for (tag, v) in fields.iter_mut() {
                match v {
                    V::Bytes(b) => alter(src, b),
                    V::One(k, r) => *r = k.clip(*r ^ src.below(4)),
                    V::Many(k, rs) if !rs.is_empty() => {
                        let i = src.usize(rs.len());
                        rs[i] = k.clip(rs[i] ^ src.below(4));
                    }
                    _ => *tag = pb::gen_tag(src),
                }
            }
        }
        Codec::ProtosDecoder { chunks } => {
            if let Some(b) = chunks.last_mut() {
                if let Some(x) = b.0.last_mut() {
                    *x ^= src.below(2) as u8;
                }
            }
        }
    }
    c
}

/// Several codecs, and one that lives many times.
fn gen_aged(src: &mut Src) -> Schedule {
    let kind = src.below(KINDS);
    let mut first = gen_codec(src, kind);
    if let (Codec::HpackDecoder { cap, blocks }, true) = (&mut first, src.flip()) {
        // one that is refused most of the time
        let t = Table::new(*cap as u64);
        for b in blocks.iter_mut() {
            *b = Input::Raw(B(gen_bad(src, &t, *cap)), 0);
        }
    }
    if let (Codec::ProtosDecoder { chunks }, true) = (&mut first, src.flip()) {
        chunks.push(B(super::p_dec::gen_hostile(src)));
    }
    let mut codecs = vec![first];
    for i in 0..8 {
        let k = if i < 4 { kind } else { src.below(KINDS) };
        codecs.push(gen_codec(src, k));
    }
    let cost = |c: &Codec| serde_json::to_string(c).map_or(1000, |s| s.len() as u64) / 2 + 100;
    let budget = *src.pick(&[50_000u64, 1_000_000, 4_000_000]);
    let age = (budget / cost(&codecs[0])).clamp(2, 70_000) as u32;
    Schedule { codecs, turns: vec![], threads: false, age }
}

/// All codecs live, the first one lives many times, all live once more.
pub fn live_twice(case: &Schedule) -> Res {
    let mut before = vec![];
    for c in &case.codecs {
        before.push(Live::new(c).finish()?);
    }
    let start = std::time::Instant::now();
    for _ in 0..case.age {
        // some lives are long
        if start.elapsed() > Duration::from_secs(2) {
            break;
        }
        let got = Live::new(&case.codecs[0]).finish()?;
        same("when it lived again", 0, &got, &before[0])?;
    }
    for (i, c) in case.codecs.iter().enumerate() {
        same("late in the process", i, &Live::new(c).finish()?, &before[i])?;
    }
    Ok(())
}

/// Runs a case in a process in which nothing happened before.
fn in_new_process(case: &Schedule) -> Res {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let start = || -> std::io::Result<String> {
        let mut child = Command::new(std::env::current_exe()?).args(["aged", "C01", "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn()?;
        child.stdin.take().unwrap().write_all(&serde_json::to_vec(case)?)?;
        let mut said = String::new();
        child.stdout.take().unwrap().read_to_string(&mut said)?;
        child.wait()?;
        Ok(said)
    };
    let said = start().expect("a process for the case");
    match said.strip_prefix("FAIL ") {
        Some(why) => fail!("{}", why),
        None if said.trim() == "same" => Ok(()),
        None => fail!("the process in which codecs lived again and again ended early: {:?}", said),
    }
}

/// The process for one case: reads it from the standard input.
pub fn aged() -> i32 {
    let Ok(case) = serde_json::from_reader::<_, Schedule>(std::io::stdin()) else { return 2 };
    // it must come to an end, even when a call does not
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(300));
        println!("same");
        std::process::exit(0);
    });
    match live_twice(&case) {
        Ok(()) => println!("same"),
        Err(f) => println!("FAIL {}", f.0),
    }
    0
}

pub struct C01;

fn same(what: &str, i: usize, got: &[String], alone: &[String]) -> Res {
    for (k, (g, a)) in got.iter().zip(alone).enumerate() {
        let cut = |s: &str| s.chars().take(400).collect::<String>();
        ensure!(g == a, "call {} of codec {} gave {} {}, and {} when it had its turn alone", k, i, cut(g), what, cut(a));
    }
    ensure!(got.len() == alone.len(), "harness: {} and {} calls", got.len(), alone.len());
    Ok(())
}

impl Prop for C01 {
    type Case = Schedule;
    const ID: &'static str = "C01";
    const QUICK: u64 = 1;
    const RULE: &'static str = "Two to four codecs (HPACK encoders, decoders and tables, Huffman coding, Protocol Buffers encoders and decoders; often of one kind and with nearly the same data) make the calls of their histories one codec after the other, then in a generated interleaving, then again alone, and in the phases threads and kinds also at once on threads of their own, one of them begun on another thread; in the phase aged, in a new process for each case, nine codecs live, one of them up to 70 000 times more, and all once more; every result, output, remaining buffer and delivered field must be the same each time. Non-trivial: at least two codecs are interleaved, or lives are repeated.";
    const ASSUMPTIONS: &'static [&'static str] = &["The schedules of threads are those the machine happens to make; interleavings within one call are not controlled."];

    fn phases(tier: Tier) -> Vec<Phase> {
        vec![random("aged", tier.n(300, 8_000)), random("schedules", tier.n(80_000, 3_000_000)), random("threads", tier.n(15_000, 500_000)), enumerated("kinds", KINDS * KINDS * 40)]
    }

    fn gen(phase: &str, idx: u64, src: &mut Src) -> Schedule {
        if phase == "kinds" {
            // every two kinds, with fixed seeds
            let mut s = Src::seeded(idx / (KINDS * KINDS));
            let codecs = vec![gen_codec(&mut s, idx % KINDS), gen_codec(&mut s, idx / KINDS % KINDS)];
            return Schedule { codecs, turns: (0..20).map(|i| (i % 2) as u8).collect(), threads: true, age: 0 };
        }
        if phase == "aged" {
            return gen_aged(src);
        }
        let kind = src.below(KINDS);
        let mut codecs = vec![gen_codec(src, kind)];
        for _ in 0..1 + src.usize(3) {
            let c = match src.weighted(&[4, 2, 2]) {
                0 => twin(src, &codecs[0].clone()),
                1 => gen_codec(src, kind),
                _ => {
                    let k = src.below(KINDS);
                    gen_codec(src, k)
                }
            };
            codecs.push(c);
        }
        let total: usize = codecs.iter().map(|c| c.steps()).sum();
        let n = codecs.len();
        let lockstep = src.flip();
        let turns = (0..total).map(|i| if lockstep && !src.chance(1, 8) { i % n } else { src.usize(n) } as u8).collect();
        Schedule { codecs, turns, threads: phase == "threads", age: 0 }
    }

    fn check(case: &Schedule, ctx: &mut Ctx) -> Res {
        ctx.nontrivial(case.codecs.len() > 1 && !case.turns.is_empty());
        ctx.class_if(case.threads, "threads");
        for c in &case.codecs {
            ctx.class(match c {
                Codec::HpackEncoder { .. } => "HPACK encoder",
                Codec::HpackDecoder { .. } => "HPACK decoder",
                Codec::Table { .. } => "table",
                Codec::Huffman { .. } => "Huffman",
                Codec::ProtosEncoder { .. } => "protos encoder",
                Codec::ProtosDecoder { .. } => "protos decoder",
            });
        }
        if case.age > 0 {
            ctx.nontrivial(true);
            return in_new_process(case);
        }
        let mut alone = vec![];
        for c in &case.codecs {
            alone.push(Live::new(c).finish()?);
        }
        let mut live: Vec<Live> = case.codecs.iter().map(Live::new).collect();
        for t in &case.turns {
            let l = &mut live[*t as usize % case.codecs.len()];
            if l.at < l.codec.steps() {
                l.step()?;
            }
        }
        for (i, l) in live.into_iter().enumerate() {
            same("interleaved", i, &l.finish()?, &alone[i])?;
        }
        // in another order, one after the other
        for (i, c) in case.codecs.iter().enumerate().rev() {
            same("later", i, &Live::new(c).finish()?, &alone[i])?;
        }
        if case.threads {
            let start = Arc::new(Barrier::new(case.codecs.len()));
            let (tx, rx) = mpsc::channel();
            for (i, c) in case.codecs.iter().cloned().enumerate() {
                let (start, tx) = (start.clone(), tx.clone());
                // one that has made some of its calls on this thread
                let mut begun = Live::new(&c);
                let first = case.turns.get(i).map_or(1, |t| 1 + *t as usize);
                while begun.at < first.min(c.steps()) {
                    begun.step()?;
                }
                let begun = Handed(begun);
                std::thread::spawn(move || {
                    let begun = begun;
                    start.wait();
                    let mut all = vec![begun.take().finish()];
                    for _ in 0..2 {
                        all.push(Live::new(&c).finish());
                    }
                    let _ = tx.send((i, all));
                });
            }
            drop(tx);
            for _ in 0..case.codecs.len() {
                let (i, all) = match rx.recv_timeout(Duration::from_secs(60)) {
                    Ok(x) => x,
                    Err(_) => fail!("a thread did not finish its calls"),
                };
                for got in all {
                    same("on a thread", i, &got?, &alone[i])?;
                }
            }
        }
        Ok(())
    }
}
