//! Reference model of RFC 7541: table, integers, strings, fields.

use super::huff;
use super::tables::STATIC;
use std::collections::VecDeque;

pub type Header = (Vec<u8>, Vec<u8>);

/// Longest integer, in octets, the decoder under test documents to accept.
pub const MAX_INT_OCTETS: usize = 5;

#[derive(Clone, Debug)]
pub struct Table {
    pub entries: VecDeque<Header>,
    pub size: u64,
    pub max: u64,
}

pub fn entry_size(n: &[u8], v: &[u8]) -> u64 {
    n.len() as u64 + v.len() as u64 + 32
}

impl Table {
    pub fn new(max: u64) -> Table {
        Table { entries: VecDeque::new(), size: 0, max }
    }
    fn evict_to(&mut self, target: u64) {
        while self.size > target {
            let (n, v) = self.entries.pop_back().expect("size is the sum over the entries");
            self.size -= entry_size(&n, &v);
        }
    }
    pub fn set_max(&mut self, max: u64) {
        self.max = max;
        self.evict_to(max);
    }
    pub fn insert(&mut self, n: &[u8], v: &[u8]) {
        let s = entry_size(n, v);
        if s > self.max {
            self.evict_to(0);
            return;
        }
        self.evict_to(self.max - s);
        self.entries.push_front((n.to_vec(), v.to_vec()));
        self.size += s;
    }
    /// Number of the last valid index.
    pub fn len(&self) -> u64 {
        STATIC.len() as u64 + self.entries.len() as u64
    }
    pub fn get(&self, index: u64) -> Option<(&[u8], &[u8])> {
        let s = STATIC.len() as u64;
        if index == 0 {
            None
        } else if index <= s {
            let (n, v) = STATIC[index as usize - 1];
            Some((n.as_bytes(), v.as_bytes()))
        } else {
            self.entries.get((index - s - 1) as usize).map(|(n, v)| (&n[..], &v[..]))
        }
    }
    pub fn has_exact(&self, n: &[u8], v: &[u8]) -> bool {
        STATIC.iter().any(|(a, b)| a.as_bytes() == n && b.as_bytes() == v) || self.entries.iter().any(|(a, b)| a == n && b == v)
    }
    pub fn has_name(&self, n: &[u8]) -> bool {
        STATIC.iter().any(|(a, _)| a.as_bytes() == n) || self.entries.iter().any(|(a, _)| a == n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Err {
    Input,
    Index,
    Overflow,
    Underflow,
    MaxSize,
}

/// Appends an integer; `extra` is the number of superfluous octets.
pub fn put_int(out: &mut Vec<u8>, flags: u8, prefix: u8, value: u64, extra: usize) {
    let mask = (1u64 << prefix) - 1;
    if value < mask {
        assert!(extra == 0);
        out.push(flags | value as u8);
        return;
    }
    out.push(flags | mask as u8);
    let mut rest = value - mask;
    loop {
        let low = (rest & 0x7f) as u8;
        rest >>= 7;
        if rest == 0 {
            if extra == 0 {
                out.push(low);
            } else {
                out.push(low | 0x80);
                for _ in 1..extra {
                    out.push(0x80);
                }
                out.push(0);
            }
            return;
        }
        out.push(low | 0x80);
    }
}

/// Octets of the shortest form.
pub fn int_len(prefix: u8, value: u64) -> usize {
    let mut v = Vec::new();
    put_int(&mut v, 0, prefix, value, 0);
    v.len()
}

/// How many superfluous octets an integer can carry and stay acceptable.
pub fn int_slack(prefix: u8, value: u64) -> usize {
    if value < (1u64 << prefix) - 1 {
        0
    } else {
        MAX_INT_OCTETS.saturating_sub(int_len(prefix, value))
    }
}

pub fn put_str(out: &mut Vec<u8>, s: &[u8], huffman: bool, extra: usize) {
    if huffman {
        let e = huff::encode(s);
        put_int(out, 0x80, 7, e.len() as u64, extra);
        out.extend_from_slice(&e);
    } else {
        put_int(out, 0, 7, s.len() as u64, extra);
        out.extend_from_slice(s);
    }
}

pub fn get_int(buf: &[u8], prefix: u8) -> Result<(u64, usize), Err> {
    get_int_within(buf, prefix, MAX_INT_OCTETS)
}

pub fn get_int_within(buf: &[u8], prefix: u8, octets: usize) -> Result<(u64, usize), Err> {
    let mask = (1u64 << prefix) - 1;
    let first = *buf.first().ok_or(Err::Underflow)? as u64 & mask;
    if first < mask {
        return Ok((first, 1));
    }
    let mut value = mask;
    for i in 1..octets {
        let b = *buf.get(i).ok_or(Err::Underflow)?;
        value += ((b & 0x7f) as u64) << (7 * (i - 1));
        if b & 0x80 == 0 {
            return Ok((value, i + 1));
        }
    }
    Err(Err::Overflow)
}

/// A string: its octets (or that they are no valid Huffman sequence) and the
/// octets used.
pub struct Str {
    pub data: Result<Vec<u8>, huff::Bad>,
    pub huffman: bool,
    pub used: usize,
}

pub fn get_str(buf: &[u8]) -> Result<Str, Err> {
    let (len, n) = get_int(buf, 7)?;
    let huffman = buf[0] & 0x80 != 0;
    if len > (buf.len() - n) as u64 {
        return Err(Err::Underflow);
    }
    let raw = &buf[n..n + len as usize];
    let data = if huffman {
        let mut out = Vec::new();
        huff::decode(raw, &mut out).map(|_| out)
    } else {
        Ok(raw.to_vec())
    };
    Ok(Str { data, huffman, used: n + len as usize })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Indexed,
    Incremental,
    Without,
    Never,
}

impl Kind {
    /// First-octet pattern and prefix length.
    pub fn pattern(self) -> (u8, u8) {
        match self {
            Kind::Indexed => (0x80, 7),
            Kind::Incremental => (0x40, 6),
            Kind::Without => (0x00, 4),
            Kind::Never => (0x10, 4),
        }
    }
    /// Flag the decoder under test documents for it.
    pub fn flag(self) -> u8 {
        match self {
            Kind::Incremental => 0x4,
            Kind::Never => 0x8,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub kind: Kind,
    pub index: u64,
    pub name: Vec<u8>,
    pub value: Vec<u8>,
    pub name_huffman: bool,
    pub value_huffman: bool,
}

#[derive(Clone, Debug)]
pub enum Item {
    Field(Field),
    Update(u64),
}

/// Reads one field or size update. On a fault, returns every fault of that
/// field that can be seen.
pub fn parse(buf: &[u8], table: &Table, limit: u64) -> Result<(Item, usize), Vec<Err>> {
    let first = buf[0];
    let one = |e| vec![e];
    if first & 0x80 != 0 {
        let (index, used) = get_int(buf, 7).map_err(one)?;
        let (n, v) = table.get(index).ok_or(vec![Err::Index])?;
        let f = Field { kind: Kind::Indexed, index, name: n.to_vec(), value: v.to_vec(), name_huffman: false, value_huffman: false };
        return Ok((Item::Field(f), used));
    }
    if first & 0xe0 == 0x20 {
        let (size, used) = get_int(buf, 5).map_err(one)?;
        if size > limit {
            return Err(vec![Err::MaxSize]);
        }
        return Ok((Item::Update(size), used));
    }
    let kind = if first & 0x40 != 0 {
        Kind::Incremental
    } else if first & 0x10 != 0 {
        Kind::Never
    } else {
        Kind::Without
    };
    let (index, mut used) = get_int(buf, kind.pattern().1).map_err(one)?;
    let mut faults = vec![];
    let mut name = vec![];
    let mut name_huffman = false;
    if index == 0 {
        match get_str(&buf[used..]) {
            Ok(s) => {
                used += s.used;
                name_huffman = s.huffman;
                match s.data {
                    Ok(d) => name = d,
                    Err(_) => faults.push(Err::Input),
                }
            }
            Err(e) => return Err(vec![e]),
        }
    } else {
        match table.get(index) {
            Some((n, _)) => name = n.to_vec(),
            None => faults.push(Err::Index),
        }
    }
    let mut value = vec![];
    let mut value_huffman = false;
    match get_str(&buf[used..]) {
        Ok(s) => {
            used += s.used;
            value_huffman = s.huffman;
            match s.data {
                Ok(d) => value = d,
                Err(_) => faults.push(Err::Input),
            }
        }
        Err(e) => faults.push(e),
    }
    if !faults.is_empty() {
        return Err(faults);
    }
    Ok((Item::Field(Field { kind, index, name, value, name_huffman, value_huffman }), used))
}

/// The reference decoder of one connection.
#[derive(Clone)]
pub struct Decoder {
    pub table: Table,
    pub limit: u64,
}

/// What decoding a buffer amounts to.
pub struct Decoded {
    pub headers: Vec<(Vec<u8>, Vec<u8>, u8)>,
    /// Octets of the complete items.
    pub used: usize,
    /// Offset behind each complete item, and whether it was a header.
    pub marks: Vec<(usize, bool)>,
    pub error: Option<Vec<Err>>,
}

impl Decoder {
    pub fn new(limit: u64) -> Decoder {
        Decoder { table: Table::new(limit), limit }
    }
    pub fn apply(&mut self, item: &Item) {
        match item {
            Item::Field(f) if f.kind == Kind::Incremental => self.table.insert(&f.name, &f.value),
            Item::Field(_) => {}
            Item::Update(s) => self.table.set_max(*s),
        }
    }
    pub fn decode(&mut self, buf: &[u8]) -> Decoded {
        let mut d = Decoded { headers: vec![], used: 0, marks: vec![], error: None };
        while d.used < buf.len() {
            match parse(&buf[d.used..], &self.table, self.limit) {
                Ok((item, n)) => {
                    self.apply(&item);
                    d.used += n;
                    match item {
                        Item::Field(f) => {
                            d.headers.push((f.name, f.value, f.kind.flag()));
                            d.marks.push((d.used, true));
                        }
                        Item::Update(_) => d.marks.push((d.used, false)),
                    }
                }
                Err(e) => {
                    d.error = Some(e);
                    break;
                }
            }
        }
        d
    }
}
