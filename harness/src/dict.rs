//! The numbers and strings that the tree under test mentions and that the
//! tree this harness was written for did not (or not as often). The
//! generators draw them now and then, since a change often behaves
//! differently just at a number or string it names. The oracles do not know
//! of them. On the tree as committed there are none.

use std::collections::HashMap;
use std::path::Path;
use std::sync::OnceLock;

const BASELINE: &str = include_str!("baseline.txt");
const CRATES: [&str; 3] = ["hpack/src", "huffman/src", "protos/src"];

#[derive(Default, Debug)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
    pub bytes: Vec<u8>,
    pub lens: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum Token {
    Num(u64),
    Str(Vec<u8>),
    Word(String),
    Sign(u8),
}

fn escape(b: &[u8], i: &mut usize) -> Option<u8> {
    let c = *b.get(*i)?;
    *i += 1;
    if c != b'\\' {
        return Some(c);
    }
    let c = *b.get(*i)?;
    *i += 1;
    Some(match c {
        b'n' => b'\n',
        b'r' => b'\r',
        b't' => b'\t',
        b'0' => 0,
        b'x' => {
            let h = std::str::from_utf8(b.get(*i..*i + 2)?).ok()?;
            *i += 2;
            u8::from_str_radix(h, 16).ok()?
        }
        c => c,
    })
}

fn number(word: &str) -> Option<u64> {
    let w: String = word.chars().filter(|c| *c != '_').collect();
    let (digits, radix) = match w.get(..2) {
        Some("0x") => (&w[2..], 16),
        Some("0b") => (&w[2..], 2),
        Some("0o") => (&w[2..], 8),
        _ => (&w[..], 10),
    };
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    u64::from_str_radix(&digits[..end], radix).ok()
}

fn tokens(text: &[u8]) -> Vec<Token> {
    let mut out = vec![];
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        let rest = &text[i..];
        if rest.starts_with(b"//") {
            while i < text.len() && text[i] != b'\n' {
                i += 1;
            }
        } else if rest.starts_with(b"/*") {
            while i < text.len() && !text[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            i += 1;
            let mut s = vec![];
            while i < text.len() && text[i] != b'"' {
                match escape(text, &mut i) {
                    Some(c) => s.push(c),
                    None => i += 1,
                }
            }
            i += 1;
            out.push(Token::Str(s));
        } else if c == b'\'' {
            // an octet, or else a lifetime
            let mut j = i + 1;
            if let Some(v) = escape(text, &mut j) {
                if text.get(j) == Some(&b'\'') {
                    out.push(Token::Num(v as u64));
                    i = j;
                }
            }
            i += 1;
        } else if c.is_ascii_alphanumeric() || c == b'_' {
            let start = i;
            while i < text.len() && (text[i].is_ascii_alphanumeric() || text[i] == b'_') {
                i += 1;
            }
            let w = String::from_utf8_lossy(&text[start..i]).into_owned();
            // b"..." and b'.'
            if w == "b" && matches!(text.get(i), Some(b'"' | b'\'')) {
                continue;
            }
            out.push(match number(&w) {
                Some(n) if c.is_ascii_digit() => Token::Num(n),
                _ => Token::Word(w),
            });
        } else {
            if !c.is_ascii_whitespace() {
                out.push(Token::Sign(c));
            }
            i += 1;
        }
    }
    out
}

/// Replaces what is constant by its value until nothing changes.
fn fold(mut t: Vec<Token>) -> Vec<Token> {
    use Token::*;
    loop {
        let before = t.len();
        let mut out: Vec<Token> = Vec::with_capacity(t.len());
        let mut i = 0;
        while i < t.len() {
            let max = match &t[i..] {
                [Word(ty), Sign(b':'), Sign(b':'), Word(m), ..] if m == "MAX" => match &ty[..] {
                    "u8" => Some(u8::MAX as u64),
                    "i8" => Some(i8::MAX as u64),
                    "u16" => Some(u16::MAX as u64),
                    "i16" => Some(i16::MAX as u64),
                    "u32" => Some(u32::MAX as u64),
                    "i32" => Some(i32::MAX as u64),
                    "u64" | "usize" => Some(u64::MAX),
                    "i64" | "isize" => Some(i64::MAX as u64),
                    _ => None,
                },
                _ => None,
            };
            if let Some(n) = max {
                out.push(Num(n));
                i += 4;
                continue;
            }
            let (v, used) = match &t[i..] {
                [Num(a), Sign(b'<'), Sign(b'<'), Num(b), ..] => (a.checked_shl(*b as u32), 4),
                [Num(a), Sign(b'*'), Num(b), ..] => (a.checked_mul(*b), 3),
                [Num(a), Sign(b'/'), Num(b), ..] => (a.checked_div(*b), 3),
                [Num(a), Sign(b'+'), Num(b), ..] => (a.checked_add(*b), 3),
                [Num(a), Sign(b'-'), Num(b), ..] => (a.checked_sub(*b), 3),
                [Num(a), Word(w), Word(_), ..] if w == "as" => (Some(*a), 3),
                [Sign(b'('), Num(a), Sign(b')'), ..] if !matches!(out.last(), Some(Word(_))) => (Some(*a), 3),
                _ => (None, 0),
            };
            match v {
                Some(v) => {
                    out.push(Num(v));
                    i += used;
                }
                None => {
                    out.push(t[i].clone());
                    i += 1;
                }
            }
        }
        t = out;
        if t.len() == before {
            return t;
        }
    }
}

fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

fn scan(dir: &Path, count: &mut HashMap<String, u64>, depth: u32) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() && depth < 6 {
            scan(&p, count, depth + 1);
        } else if p.extension().map_or(false, |x| x == "rs") {
            let Ok(text) = std::fs::read(&p) else { continue };
            let raw = tokens(&text);
            let folded = fold(raw.clone());
            for t in raw.into_iter().chain(folded) {
                let key = match t {
                    Token::Num(n) => format!("n {}", n),
                    Token::Str(s) => format!("s {}", hex(&s)),
                    _ => continue,
                };
                *count.entry(key).or_default() += 1;
            }
        }
    }
}

/// Every literal of the tree with its number of occurrences, one per line.
pub fn literals() -> String {
    let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
    let mut count = HashMap::new();
    for c in CRATES {
        scan(&Path::new(&repo).join(c), &mut count, 0);
    }
    let mut lines: Vec<_> = count.into_iter().map(|(k, n)| format!("{} {}\n", n, k)).collect();
    lines.sort();
    lines.concat()
}

fn build() -> Dict {
    let known: HashMap<&str, u64> = BASELINE.lines().filter_map(|l| l.split_once(' ')).filter_map(|(n, k)| Some((k, n.parse().ok()?))).collect();
    let mut d = Dict::default();
    for line in literals().lines() {
        let Some((n, key)) = line.split_once(' ') else { continue };
        if n.parse::<u64>().unwrap_or(0) <= known.get(key).copied().unwrap_or(0) {
            continue;
        }
        match key.split_once(' ') {
            Some(("n", v)) => {
                let v: u64 = v.parse().unwrap_or(0);
                // the smallest are drawn often enough
                if v > 2 {
                    d.nums.push(v);
                }
            }
            Some(("s", h)) => d.strs.push(unhex(h)),
            _ => {}
        }
    }
    d.nums.sort();
    // a rewritten file must not flood the generators
    if d.nums.len() > 200 {
        let step = d.nums.len() / 200 + 1;
        d.nums = d.nums.into_iter().step_by(step).collect();
    }
    d.strs.truncate(200);
    d.bytes = d.nums.iter().filter(|n| **n < 256).map(|n| *n as u8).collect();
    d.lens = d.nums.iter().filter(|n| **n <= 70_000).map(|n| *n as usize).collect();
    d
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(build)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn folding() {
        let t = fold(tokens(b"let a = (1u64 << 29) - 1; // 77\n f(3) 'a' u16::MAX as u32 b\"x\\x01\" 0xff_u8 &'a x b'\\n' 64 * 1024"));
        let n: Vec<u64> = t.iter().filter_map(|t| if let Token::Num(n) = t { Some(*n) } else { None }).collect();
        assert_eq!(n, vec![(1 << 29) - 1, 3, 97, 65535, 255, 10, 65536]);
        assert!(t.contains(&Token::Str(vec![b'x', 1])));
    }
}
