//! RFC 7541 Huffman coding, bit by bit.

use super::tables::CODES;
use std::sync::OnceLock;

pub const EOS: usize = 256;

/// A plain sequence of bits, most significant first.
#[derive(Default, Clone)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl Bits {
    pub fn push(&mut self, bit: bool) {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if bit {
            let last = self.bytes.len() - 1;
            self.bytes[last] |= 0x80 >> (self.len % 8);
        }
        self.len += 1;
    }
    pub fn push_code(&mut self, code: u32, len: u8) {
        for i in (0..len).rev() {
            self.push(code >> i & 1 == 1);
        }
    }
    pub fn push_sym(&mut self, sym: usize) {
        let (c, l) = CODES[sym];
        self.push_code(c, l);
    }
    /// Bits missing to the next octet.
    pub fn room(&self) -> usize {
        (8 - self.len % 8) % 8
    }
}

pub fn encode(data: &[u8]) -> Vec<u8> {
    let mut b = Bits::default();
    for &c in data {
        b.push_sym(c as usize);
    }
    while b.room() > 0 {
        b.push(true);
    }
    b.bytes
}

/// Length in octets of the encoding of `data`.
pub fn encoded_len(data: &[u8]) -> usize {
    (data.iter().map(|c| CODES[*c as usize].1 as usize).sum::<usize>() + 7) / 8
}

/// Binary tree: node -> [child; 2]; negative entries are symbols.
fn tree() -> &'static Vec<[i32; 2]> {
    static TREE: OnceLock<Vec<[i32; 2]>> = OnceLock::new();
    TREE.get_or_init(|| {
        let mut t = vec![[0i32; 2]];
        for (sym, (code, len)) in CODES.iter().enumerate() {
            let mut at = 0usize;
            for i in (0..*len).rev() {
                let b = (code >> i & 1) as usize;
                if i == 0 {
                    assert!(t[at][b] == 0);
                    t[at][b] = -(sym as i32) - 1;
                } else {
                    if t[at][b] == 0 {
                        t.push([0, 0]);
                        let n = t.len() as i32 - 1;
                        t[at][b] = n;
                    }
                    assert!(t[at][b] > 0);
                    at = t[at][b] as usize;
                }
            }
        }
        t
    })
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad {
    Eos,
    Padding,
}

/// Decodes `src` into `out` (which is appended to also when the input is bad).
pub fn decode(src: &[u8], out: &mut Vec<u8>) -> Result<(), Bad> {
    let t = tree();
    let (mut at, mut depth, mut ones) = (0usize, 0usize, true);
    for byte in src {
        for i in (0..8).rev() {
            let b = (byte >> i & 1) as usize;
            depth += 1;
            ones &= b == 1;
            let next = t[at][b];
            if next < 0 {
                let sym = (-next - 1) as usize;
                if sym == EOS {
                    return Err(Bad::Eos);
                }
                out.push(sym as u8);
                at = 0;
                depth = 0;
                ones = true;
            } else {
                at = next as usize;
            }
        }
    }
    if depth > 7 || !ones {
        return Err(Bad::Padding);
    }
    Ok(())
}
