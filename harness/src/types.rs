//! Byte strings that read well in replay files.

use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Serialises as `"t:text"` when every byte is printable ASCII, as
/// `"r:count:hex"` when one byte is repeated, and else as `"x:hex"`.
#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);

impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = text(&self.0);
        if s.len() > 100 {
            let cut: String = s.chars().take(100).collect();
            write!(f, "{}...[{} bytes]", cut, self.0.len())
        } else {
            write!(f, "{}", s)
        }
    }
}

impl std::ops::Deref for B {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}

impl From<Vec<u8>> for B {
    fn from(v: Vec<u8>) -> B {
        B(v)
    }
}

fn text(b: &[u8]) -> String {
    if b.len() > 16 && b.iter().all(|x| *x == b[0]) {
        return format!("r:{}:{:02x}", b.len(), b[0]);
    }
    if b.iter().all(|c| (0x20..0x7f).contains(c)) {
        return format!("t:{}", String::from_utf8_lossy(b));
    }
    let mut s = String::with_capacity(b.len() * 2 + 2);
    s.push_str("x:");
    for c in b {
        s.push(char::from_digit((c >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((c & 15) as u32, 16).unwrap());
    }
    s
}

/// Short readable form for messages.
pub fn show(b: &[u8]) -> String {
    format!("{:?}", B(b.to_vec()))
}

impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&text(&self.0))
    }
}

impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        let bad = || serde::de::Error::custom("bad byte string");
        if let Some(t) = s.strip_prefix("t:") {
            return Ok(B(t.as_bytes().to_vec()));
        }
        if let Some(t) = s.strip_prefix("r:") {
            let (n, b) = t.split_once(':').ok_or_else(bad)?;
            let n: usize = n.parse().map_err(|_| bad())?;
            let b = u8::from_str_radix(b, 16).map_err(|_| bad())?;
            return Ok(B(vec![b; n]));
        }
        let t = s.strip_prefix("x:").ok_or_else(bad)?;
        let mut v = Vec::with_capacity(t.len() / 2);
        for i in (0..t.len()).step_by(2) {
            v.push(u8::from_str_radix(t.get(i..i + 2).ok_or_else(bad)?, 16).map_err(|_| bad())?);
        }
        Ok(B(v))
    }
}
