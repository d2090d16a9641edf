//! An independent, strict reader of the wire format: what bytes mean, decided without the library.
use crate::model::M;
use std::collections::BTreeMap;

pub struct Dec<'a> { d: &'a [u8], keys: Option<&'a [String]>, nodes: usize }
type R<T> = Result<T, String>;

/// Decode a whole document. `keys` are the shared keys (id = index).
pub fn decode(d: &[u8], keys: Option<&[String]>) -> R<M> {
    if d.len() < 2 || d.len() % 2 != 0 { return Err(format!("{} bytes is no document", d.len())); }
    let mut x = Dec { d, keys, nodes: 0 };
    let at = d.len() - 2;
    if d[at] & 0x80 == 0 {
        if d.len() != 2 { return Err("the trailer is not a pointer".into()); }
        return x.value(at, 2, 0);
    }
    x.value(at, 2, 0)
}
fn varint(d: &[u8]) -> R<(u64, usize)> {
    let mut v = 0u64;
    for (i, b) in d.iter().take(10).enumerate() {
        v |= u64::from(b & 0x7f) << (7 * i);
        if b & 0x80 == 0 { return Ok((v, i + 1)); }
    }
    Err("unterminated varint".into())
}
impl<'a> Dec<'a> {
    fn need(&self, at: usize, n: usize, what: &str) -> R<()> {
        if at + n > self.d.len() { return Err(format!("{what} of {n} bytes at {at} runs past the end ({})", self.d.len())); }
        Ok(())
    }
    /// The value in the slot at `at`.
    fn value(&mut self, at: usize, width: usize, depth: usize) -> R<M> {
        self.nodes += 1;
        if self.nodes > 5_000_000 || depth > 2000 { return Err("too deep".into()); }
        self.need(at, width, "slot")?;
        let b = self.d[at];
        if b & 0x80 != 0 {
            let off = if width == 4 {
                (u32::from_be_bytes([b & 0x3f, self.d[at + 1], self.d[at + 2], self.d[at + 3]]) as usize) * 2
            } else { (u16::from_be_bytes([b & 0x3f, self.d[at + 1]]) as usize) * 2 };
            if b & 0x40 != 0 { return Err(format!("external pointer at {at}")); }
            if off == 0 || off > at { return Err(format!("pointer at {at} leads {off} bytes back")); }
            let to = at - off;
            // a pointer may lead to a (wide) pointer
            if self.d[to] & 0x80 != 0 { return self.value(to, 4, depth + 1); }
            return self.value(to, 2, depth + 1);
        }
        let lo = usize::from(b & 15);
        Ok(match b & 0xf0 {
            0x00 => {
                let v = (u16::from(b & 15) << 8) | u16::from(self.d[at + 1]);
                M::Int(i128::from(if v & 0x800 != 0 { (v | 0xf000) as i16 } else { v as i16 }))
            }
            0x10 => {
                let n = (lo & 7) + 1;
                self.need(at, 1 + n, "int")?;
                let mut x = [0u8; 16];
                x[..n].copy_from_slice(&self.d[at + 1..at + 1 + n]);
                if lo & 8 == 0 && x[n - 1] & 0x80 != 0 { for y in &mut x[n..] { *y = 0xff; } }
                M::Int(i128::from_le_bytes(x))
            }
            0x20 => if lo & 8 != 0 {
                self.need(at, 10, "double")?;
                M::F64(f64::from_le_bytes(self.d[at + 2..at + 10].try_into().unwrap()))
            } else {
                self.need(at, 6, "float")?;
                let f = f32::from_le_bytes(self.d[at + 2..at + 6].try_into().unwrap());
                if lo & 4 != 0 { M::F64(f64::from(f)) } else { M::F32(f) }
            },
            0x30 => match lo { 0 => M::Null, 0xc => M::Undef, 4 => M::Bool(false), 8 => M::Bool(true), _ => return Err(format!("special {lo} at {at}")) },
            0x40 | 0x50 => {
                let (n, h) = if lo == 15 { let (n, h) = varint(&self.d[at + 1..])?; (n as usize, 1 + h) } else { (lo, 1) };
                if n > self.d.len() { return Err(format!("string of {n} bytes at {at}")); }
                self.need(at, h + n, "string")?;
                let s = &self.d[at + h..at + h + n];
                if b & 0xf0 == 0x50 { M::Data(s.to_vec()) } else { M::Str(std::str::from_utf8(s).map_err(|_| format!("bad UTF-8 at {at}"))?.to_string()) }
            }
            _ => {
                let dict = b & 0xf0 == 0x70;
                let w = if b & 8 != 0 { 4 } else { 2 };
                let mut n = (usize::from(b & 7) << 8) | usize::from(self.d[at + 1]);
                let mut first = at + 2;
                if n == 0x7ff {
                    let (c, h) = varint(&self.d[at + 2..])?;
                    n = c as usize;
                    first += h + (h & 1);
                }
                if n > self.d.len() { return Err(format!("{n} elements at {at}")); }
                self.need(first, n * w * if dict { 2 } else { 1 }, "collection")?;
                if dict {
                    let mut m = BTreeMap::new();
                    for i in 0..n {
                        let kp = first + 2 * i * w;
                        let k = match self.value(kp, w, depth + 1)? {
                            M::Str(s) => s,
                            M::Int(id) => {
                                let keys = self.keys.ok_or("a shared key in a document without shared keys")?;
                                usize::try_from(id).ok().and_then(|i| keys.get(i)).ok_or(format!("unknown shared key {id}"))?.clone()
                            }
                            o => return Err(format!("a {} as key", o.brief())),
                        };
                        let v = self.value(kp + w, w, depth + 1)?;
                        if m.insert(k.clone(), v).is_some() { return Err(format!("the key {k:?} twice")); }
                    }
                    M::Dict(m)
                } else {
                    let mut v = vec![];
                    for i in 0..n { v.push(self.value(first + i * w, w, depth + 1)?); }
                    M::Arr(v)
                }
            }
        })
    }
}
