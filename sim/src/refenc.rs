//! An independent writer of the wire format, which makes the choices the library's own encoder never
//! makes: shortest integers, shared strings, wide collections without need, pointers to pointers,
//! floats stored in the shorter form, padding between values.
use crate::model::M;
use simrt::Rng;
use std::collections::HashMap;

#[derive(Clone, Copy)]
pub struct Style { pub dedupe: bool, pub wide: u64, pub hop: u64, pub short_double: bool, pub pad: u64, pub inline_empty: bool, pub min_int: u64, pub inline4: u64 }
pub struct Enc<'k> { o: Vec<u8>, st: Style, r: Rng, strs: HashMap<(bool, Vec<u8>), usize>, keys: Option<&'k HashMap<String, u16>>, out_of_reach: bool }

#[derive(Clone, Copy)]
enum Slot { Inline([u8; 2]), Inline4([u8; 4]), At(usize) }

pub fn style(seed: u64) -> Style {
    let mut r = Rng::new(seed);
    Style { dedupe: r.below(2) == 0, wide: [0, 0, 3, 10][r.below(4) as usize], hop: [0, 0, 2][r.below(3) as usize], short_double: r.below(2) == 0,
        pad: [0, 0, 2][r.below(3) as usize], inline_empty: r.below(2) == 0, min_int: [0, 5, 10][r.below(3) as usize], inline4: [0, 0, 3, 9][r.below(4) as usize] }
}
/// Encode a document (top level a collection, or a scalar that fits two bytes).
pub fn encode(m: &M, seed: u64, keys: Option<&HashMap<String, u16>>) -> Vec<u8> {
    let mut e = Enc { o: vec![], st: style(seed), r: Rng::new(seed ^ 77), strs: HashMap::new(), keys, out_of_reach: false };
    if !m.is_coll() {
        if let Some(b) = Enc::tiny(m) { return b.to_vec(); }
    }
    let at = match e.out_of_line(m) { Slot::At(a) => a, Slot::Inline(b) => { let a = e.o.len(); e.o.extend(b); a } Slot::Inline4(b) => { let a = e.o.len(); e.o.extend(b); a } };
    e.even();
    let mut here = e.o.len();
    let mut to = at;
    if here - at > 0x7ffe || e.r.below(10) < e.st.hop {
        let off = ((here - at) / 2) as u32;
        let mut b = off.to_be_bytes();
        b[0] |= 0x80;
        e.o.extend(b);
        to = here;
        here = e.o.len();
    }
    let b = (((here - to) / 2) as u16 | 0x8000).to_be_bytes();
    e.o.extend(b);
    e.o
}
fn put_varint(o: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8); }
impl<'k> Enc<'k> {
    fn even(&mut self) { if self.o.len() % 2 == 1 { self.o.push(0); } }
    fn tiny(m: &M) -> Option<[u8; 2]> {
        Some(match m {
            M::Null => [0x30, 0], M::Undef => [0x3c, 0], M::Bool(false) => [0x34, 0], M::Bool(true) => [0x38, 0],
            M::Int(i) if (-2048..2048).contains(i) => { let b = (*i as i16).to_be_bytes(); [b[0] & 15, b[1]] }
            M::Str(s) if s.is_empty() => [0x40, 0],
            M::Str(s) if s.len() == 1 => [0x41, s.as_bytes()[0]],
            M::Data(s) if s.is_empty() => [0x50, 0],
            M::Data(s) if s.len() == 1 => [0x51, s[0]],
            _ => return None,
        })
    }
    fn bytes(&mut self, tag: u8, d: &[u8]) -> Slot {
        let k = (tag == 0x40, d.to_vec());
        if self.st.dedupe { if let Some(a) = self.strs.get(&k) { return Slot::At(*a); } }
        let a = self.o.len();
        if d.len() < 15 { self.o.push(tag | d.len() as u8); } else { self.o.push(tag | 15); put_varint(&mut self.o, d.len() as u64); }
        self.o.extend_from_slice(d);
        self.even();
        self.strs.insert(k, a);
        Slot::At(a)
    }
    fn slot(&mut self, m: &M) -> Slot {
        if let Some(t) = Self::tiny(m) { return Slot::Inline(t); }
        if self.st.inline_empty {
            if let M::Arr(v) = m { if v.is_empty() { return Slot::Inline([0x60, 0]); } }
            if let M::Dict(v) = m { if v.is_empty() { return Slot::Inline([0x70, 0]); } }
        }
        if self.r.below(20) < self.st.inline4 {
            // values of three or four bytes may live in the slots of a wide collection
            match m {
                M::Str(s) if s.len() < 4 => { let mut b = [0x40 | s.len() as u8, 0, 0, 0]; b[1..=s.len()].copy_from_slice(s.as_bytes()); return Slot::Inline4(b); }
                M::Data(s) if s.len() < 4 => { let mut b = [0x50 | s.len() as u8, 0, 0, 0]; b[1..=s.len()].copy_from_slice(s); return Slot::Inline4(b); }
                M::Int(i) if (-0x80_0000..0x80_0000).contains(i) => { let x = (*i as i32).to_le_bytes(); return Slot::Inline4([0x12, x[0], x[1], x[2]]); }
                _ => {}
            }
        }
        self.out_of_line(m)
    }
    fn out_of_line(&mut self, m: &M) -> Slot {
        if self.r.below(10) < self.st.pad { for _ in 0..=self.r.below(2) { self.o.extend([0, 0]); } }
        match m {
            M::Int(i) => {
                let a = self.o.len();
                let unsigned = *i > i128::from(i64::MAX) || (*i > 0 && self.r.below(2) == 0);
                let b = i.to_le_bytes();
                let mut n = 8;
                if self.r.below(10) < self.st.min_int {
                    // shortest form that still reads back
                    n = (1..=8).find(|n| {
                        let mut x = [0u8; 16];
                        x[..*n].copy_from_slice(&b[..*n]);
                        if !unsigned && x[n - 1] & 0x80 != 0 { for y in &mut x[*n..] { *y = 0xff; } }
                        i128::from_le_bytes(x) == *i
                    }).unwrap();
                }
                self.o.push(0x10 | if unsigned { 8 } else { 0 } | (n as u8 - 1));
                self.o.extend_from_slice(&b[..n]);
                self.even();
                Slot::At(a)
            }
            M::F32(f) => { let a = self.o.len(); self.o.extend([0x20, 0]); self.o.extend(f.to_le_bytes()); Slot::At(a) }
            M::F64(f) => {
                let a = self.o.len();
                let s = *f as f32;
                if self.st.short_double && f64::from(s).to_bits() == f.to_bits() { self.o.extend([0x24, 0]); self.o.extend(s.to_le_bytes()); }
                else { self.o.extend([0x28, 0]); self.o.extend(f.to_le_bytes()); }
                Slot::At(a)
            }
            M::Str(s) => self.bytes(0x40, s.as_bytes()),
            M::Data(d) => self.bytes(0x50, d),
            M::Arr(v) => {
                let s: Vec<Slot> = v.iter().map(|x| self.slot(x)).collect();
                self.coll(0x60, v.len(), &s)
            }
            M::Dict(d) => {
                let mut es: Vec<(Option<u16>, &String, Slot, Slot)> = vec![];
                for (k, v) in d {
                    let id = if k.len() > 1 { self.keys.and_then(|m| m.get(k)).copied() } else { None };
                    let ks = match id {
                        Some(i) => { let b = i.to_be_bytes(); Slot::Inline([b[0] & 15, b[1]]) }
                        None => self.slot(&M::Str(k.clone())),
                    };
                    let vs = self.slot(v);
                    es.push((id, k, ks, vs));
                }
                // shared keys first, by id, then strings by their bytes
                es.sort_by(|a, b| match (a.0, b.0) { (Some(x), Some(y)) => x.cmp(&y), (Some(_), None) => std::cmp::Ordering::Less, (None, Some(_)) => std::cmp::Ordering::Greater, _ => a.1.as_bytes().cmp(b.1.as_bytes()) });
                let s: Vec<Slot> = es.iter().flat_map(|e| [e.2, e.3]).collect();
                self.coll(0x70, d.len(), &s)
            }
            o => Slot::Inline(Self::tiny(o).unwrap()),
        }
    }
    fn coll(&mut self, tag: u8, n: usize, s: &[Slot]) -> Slot {
        self.even();
        // indirect some elements
        let mut s = s.to_vec();
        if self.st.hop > 0 {
            for x in &mut s {
                if let Slot::At(a) = x {
                    if self.r.below(12) < self.st.hop {
                        let here = self.o.len();
                        let mut b = (((here - *a) / 2) as u32).to_be_bytes();
                        b[0] |= 0x80;
                        self.o.extend(b);
                        *x = Slot::At(here);
                    }
                }
            }
        }
        let at = self.o.len();
        let mut head = vec![tag | ((n.min(0x7ff) >> 8) as u8), (n.min(0x7ff) & 255) as u8];
        if n >= 0x7ff { put_varint(&mut head, n as u64); if head.len() % 2 == 1 { head.push(0); } }
        let narrow_ok = s.iter().enumerate().all(|(i, x)| match x { Slot::At(a) => at + head.len() + 2 * i - a <= 0x7ffe, Slot::Inline(_) => true, Slot::Inline4(_) => false });
        let wide = !narrow_ok || self.r.below(10) < self.st.wide;
        if wide { head[0] |= 8; }
        self.o.extend(&head);
        for x in &s {
            let here = self.o.len();
            match x {
                Slot::Inline(b) => { self.o.extend(b); if wide { self.o.extend([0, 0]); } }
                Slot::Inline4(b) => self.o.extend(b),
                Slot::At(a) => {
                    let off = ((here - a) / 2) as u32;
                    if wide { let mut b = off.to_be_bytes(); b[0] |= 0x80; self.o.extend(b); } else { self.o.extend((off as u16 | 0x8000).to_be_bytes()); }
                }
            }
        }
        let _ = self.out_of_reach;
        Slot::At(at)
    }
}
