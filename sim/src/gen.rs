//! Generation of content, biased to the format's boundaries. Draw 0 is always the simplest.
use crate::model::M;
use simrt::Tape;
use std::collections::BTreeMap;

/// Bytes a generated document may take.
pub struct Budget(pub isize);

pub fn int(t: &mut Tape) -> i128 {
    match t.weighted(&[4, 4, 4, 2]) {
        0 => i128::from(t.draw(20)),
        1 => t.pick(&[0i128, -1, 2047, 2048, -2048, -2049, 2046, -2047, 255, 256, 127, 128, -128, -129, 4095, 4096, 32767, -32768, 65535]),
        2 => {
            let k = t.draw(64) as u32;
            let d = t.draw(5) as i128;
            let base = (1i128 << k) + [0, -1, 1, -2, 2][d as usize];
            let v = if t.chance(1, 2) { -base } else { base };
            v.clamp(i128::from(i64::MIN), i128::from(u64::MAX))
        }
        _ => {
            let w = t.word();
            let s = t.draw(64);
            let w = w >> s;
            if t.chance(1, 2) { i128::from(w as i64) } else { i128::from(w) }
        }
    }
}
pub fn f64v(t: &mut Tape) -> f64 {
    match t.weighted(&[2, 4, 2, 2]) {
        0 => t.draw(10) as f64,
        1 => t.pick(&[0.0, -0.0, 0.1, -1.5, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9_007_199_254_740_993.0, 16_777_217.0, 1e-40, f64::EPSILON, 2.5]),
        2 => f64::from(f32::from_bits(t.draw(1 << 32) as u32)),
        _ => f64::from_bits(t.word()),
    }
}
pub fn f32v(t: &mut Tape) -> f32 {
    match t.weighted(&[2, 4, 2]) {
        0 => t.draw(10) as f32,
        1 => t.pick(&[0.0f32, -0.0, 0.1, -1.5, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 16_777_216.0]),
        _ => f32::from_bits(t.draw(1 << 32) as u32),
    }
}
pub fn len(t: &mut Tape, cap: usize) -> usize {
    let l = match t.weighted(&[6, 4, 3, 1]) {
        0 => t.usize(6),
        1 => t.pick(&[0, 1, 2, 3, 13, 14, 15, 16, 17, 18, 31, 32]),
        2 => t.pick(&[126usize, 127, 128, 129, 130, 255, 256, 300, 64, 100]),
        _ => t.pick(&[16383usize, 16384, 16385, 2047, 2048, 8191, 0x3fff - 8, 0x3fff, 0x4000 + 8, 0x7ff0, 0x8000, 5000]),
    };
    l.min(cap)
}
fn text(n: usize, kind: u64, seed: u64) -> String {
    let mut s = String::with_capacity(n + 4);
    let mut i = 0u64;
    while s.len() < n {
        let r = n - s.len();
        let x = (seed.wrapping_mul(31).wrapping_add(i.wrapping_mul(7))) % 26;
        let c = match kind {
            0 => (b'a' + x as u8) as char,
            1 if r >= 3 => char::from_u32(0x4e00 + x as u32 * 97).unwrap(),
            2 if r >= 2 => char::from_u32(0xe0 + x as u32 % 20).unwrap(),
            3 if r >= 4 => char::from_u32(0x1f600 + x as u32).unwrap(),
            4 => [' ', '\0', '"', '\u{7f}', '\n', '.', '/', '0'][(x % 8) as usize],
            _ => (b'0' + (x % 10) as u8) as char,
        };
        s.push(c);
        i += 1;
    }
    s
}
pub fn string(t: &mut Tape, cap: usize) -> String {
    let n = len(t, cap);
    let k = t.weighted(&[5, 1, 1, 1, 1, 1]) as u64;
    let seed = t.draw(50);
    text(n, k, seed)
}
pub fn data(t: &mut Tape, cap: usize) -> Vec<u8> {
    let n = len(t, cap);
    let k = t.draw(5);
    let seed = t.draw(256) as usize;
    (0..n).map(|i| match k { 0 => (seed + i) as u8, 1 => 0, 2 => 0xff, 3 => ((seed + i * 131) % 251) as u8, _ => 0x80 | (i as u8) }).collect()
}
pub const KEYS: &[&str] = &[
    "name", "age", "id", "k1", "k2", "a", "b", "z", "x", "", "ab", "Z", "0", "7", "_", "-", "_id", "a-b", "first_name",
    "fourteen_chars", "fifteen_chars_a", "fifteen_chars_b", "sixteen_chars_aa", "sixteen_chars_ab", "sixteen_chars_b1", "seventeen_chars_1", "seventeen_chars_2",
    "Address Line 1", "with space", "dot.key", "é", "ü1", "名前", "键", "ключ", "Ω", "😀", "a\0", "a\0b", "a\u{0}c", "nul\0key",
    "this is a key that is far too long to be shared", "another key that is far too long to be shared", "k10", "k11", "k1_", "K1", "tag", "type", "value", "true", "null", "éééééééé", "ééééééééé", "名名名名名", "名名名名名名", "~", "\u{7f}",
];
pub fn key(t: &mut Tape) -> String {
    match t.weighted(&[5, 2, 1]) {
        0 => KEYS[t.usize(KEYS.len())].to_string(),
        1 => format!("k{}", t.draw(40)),
        _ => {
            let n = [1usize, 2, 3, 12, 13, 14, 15, 16, 17, 18, 40, 127, 128, 300][t.usize(14)];
            let k = t.weighted(&[4, 1, 1, 1, 1, 1]) as u64;
            let s = t.draw(30);
            text(n, k, s)
        }
    }
}
/// A scalar; seldom one that is longer than any 16-bit number can say.
pub fn scalar_or_long(t: &mut Tape) -> M {
    if !t.chance(1, 60) { return scalar(t, 300); }
    if t.chance(1, 2) { return scalar(t, 40_000); }
    let n = t.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_072, 140_000]);
    if t.chance(1, 2) { M::Data(vec![0x6c; n]) } else { M::Str(text(n, t.draw(3), 5)) }
}
pub fn scalar(t: &mut Tape, cap: usize) -> M {
    match t.weighted(&[6, 2, 1, 2, 2, 3, 6, 3]) {
        0 => M::Int(int(t)),
        1 => M::Null,
        2 => M::Undef,
        3 => M::Bool(t.chance(1, 2)),
        4 => M::F32(f32v(t)),
        5 => M::F64(f64v(t)),
        6 => M::Str(string(t, cap)),
        _ => M::Data(data(t, cap)),
    }
}
fn count(t: &mut Tape) -> usize {
    match t.weighted(&[6, 8, 3]) { 0 => t.usize(3), 1 => 1 + t.usize(5), _ => t.usize(20) }
}
/// Element i of a big collection, without a draw per element.
fn cheap(kind: u64, seed: u64, i: usize) -> M {
    match kind {
        0 => M::Int(i as i128),
        1 => M::Str(format!("s{}", i as u64 + seed)),
        2 => if i % 3 == 0 { M::Str(format!("{}", i % 10)) } else { M::Int((i as i128) * 17 - 3000) },
        3 => match i % 5 { 0 => M::Null, 1 => M::Bool(i % 2 == 0), 2 => M::Data(vec![i as u8; i % 4]), 3 => M::Arr(vec![M::Int(i as i128)]), _ => M::F64(i as f64 / 4.0) },
        _ => M::Bool(i % 2 == 1),
    }
}
const BIG: &[usize] = &[255, 256, 257, 100, 511, 512, 1000, 1023, 1024, 2046, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 6000];
/// A collection of many similar elements.
pub fn many(t: &mut Tape, bytes: isize) -> M {
    let dict = t.chance(1, 3);
    let n = BIG[t.usize(BIG.len())].min((bytes / 8) as usize);
    let k = t.draw(6);
    let seed = t.draw(1000);
    let el = |i: usize| if k == 5 { M::Int((i % 7) as i128) } else { cheap(k, seed, i) };
    if dict { M::Dict((0..n).map(|i| (if k % 2 == 0 { format!("k{i}") } else { format!("{i:05}") }, el(i))).collect()) } else { M::Arr((0..n).map(el).collect()) }
}
pub fn collection(t: &mut Tape, depth: usize, b: &mut Budget) -> M {
    let dict = t.chance(1, 2);
    let shape = t.weighted(&[14, if b.0 > 20_000 { 2 } else { 0 }, if b.0 > 40_000 { 2 } else { 0 }, 1]);
    match shape {
        1 => {
            // many elements
            let n = BIG[t.usize(BIG.len())].min((b.0 / 8) as usize);
            let k = t.draw(5);
            let seed = t.draw(1000);
            b.0 -= n as isize * 8;
            if dict { M::Dict((0..n).map(|i| (if k % 2 == 0 { format!("k{i}") } else { format!("{i:05}") }, cheap(k, seed, i))).collect()) } else { M::Arr((0..n).map(|i| cheap(k, seed, i)).collect()) }
        }
        2 => {
            // elements whose pointers span about the reach of a narrow pointer
            let before = t.usize(6);
            let after = t.usize(12);
            let lim = [0x3fffusize, 0x7ffe][t.usize(2)];
            let pad = lim - 120 + t.usize(160);
            b.0 -= pad as isize;
            let mut v: Vec<M> = vec![];
            for i in 0..before { v.push(match t.draw(3) { 0 => M::Str(format!("before{i}")), 1 => M::Int(1 << 40), _ => M::Arr(vec![M::Int(i as i128)]) }); }
            v.push(M::Data(vec![0x5a; pad]));
            for i in 0..after { v.push(match t.draw(4) { 0 => M::Str(format!("after{i}")), 1 => M::Int(3), 2 => M::Str("x".into()), _ => M::Dict([("aa".to_string(), M::Int(i as i128))].into()) }); }
            if dict {
                let klen = t.usize(5);
                M::Dict(v.into_iter().enumerate().map(|(i, m)| (format!("{}{:02}", ["", "k", "key", "ninechars", "a key that is long"][klen], (i * 7) % 37), m)).collect())
            } else { M::Arr(v) }
        }
        3 => {
            // a chain of nested collections
            let n = 2 + t.usize(30);
            let mut m = scalar(t, 40);
            for i in 0..n { m = if (i + usize::from(dict)) % 3 == 0 { M::Dict([(KEYS[i % 8].to_string(), m)].into()) } else { M::Arr(vec![m]) }; }
            m
        }
        _ => {
            let n = count(t);
            if dict {
                let mut d = BTreeMap::new();
                for _ in 0..n { let k = key(t); let v = value(t, depth + 1, b); b.0 -= k.len() as isize + 4; d.insert(k, v); }
                M::Dict(d)
            } else {
                let mut v = vec![];
                for _ in 0..n { v.push(value(t, depth + 1, b)); }
                M::Arr(v)
            }
        }
    }
}
pub fn value(t: &mut Tape, depth: usize, b: &mut Budget) -> M {
    if depth < 5 && b.0 > 64 && t.chance(if depth < 2 { 3 } else { 2 }, 10) {
        collection(t, depth, b)
    } else {
        let cap = b.0.clamp(8, 40_000) as usize;
        let m = scalar(t, cap);
        b.0 -= match &m { M::Str(s) => s.len() as isize + 4, M::Data(d) => d.len() as isize + 4, _ => 8 };
        m
    }
}
/// A document: a collection at the top.
pub fn doc(t: &mut Tape, bytes: isize) -> M {
    if bytes >= 50_000 && t.chance(1, 12) { return giant(t); }
    let mut b = Budget(bytes);
    collection(t, 0, &mut b)
}
/// The format's rarer boundaries: long counts, long lengths, deep nesting.
fn giant(t: &mut Tape) -> M {
    let small = |t: &mut Tape| { let mut b = Budget(60); value(t, 3, &mut b) };
    let big = match t.weighted(&[3, 2, 4]) {
        // lengths that take three or four bytes
        0 => { let n = [(1usize << 21) - 1, 1 << 21, (1 << 21) + 1, 70_000, 65_535, 65_536, 131_071][t.usize(7)]; if t.chance(1, 2) { M::Data(vec![0x6b; n]) } else { let k = t.weighted(&[5, 1, 1, 1, 1, 1]) as u64; M::Str(text(n, k, 3)) } }
        // counts that take two or three bytes
        1 => { let n = [2047 + 16383, 2047 + 16384, 2047 + 16385, 65_535, 65_536, 40_000][t.usize(6)]; let k = [0, 2, 4][t.usize(3)]; M::Arr((0..n).map(|i| cheap(k, 5, i)).collect()) }
        _ => {
            let n = 33 + t.usize(300);
            let mut m = small(t);
            let kind = t.draw(3) as usize;
            for i in 0..n { m = if kind == 0 || (kind == 1 && i % 3 == 0) { M::Dict([(KEYS[i % KEYS.len()].to_string(), m)].into()) } else { M::Arr(vec![m]) }; }
            m
        }
    };
    let around = t.usize(3);
    let mut v = vec![];
    for _ in 0..around { v.push(small(t)); }
    v.push(big);
    if t.chance(1, 2) { v.push(small(t)); }
    if t.chance(1, 2) { M::Arr(v) } else { M::Dict(v.into_iter().enumerate().map(|(i, m)| (KEYS[i * 5 % KEYS.len()].to_string(), m)).collect()) }
}
/// Which size of document this time: mostly small.
pub fn doc_any(t: &mut Tape) -> M {
    let b = [120, 400, 2000, 60_000][t.weighted(&[5, 6, 4, 2])];
    doc(t, b)
}
