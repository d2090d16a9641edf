//! Documents whose shape is hostile: very deep nesting, and sub-collections shared at every level.
//! Both are known findings at the sizes named in known-findings.json; below them they must read fine.
use crate::kit::*;
use crate::must;
use fleece::{Encoder, Value};
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};

pub struct W;
/// Arrays of two elements, both the previous array: 2^n paths in 4n bytes.
fn shared(n: usize) -> Vec<u8> {
    let mut o = vec![0x60, 0];
    let mut prev = 0;
    for _ in 0..n {
        let at = o.len();
        o.extend([0x60, 2]);
        for _ in 0..2 { let off = ((o.len() - prev) / 2) as u16 | 0x8000; o.extend(off.to_be_bytes()); }
        prev = at;
    }
    let off = ((o.len() - prev) / 2) as u16 | 0x8000;
    o.extend(off.to_be_bytes());
    o
}
impl Workload for W {
    const NAME: &'static str = "C02K";
    fn knobs() -> Knobs { Knobs { edge_budget: 40_000_000, call_budget: 40_000_000, policies: &[simrt::arena::Policy::Lifo], ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) { let _ = t.draw(2); (W, vec![1]) }
    fn op(&self, _t: usize, t: &mut Tape) {
        if t.chance(1, 2) {
            let n = t.pick(&[10usize, 100, 1000, 200_000]);
            let bytes = must!("encode-nested", { let mut e = Encoder::new(); for _ in 0..n { let _ = e.begin_array(1); } for _ in 0..n { let _ = e.end_array(); } e.finish() });
            trace!("open a document nested {n} deep, {} bytes", bytes.len());
            count("fault: deeply nested document");
            let op = if n > 1000 { "open-nested-200000" } else { "open-nested" };
            let r = must!(op, Value::from_bytes(&bytes));
            let Ok(v) = r else { violation!("refused/open-nested", "an undamaged document nested {n} deep is refused") };
            let d = must!("walk-nested", { let mut d = 1; let mut v = v; while let Some(x) = v.as_array().and_then(|a| a.get(0)) { v = x; d += 1; } d });
            check!(d == n, "content/open-nested", "nested {n} deep, found {d}");
            ev(d as u64);
        } else {
            let n = t.pick(&[2usize, 6, 10, 40]);
            let bytes = shared(n);
            trace!("open a document with {n} levels of shared arrays, {} bytes", bytes.len());
            count("fault: document that shares collections");
            let op = if n > 10 { "open-shared-40" } else { "open-shared" };
            let r = must!(op, Value::from_bytes(&bytes).is_ok());
            check!(r, "refused/open-shared", "an undamaged document is refused");
            ev(n as u64);
        }
    }
    fn finish(&self) {}
}
