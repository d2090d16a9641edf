//! Keys read from an iteration, kept as long as the compiler allows.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::must;
use fleece::SharedKeys;
use simrt::run::{Knobs, Workload};
use simrt::{arena, check, count, ev, trace, violation, Tape};

pub struct W;
impl Workload for W {
    const NAME: &'static str = "C04K";
    fn knobs() -> Knobs { Knobs { edge_budget: 50_000_000, call_budget: 50_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) { let _ = t.draw(2); (W, vec![3, 2]) }
    fn op(&self, _t: usize, t: &mut Tape) {
        let mut d = std::collections::BTreeMap::new();
        for _ in 0..1 + t.usize(4) { d.insert(gen::key(t), M::Int(gen::int(t))); }
        let m = M::Dict(d.clone());
        let keyed = t.chance(2, 3);
        let hold = t.usize(3); // 0: only the dict, 1: also the keys, 2: also the scope
        trace!("iterate {} keys {keyed}, holding {}", m.brief(), ["only the dict", "also the shared keys", "also the scope"][hold]);
        let sc = if keyed { match must!("encode-sk", encode_sk(&m, SharedKeys::new(), 0)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") } } else { let b = doc_bytes(&m, 0); must!("scope-new", fleece::Scope::new(b, None)) };
        let dict = must!("to_dict", sc.root().and_then(|r| r.to_dict())).expect("dict");
        let keys: Vec<&str> = must!("iter", dict.iter().map(|(k, _)| k).collect::<Vec<_>>());
        let want: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
        check!(want.len() == d.len(), "content/iter", "{} keys of {}", want.len(), d.len());
        let arc = sc.shared_keys().cloned();
        let (arc, sc) = match hold { 0 => { must!("drop", { drop(arc); drop(sc) }); (None, None) } 1 => { must!("drop", drop(sc)); (arc, None) } _ => (arc, Some(sc)) };
        // somebody else allocates
        let noise = gen::doc(t, 200);
        let n = must!("noise", encode(&noise, 1));
        count("fault: scope dropped while keys are borrowed");
        for (k, w) in keys.iter().zip(&want) {
            let live = k.is_empty() || arena::is_live(k.as_ptr() as usize);
            if keyed && hold == 0 && (!live || k != w) { violation!("dangling/shared-key-of-iteration", "the key {w:?}, borrowed from a dict that is still held, points into the released shared keys of its dropped scope"); }
            check!(live, "freed/iteration-key", "the key {w:?} points into released memory (keys {keyed}, holding {hold})");
            check!(k == w, "changed/iteration-key", "the key {w:?} now reads {:?}", k.as_bytes());
        }
        ev(hold as u64 * 2 + u64::from(keyed));
        must!("drop", { drop(n); drop(keys); drop(arc); drop(sc); });
        must!("drop", drop(dict));
    }
    fn finish(&self) {}
}
