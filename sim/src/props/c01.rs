//! Encoding sessions against the model of an encoder.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::{agree_ctx, must, refdec};
use fleece::{Encoder, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};
use std::collections::BTreeMap;

enum Fr { Arr(Vec<M>), Dict(BTreeMap<String, M>, Option<String>) }
struct Sess { e: Encoder, stack: Vec<Fr>, root: Option<M>, prefix: Vec<u8>, sk: bool, calls: u32, refused: u32, id: u64 }
pub struct W { th: Vec<Sh<Option<Sess>>>, next: Sh<u64> }

impl Sess {
    fn accepts_value(&self) -> bool { match self.stack.last() { Some(Fr::Arr(_)) => true, Some(Fr::Dict(_, k)) => k.is_some(), None => false } }
    fn accepts_coll(&self) -> bool { if self.stack.is_empty() { self.root.is_none() } else { self.accepts_value() } }
    fn accepts_key(&self) -> bool { matches!(self.stack.last(), Some(Fr::Dict(_, None))) }
    fn add(&mut self, m: M) {
        match self.stack.last_mut() {
            Some(Fr::Arr(v)) => v.push(m),
            Some(Fr::Dict(d, k)) => { let k = k.take().unwrap(); d.insert(k, m); }
            None => self.root = Some(m),
        }
    }
    fn close(&mut self) { match self.stack.pop() { Some(Fr::Arr(v)) => self.add(M::Arr(v)), Some(Fr::Dict(d, _)) => self.add(M::Dict(d)), None => {} } }
    fn fresh_key(&self, t: &mut Tape) -> String {
        for _ in 0..6 {
            let k = gen::key(t);
            match self.stack.last() { Some(Fr::Dict(d, _)) if d.contains_key(&k) => continue, _ => return k }
        }
        let n = match self.stack.last() { Some(Fr::Dict(d, _)) => d.len(), _ => 0 };
        format!("unique{n}")
    }
}
fn outcome(s: &mut Sess, what: &str, r: ER, want: bool) {
    s.calls += 1;
    if !want { s.refused += 1; count("fault: call the encoder must refuse"); }
    check!(r.is_ok() == want, format!("verdict/{what}"), "session {}: {what} returned {r:?}, expected {}", s.id, if want { "success" } else { "an error" });
}
/// Check finished bytes against the accepted content.
pub fn check_bytes(bytes: &[u8], want: &M, keys: Option<&[String]>, op: &str) {
    match refdec::decode(bytes, keys) {
        Ok(m) => check!(m.same(want), format!("content/{op}-bytes"), "{op}: the bytes hold {} instead of {}", m.brief(), want.brief()),
        Err(e) => violation!(format!("invalid/{op}-bytes"), "{op}: the bytes are not valid Fleece: {e}; wanted {}", want.brief()),
    }
}
impl W {
    fn finish_session(&self, t: usize, tape: &mut Tape) {
        let Some(mut s) = self.th[t].g().take() else { return };
        if !s.stack.is_empty() { count("fault: session cut off with collections open"); }
        if let Some(Fr::Dict(_, Some(_))) = s.stack.last() { count("fault: session cut off with a key waiting"); }
        while !s.stack.is_empty() { s.close(); }
        let Some(want) = s.root.take() else { must!("drop", drop(s.e)); return };
        let e = s.e;
        ev(s.calls.into()); ev(want.nodes() as u64);
        let how = if s.sk { 2 } else { tape.weighted(&[3, 2, 2]) };
        trace!("s{} finish how={how}: {}", s.id, want.brief());
        match how {
            0 => {
                let bytes = must!("finish", e.finish());
                check!(bytes.len() >= s.prefix.len() && bytes[..s.prefix.len()] == s.prefix[..], "prefix/finish", "the bytes already in the buffer changed");
                check_bytes(&bytes, &want, None, "finish");
                let g = simrt::guarded_copy(&bytes, tape.chance(1, 2));
                let v = match must!("from_bytes", Value::from_bytes(g)) { Ok(v) => v, Err(e) => violation!("refused/from_bytes", "the finished document is refused: {e:?}; it holds {}", want.brief()) };
                agree_ctx!("read-finished", want.brief(), same_deep(v, &want, Sk::Auto));
                let u = must!("from_bytes_unchecked", unsafe { Value::from_bytes_unchecked(g) });
                check!(core::ptr::addr_eq(u, v), "root/unchecked", "checked and unchecked open give different roots");
                simrt::arena::guarded_free(g);
                drop(bytes);
            }
            1 => {
                let v = must!("finish_value", e.finish_value());
                agree_ctx!("read-finished-value", want.brief(), same_deep(&v, &want, Sk::Auto));
                must!("drop", drop(v));
            }
            _ => {
                let sc = must!("finish_scoped", e.finish_scoped());
                let Some(d) = must!("scope-data", sc.data()) else { violation!("no-data/finish_scoped", "a new scope has no data") };
                let keys: Vec<String> = match sc.shared_keys() { Some(k) => { must!("sk-iter", k.iter().map(|(k, _)| simrt::pause_lib(|| k.to_string())).collect::<Vec<_>>()).into_iter().collect() } None => vec![] };
                check!(s.sk == sc.shared_keys().is_some(), "no-keys/finish_scoped", "shared keys set: {}, in the scope: {}", s.sk, sc.shared_keys().is_some());
                check_bytes(&d, &want, s.sk.then_some(&keys[..]), "finish_scoped");
                let Some(v) = must!("scope-root", sc.root()) else { violation!("no-root/finish_scoped", "a finished document registered in a scope has no root; it holds {}", want.brief()) };
                agree_ctx!("read-scoped", want.brief(), same_deep(&v, &want, Sk::Auto));
                must!("drop", { drop(v); drop(sc); drop(d); });
            }
        }
        count("sessions finished and compared");
        ev(s.refused.into());
    }
    fn start(&self, t: usize, tape: &mut Tape) {
        let id = *self.next.g();
        *self.next.g() += 1;
        let sk = tape.chance(1, 4);
        let plen = if !sk && tape.chance(1, 6) { [2usize, 4, 10, 0x3ff0, 0x7ff0, 20000][tape.usize(6)] } else { 0 };
        let prefix: Vec<u8> = (0..plen).map(|i| (i * 7) as u8).collect();
        trace!("s{id} new prefix={plen} shared_keys={sk}");
        let p = prefix.clone();
        let e = must!("new", {
            let mut e = if plen > 0 { Encoder::new_to_vec(p) } else { Encoder::new() };
            if sk { e.set_shared_keys(SharedKeys::new()); }
            e
        });
        *self.th[t].g() = Some(Sess { e, stack: vec![], root: None, prefix, sk, calls: 0, refused: 0, id });
    }
}
impl Workload for W {
    const NAME: &'static str = "C01";
    fn knobs() -> Knobs { Knobs { edge_budget: 200_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = threads(t, 3);
        let ops = (0..n).map(|_| [3, 8, 20, 60][t.usize(4)]).collect();
        (W { th: (0..n).map(|_| Sh::new(None)).collect(), next: Sh::new(0) }, ops)
    }
    fn op(&self, t: usize, tape: &mut Tape) {
        if self.th[t].g().is_none() { self.start(t, tape); }
        let s = self.th[t].g().as_mut().unwrap();
        // mostly a call that fits the state
        let fit = !tape.chance(1, 5);
        let kind = if fit {
            if s.root.is_some() { 5 }
            else if s.stack.is_empty() { [2, 3, 6, 8][tape.weighted(&[40, 40, 20, 3])] }
            else if s.accepts_key() { [1, 4, 5][tape.weighted(&[10, 3, 1])] }
            else { [0, 2, 3, 4, 5, 6, 8][tape.weighted(&[80, 20, 20, 30, 10, 20, 2])] }
        } else { tape.usize(8) };
        match kind {
            0 => {
                let m = gen::scalar(tape, 40_000);
                let ty = tape.draw(128);
                let ok = s.accepts_value();
                trace!("s{} write_value {} (type {ty})", s.id, m.brief());
                let r = must!("write_value", put_scalar(&mut s.e, &m, ty));
                outcome(s, "write_value", r, ok);
                if ok { s.add(m); }
            }
            1 => {
                let k = s.fresh_key(tape);
                let ok = s.accepts_key();
                trace!("s{} write_key {k:?}", s.id);
                let r = must!("write_key", s.e.write_key(&k));
                outcome(s, "write_key", r, ok);
                if ok { if let Some(Fr::Dict(_, n)) = s.stack.last_mut() { *n = Some(k); } }
            }
            2 | 3 => {
                let ok = s.accepts_coll();
                trace!("s{} begin {}", s.id, if kind == 2 { "array" } else { "dict" });
                let (w, r) = if kind == 2 {
                    let cap = [0usize, 1, 10, 3000][tape.usize(4)];
                    ("begin_array", must!("begin_array", s.e.begin_array(cap)))
                } else { ("begin_dict", must!("begin_dict", s.e.begin_dict())) };
                outcome(s, w, r, ok);
                if ok { s.stack.push(if kind == 2 { Fr::Arr(vec![]) } else { Fr::Dict(BTreeMap::new(), None) }); }
            }
            4 => {
                // end the right or the wrong kind
                let (a_ok, d_ok) = (matches!(s.stack.last(), Some(Fr::Arr(_))), matches!(s.stack.last(), Some(Fr::Dict(_, None))));
                let arr = if fit { a_ok } else { tape.chance(1, 2) };
                trace!("s{} end {}", s.id, if arr { "array" } else { "dict" });
                let (w, r, ok) = if arr { ("end_array", must!("end_array", s.e.end_array()), a_ok) } else { ("end_dict", must!("end_dict", s.e.end_dict()), d_ok) };
                outcome(s, w, r, ok);
                if ok { s.close(); }
            }
            5 => self.finish_session(t, tape),
            8 if s.stack.len() < 300 => {
                // very deep, and mostly left open
                let n = [20, 40, 130, 260, 600][tape.usize(5)] + tape.usize(12);
                let mix = tape.draw(3);
                trace!("s{} begin {n} nested collections", s.id);
                for i in 0..n {
                    if s.accepts_key() {
                        let k = s.fresh_key(tape);
                        let r = must!("write_key", s.e.write_key(&k));
                        outcome(s, "write_key", r, true);
                        if let Some(Fr::Dict(_, n)) = s.stack.last_mut() { *n = Some(k); }
                    }
                    if i % 50 == 7 { if let Some(Fr::Arr(_)) = s.stack.last() { let m = gen::scalar(tape, 300); let r = must!("write_value", put_scalar(&mut s.e, &m, 0)); outcome(s, "write_value", r, true); s.add(m); } }
                    let ok = s.accepts_coll();
                    let arr = mix == 0 || (mix == 1 && i % 3 != 0);
                    let (w, r) = if arr { ("begin_array", must!("begin_array", s.e.begin_array(i % 4))) } else { ("begin_dict", must!("begin_dict", s.e.begin_dict())) };
                    outcome(s, w, r, ok);
                    if ok { s.stack.push(if arr { Fr::Arr(vec![]) } else { Fr::Dict(BTreeMap::new(), None) }); }
                }
                count("sessions nested very deep");
            }
            8 => {}
            6 => {
                // a whole generated value (a collection when nothing is open yet)
                let m = if s.stack.is_empty() { gen::doc_any(tape) } else { { let b = [200, 2000, 60_000][tape.weighted(&[4, 3, 1])]; gen::value(tape, 1, &mut gen::Budget(b)) } };
                let ok = if m.is_coll() { s.accepts_coll() } else { s.accepts_value() };
                let how = tape.word();
                trace!("s{} put {}", s.id, m.brief());
                let r = must!("put", put(&mut s.e, &m, how));
                if ok || !m.is_coll() { outcome(s, "put", r, ok); } else {
                    // the very first call is the one refused
                    outcome(s, "put", r, false);
                }
                if ok { s.add(m); }
            }
            _ => {
                // copy a value of another document
                let m = gen::doc(tape, 300);
                let src = must!("encode-source", encode(&m, 0));
                let src = match src { Ok(v) => v, Err(e) => violation!("refused/encode-source", "{e:?}") };
                let v = match must!("from_bytes", Value::from_bytes(&src)) { Ok(v) => v, Err(e) => violation!("refused/from_bytes", "{e:?} for {}", m.brief()) };
                let (v, m) = match (&m, tape.chance(1, 2)) {
                    (M::Arr(a), true) if !a.is_empty() => { let i = tape.usize(a.len()); (must!("get", v.as_array().and_then(|a| a.get(i))).unwrap_or(v), a[i].clone()) }
                    _ => (v, m.clone()),
                };
                let ok = if m.is_coll() { s.accepts_coll() } else { s.accepts_value() };
                trace!("s{} write_fleece {}", s.id, m.brief());
                let r = must!("write_fleece", s.e.write_fleece(v));
                outcome(s, "write_fleece", r, ok);
                if ok { s.add(m); }
                drop(src);
            }
        }
        ev(kind as u64);
    }
    fn thread_end(&self, t: usize) {
        let mut tape = Tape::quiet(t as u64);
        self.finish_session(t, &mut tape);
    }
    fn finish(&self) {}
}
