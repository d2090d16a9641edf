//! Shared keys: permanent ids through additions, clones, saves, crashes, reloads and damage.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::{damage, must, refdec};
use fleece::{Encoder, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

const MAX: usize = 2048;
#[derive(Clone, Default)]
struct Model { list: Vec<String>, ids: HashMap<String, u16> }
impl Model {
    fn add(&mut self, k: &str) -> Option<u16> {
        if let Some(i) = self.ids.get(k) { return Some(*i); }
        if !eligible(k) || self.list.len() >= MAX { return None; }
        let i = self.list.len() as u16;
        self.list.push(k.to_string());
        self.ids.insert(k.to_string(), i);
        Some(i)
    }
}
fn eligible(k: &str) -> bool { k.len() <= 16 && k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') }
struct Node { sk: SharedKeys, m: Model, id: usize }
/// What is on the disk: the state of some node at some time.
struct File { bytes: Vec<u8>, m: Model }
struct Reader { sk: Arc<SharedKeys>, m: Arc<Model> }
struct St { files: Vec<Arc<File>>, readers: Vec<Reader>, next: usize, big: bool }
pub struct W { th: Vec<Sh<Option<Node>>>, st: Sh<St> }

/// Keys likely to be confused with present ones.
fn probe(t: &mut Tape, m: &Model) -> String {
    if m.list.is_empty() || t.chance(1, 4) { return gen::key(t); }
    let k = m.list[t.usize(m.list.len())].clone();
    match t.draw(8) {
        0 | 1 => k,
        2 => format!("{k}Z"),
        3 => format!("{k}ZZZZZZZZZZZZZZZZ"),
        4 => { let mut k = k; k.pop(); k }
        5 => k.to_uppercase(),
        6 => format!("{k}\0"),
        _ => { let mut k: Vec<char> = k.chars().collect(); if let Some(l) = k.last_mut() { *l = if *l == 'x' { 'y' } else { 'x' }; } k.into_iter().collect() }
    }
}
fn check_lookup(sk: &SharedKeys, m: &Model, k: &str, what: &str) {
    let got = must!("encode", sk.encode(k));
    check!(got == m.ids.get(k).copied(), format!("id/{what}"), "the id of {k:?} is {got:?}, it should be {:?} (of {} keys)", m.ids.get(k), m.list.len());
}
fn check_decode(sk: &SharedKeys, m: &Model, i: u16, what: &str) {
    let got = must!("decode", sk.decode(i));
    check!(got == m.list.get(usize::from(i)).map(String::as_str), format!("key/{what}"), "id {i} is {got:?}, it should be {:?} (of {} keys)", m.list.get(usize::from(i)), m.list.len());
}
fn check_whole(sk: &SharedKeys, m: &Model, what: &str) {
    check!(must!("len", sk.len()) as usize == m.list.len() && must!("is_empty", sk.is_empty()) == m.list.is_empty(), format!("len/{what}"), "{} keys instead of {}", sk.len(), m.list.len());
    for (i, k) in m.list.iter().enumerate() {
        if !sample(m.list.len(), i) { continue; }
        check_decode(sk, m, i as u16, what);
        check_lookup(sk, m, k, what);
    }
    for i in [m.list.len(), m.list.len() + 1, 2047, 2048, 4000, 65535] { if i >= m.list.len() { check_decode(sk, m, i as u16, what); } }
    let mut seen = vec![false; m.list.len()];
    let got: Vec<(String, u16)> = must!("iter", sk.iter().map(|(k, i)| (k.to_string(), i)).collect());
    for (k, i) in &got {
        check!(m.ids.get(k) == Some(i) && !seen[usize::from(*i)], format!("iter/{what}"), "iteration gave {k:?} as {i}, it should be {:?}", m.ids.get(k));
        seen[usize::from(*i)] = true;
    }
    check!(got.len() == m.list.len(), format!("iter/{what}"), "iteration gave {} of {} keys", got.len(), m.list.len());
    must!("drop", drop(got));
}
/// A state that may be damaged: loads as nothing, or as exactly the list of strings in it.
fn check_damaged(bytes: &[u8], at_start: bool) -> Option<Model> {
    let g = simrt::guarded_copy(bytes, at_start);
    let sk = must!("from_state_bytes", SharedKeys::from_state_bytes(g));
    let mut out = None;
    if let Some(sk) = sk {
        let Ok(v) = must!("from_bytes", Value::from_bytes(g)) else { violation!("damaged/not-a-document", "keys were loaded from bytes that are no document") };
        let list: Vec<String> = must!("read-state", v.as_array().map_or(vec![], |a| a.iter().map(|v| if v.value_type() == fleece::ValueType::String { v.to_str().to_string() } else { String::new() + "\0not a string" }).collect()));
        let mut m = Model::default();
        for k in &list { m.list.push(k.clone()); }
        for (i, k) in m.list.iter().enumerate() {
            check!(eligible(k), "damaged/ineligible", "a set was loaded in which id {i} is {k:?}, which no set can hold");
            let old = m.ids.insert(k.clone(), i as u16);
            check!(old.is_none(), "damaged/duplicate", "a set was loaded from a list that holds {k:?} twice");
        }
        check_whole(&sk, &m, "damaged");
        count("damaged states that loaded");
        must!("drop", { drop(list); drop(sk); });
        out = Some(m);
    } else { count("damaged states refused"); }
    simrt::guarded_free(g);
    out
}
impl W {
    fn new_node(&self) -> Node {
        let st = self.st.g();
        st.next += 1;
        let id = st.next;
        Node { sk: must!("new", SharedKeys::new()), m: Model::default(), id }
    }
    fn load(&self, f: &File, nested: bool, at_start: bool) -> SharedKeys {
        let g = simrt::guarded_copy(&f.bytes, at_start);
        let sk = if nested {
            let v = match must!("from_bytes", Value::from_bytes(g)) { Ok(v) => v, Err(e) => violation!("refused/state", "a saved state is no document: {e:?}") };
            must!("from_state_value", SharedKeys::from_state_value(v))
        } else { must!("from_state_bytes", SharedKeys::from_state_bytes(g)) };
        simrt::guarded_free(g);
        let Some(sk) = sk else { violation!("refused/state", "a saved state of {} keys is not loaded", f.m.list.len()) };
        check_whole(&sk, &f.m, "reloaded");
        sk
    }
}
impl Workload for W {
    const NAME: &'static str = "C06";
    fn knobs() -> Knobs { Knobs { edge_budget: 400_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = threads(t, 3);
        let ops = (0..n).map(|_| [6, 15, 40, 80][t.usize(4)]).collect();
        let big = t.chance(1, 5);
        (W { th: (0..n).map(|_| Sh::new(None)).collect(), st: Sh::new(St { files: vec![], readers: vec![], next: 0, big }) }, ops)
    }
    fn op(&self, th: usize, t: &mut Tape) {
        if self.th[th].g().is_none() { let n = self.new_node(); *self.th[th].g() = Some(n); }
        let n = self.th[th].g().as_mut().unwrap();
        let what = t.weighted(&[12, 8, 4, 2, 3, 3, 3, 3, 2, 2, 1]);
        ev(what as u64);
        match what {
            0 => {
                let k = if t.chance(1, 3) { probe(t, &n.m) } else { gen::key(t) };
                let can = must!("can_add", n.sk.can_add(&k));
                let present = n.m.ids.contains_key(&k);
                let want = n.m.add(&k);
                let got = must!("encode_and_insert", n.sk.encode_and_insert(&k));
                trace!("n{} add {k:?} -> {got:?}", n.id);
                check!(got == want, "id/add", "adding {k:?} to {} keys gave {got:?}, it should give {want:?}", n.m.list.len());
                if !present { check!(can == want.is_some(), "can_add/add", "can_add({k:?}) was {can}, adding gave {want:?}"); }
                if want.is_none() { count("keys refused"); }
                check_lookup(&n.sk, &n.m, &k, "after-add");
                if let Some(i) = want { check_decode(&n.sk, &n.m, i, "after-add"); }
            }
            1 => {
                for _ in 0..3 { let k = probe(t, &n.m); check_lookup(&n.sk, &n.m, &k, "lookup"); }
                let i = if n.m.list.is_empty() { 0 } else { t.usize(n.m.list.len() + 2) as u16 };
                check_decode(&n.sk, &n.m, i, "lookup");
            }
            2 => check_whole(&n.sk, &n.m, "whole"),
            3 => {
                // many keys at once, up to the limit
                let target = [20usize, 100, 255, 256, 1000, 2046, 2047, 2048, 2060][t.weighted(&[8, 6, 2, 2, 2, 2, 2, 2, 2])];
                let target = if self.st.g().big { target } else { target.min(60) };
                let form = t.draw(3);
                trace!("n{} fill to {target}", n.id);
                let base = n.m.list.len();
                for i in base..target {
                    let k = match form { 0 => format!("f{i}"), 1 => format!("_sixteen_ch_{i:04}"), _ => format!("{i:x}-{}", i % 7) };
                    let want = n.m.add(&k);
                    let got = must!("encode_and_insert", n.sk.encode_and_insert(&k));
                    check!(got == want, "id/fill", "adding {k:?} to {} keys gave {got:?}, it should give {want:?}", n.m.list.len());
                }
                if n.m.list.len() == MAX { count("sets filled to the limit"); }
            }
            4 => {
                // clone: both live on, one of them elsewhere
                let c = must!("clone", n.sk.clone());
                let m = n.m.clone();
                check_whole(&c, &m, "clone");
                if t.chance(1, 2) {
                    let keep = core::mem::replace(&mut n.sk, c);
                    // the original gets other keys than the clone
                    let mut keep = keep;
                    must!("encode_and_insert", keep.encode_and_insert("only_original"));
                    check_whole(&n.sk, &n.m, "clone-after-edit");
                    must!("drop", drop(keep));
                    check_whole(&n.sk, &n.m, "clone-after-drop");
                } else {
                    let a = must!("arc", Arc::new(c));
                    if self.st.g().readers.len() < 12 { self.st.g().readers.push(Reader { sk: a, m: Arc::new(m) }); } else { must!("drop", drop(a)); }
                }
            }
            5 => {
                let b = must!("get_state_bytes", n.sk.get_state_bytes());
                match refdec::decode(&b, None) {
                    Ok(M::Arr(a)) => check!(a.len() == n.m.list.len() && a.iter().zip(&n.m.list).all(|(x, k)| matches!(x, M::Str(s) if s == k)), "content/state", "the saved state of {} keys holds other keys ({})", n.m.list.len(), a.len()),
                    Ok(m) => violation!("content/state", "the saved state is {}", m.brief()),
                    Err(e) => violation!("invalid/state", "the saved state is no document: {e}"),
                }
                trace!("n{} save {} keys", n.id, n.m.list.len());
                let f = Arc::new(File { bytes: b.to_vec(), m: n.m.clone() });
                must!("drop", drop(b));
                let st = self.st.g();
                if st.files.len() >= 10 { let k = t.usize(10); st.files[k] = f; } else { st.files.push(f); }
                count("states saved");
            }
            6 => {
                // crash; the process comes back from a saved state, this node's or another's
                let st = self.st.g();
                let old = self.th[th].g().take().unwrap();
                let f = if st.files.is_empty() { None } else { Some(st.files[t.usize(st.files.len())].clone()) };
                let (nested, at) = (t.chance(1, 2), t.chance(1, 2));
                must!("drop", drop(old.sk));
                count("fault: crash, restart from the saved state");
                trace!("n{} crashes, restarts {}", old.id, f.as_ref().map_or("empty".into(), |f| format!("with {} keys", f.m.list.len())));
                let n = match f { None => self.new_node(), Some(f) => { let sk = self.load(&f, nested, at); Node { sk, m: f.m.clone(), id: old.id } } };
                *self.th[th].g() = Some(n);
            }
            7 => {
                // somebody reads a state the disk damaged
                let st = self.st.g();
                if st.files.is_empty() { return; }
                let f = st.files[t.usize(st.files.len())].clone();
                let older = st.files[t.usize(st.files.len())].clone();
                let mut b = f.bytes.clone();
                if t.chance(1, 4) {
                    // damage that leaves a well-formed list: other strings, duplicates, other kinds
                    let mut l: Vec<M> = f.m.list.iter().take(30).map(|k| M::Str(k.clone())).collect();
                    let i = t.usize(l.len() + 1);
                    let x = match t.draw(7) { 0 => M::Int(3), 1 => M::Str("has space".into()), 2 => M::Str("this key is much too long".into()), 3 => M::Arr(vec![]), 4 => M::Str(f.m.list.first().cloned().unwrap_or_default()), 5 => M::Null, _ => M::Data(b"abc".to_vec()) };
                    l.insert(i, x);
                    b = crate::refenc::encode(&M::Arr(l), t.word(), None);
                    count("fault: state with foreign elements");
                } else { damage::faults(t, &mut b, &older.bytes); }
                check_damaged(&b, t.chance(1, 2));
            }
            8 => {
                // saved inside a larger document, loaded from there
                let r = must!("write_state", {
                    let mut e = Encoder::new();
                    let ok = e.begin_dict().is_ok() && e.write_key("before").is_ok() && e.write_value(1).is_ok() && e.write_key("keys").is_ok() && n.sk.write_state(&mut e).is_some() && e.write_key("zafter").is_ok() && e.write_value("x").is_ok() && e.end_dict().is_ok();
                    ok.then(|| e.finish())
                });
                let Some(b) = r else { violation!("refused/write_state", "the state of {} keys cannot be written into a document", n.m.list.len()) };
                let sk = must!("from_state_value", Value::from_bytes(&b).ok().and_then(|v| v.as_dict()).and_then(|d| d.get("keys")).and_then(SharedKeys::from_state_value));
                let Some(sk) = sk else { violation!("refused/state-in-document", "a state of {} keys saved in a document is not loaded", n.m.list.len()) };
                check_whole(&sk, &n.m, "in-document");
                must!("drop", { drop(b); drop(sk); });
            }
            9 => {
                // an encoder extends the set
                let mut d = BTreeMap::new();
                for _ in 0..1 + t.usize(6) { d.insert(if t.chance(1, 3) { probe(t, &n.m) } else { gen::key(t) }, M::Int(1)); }
                let keys: Vec<String> = d.keys().cloned().collect();
                let m = M::Dict(d);
                let c = must!("clone", n.sk.clone());
                let sc = match must!("encode-sk", encode_sk(&m, c, t.word() & !1)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") };
                let Some(k) = sc.shared_keys() else { violation!("no-keys/encode-sk", "the scope has no shared keys") };
                let mut want = n.m.clone();
                let now: Vec<String> = must!("decode", (n.m.list.len() as u16..k.len()).map(|i| k.decode(i).unwrap_or("\0none").to_string()).collect());
                for x in &now {
                    check!(keys.contains(x), "extended/foreign", "encoding a document added the key {x:?}, which it does not have");
                    check!(want.add(x).is_some() , "extended/ineligible", "encoding a document added the key {x:?}");
                }
                check!(want.list.len() == n.m.list.len() + now.len(), "extended/duplicate", "encoding a document added a key twice: {now:?}");
                check_whole(k, &want, "extended");
                check_whole(&n.sk, &n.m, "extended-original");
                if t.chance(1, 2) { n.sk = must!("clone", k.as_ref().clone()); n.m = want; }
                must!("drop", { drop(now); drop(sc); });
            }
            _ => {
                let st = self.st.g();
                if st.readers.is_empty() { return; }
                let k = t.usize(st.readers.len());
                let (sk, m) = { let r = &st.readers[k]; (r.sk.clone(), r.m.clone()) };
                let s = must!("debug", format!("{sk:?}").len());
                check!(s > 0, "debug/keys", "");
                check_whole(&sk, &m, "shared");
                must!("drop", drop(sk));
                if t.chance(1, 3) && k < self.st.g().readers.len() { let r = self.st.g().readers.swap_remove(k); must!("drop", drop(r.sk)); }
            }
        }
        ev(self.th[th].g().as_ref().map_or(0, |n| n.m.list.len() as u64));
    }
    fn finish(&self) {
        for f in self.st.g().files.clone() { let sk = self.load(&f, false, false); must!("drop", drop(sk)); }
        for r in self.st.g().readers.drain(..) { check_whole(&r.sk, &r.m, "finish"); must!("drop", drop(r.sk)); }
        for n in &self.th { if let Some(n) = n.g().take() { check_whole(&n.sk, &n.m, "finish"); must!("drop", drop(n.sk)); } }
    }
}
