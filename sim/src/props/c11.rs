//! Nodes that exchange documents over a bad network and re-encode what they receive.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::{agree_ctx, must, refdec, refenc};
use fleece::alloced::AllocedValue;
use fleece::{Encoder, Scope, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

type Id = (usize, u32); // document, version
/// How a node holds a document.
#[derive(Clone)]
enum Hold { Val(AllocedValue), Scope(Arc<Scope>), In(Arc<Pack>, String) }
/// Several documents in one.
struct Pack { v: Option<AllocedValue>, s: Option<Arc<Scope>> }
/// What travels or lies on disk: bytes, the keys they need, and where in them the document is.
struct Wire { bytes: Vec<u8>, keys: Option<Vec<u8>>, path: Option<String>, hops: u32 }
struct Msg { to: usize, due: u64, id: Id, w: Arc<Wire> }
#[derive(Default)]
struct Node { docs: BTreeMap<usize, (u32, u32, Hold)>, keys: Option<Box<SharedKeys>>, disk: BTreeMap<usize, (u32, Arc<Wire>)> }
struct Net { q: Vec<Msg>, now: u64, faults: bool, cut: Option<(usize, usize)> }
pub struct W { nodes: Vec<Sh<Node>>, net: Sh<Net>, known: Sh<Vec<Vec<Arc<M>>>>, size: usize }

/// The value a holder holds, and whatever has to live while it is used.
fn value(h: &Hold) -> AllocedValue {
    match h {
        Hold::Val(v) => must!("clone", v.clone()),
        Hold::Scope(s) => match must!("scope-root", s.root()) { Some(r) => r, None => violation!("no-root/scope", "a received document has no root") },
        Hold::In(p, _) => match (&p.v, &p.s) { (Some(v), _) => must!("clone", v.clone()), (_, Some(s)) => match must!("scope-root", s.root()) { Some(r) => r, None => violation!("no-root/scope", "a pack has no root") }, _ => unreachable!() },
    }
}
fn inside<'v>(v: &'v Value, path: Option<&str>) -> &'v Value {
    match path {
        None => v,
        Some(p) => match must!("find-embedded", v.as_dict().and_then(|d| d.get(p)).and_then(|x| x.as_array()).and_then(|a| a.get(1))) { Some(x) => x, None => violation!("missing/embedded", "the document {p} is not in the pack") },
    }
}
fn path_of(h: &Hold) -> Option<&str> { match h { Hold::In(_, p) => Some(p), _ => None } }
impl W {
    fn model(&self, id: Id) -> Arc<M> { self.known.g()[id.0][id.1 as usize].clone() }
    fn drop_hold(h: Hold) { match h { Hold::Val(v) => must!("drop", drop(v)), Hold::Scope(s) => must!("drop", drop(s)), Hold::In(p, _) => if let Ok(p) = Arc::try_unwrap(p) { must!("drop", { drop(p.v); drop(p.s); }) } } }
    /// Receive bytes: open them, compare, hold them.
    fn open(&self, w: &Wire, id: Id, t: &mut Tape, how: &'static str) -> Hold {
        let m = self.model(id);
        let h = match &w.keys {
            Some(k) => {
                let Some(k) = must!("load-keys", SharedKeys::from_state_bytes(k)) else { violation!("refused/load-keys", "the key state sent along is refused") };
                let s = must!("scope-new", Scope::new(w.bytes.clone(), Some(Arc::new(k))));
                match &w.path { None => Hold::Scope(s), Some(p) => Hold::In(Arc::new(Pack { v: None, s: Some(s) }), p.clone()) }
            }
            None => {
                if t.chance(1, 3) {
                    let s = must!("scope-new", Scope::new(w.bytes.clone(), None));
                    match &w.path { None => Hold::Scope(s), Some(p) => Hold::In(Arc::new(Pack { v: None, s: Some(s) }), p.clone()) }
                } else {
                    let v = match must!("clone_from_bytes", Value::clone_from_bytes(&w.bytes)) { Ok(v) => v, Err(e) => violation!(format!("refused/{how}"), "document {id:?} after {} hops is refused: {e:?}; it was {}", w.hops, m.brief()) };
                    match &w.path { None => Hold::Val(v), Some(p) => Hold::In(Arc::new(Pack { v: Some(v), s: None }), p.clone()) }
                }
            }
        };
        let v = value(&h);
        let x = inside(&v, path_of(&h));
        let r: Res = must!(how, same_deep(x, &m, Sk::Auto));
        if let Err(e) = r { violation!(format!("content/{how}"), "document {id:?} after {} hops: {e} [{}]", w.hops, m.brief()); }
        must!("drop", drop(v));
        count("delivered copies compared");
        if w.hops > 3 { count("copies compared after more than 3 hops"); }
        ev(m.nodes() as u64 + u64::from(w.hops) * 1000);
        h
    }
    /// Copy one value into an encoder, in one of the ways a client can.
    fn copy(e: &mut Encoder, v: &Value, how: u64) -> ER {
        match how % 4 {
            1 if v.as_array().is_some() => { let a = v.as_array().unwrap(); e.begin_array(a.len())?; for x in a { Self::copy(e, x, how / 4)?; } e.end_array() }
            1 if v.as_dict().is_some() => { e.begin_dict()?; for (k, x) in v.as_dict().unwrap() { e.write_key(k)?; Self::copy(e, x, how / 4)?; } e.end_dict() }
            2 if v.as_array().is_some() => { let a = v.as_array().unwrap(); e.begin_array(0)?; for i in 0..a.len() { if let Some(x) = a.get(i) { e.write_fleece(x)?; } } e.end_array() }
            _ => e.write_fleece(v),
        }
    }
    /// Re-encode some documents of a node, alone or packed, with or without the node's keys.
    fn reencode(&self, n: usize, docs: &[(usize, u32, &Value)], pack: bool, keyed: bool, how: u64, hops: u32) -> Wire {
        let node = self.nodes[n].g();
        let mut e = must!("new", Encoder::new());
        let keyed = keyed && node.keys.is_some();
        if keyed {
            // a copy of the node's keys: they come back through the scope
            let k = node.keys.take().expect("keys");
            let c = must!("clone", (*k).clone());
            node.keys = Some(k);
            must!("set_shared_keys", e.set_shared_keys(c));
        }
        let before: Vec<Vec<u8>> = docs.iter().map(|(_, _, v)| unsafe { core::slice::from_raw_parts((*v as *const Value).cast::<u8>(), v.len().min(64)) }.to_vec()).collect();
        let r: ER = if pack {
            must!("write_fleece-pack", (|| {
                e.begin_dict()?;
                for (i, (d, ver, v)) in docs.iter().enumerate() {
                    e.write_key(&simrt::pause_lib(|| format!("document-{d:03}")))?;
                    e.begin_array(2)?;
                    e.write_value(*ver)?;
                    Self::copy(&mut e, v, how >> (i % 16))?;
                    if how & 64 != 0 { e.write_value("trailer")?; }
                    e.end_array()?;
                }
                if how & 32 != 0 { e.write_key("n")?; e.write_value(docs.len() as u64)?; }
                e.end_dict()
            })())
        } else { must!("write_fleece", Self::copy(&mut e, docs[0].2, how)) };
        if let Err(x) = r { violation!("refused/write_fleece", "copying {} is refused: {x:?}", self.model((docs[0].0, docs[0].1)).brief()); }
        for ((d, ver, v), b) in docs.iter().zip(&before) {
            let now = unsafe { core::slice::from_raw_parts((*v as *const Value).cast::<u8>(), b.len()) };
            check!(now == &b[..], "changed/source", "copying document {d} version {ver} changed it");
        }
        let path = if pack { Some(String::new()) } else { None };
        if keyed {
            let s = must!("finish_scoped", e.finish_scoped());
            let d = must!("scope-data", s.data()).expect("data");
            let k = s.shared_keys().expect("keys").clone();
            let state = must!("state", k.get_state_bytes());
            let w = Wire { bytes: d.to_vec(), keys: Some(state.to_vec()), path, hops: hops + 1 };
            let nk = must!("clone", (*k).clone());
            let old = node.keys.replace(Box::new(nk));
            must!("drop", { drop(state); drop(d); drop(k); drop(s); drop(old.map(|b| *b)); });
            count("re-encoded with the node's own keys");
            w
        } else {
            let b = must!("finish", e.finish());
            let w = Wire { bytes: simrt::pause_lib(|| b.as_slice().to_vec()), keys: None, path, hops: hops + 1 };
            must!("drop", drop(b));
            if let Err(x) = refdec::decode(&w.bytes, None) { violation!("invalid/write_fleece", "a copy of {} is invalid Fleece: {x}", self.model((docs[0].0, docs[0].1)).brief()); }
            w
        }
    }
    fn put(&self, n: usize, id: Id, hops: u32, h: Hold) {
        let node = self.nodes[n].g();
        let newer = node.docs.get(&id.0).map_or(true, |d| d.0 < id.1);
        if !newer && node.docs.get(&id.0).map_or(false, |d| d.0 > id.1) { count("stale version arrived late"); Self::drop_hold(h); return; }
        if let Some(o) = node.docs.insert(id.0, (id.1, hops, h)) { Self::drop_hold(o.2); }
    }
    fn originate(&self, n: usize, t: &mut Tape) {
        let known = self.known.g();
        let edit = known.len() >= 6 || (!known.is_empty() && t.chance(1, 2));
        let node = self.nodes[n].g();
        if edit {
            let Some((&d, _)) = node.docs.iter().nth(t.usize(node.docs.len().max(1))) else { return };
            let (ver, hops, h) = node.docs.remove(&d).unwrap();
            // a new version: one child replaced, the others copied from the old version
            let m = self.model((d, ver));
            let old = value(&h);
            let v = inside(&old, path_of(&h));
            let s = gen::value(t, 2, &mut gen::Budget(400));
            let mut new = (*m).clone();
            let how = t.word();
            let mut e = must!("new", Encoder::new());
            let r: ER = match &mut new {
                M::Arr(a) => {
                    let at = t.usize(a.len() + 1);
                    let r = must!("edit-copy", (|| { let x = v.as_array().ok_or(fleece::encoder::EncodeError::ArrayNotOpen)?; e.begin_array(x.len())?; for i in 0..=x.len() { if i == at { put(&mut e, &s, how)?; } if let Some(y) = x.get(i) { if i != at || how & 1 == 0 { e.write_fleece(y)?; } } } e.end_array() })());
                    if how & 1 != 0 && at < a.len() { a[at] = s; } else { a.insert(at, s); }
                    r
                }
                M::Dict(x) => {
                    let k = gen::key(t);
                    let r = must!("edit-copy", (|| { let y = v.as_dict().ok_or(fleece::encoder::EncodeError::DictNotOpen)?; e.begin_dict()?; e.write_key(&k)?; put(&mut e, &s, how)?; for (l, z) in y { if l != k { e.write_key(l)?; e.write_fleece(z)?; } } e.end_dict() })());
                    x.insert(k, s);
                    r
                }
                _ => unreachable!(),
            };
            if let Err(x) = r { violation!("refused/edit-copy", "{x:?} for {}", m.brief()); }
            let b = must!("finish", e.finish());
            let nv = match must!("clone_from_bytes", Value::clone_from_bytes(&b)) { Ok(v) => v, Err(e) => violation!("refused/edit-copy", "an edited copy of {} is refused: {e:?}", m.brief()) };
            agree_ctx!("edit-copy", new.brief(), same_value(&nv, &new, Sk::Auto));
            must!("drop", { drop(old); drop(b); });
            Self::drop_hold(h);
            let list = &mut self.known.g()[d];
            list.push(Arc::new(new));
            let id = (d, list.len() as u32 - 1);
            trace!("node {n} edits document {d}: version {}", id.1);
            self.put(n, id, hops + 1, Hold::Val(nv));
            count("versions made by copying the previous one");
        } else {
            let size = [150, 500, 2000, self.size as isize][t.usize(4)];
            let m = if t.chance(1, 6) { gen::doc_any(t) } else { gen::doc(t, size) };
            let how = t.word();
            trace!("node {n} originates document {}: {}", known.len(), m.brief());
            let kind = t.draw(3);
            let h = match kind {
                0 => { let b = doc_bytes(&m, how); Hold::Val(match must!("clone_from_bytes", Value::clone_from_bytes(&b)) { Ok(v) => v, Err(e) => violation!("refused/clone_from_bytes", "{e:?}") }) }
                1 => { let b = refenc::encode(&m, how, None); Hold::Val(match must!("clone_from_bytes", Value::clone_from_bytes(&b)) { Ok(v) => v, Err(e) => violation!("refused/clone_from_bytes", "{e:?}") }) }
                _ => Hold::Scope(match must!("encode-sk", encode_sk(&m, SharedKeys::new(), how)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") }),
            };
            let k = self.known.g();
            k.push(vec![Arc::new(m)]);
            let id = (k.len() - 1, 0);
            self.put(n, id, 0, h);
        }
        count("versions originated");
    }
    fn post(&self, t: &mut Tape, m: Msg, from: usize) {
        let net = self.net.g();
        if net.faults {
            if net.cut.is_some_and(|c| c == (from, m.to) || c == (m.to, from)) { count("fault: message lost to a partition"); return; }
            match t.weighted(&[6, 2, 2]) {
                1 => { count("fault: message lost"); return; }
                2 => { count("fault: message duplicated"); let due = net.now + t.draw(30); net.q.push(Msg { to: m.to, due, id: m.id, w: m.w.clone() }); }
                _ => {}
            }
        }
        net.q.push(m);
    }
    fn send(&self, n: usize, t: &mut Tape) {
        let node = self.nodes[n].g();
        if node.docs.is_empty() || self.nodes.len() < 2 { return; }
        let pack = t.chance(1, 3);
        let k = if pack { 1 + t.usize(3) } else { 1 };
        let mut ids: Vec<usize> = vec![];
        for _ in 0..k { let d = *node.docs.keys().nth(t.usize(node.docs.len())).unwrap(); if !ids.contains(&d) { ids.push(d); } }
        let held: Vec<(usize, u32, u32, Hold)> = ids.iter().map(|d| { let (v, h, x) = &node.docs[d]; (*d, *v, *h, x.clone()) }).collect();
        let vals: Vec<AllocedValue> = held.iter().map(|x| value(&x.3)).collect();
        let hops = held.iter().map(|x| x.2).max().unwrap_or(0);
        let how = t.word();
        let keyed = t.chance(1, 3);
        trace!("node {n} sends {:?} (pack {pack}, keys {keyed})", held.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>());
        let refs: Vec<(usize, u32, &Value)> = held.iter().zip(&vals).map(|(x, v)| (x.0, x.1, inside(v, path_of(&x.3)))).collect();
        let w = self.reencode(n, &refs, pack, keyed, how, hops);
        drop(refs);
        for v in vals { must!("drop", drop(v)); }
        let ids: Vec<Id> = held.iter().map(|x| (x.0, x.1)).collect();
        for x in held { Self::drop_hold(x.3); }
        let Wire { bytes, keys, path, hops } = w;
        let copies = 1 + t.usize(2);
        for _ in 0..copies {
            let to = (n + 1 + t.usize(self.nodes.len() - 1)) % self.nodes.len();
            for id in &ids {
                let w = Wire { bytes: bytes.clone(), keys: keys.clone(), path: path.as_ref().map(|_| format!("document-{:03}", id.0)), hops };
                let due = self.net.g().now + if self.net.g().faults { t.draw(20) } else { 0 };
                self.post(t, Msg { to, due, id: *id, w: Arc::new(w) }, n);
            }
        }
        count("messages sent");
        ev(ids.len() as u64);
    }
    fn receive(&self, n: usize, t: &mut Tape) {
        let net = self.net.g();
        let ready: Vec<usize> = net.q.iter().enumerate().filter(|(_, m)| m.to == n && m.due <= net.now).map(|(i, _)| i).collect();
        if ready.is_empty() { net.now += 3; return; }
        let i = t.usize(ready.len());
        if i > 0 { count("fault: messages delivered out of order"); }
        let m = net.q.swap_remove(ready[i]);
        trace!("node {n} receives {:?} after {} hops", m.id, m.w.hops);
        let h = self.open(&m.w, m.id, t, "receive");
        self.put(n, m.id, m.w.hops, h);
        count("messages delivered");
    }
    /// Rewrite the whole store as one document.
    fn compact(&self, n: usize, t: &mut Tape) {
        let node = self.nodes[n].g();
        if node.docs.is_empty() { return; }
        let all: Vec<(usize, u32, u32, Hold)> = node.docs.iter().map(|(d, (v, h, x))| (*d, *v, *h, x.clone())).collect();
        let vals: Vec<AllocedValue> = all.iter().map(|x| value(&x.3)).collect();
        let hops = all.iter().map(|x| x.2).max().unwrap_or(0);
        let how = t.word();
        let keyed = t.chance(1, 2);
        trace!("node {n} compacts {} documents (keys {keyed})", all.len());
        let refs: Vec<(usize, u32, &Value)> = all.iter().zip(&vals).map(|(x, v)| (x.0, x.1, inside(v, path_of(&x.3)))).collect();
        let w = self.reencode(n, &refs, true, keyed, how, hops);
        drop(refs);
        for v in vals { must!("drop", drop(v)); }
        let pack = match &w.keys {
            Some(k) => { let Some(k) = must!("load-keys", SharedKeys::from_state_bytes(k)) else { violation!("refused/load-keys", "a key state is refused") }; Pack { v: None, s: Some(must!("scope-new", Scope::new(w.bytes.clone(), Some(Arc::new(k))))) } }
            None => Pack { v: Some(match must!("clone_from_bytes", Value::clone_from_bytes(&w.bytes)) { Ok(v) => v, Err(e) => violation!("refused/compact", "a pack of {} documents is refused: {e:?}", all.len()) }), s: None },
        };
        let pack = Arc::new(pack);
        for (d, ver, hops, h) in all {
            let nh = Hold::In(pack.clone(), format!("document-{d:03}"));
            let v = value(&nh);
            let m = self.model((d, ver));
            agree_ctx!("compact", m.brief(), same_value(inside(&v, path_of(&nh)), &m, Sk::Auto));
            must!("drop", drop(v));
            Self::drop_hold(h);
            if let Some(o) = self.nodes[n].g().docs.insert(d, (ver, hops + 1, nh)) { Self::drop_hold(o.2); }
        }
        drop(pack);
        count("stores compacted into one document");
        ev(hops.into());
    }
    fn sync(&self, n: usize, t: &mut Tape) {
        let node = self.nodes[n].g();
        let Some((&d, _)) = node.docs.iter().nth(t.usize(node.docs.len().max(1))) else { return };
        let (ver, hops, h) = { let x = &node.docs[&d]; (x.0, x.1, x.2.clone()) };
        let v = value(&h);
        let how = t.word();
        let keyed = t.chance(1, 2);
        let w = self.reencode(n, &[(d, ver, inside(&v, path_of(&h)))], false, keyed, how, hops);
        must!("drop", drop(v));
        Self::drop_hold(h);
        trace!("node {n} writes document {d} version {ver} to disk");
        self.nodes[n].g().disk.insert(d, (ver, Arc::new(w)));
    }
    fn crash(&self, n: usize, t: &mut Tape) {
        let node = self.nodes[n].g();
        for (_, x) in std::mem::take(&mut node.docs) { Self::drop_hold(x.2); }
        let disk: Vec<(usize, u32, Arc<Wire>)> = node.disk.iter().map(|(d, (v, w))| (*d, *v, w.clone())).collect();
        trace!("node {n} restarts with {} documents on disk", disk.len());
        count("fault: node restarted, unsynced documents lost");
        for (d, ver, w) in disk { let h = self.open(&w, (d, ver), t, "reload"); self.put(n, (d, ver), w.hops, h); }
    }
}
impl Workload for W {
    const NAME: &'static str = "C11";
    fn knobs() -> Knobs { Knobs { edge_budget: 400_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 2 + t.weighted(&[4, 3, 1]);
        let ops = (0..n).map(|_| [6, 12, 25, 50][t.usize(4)]).collect();
        let size = if t.chance(1, 4) { 40_000 } else { 800 };
        let faults = !t.chance(1, 4);
        let mut nodes = vec![];
        for _ in 0..n {
            let mut x = Node::default();
            if t.chance(2, 3) {
                let mut sk = must!("new", SharedKeys::new());
                let c = [0, 3, 30, 2040, 2048][t.weighted(&[4, 3, 2, 1, 1])];
                must!("encode_and_insert", for i in 0..c { sk.encode_and_insert(&simrt::pause_lib(|| if c < 10 { gen::KEYS[i * 3].to_string() } else { format!("n{i}") })); });
                x.keys = Some(Box::new(sk));
            }
            nodes.push(Sh::new(x));
        }
        count(if faults { "runs with network faults" } else { "runs without network faults" });
        (W { nodes, net: Sh::new(Net { q: vec![], now: 0, faults, cut: None }), known: Sh::new(vec![]), size }, ops)
    }
    fn op(&self, n: usize, t: &mut Tape) {
        let net = self.net.g();
        net.now += 1;
        let f = net.faults;
        match t.weighted(&[3, 6, 7, 1, 2, u64::from(f), u64::from(f)]) {
            0 => self.originate(n, t),
            1 => self.send(n, t),
            2 => self.receive(n, t),
            3 => self.compact(n, t),
            4 => self.sync(n, t),
            5 => self.crash(n, t),
            _ => { let k = self.nodes.len(); net.cut = if net.cut.is_some() { None } else { count("fault: partition between two nodes"); Some((t.usize(k), t.usize(k))) }; trace!("partition: {:?}", net.cut); }
        }
        ev(7);
    }
    fn finish(&self) {
        // messages get through again: everybody passes on what it has, twice around
        let mut t = Tape::quiet(9);
        self.net.g().faults = false;
        self.net.g().cut = None;
        let n = self.nodes.len();
        loop {
            let net = self.net.g();
            let Some(m) = net.q.pop() else { break };
            let h = self.open(&m.w, m.id, &mut t, "receive");
            self.put(m.to, m.id, m.w.hops, h);
        }
        let mut newest: HashMap<usize, u32> = HashMap::new();
        for x in &self.nodes { for (d, v) in &x.g().docs { let e = newest.entry(*d).or_default(); *e = (*e).max(v.0); } }
        for round in 0..2 * n {
            let (from, to) = (round % n, (round + 1) % n);
            let docs: Vec<(usize, u32, u32, Hold)> = self.nodes[from].g().docs.iter().map(|(d, (v, h, x))| (*d, *v, *h, x.clone())).collect();
            for (d, ver, hops, h) in docs {
                if self.nodes[to].g().docs.get(&d).is_some_and(|x| x.0 >= ver) { Self::drop_hold(h); continue; }
                let v = value(&h);
                let w = self.reencode(from, &[(d, ver, inside(&v, path_of(&h)))], false, round % 2 == 1, round as u64, hops);
                must!("drop", drop(v));
                Self::drop_hold(h);
                let nh = self.open(&w, (d, ver), &mut t, "converge");
                self.put(to, (d, ver), w.hops, nh);
            }
        }
        for (i, x) in self.nodes.iter().enumerate() {
            let node = x.g();
            check!(node.docs.len() == newest.len(), "diverged/converge", "node {i} ends with {} of {} documents", node.docs.len(), newest.len());
            for (d, (ver, hops, h)) in &node.docs {
                check!(newest[d] == *ver, "diverged/converge", "node {i} ends with version {ver} of document {d}, another has {}", newest[d]);
                let v = value(h);
                let m = self.model((*d, *ver));
                let r: Res = must!("converged", same_deep(inside(&v, path_of(h)), &m, Sk::Auto));
                if let Err(e) = r { violation!("content/converged", "node {i}, document {d} version {ver} after {hops} hops: {e} [{}]", m.brief()); }
                must!("drop", drop(v));
            }
        }
        for x in &self.nodes { let node = x.g(); for (_, d) in std::mem::take(&mut node.docs) { Self::drop_hold(d.2); } let k = node.keys.take(); must!("drop", drop(k.map(|b| *b))); }
        count("runs in which all nodes converged");
    }
}
