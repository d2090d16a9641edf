//! Documents with shared keys against the same content, by every read path.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::serdem::De;
use crate::zoo::{set_closing, ZOO};
use crate::{agree_ctx, must, refdec, refenc};
use fleece::alloced::AllocedValue;
use fleece::{Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// A client type the document was written from, and what its plain form reads as.
type Client = Option<(usize, Arc<String>)>;
struct Doc { s: Arc<Scope>, m: Arc<M>, id: usize, client: Client }
struct File { bytes: Vec<u8>, state: Option<Vec<u8>>, m: Arc<M>, id: usize, client: Client }
struct St { docs: Vec<Doc>, plain: Vec<(AllocedValue, Arc<M>)>, files: Vec<Arc<File>>, next: usize, big: bool }
pub struct W { st: Sh<St> }

fn keys_of(m: &M, out: &mut Vec<String>) {
    match m { M::Arr(a) => a.iter().for_each(|x| keys_of(x, out)), M::Dict(d) => for (k, x) in d { if out.len() < 200 { out.push(k.clone()); } keys_of(x, out); }, _ => {} }
}
/// Mutable copies of a mutable copy, after edits, are the same again.
fn cloned_dict(t: &mut Tape, mut x: MutableDict, d: &BTreeMap<String, M>) {
    let mut d = d.clone();
    for _ in 0..t.usize(4) {
        match t.draw(4) {
            0 | 1 => { let k = gen::key(t); let i = t.draw(5000) as i64; must!("insert", x.insert(&k, i)); d.insert(k, M::Int(i.into())); }
            2 => { let k = t.pick(&["zzzz not a shared key", "\u{e9}", "~", "a key that sorts first and is long"]); must!("insert", x.insert(k, true)); d.insert(k.to_string(), M::Bool(true)); }
            _ => if !d.is_empty() { let k = d.keys().nth(t.usize(d.len())).unwrap().clone(); must!("remove", x.remove(&k)); d.remove(&k); }
        }
    }
    let y = must!("clone", x.clone());
    if t.chance(1, 2) { agree_ctx!("read-mutable-edited", M::Dict(d.clone()).brief(), same_mut_dict(&x, &d)); }
    must!("drop", drop(x));
    agree_ctx!("read-mutable-clone", M::Dict(d.clone()).brief(), same_mut_dict(&y, &d));
    if t.chance(1, 4) { let z = must!("clone", y.clone()); must!("drop", drop(y)); agree_ctx!("read-mutable-clone", M::Dict(d.clone()).brief(), same_mut_dict(&z, &d)); must!("drop", drop(z)); } else { must!("drop", drop(y)); }
    count("clones of mutable copies compared");
}
fn cloned_array(t: &mut Tape, mut x: MutableArray, a: &[M]) {
    let mut a = a.to_vec();
    let i = t.draw(5000) as i64;
    if t.chance(1, 2) { must!("push", x.push(&i)); a.push(M::Int(i.into())); }
    if !a.is_empty() && t.chance(1, 3) { let i = t.usize(a.len()); must!("remove", x.remove(i)); a.remove(i); }
    let y = must!("clone", x.clone());
    must!("drop", drop(x));
    agree_ctx!("read-mutable-clone", M::Arr(a.clone()).brief(), same_mut_array(&y, &a));
    must!("drop", drop(y));
    count("clones of mutable copies compared");
}
impl W {
    /// Shared keys with some history.
    fn keys(&self, t: &mut Tape, m: &M) -> SharedKeys {
        let mut sk = must!("new", SharedKeys::new());
        let mut own = vec![];
        keys_of(m, &mut own);
        let kind = t.weighted(&[3, 4, 3, if self.st.g().big { 5 } else { 0 }, 2]);
        match kind {
            0 => {}
            1 => { for _ in 0..t.usize(12) { let k = gen::key(t); must!("encode_and_insert", sk.encode_and_insert(&k)); } count("key sets pre-filled"); }
            2 => { for _ in 0..t.usize(6) { let k = if own.is_empty() { "x".to_string() } else { own[t.usize(own.len())].clone() }; must!("encode_and_insert", sk.encode_and_insert(&k)); } count("key sets pre-filled with keys of the document"); }
            3 => {
                // no room, or nearly none
                let room = t.usize(4);
                let own_first = t.chance(1, 2);
                if own_first { for k in own.iter().take(3) { must!("encode_and_insert", sk.encode_and_insert(k)); } }
                let n = 2048 - usize::from(sk.len()) - room;
                must!("encode_and_insert", for i in 0..n { sk.encode_and_insert(&simrt::pause_lib(|| format!("f{i}"))); });
                count("key sets full or nearly full");
            }
            _ => { for i in 0..260 + t.usize(5) { must!("encode_and_insert", sk.encode_and_insert(&format!("g{i}"))); } }
        }
        if t.chance(1, 3) {
            let b = must!("get_state_bytes", sk.get_state_bytes());
            let l = must!("from_state_bytes", SharedKeys::from_state_bytes(&b));
            let Some(l) = l else { violation!("refused/state", "a saved state of {} keys is not loaded", sk.len()) };
            must!("drop", { drop(b); drop(sk); });
            sk = l;
            count("key sets reloaded");
        }
        sk
    }
    fn create(&self, t: &mut Tape) {
        let m = if t.chance(1, 12) { gen::doc(t, 30_000) } else { let b = [80, 300, 1500][t.usize(3)]; gen::doc(t, b) };
        let how = t.word();
        let id = self.st.g().next;
        self.st.g().next += 1;
        let kind = t.weighted(&[6, 2, 2]);
        if t.chance(1, 5) { return self.create_client(t, id); }
        trace!("document #{id} kind {kind}: {}", m.brief());
        match kind {
            0 => {
                let sk = self.keys(t, &m);
                let mut e = must!("new", Encoder::new());
                must!("set_shared_keys", e.set_shared_keys(sk));
                if let Err(x) = must!("encode-sk", put(&mut e, &m, how)) { violation!("refused/encode-sk", "{x:?} for {}", m.brief()) }
                if t.chance(1, 4) {
                    // the same content and keys, registered separately
                    let s = must!("finish_scoped", e.finish_scoped());
                    let (d, k) = (must!("scope-data", s.data()).expect("data"), s.shared_keys().cloned());
                    let s2 = must!("scope-new", Scope::new(d.to_vec(), k));
                    must!("drop", { drop(d); drop(s); });
                    self.st.g().docs.push(Doc { s: s2, m: Arc::new(m), id, client: None });
                } else {
                    let s = must!("finish_scoped", e.finish_scoped());
                    self.st.g().docs.push(Doc { s, m: Arc::new(m), id, client: None });
                }
            }
            1 => {
                // written by another writer, with keys of its own
                let sk = self.keys(t, &m);
                let map: HashMap<String, u16> = must!("iter", sk.iter().map(|(k, i)| (k.to_string(), i)).collect::<Vec<_>>()).into_iter().collect();
                let b = refenc::encode(&m, how, Some(&map));
                let s = must!("scope-new", Scope::new(b, Some(Arc::new(sk))));
                self.st.g().docs.push(Doc { s, m: Arc::new(m), id, client: None });
            }
            _ => {
                // plain, outside any scope: at an address where a scope may have been
                let b = doc_bytes(&m, how);
                let v = match must!("clone_from_bytes", Value::clone_from_bytes(&b)) { Ok(v) => v, Err(e) => violation!("refused/clone_from_bytes", "{e:?}") };
                self.st.g().plain.push((v, Arc::new(m)));
            }
        }
        count("documents created");
    }
    /// A value of a client's type, written by serde with and without shared keys.
    fn create_client(&self, t: &mut Tape, id: usize) {
        let mut k = t.usize(ZOO.len());
        if t.chance(1, 4) { let c: Vec<usize> = (0..ZOO.len()).filter(|i| ZOO[*i].name.contains("Close")).collect(); k = c[t.usize(c.len())]; }
        let v = (ZOO[k].gen)(t);
        trace!("document #{id} is a {}", ZOO[k].name);
        let b = match must!("to_bytes", v.ser()) { Ok(b) => b, Err(e) => violation!("refused/to_bytes", "a {} is refused: {e:?}", ZOO[k].name) };
        let m = match refdec::decode(&b, None) { Ok(m) => m, Err(e) => violation!("invalid/to_bytes", "a {} became invalid Fleece: {e}", ZOO[k].name) };
        let text = match must!("serde-from_bytes", (ZOO[k].read)(&b)) { Ok(x) => Arc::new(x), Err(e) => violation!("refused/serde-from_bytes", "a plain {} is not read: {e:?}", ZOO[k].name) };
        let s = match must!("to_bytes_with_shared_keys", v.ser_sk()) { Ok(s) => s, Err(e) => violation!("refused/to_bytes_with_shared_keys", "a {} is refused: {e:?}", ZOO[k].name) };
        must!("drop", drop(b));
        self.st.g().docs.push(Doc { s, m: Arc::new(m), id, client: Some((k, text)) });
        count("documents created from client types");
    }
    fn read(&self, t: &mut Tape) {
        let st = self.st.g();
        if !st.plain.is_empty() && (st.docs.is_empty() || t.chance(1, 5)) {
            let k = t.usize(st.plain.len());
            let (v, m) = st.plain.swap_remove(k);
            agree_ctx!("read-plain", m.brief(), same_deep(&v, &m, Sk::Auto));
            // shared keys which have nothing to do with it
            let sk = self.keys(t, &m);
            agree_ctx!("read-plain-given", m.brief(), same_deep(&v, &m, Sk::Given(&sk)));
            must!("drop", drop(sk));
            self.st.g().plain.push((v, m));
            count("plain documents compared");
            return;
        }
        if st.docs.is_empty() { return; }
        let k = t.usize(st.docs.len());
        let (s, m, id, client) = { let d = &st.docs[k]; (d.s.clone(), d.m.clone(), d.id, d.client.clone()) };
        let path = if client.is_some() && t.chance(1, 3) { 4 } else { t.weighted(&[6, 5, 4, 3, 3, 4, 3, 4, 2]) };
        trace!("read #{id} path {path}");
        ev(path as u64);
        count(["read: lookup, membership, iteration", "read: with supplied keys", "read: mutable copy of the scope", "read: mutable copy of the value", "read: serde", "read: copied into a plain encoder", "read: copied into a keyed encoder", "read: without its keys", "read: bytes"][path]);
        let b = m.brief();
        let Some(r) = must!("scope-root", s.root()) else { violation!("no-root/scope", "document #{id} has no root") };
        let sk = s.shared_keys().cloned();
        match path {
            0 => agree_ctx!("read-keyed", b, same_deep(&r, &m, Sk::Auto)),
            1 => {
                let k = sk.as_ref().expect("keys");
                if t.chance(1, 2) { agree_ctx!("read-keyed-given", b, same_deep(&r, &m, Sk::Given(k))); }
                else if let M::Dict(d) = &*m {
                    // the bytes are somewhere else; only the supplied keys can help (iteration has none)
                    let bytes = must!("scope-data", s.data()).expect("data");
                    let g = simrt::guarded_copy(&bytes, true);
                    let v = match must!("from_bytes", Value::from_bytes(g)) { Ok(v) => v, Err(e) => violation!("refused/from_bytes", "{e:?}") };
                    let absent = absent_keys(d);
                    agree_ctx!("read-moved-given", b, { let x = v.as_dict().ok_or(String::new()); x.and_then(|x| same_value(v, &m, Sk::Given(k)).and_then(|()| dict_extra(x, d, &absent, Sk::Given(k), false))) });
                    simrt::guarded_free(g);
                    must!("drop", drop(bytes));
                }
            }
            2 => match &*m {
                M::Dict(d) => { let x = must!("mutable-from_scope", if id % 2 == 0 { MutableDict::from_scope(&s) } else { MutableDict::try_from(&*s).ok() }); let Some(x) = x else { violation!("none/mutable-from_scope", "no mutable copy") }; agree_ctx!("read-mutable", b, same_mut_dict(&x, d)); cloned_dict(t, x, d); }
                M::Arr(a) => { let x = must!("mutable-from_scope", if id % 2 == 0 { MutableArray::from_scope(&s) } else { MutableArray::try_from(&*s).ok() }); let Some(x) = x else { violation!("none/mutable-from_scope", "no mutable copy") }; agree_ctx!("read-mutable", b, same_mut_array(&x, a)); cloned_array(t, x, a); }
                _ => {}
            },
            3 => match &*m {
                M::Dict(d) => { let r2 = must!("clone", r.clone()); let x = must!("to-mutable", match id % 3 { 0 => r2.as_dict().map(|d| d.to_mutable()), 1 => r2.to_dict().map(MutableDict::from), _ => r2.as_dict().map(MutableDict::clone_from) }); let Some(x) = x else { violation!("none/to-mutable", "no mutable copy") }; agree_ctx!("read-mutable-value", b, same_mut_dict(&x, d)); cloned_dict(t, x, d); }
                M::Arr(a) => { let r2 = must!("clone", r.clone()); let x = must!("to-mutable", match id % 3 { 0 => r2.as_array().map(|d| d.to_mutable()), 1 => r2.to_array().map(MutableArray::from), _ => r2.as_array().map(MutableArray::clone_from) }); let Some(x) = x else { violation!("none/to-mutable", "no mutable copy") }; agree_ctx!("read-mutable-value", b, same_mut_array(&x, a)); cloned_array(t, x, a); }
                _ => {}
            },
            4 => {
                let d = must!("scope-data", s.data()).expect("data");
                match must!("serde-from_bytes", fleece::from_bytes::<De>(&d)) {
                    Ok(De(x)) => check!(x.same(&m), "content/serde-from_bytes", "deserialized {} instead of {b}", x.brief()),
                    Err(e) => violation!("refused/serde-from_bytes", "{e:?}; it holds {b}"),
                }
                if let Some((k, text)) = &client {
                    // some of them remove the scope from the registry on the way
                    let alone = Arc::strong_count(&s) <= 2 && t.chance(1, 2);
                    let mut mine = None;
                    if alone { let st = self.st.g(); mine = st.docs.iter().position(|d| d.id == id && Arc::ptr_eq(&d.s, &s)).map(|k| st.docs.swap_remove(k)); set_closing(Some(s.clone())); }
                    let x = must!("serde-client", (ZOO[*k].read)(&d));
                    let closed = alone && set_closing(None).is_none();
                    if let Some(d) = mine { if closed { must!("drop", drop(d.s)); } else { self.st.g().docs.push(d); } }
                    match x {
                        Ok(x) => check!(x == **text, "content/serde-client", "a {} reads as {} instead of {}", ZOO[*k].name, x.chars().take(300).collect::<String>(), text.chars().take(300).collect::<String>()),
                        Err(e) => violation!("refused/serde-client", "a {} is not read: {e:?}", ZOO[*k].name),
                    }
                    count("client types read with shared keys");
                }
                must!("drop", drop(d));
            }
            5 => {
                let o = must!("write_fleece", { let mut e = Encoder::new(); let x = e.begin_array(1).and_then(|()| e.write_fleece(&r)).and_then(|()| e.end_array()); x.map(|()| e.finish()) });
                match o {
                    Ok(o) => {
                        match refdec::decode(&o, None) { Ok(x) => check!(x.same(&M::Arr(vec![(*m).clone()])), "content/write_fleece", "copied into a plain document it reads {} instead of {b}", x.brief()), Err(e) => violation!("invalid/write_fleece", "{e}; {b}") }
                        must!("drop", drop(o));
                    }
                    Err(e) => violation!("refused/write_fleece", "{e:?}"),
                }
            }
            6 => {
                let other = self.keys(t, &m);
                let o = must!("write_fleece-keyed", { let mut e = Encoder::new(); e.set_shared_keys(other); let x = e.begin_dict().and_then(|()| e.write_key("copied")).and_then(|()| e.write_fleece(&r)).and_then(|()| e.end_dict()); x.map(|()| e.finish_scoped()) });
                match o {
                    Ok(o) => {
                        let Some(r2) = must!("scope-root", o.root()) else { violation!("no-root/write_fleece-keyed", "the copy has no root") };
                        let w = M::Dict([("copied".to_string(), (*m).clone())].into());
                        agree_ctx!("read-copy-keyed", b, same_deep(&r2, &w, Sk::Auto));
                        must!("drop", { drop(r2); drop(o); });
                    }
                    Err(e) => violation!("refused/write_fleece-keyed", "{e:?}"),
                }
            }
            7 => {
                let bytes = must!("scope-data", s.data()).expect("data");
                let g = simrt::guarded_copy(&bytes, true);
                let v = match must!("from_bytes", Value::from_bytes(g)) { Ok(v) => v, Err(e) => violation!("refused/from_bytes", "{e:?}") };
                agree_ctx!("read-without-keys", b, nothing_wrong(v, &m, 0));
                if let Ok(De(x)) = must!("serde-without-keys", fleece::from_bytes::<De>(g)) { check!(part_of(&x, &m), "content/serde-without-keys", "deserialized {} from {b}", x.brief()); }
                let n = must!("mutable-without-keys", match &*m { M::Dict(_) => v.as_dict().map(|d| d.to_mutable().len()), M::Arr(_) => v.as_array().map(|d| d.to_mutable().len()), _ => None });
                let most = match &*m { M::Dict(d) => d.len(), M::Arr(a) => a.len(), _ => 0 };
                check!(n.is_some_and(|n| n <= most), "content/mutable-without-keys", "{n:?} of {most}");
                simrt::guarded_free(g);
                must!("drop", drop(bytes));
            }
            _ => {
                let bytes = must!("scope-data", s.data()).expect("data");
                let k = sk.as_ref().expect("keys");
                let names: Vec<String> = must!("decode", (0..k.len()).map(|i| k.decode(i).unwrap_or("").to_string()).collect::<Vec<_>>());
                match refdec::decode(&bytes, Some(&names)) { Ok(x) => check!(x.same(&m), "content/bytes", "the bytes hold {} instead of {b}", x.brief()), Err(e) => violation!("invalid/bytes", "{e}; {b}") }
                must!("drop", { drop(names); drop(bytes); });
            }
        }
        must!("drop", { drop(r); drop(sk); drop(s); });
    }
}
impl Workload for W {
    const NAME: &'static str = "C07";
    fn knobs() -> Knobs { Knobs { edge_budget: 400_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[3, 4, 3]);
        let ops = (0..n).map(|_| [4, 10, 25, 50][t.usize(4)]).collect();
        let big = t.chance(1, 8);
        (W { st: Sh::new(St { docs: vec![], plain: vec![], files: vec![], next: 0, big }) }, ops)
    }
    fn op(&self, _th: usize, t: &mut Tape) {
        let st = self.st.g();
        let few = st.docs.len() + st.plain.len() < 10;
        match t.weighted(&[if few { 4 } else { 0 }, 10, 2, 3, 2, 2]) {
            0 => self.create(t),
            1 => self.read(t),
            2 => {
                // saved, whether or not it stays open
                if st.docs.is_empty() { return; }
                let k = t.usize(st.docs.len());
                let (s, m, id, client) = { let d = &st.docs[k]; (d.s.clone(), d.m.clone(), d.id, d.client.clone()) };
                let d = must!("scope-data", s.data()).expect("data");
                let state = s.shared_keys().map(|k| { let b = must!("get_state_bytes", k.get_state_bytes()); let v = b.to_vec(); must!("drop", drop(b)); v });
                let f = Arc::new(File { bytes: d.to_vec(), state, m, id, client });
                must!("drop", { drop(d); drop(s); });
                if self.st.g().files.len() < 12 { self.st.g().files.push(f); }
                count("documents saved with their keys");
            }
            3 => {
                // closed; nobody may be reading it when it is also removed
                if t.chance(1, 4) && !st.plain.is_empty() { let k = t.usize(st.plain.len()); let (v, _) = st.plain.swap_remove(k); must!("drop", drop(v)); return; }
                if st.docs.is_empty() { return; }
                let k = t.usize(st.docs.len());
                let d = st.docs.swap_remove(k);
                trace!("close #{}", d.id);
                if t.chance(1, 3) && Arc::strong_count(&d.s) == 1 {
                    must!("remove", d.s.remove());
                    // copies of it can still be made
                    match &*d.m {
                        M::Dict(x) => { let y = must!("mutable-from_scope", MutableDict::from_scope(&d.s)); let Some(y) = y else { violation!("none/mutable-from_scope", "no mutable copy") }; agree_ctx!("read-mutable-removed", d.m.brief(), same_mut_dict(&y, x)); must!("drop", drop(y)); }
                        M::Arr(x) => { let y = must!("mutable-from_scope", MutableArray::from_scope(&d.s)); let Some(y) = y else { violation!("none/mutable-from_scope", "no mutable copy") }; agree_ctx!("read-mutable-removed", d.m.brief(), same_mut_array(&y, x)); must!("drop", drop(y)); }
                        _ => {}
                    }
                    count("fault: scope removed");
                }
                must!("drop", drop(d.s));
            }
            4 => {
                // restart: the saved bytes and the saved keys are loaded
                if st.files.is_empty() { return; }
                let f = st.files[t.usize(st.files.len())].clone();
                trace!("reload #{}", f.id);
                count("fault: restart, document and keys reloaded");
                let Some(state) = &f.state else { return };
                let Some(k) = must!("from_state_bytes", SharedKeys::from_state_bytes(state)) else { violation!("refused/state", "the saved keys of #{} are not loaded", f.id) };
                let b = must!("to-vec", f.bytes.clone());
                let s = must!("scope-new", Scope::new(b, Some(Arc::new(k))));
                self.st.g().docs.push(Doc { s, m: f.m.clone(), id: f.id, client: f.client.clone() });
            }
            _ => {
                // others come and go
                let m = gen::doc(t, 100);
                let s = match must!("encode-sk", encode_sk(&m, SharedKeys::new(), 1)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") };
                if t.chance(1, 2) { must!("remove", s.remove()); }
                must!("drop", drop(s));
            }
        }
    }
    fn finish(&self) {
        let st = self.st.g();
        for d in st.docs.drain(..) {
            let Some(r) = must!("scope-root", d.s.root()) else { violation!("no-root/scope", "document #{} has no root", d.id) };
            agree_ctx!("read-keyed", d.m.brief(), same_deep(&r, &d.m, Sk::Auto));
            must!("drop", { drop(r); drop(d.s); });
        }
        for (v, m) in st.plain.drain(..) { agree_ctx!("read-plain", m.brief(), same_deep(&v, &m, Sk::Auto)); must!("drop", drop(v)); }
    }
}
