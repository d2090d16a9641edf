//! Faulty clients among healthy ones: nobody else may notice.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::serdem::De;
use crate::{agree_ctx, damage, must, refenc};
use fleece::{Encoder, MutableDict, Scope, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{call, check, count, ev, trace, violation, Tape};
use std::sync::Arc;

struct Doc { s: Arc<Scope>, m: M }
struct St { docs: Vec<Doc>, odd: Vec<Arc<Scope>>, healthy: u64, stray: Vec<usize>, brief: Vec<Arc<Scope>> }
pub struct W { st: Sh<St>, mode: u64, kinds: [u64; 8] }

/// Bytes a client hands over; the conversion is the client's code.
struct Conv<'a> { bytes: Vec<u8>, then: u64, doc: Option<&'a (Arc<Scope>, M)>, err: &'a mut Option<String> }
impl From<Conv<'_>> for Arc<[u8]> {
    fn from(c: Conv) -> Self {
        let a: Arc<[u8]> = Arc::from(&c.bytes[..]);
        let mut fail = |what: &str| { *c.err = Some(simrt::pause_lib(|| what.to_string())); };
        match c.then {
            0 => panic!("client panics while converting"),
            1 => {
                let s = Scope::new(a.to_vec(), None);
                let d = s.data();
                if d.as_deref() != Some(&c.bytes[..]) { fail("a scope created while another is being created has other data"); }
                if !c.bytes.is_empty() {
                    let p = d.as_ref().map_or(0, |d| d.as_ptr() as usize + c.bytes.len() - 1);
                    if Scope::containing(p as *const u8).is_none_or(|f| *f != *s) { fail("a scope created while another is being created is not found"); }
                }
                s.remove();
            }
            2 => if let Some((s, m)) = c.doc {
                // reads a document whose keys must be looked up
                let r = s.root();
                let r = r.as_ref().map_or(Err(simrt::pause_lib(|| "no root".to_string())), |r| same_value(r, m, Sk::Auto));
                if let Err(e) = r { fail(&e); }
            },
            3 => { drop(Scope::containing(a.as_ptr())); let s = Scope::new(a.clone(), Some(Arc::new(SharedKeys::new()))); if a.len() > 0 { s.remove(); } drop(s); panic!("client panics after using scopes while converting") }
            _ => {}
        }
        a
    }
}
/// Does library work when dropped - also while its thread is panicking.
struct Guard(Arc<Scope>, u64);
impl Drop for Guard {
    fn drop(&mut self) {
        match self.1 { 0 => self.0.remove(), 1 => { let _ = Scope::new(vec![0u8, 1, 2, 3], None); } 2 => { let _ = self.0.data().map(|d| Scope::containing(d.as_ptr())); } _ => { let mut e = Encoder::new(); e.set_shared_keys(SharedKeys::new()); if e.begin_dict().is_ok() { drop(e.finish_scoped()); } } }
    }
}
/// Serialization that fails in the client's code.
struct BadSer(usize, bool);
impl serde::Serialize for BadSer {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        for i in 0..self.0 { m.serialize_entry(["a1", "b2", "c3"][i % 3].to_string().as_str(), &(i as u32))?; }
        if self.1 { panic!("client panics while serializing") }
        Err(serde::ser::Error::custom("client gives up"))
    }
}
struct BadDe;
impl<'de> serde::Deserialize<'de> for BadDe {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = BadDe;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a client that panics") }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<BadDe, A::Error> { let _ = a.next_key::<String>()?; panic!("client panics while deserializing") }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, _: A) -> Result<BadDe, A::Error> { panic!("client panics while deserializing") }
        }
        d.deserialize_any(V)
    }
}

impl W {
    fn healthy_create(&self, t: &mut Tape) {
        let b = [80, 300, 1000][t.usize(3)];
        let m = gen::doc(t, b);
        let keyed = t.chance(3, 4);
        let how = t.word();
        let s = if keyed {
            match must!("encode-sk", encode_sk(&m, SharedKeys::new(), how)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") }
        } else { let b = doc_bytes(&m, how); must!("scope-new", Scope::new(b, None)) };
        trace!("healthy document, keys {keyed}: {}", m.brief());
        self.st.g().docs.push(Doc { s, m });
    }
    fn pick(&self, t: &mut Tape) -> Option<(Arc<Scope>, M)> {
        let st = self.st.g();
        if st.docs.is_empty() { return None; }
        let k = t.usize(st.docs.len());
        Some((st.docs[k].s.clone(), st.docs[k].m.clone()))
    }
    fn healthy_read(&self, t: &mut Tape) {
        let Some((s, m)) = self.pick(t) else { return };
        let how = t.draw(6);
        let b = m.brief();
        let Some(r) = must!("scope-root", s.root()) else { violation!("no-root/scope", "a healthy scope has no root") };
        match how {
            0 | 1 => agree_ctx!("read", b, same_deep(&r, &m, Sk::Auto)),
            2 => {
                let d = must!("scope-data", s.data()).expect("data");
                let f = must!("containing", Scope::containing(d.as_ptr().wrapping_add(d.len() / 2)));
                let Some(f) = f else { violation!("unfindable/containing", "a healthy scope is not found by its address") };
                check!(Arc::ptr_eq(&f, &s), "foreign/containing", "another scope is found at the address of a healthy one");
                must!("drop", { drop(f); drop(d); });
            }
            3 => if let M::Dict(d) = &m {
                let n = must!("mutable-from_scope", MutableDict::from_scope(&s).map(|d| d.len()));
                check!(n == Some(d.len()), "content/mutable-from_scope", "{n:?} pairs of {}", d.len());
            },
            4 => {
                let d = must!("scope-data", s.data()).expect("data");
                match must!("serde-from_bytes", fleece::from_bytes::<De>(&d)) {
                    Ok(De(x)) => check!(x.same(&m), "content/serde-from_bytes", "deserialized {} instead of {b}", x.brief()),
                    Err(e) => violation!("refused/serde-from_bytes", "{e:?}"),
                }
                must!("drop", drop(d));
            }
            _ => agree_ctx!("read", b, same_value(&r, &m, Sk::Auto)),
        }
        must!("drop", { drop(r); drop(s); });
        self.st.g().healthy += 1;
        count("healthy operations checked");
    }
    fn odd_bytes(&self, t: &mut Tape) -> Vec<u8> {
        match t.draw(7) {
            0 => { count("fault: empty data registered"); vec![] }
            1 => { count("fault: one byte registered"); vec![t.draw(256) as u8] }
            2 => { count("fault: an external pointer registered"); t.pick(&[[0xc0u8, 0x01], [0xc0, 0x00], [0xff, 0xff], [0x80, 0x00], [0x80, 0x01]]).to_vec() }
            3 => { count("fault: garbage registered"); let n = 1 + t.usize(40); (0..n).map(|_| t.draw(256) as u8).collect() }
            4 => { count("fault: data of odd length registered"); let mut b = refenc::encode(&gen::doc(t, 60), t.word(), None); b.push(t.draw(256) as u8); b }
            5 => { count("fault: zeroes registered"); vec![0; t.usize(40)] }
            _ => { let mut b = refenc::encode(&gen::doc(t, 200), t.word(), None); damage::faults(t, &mut b, &[0x70, 0, 0x80, 1]); count("fault: a damaged document registered"); b }
        }
    }
    fn fault(&self, t: &mut Tape) {
        let kind = t.weighted(&self.kinds);
        ev(100 + kind as u64);
        match kind {
            0 => {
                let b = self.odd_bytes(t);
                let keys = t.chance(1, 2);
                trace!("fault: register {} bytes {:02x?}", b.len(), &b[..b.len().min(24)]);
                let k = keys.then(|| must!("new", Arc::new(SharedKeys::new())));
                let how = t.draw(3);
                let want = b.clone();
                let a: Option<Arc<[u8]>> = if how == 1 { Some(must!("to-arc", Arc::from(&b[..]))) } else { None };
                let s = must!("scope-new", match (how, a) { (1, Some(a)) => Scope::new(a, k), (2, _) => Scope::new(b.into_boxed_slice(), k), _ => Scope::new(b, k) });
                let d = must!("scope-data", s.data());
                check!(d.as_deref() == Some(&want[..]), "content/odd-data", "the scope of odd data has other data");
                if let Some(d) = &d {
                    if !want.is_empty() {
                        let f = must!("containing", Scope::containing(d.as_ptr().wrapping_add(want.len() - 1)));
                        check!(f.as_ref().is_some_and(|f| Arc::ptr_eq(f, &s)), "unfindable/odd-data", "the scope of {} odd bytes is not found by address", want.len());
                        must!("drop", drop(f));
                        let f = must!("find_shared_keys", Scope::find_shared_keys(d.as_ptr()));
                        check!(f.is_some() == keys, "keys/odd-data", "the keys of a scope of odd data: found {}, given {keys}", f.is_some());
                        must!("drop", drop(f));
                    }
                }
                // whatever root it has can be looked at
                let r = must!("scope-root", s.root());
                let v = must!("from_bytes", Value::from_bytes(d.as_deref().unwrap()).is_ok());
                check!(r.is_some() == v, "root/odd-data", "root is {} but opening the same bytes is {}", r.is_some(), v);
                if let Some(r) = &r { let n = must!("debug", { let v: &Value = r; format!("{:?}", v.value_type()).len() }); check!(n > 0, "debug/odd", ""); }
                must!("mutable-from_scope", drop(MutableDict::from_scope(&s)));
                must!("drop", { drop(r); drop(d); });
                if t.chance(1, 2) && self.st.g().odd.len() < 20 { self.st.g().odd.push(s); } else { if t.chance(1, 2) { must!("remove", s.remove()); } must!("drop", drop(s)); }
            }
            1 => {
                let then = t.draw(5);
                let b = self.odd_bytes(t);
                let doc = self.pick(t);
                trace!("fault: conversion that {}", ["panics", "creates a scope", "reads a dict", "uses scopes, then panics", "just converts"][then as usize]);
                count(["fault: conversion panics", "fault: conversion creates a scope", "fault: conversion reads a keyed document", "fault: conversion uses scopes and panics", "conversions that just convert"][then as usize]);
                let mut err = None;
                simrt::set_op("scope-new");
                let r = call(|| Scope::new(Conv { bytes: b, then, doc: doc.as_ref(), err: &mut err }, None));
                if let Some(e) = err { violation!("content/conversion", "{e}"); }
                match r {
                    Ok(s) => { check!(then != 0 && then != 3, "swallowed/conversion", "a panic of the client's conversion is lost"); must!("drop", drop(s)); }
                    Err(p) => check!(p.0.starts_with("client panics"), "panic/scope-new", "{}", p.0),
                }
                must!("drop", drop(doc));
            }
            2 => {
                // a thread panics while it holds all kinds of handles, some of which do things when dropped
                let g = t.draw(5);
                let Some((s, m)) = self.pick(t) else { return };
                let _ = m;
                trace!("fault: panic while holding handles, guard {g}");
                count("fault: panic while holding handles");
                let own = must!("scope-new", Scope::new(vec![0x60u8, 0, 0x80, 1], Some(Arc::new(SharedKeys::new()))));
                simrt::set_op("holding");
                let r = call(move || {
                    let _g = (g < 4).then(|| Guard(own, g));
                    let data = s.data();
                    let root = s.root();
                    let dict = root.clone().and_then(|r| r.to_dict());
                    if let Some(d) = &dict { for (_k, _v) in d.iter() { panic!("client panics while iterating") } }
                    drop(data);
                    panic!("client panics while holding handles")
                });
                match r { Ok(()) => {} Err(p) => check!(p.0.starts_with("client panics"), "panic/holding", "{}", p.0) }
            }
            3 => {
                // an encoder is left in the middle
                let m = gen::doc(t, 200);
                let n = t.usize(6);
                let boom = t.chance(1, 2);
                let sk = t.chance(1, 2);
                count("fault: encoder abandoned");
                trace!("fault: encoder abandoned after {n} parts, panics {boom}, keys {sk}");
                simrt::set_op("abandon");
                let r = call(|| {
                    let mut e = Encoder::new();
                    if sk { e.set_shared_keys(SharedKeys::new()); }
                    let _ = e.begin_array(3);
                    for i in 0..n { let _ = put(&mut e, &m, i as u64); let _ = e.begin_dict(); let _ = e.write_key("k"); }
                    if boom { panic!("client panics while encoding") }
                });
                match r { Ok(()) => check!(!boom, "swallowed/abandon", "lost panic"), Err(p) => check!(p.0.starts_with("client panics"), "panic/abandon", "{}", p.0) }
            }
            4 => {
                let n = t.usize(5);
                let boom = t.chance(1, 2);
                let sk = t.chance(2, 3);
                count(if boom { "fault: panic while serializing" } else { "fault: error while serializing" });
                simrt::set_op("serialize");
                let r = call(|| if sk { fleece::to_bytes_with_shared_keys(BadSer(n, boom)).is_ok() } else { fleece::to_bytes(BadSer(n, boom)).is_ok() });
                match r { Ok(ok) => check!(!ok && !boom, "swallowed/serialize", "a failure of the client's Serialize is lost"), Err(p) => check!(p.0.starts_with("client panics"), "panic/serialize", "{}", p.0) }
            }
            5 => {
                let Some((s, _)) = self.pick(t) else { return };
                count("fault: panic while deserializing");
                let d = must!("scope-data", s.data()).expect("data");
                simrt::set_op("deserialize");
                match call(|| fleece::from_bytes::<BadDe>(&d).is_ok()) { Ok(_) => violation!("swallowed/deserialize", "lost panic"), Err(p) => check!(p.0.starts_with("client panics"), "panic/deserialize", "{}", p.0) }
                must!("drop", { drop(d); drop(s); });
            }
            7 => {
                // scopes that live for a moment, and lookups at addresses where they may be
                let storm = self.mode == 2;
                let n = if storm { 1 } else { 1 + t.usize(8) };
                let what = t.draw(3);
                if what == 0 && self.st.g().brief.len() < if storm { 2 } else { 20 } || self.st.g().stray.is_empty() {
                    count("fault: short-lived scopes");
                    for i in 0..n {
                        let s = must!("scope-new", Scope::new(vec![i as u8; 2 + 2 * i], Some(Arc::new(SharedKeys::new()))));
                        let at = must!("range", s.range()).map_or(0, |r| r.start);
                        let st = self.st.g();
                        if st.stray.len() >= 16 { st.stray.remove(0); }
                        st.stray.push(at);
                        st.brief.push(s);
                    }
                } else if what == 1 {
                    while let Some(s) = self.st.g().brief.pop() { must!("drop", drop(s)); }
                } else {
                    count("fault: lookups at stray addresses");
                    for _ in 0..n * 3 {
                        let st = self.st.g();
                        let p = st.stray[if t.chance(1, 2) { st.stray.len() - 1 } else { t.usize(st.stray.len()) }] as *const u8;
                        match t.draw(3) {
                            0 => { let k = must!("find_shared_keys", Scope::find_shared_keys(p)); must!("drop", drop(k)); }
                            1 => { let s = must!("containing", Scope::containing(p.wrapping_add(1))); must!("drop", drop(s)); }
                            _ => { let s = must!("containing", Scope::containing(p)); if let Some(s) = s { let d = must!("scope-data", s.data()); must!("drop", { drop(d); drop(s); }); } }
                        }
                    }
                }
            }
            _ => {
                // removed twice, removed after its data was registered again, never dropped
                let st = self.st.g();
                if st.odd.is_empty() { return; }
                let k = t.usize(st.odd.len());
                let s = st.odd.swap_remove(k);
                trace!("fault: repeated removal");
                count("fault: scope removed repeatedly");
                must!("remove", { s.remove(); s.remove(); });
                let d = must!("scope-data", s.data()).expect("data");
                let s2 = must!("scope-new", Scope::new(d, None));
                must!("remove", { s.remove(); s2.remove(); s2.remove(); });
                must!("drop", drop(s2));
                if t.chance(1, 3) { std::mem::forget(s); count("fault: handle leaked for ever"); } else { must!("drop", drop(s)); }
            }
        }
    }
}
impl Workload for W {
    const NAME: &'static str = "C05";
    fn knobs() -> Knobs { Knobs { edge_budget: 100_000_000, call_budget: 100_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[2, 4, 3, 2]);
        let mode = t.draw(4);
        let ops = (0..n).map(|_| if mode == 2 { 60 } else { [5, 12, 30, 60][t.usize(4)] }).collect();
        // which kinds of faults this run has
        let mut kinds = [8, 5, 4, 4, 3, 3, 2, 6];
        match t.draw(3) { 0 => {} 1 => { let keep = t.usize(8); for (i, k) in kinds.iter_mut().enumerate() { if i != keep { *k = u64::from(i == 7); } } } _ if mode == 2 => kinds = [0, 0, 0, 0, 0, 0, 0, 6], _ => for (i, k) in kinds.iter_mut().enumerate() { if i < 7 && t.chance(1, 2) { *k = 0; } } }
        (W { st: Sh::new(St { docs: vec![], odd: vec![], healthy: 0, stray: vec![], brief: vec![] }), mode, kinds }, ops)
    }
    fn op(&self, th: usize, t: &mut Tape) {
        // in one mode one thread is the culprit, otherwise everybody is now and then
        let faulty = match self.mode { 0 => th == 0, 1 => t.chance(1, 2), 2 => t.chance(9, 10), _ => t.chance(1, 5) };
        if faulty { self.fault(t); return; }
        match t.weighted(&[if self.st.g().docs.len() < 12 { 4 } else { 0 }, 10, 2]) {
            0 => self.healthy_create(t),
            1 => self.healthy_read(t),
            _ => {
                let st = self.st.g();
                if st.docs.is_empty() { return; }
                let k = t.usize(st.docs.len());
                let d = st.docs.swap_remove(k);
                // nobody may be reading it
                if t.chance(1, 2) && Arc::strong_count(&d.s) == 1 { must!("remove", d.s.remove()); }
                must!("drop", drop(d.s));
            }
        }
        ev(self.st.g().docs.len() as u64);
    }
    fn finish(&self) {
        // the faulty clients are gone: everything still works, in few steps
        let mut t = Tape::quiet(7);
        let a = simrt::now();
        let m = M::Dict([("name".to_string(), M::Int(1)), ("list".to_string(), M::Arr(vec![M::Str("x".into()), M::Dict([("inner".to_string(), M::Null)].into())]))].into());
        let s = match must!("encode-sk", encode_sk(&m, SharedKeys::new(), 0)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") };
        let r = must!("scope-root", s.root()).expect("root");
        agree_ctx!("read-last", m.brief(), same_deep(&r, &m, Sk::Auto));
        must!("drop", drop(r));
        must!("remove", s.remove());
        must!("drop", drop(s));
        let steps = simrt::now() - a;
        check!(steps < 2_000_000, "slow/after-faults", "one small document took {steps} steps once the faults were over");
        for _ in 0..self.st.g().docs.len() * 2 { self.healthy_read(&mut t); }
        for d in self.st.g().docs.drain(..) { must!("drop", drop(d.s)); }
        for s in self.st.g().brief.drain(..) { must!("drop", drop(s)); }
        for s in self.st.g().odd.drain(..) { must!("drop", drop(s)); }
    }
}
