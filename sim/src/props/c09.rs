//! Client types through serde.
use crate::damage;
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::props::c02::{walk, Bounds};
use crate::serdem::De;
use crate::zoo::{Bytes, Ty, Val, ZOO};
use crate::{must, refdec};
use fleece::{Scope, SharedKeys, Value};
use serde::de::{self, Deserializer, IgnoredAny};
use serde::ser::*;
use serde::{Deserialize, Serialize};
use simrt::run::{Knobs, Workload};
use simrt::{call, check, count, ev, pause_lib, trace, violation, Tape};
use std::collections::BTreeMap;
use std::sync::Arc;

/// What some thread serialized and any thread may read back.
#[derive(Clone)]
enum Kept { Plain(Arc<Vec<u8>>), Scope(Arc<Scope>), Disk(Arc<(Vec<u8>, Vec<u8>)>) }
struct Saved { k: Kept, ty: usize, text: Arc<String> }
pub struct W { st: Sh<Vec<Saved>> }

/// The model as a client type.
struct Ser<'a>(&'a M);
impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            M::Null => s.serialize_none(),
            M::Undef => s.serialize_unit(),
            M::Bool(b) => s.serialize_bool(*b),
            M::Int(i) => match i64::try_from(*i) { Ok(x) => s.serialize_i64(x), _ => s.serialize_u64(*i as u64) },
            M::F32(f) => s.serialize_f32(*f),
            M::F64(f) => s.serialize_f64(*f),
            M::Str(x) => s.serialize_str(x),
            M::Data(x) => s.serialize_bytes(x),
            M::Arr(v) => { let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?; for x in v { q.serialize_element(&Ser(x))?; } q.end() }
            M::Dict(d) => { let mut q = s.serialize_map(if d.len() % 2 == 0 { Some(d.len()) } else { None })?; for (k, x) in d { if k.len() % 2 == 0 { q.serialize_entry(k, &Ser(x))?; } else { q.serialize_key(k)?; q.serialize_value(&Ser(x))?; } } q.end() }
        }
    }
}
/// A client type whose serialization fails or panics at its n-th scalar, inside collections of every serde kind.
struct Faulty<'a> { left: &'a std::cell::Cell<u32>, panics: bool, id: u64, depth: u32, shape: u64 }
impl Serialize for Faulty<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.depth == 0 {
            let n = self.left.get();
            if n == 0 { if self.panics { panic!("client panic {}", self.id); } return Err(serde::ser::Error::custom(format!("client error {}", self.id))); }
            self.left.set(n - 1);
            return s.serialize_str("scalar");
        }
        let c = |k: u64| Faulty { left: self.left, panics: self.panics, id: self.id, depth: self.depth - 1, shape: simrt::rng::mix(self.shape, k) };
        let w = |k: u64| Wrapped(c(k), simrt::rng::mix(self.shape, k + 77) % 5);
        match self.shape % 8 {
            0 => { let mut q = s.serialize_seq(None)?; for k in 0..3 { q.serialize_element(&c(k))?; } q.end() }
            1 => { let mut q = s.serialize_map(None)?; for k in 0..3 { q.serialize_entry(&format!("key{k}"), &c(k))?; } q.end() }
            2 => { let mut q = s.serialize_struct("S", 3)?; q.serialize_field("aa", &c(0))?; q.serialize_field("bb", &c(1))?; q.serialize_field("cc", &c(2))?; q.end() }
            3 => { let mut q = s.serialize_tuple_variant("E", 0, "T", 3)?; for k in 0..3 { q.serialize_field(&w(k))?; } q.end() }
            4 => { let mut q = s.serialize_tuple(3)?; for k in 0..3 { q.serialize_element(&w(k))?; } q.end() }
            5 => { let mut q = s.serialize_tuple_struct("T", 3)?; for k in 0..3 { q.serialize_field(&w(k))?; } q.end() }
            6 => { let mut q = s.serialize_map(Some(3))?; for k in 0..3 { q.serialize_key(&format!("key{k}"))?; q.serialize_value(&w(k))?; } q.end() }
            _ => { let mut q = s.serialize_struct_variant("E", 1, "V", 3)?; q.serialize_field("aa", &c(0))?; q.serialize_field("bb", &c(1))?; q.serialize_field("cc", &c(2))?; q.end() }
        }
    }
}
/// The same behind something with one child.
struct Wrapped<'a>(Faulty<'a>, u64);
impl Serialize for Wrapped<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.1 {
            0 => s.serialize_newtype_variant("E", 2, "N", &self.0),
            1 => s.serialize_newtype_struct("N", &self.0),
            2 => s.serialize_some(&self.0),
            3 => s.collect_seq([&self.0]),
            _ => self.0.serialize(s),
        }
    }
}
thread_local! { static TRIGGER: std::cell::Cell<(u32, bool, u64)> = const { std::cell::Cell::new((u32::MAX, false, 0)) }; }
/// A client type whose deserialization fails or panics at its n-th element.
struct Bomb;
impl<'de> Deserialize<'de> for Bomb {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (n, panics, id) = TRIGGER.get();
        if n == 0 { if panics { panic!("client panic {id}"); } return Err(de::Error::custom(format!("client error {id}"))); }
        TRIGGER.set((n - 1, panics, id));
        IgnoredAny::deserialize(d).map(|_| Bomb)
    }
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum BombIn { A(Bomb), B(Bomb, Bomb), C { x: Bomb, y: Bomb } }
#[derive(Deserialize)]
#[allow(dead_code)]
struct NewBomb(Option<Bomb>);
#[derive(Deserialize)]
#[allow(dead_code)]
struct BombOne { f: Option<NewBomb>, absent: Option<Bomb> }
#[derive(Deserialize)]
#[allow(dead_code)]
struct BombFields { b: NewBomb, a: Bomb, #[serde(default)] c: Vec<u8> }
struct Wide(i128);
impl Serialize for Wide { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_i128(self.0) } }

/// The same record before and after its schema grew.
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Old { beta: i64, name: String, #[serde(default)] later: Vec<u8> }
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Grown { alpha: crate::zoo::Ints2, beta: i64, extra: BTreeMap<String, Vec<Option<crate::zoo::Color>>>, name: String, tail: Option<Box<Grown>>, zeta: (u8, Vec<String>) }
#[derive(Serialize, Deserialize, Debug, PartialEq)]
enum OldE { Rec { beta: i64, #[serde(default)] later: Option<u8>, name: String }, Gone }
#[derive(Serialize, Deserialize, Debug, PartialEq)]
enum GrownE { New(u8), Rec { alpha: Vec<Vec<i8>>, beta: i64, mid: Box<GrownE>, name: String }, Gone }

fn read(ty: &Ty, b: &[u8], text: &str, how: &'static str) {
    match must!(how, (ty.read)(b)) {
        Ok(s) => check!(s == text, format!("content/{how}"), "a {} written as {} reads as {}", ty.name, cut(text), cut(&s)),
        Err(e) => violation!(format!("refused/{how}"), "a {} written by the library is refused: {e:?}; it was {}", ty.name, cut(text)),
    }
    count("client values read back");
}
fn cut(s: &str) -> String { s.chars().take(300).collect() }
impl W {
    fn keep(&self, t: &mut Tape, s: Saved) { let v = self.st.g(); if v.len() < 12 { v.push(s); } else { let i = t.usize(12); let old = std::mem::replace(&mut v[i], s); if let Kept::Scope(s) = old.k { must!("drop", drop(s)); } } }
    fn plain(&self, t: &mut Tape, k: usize, v: &dyn Val, text: Arc<String>) {
        let ty = &ZOO[k];
        let b = match must!("to_bytes", v.ser()) { Ok(b) => pause_lib(|| b.as_slice().to_vec()), Err(e) => violation!("refused/to_bytes", "a {} is refused: {e:?}; {}", ty.name, cut(&text)) };
        if let Err(e) = refdec::decode(&b, None) { violation!("invalid/to_bytes", "a {} became invalid Fleece: {e}; {}", ty.name, cut(&text)); }
        let g = simrt::guarded_copy(&b, t.chance(1, 2));
        read(ty, g, &text, "from_bytes");
        simrt::arena::guarded_free(g);
        ev(b.len() as u64);
        self.keep(t, Saved { k: Kept::Plain(Arc::new(b)), ty: k, text });
    }
    fn keyed(&self, t: &mut Tape, k: usize, v: &dyn Val, text: Arc<String>) {
        let ty = &ZOO[k];
        let sc = match must!("to_bytes_with_shared_keys", v.ser_sk()) { Ok(b) => b, Err(e) => violation!("refused/to_bytes_with_shared_keys", "a {} is refused: {e:?}; {}", ty.name, cut(&text)) };
        let d = match must!("scope-data", sc.data()) { Some(d) => d, None => violation!("no-data/to_bytes_with_shared_keys", "the scope of a {} has no data", ty.name) };
        read(ty, &d, &text, "from_bytes-scope");
        ev(d.len() as u64);
        let keys = sc.shared_keys().cloned();
        let Some(keys) = keys else { violation!("no-keys/to_bytes_with_shared_keys", "the scope of a {} has no shared keys", ty.name) };
        let list: Vec<String> = must!("sk-iter", keys.iter().map(|(k, _)| pause_lib(|| k.to_string())).collect::<Vec<_>>()).into_iter().collect();
        if let Err(e) = refdec::decode(&d, Some(&list)) { violation!("invalid/to_bytes_with_shared_keys", "a {} became invalid Fleece: {e}; {}", ty.name, cut(&text)); }
        // the same bytes where no keys are known: the value or an error, nothing else
        let g = simrt::guarded_copy(&d, false);
        match must!("from_bytes-no-keys", (ty.read)(g)) {
            Ok(s) => check!(s == *text || !list.is_empty(), "content/from_bytes-no-keys", "without shared keys a {} reads as {}", ty.name, cut(&s)),
            Err(_) => { check!(!list.is_empty(), "refused/from_bytes-no-keys", "a {} that uses no shared keys is refused without them", ty.name); count("keyed data refused where its keys are unknown"); }
        }
        simrt::arena::guarded_free(g);
        if t.chance(1, 2) {
            let state = must!("state", keys.get_state_bytes());
            let disk = pause_lib(|| Arc::new((d.to_vec(), state.to_vec())));
            must!("drop", drop(state));
            self.keep(t, Saved { k: Kept::Disk(disk), ty: k, text: text.clone() });
        }
        must!("drop", { drop(d); drop(keys); });
        self.keep(t, Saved { k: Kept::Scope(sc), ty: k, text });
    }
    fn reread(&self, t: &mut Tape) {
        let v = self.st.g();
        if v.is_empty() { return; }
        let i = t.usize(v.len());
        let (k, ty, text) = (v[i].k.clone(), &ZOO[v[i].ty], v[i].text.clone());
        trace!("read a saved {} again", ty.name);
        match k {
            Kept::Plain(b) => read(ty, &b, &text, "from_bytes-again"),
            Kept::Scope(s) => { let d = must!("scope-data", s.data()).expect("data"); read(ty, &d, &text, "from_bytes-scope-again"); must!("drop", { drop(d); drop(s); }); }
            Kept::Disk(f) => {
                // restart: bytes and keys come from disk
                count("fault: restart, bytes and keys reloaded");
                let sk = match must!("load-keys", SharedKeys::from_state_bytes(&f.1)) { Some(k) => k, None => violation!("refused/load-keys", "a saved key state is refused") };
                let sc = must!("scope-new", Scope::new(f.0.clone(), Some(Arc::new(sk))));
                let d = must!("scope-data", sc.data()).expect("data");
                read(ty, &d, &text, "from_bytes-reloaded");
                must!("drop", { drop(d); drop(sc); });
            }
        }
        ev(ty.name.len() as u64);
    }
    fn unaccepted(&self, t: &mut Tape) {
        macro_rules! no { ($w:expr, $e:expr) => {{
            count("fault: value the serializer cannot take");
            simrt::set_op("to_bytes-unaccepted");
            let sk = t.chance(1, 2);
            let v = $e;
            let r = must!("to_bytes-unaccepted", if sk { fleece::to_bytes_with_shared_keys(&v).map(|s| { s.data().map_or(0, |d| d.len()) }) } else { fleece::to_bytes(&v).map(|b| b.len()) });
            trace!("serialize {}: {r:?}", $w);
            if let Ok(n) = r { violation!("accepted/to_bytes-unaccepted", "{} was accepted ({n} bytes)", $w); }
        }}; }
        let n = t.draw(1000) as i32;
        match t.draw(14) {
            0 => no!("a 128-bit integer", vec![Wide(n as i128)]),
            1 => no!("a map with integer keys", BTreeMap::from([(n, 1)])),
            2 => no!("a map with bool keys", BTreeMap::from([(n > 0, 1)])),
            3 => no!("a map with tuple keys", BTreeMap::from([((n, n), "x")])),
            4 => no!("a map with unit keys", BTreeMap::from([((), 3)])),
            5 => no!("a map with a missing optional key", BTreeMap::from([(None::<String>, 3)])),
            6 => no!("a map with enum keys", BTreeMap::from([(crate::zoo::Color::Red, 3)])),
            7 => no!("a top-level integer", n),
            8 => no!("a top-level string", format!("{n}")),
            9 => no!("a top-level bool", n > 5),
            10 => no!("a nested map with sequence keys", vec![BTreeMap::from([(vec![n], 3)])]),
            11 => no!("a top-level float", f64::from(n)),
            12 => no!("a map with map keys", BTreeMap::from([(BTreeMap::from([("a", n)]), 3)])),
            _ => no!("top-level data", Bytes::default()),
        }
        ev(1);
    }
    fn faulty(&self, t: &mut Tape) {
        let id = t.draw(1 << 20);
        let panics = t.chance(1, 2);
        let depth = 1 + t.draw(4) as u32;
        let leaves = 3u32.pow(depth);
        if t.chance(1, 2) {
            let n = t.draw(u64::from(leaves) + 3) as u32;
            let left = std::cell::Cell::new(n);
            let f = Faulty { left: &left, panics, id, depth, shape: t.draw(1000) };
            let sk = t.chance(1, 2);
            trace!("serialize a value that {} at scalar {n} of {leaves}", if panics { "panics" } else { "fails" });
            simrt::set_op("to_bytes-faulty");
            let r = call(|| if sk { fleece::to_bytes_with_shared_keys(&f).map(|s| s.data().map(|d| pause_lib(|| d.to_vec())).unwrap_or_default()) } else { fleece::to_bytes(&f).map(|b| pause_lib(|| b.as_slice().to_vec())) });
            if n >= leaves {
                match r { Ok(Ok(b)) => { if !sk { if let Err(e) = refdec::decode(&b, None) { violation!("invalid/to_bytes-faulty", "{e}"); } } } Ok(Err(e)) => violation!("refused/to_bytes-faulty", "{e:?}"), Err(p) => violation!("panic/to_bytes-faulty", "{}", p.0) }
            } else if panics {
                count("fault: client panics while serializing");
                match r { Err(p) => check!(p.0.contains(&format!("client panic {id}")), "panic/to_bytes-faulty", "another panic came out: {}", p.0), Ok(r) => violation!("accepted/to_bytes-faulty", "the client's panic was lost: {r:?}") }
            } else {
                count("fault: client fails while serializing");
                match r { Ok(Err(e)) => check!(format!("{e}").contains(&format!("client error {id}")), "error-lost/to_bytes-faulty", "the client's error became {e:?}"), Ok(Ok(b)) => violation!("accepted/to_bytes-faulty", "the client's error was lost, {} bytes came out", b.len()), Err(p) => violation!("panic/to_bytes-faulty", "{}", p.0) }
            }
        } else {
            // the same while reading
            let len = 1 + t.draw(12) as u32;
            let n = t.draw(u64::from(len) + 2) as u32;
            let kind = t.draw(8);
            let (m, total): (M, u32) = match kind {
                0 => (M::Arr((0..len).map(|i| M::Int(i.into())).collect()), len),
                1 => (M::Dict((0..len).map(|i| (format!("key{i}"), M::Str(format!("v{i}")))).collect()), len),
                2 => (M::Arr((0..len).map(|i| M::Arr(vec![M::Str("B".into()), M::Arr(vec![M::Int(i.into()), M::Dict([("z".to_string(), M::Null)].into())])])).collect()), len * 2),
                4 => (M::Arr((0..len).map(|i| if i % 3 == 1 { M::Int(i.into()) } else { M::Dict([("y".to_string(), M::Int(i.into())), ("x".to_string(), M::Arr(vec![M::Null, M::Dict([("q".to_string(), M::Str("text".into()))].into())]))].into()) }).map(|m| M::Dict([("f".to_string(), m)].into())).collect()), len),
                5 => (M::Arr((0..len).map(|i| M::Arr(vec![M::Int(i.into()), M::Str("two".into())])).collect()), len * 2),
                6 => (M::Arr((0..len).map(|i| M::Dict([("a".to_string(), M::Int(i.into())), ("b".to_string(), M::Arr(vec![M::Bool(true)])), ("other".to_string(), M::Arr(vec![M::Null]))].into())).collect()), len * 2),
                7 => (M::Arr((0..len).map(|i| M::Arr(vec![M::Str("A".into()), M::Int(i.into())])).collect()), len),
                _ => (M::Arr((0..len).map(|i| M::Arr(vec![M::Str("C".into()), M::Dict([("x".to_string(), M::Int(i.into())), ("y".to_string(), M::Undef)].into())])).collect()), len * 2),
            };
            let b = doc_bytes(&m, 0);
            TRIGGER.set((n, panics, id));
            trace!("deserialize a type that {} at element {n} of {total}", if panics { "panics" } else { "fails" });
            simrt::set_op("from_bytes-faulty");
            let r = call(|| match kind { 0 => fleece::from_bytes::<Vec<Bomb>>(&b).map(|v| v.len() as u32), 1 => fleece::from_bytes::<BTreeMap<String, Bomb>>(&b).map(|v| v.len() as u32), 4 => fleece::from_bytes::<Vec<BombOne>>(&b).map(|v| v.len() as u32), 5 => fleece::from_bytes::<Vec<(Bomb, NewBomb)>>(&b).map(|v| v.len() as u32 * 2), 6 => fleece::from_bytes::<Vec<BombFields>>(&b).map(|v| v.len() as u32 * 2), 7 => fleece::from_bytes::<Vec<BombIn>>(&b).map(|v| v.len() as u32), _ => fleece::from_bytes::<Vec<BombIn>>(&b).map(|v| v.len() as u32 * 2) });
            if n >= total {
                match r { Ok(Ok(k)) => check!(k == total, "content/from_bytes-faulty", "{k} elements of {total}"), Ok(Err(e)) => violation!("refused/from_bytes-faulty", "{e:?}"), Err(p) => violation!("panic/from_bytes-faulty", "{}", p.0) }
            } else if panics {
                count("fault: client panics while deserializing");
                match r { Err(p) => check!(p.0.contains(&format!("client panic {id}")), "panic/from_bytes-faulty", "another panic came out: {}", p.0), Ok(r) => violation!("accepted/from_bytes-faulty", "the client's panic was lost: {r:?}") }
            } else {
                count("fault: client fails while deserializing");
                match r { Ok(Err(e)) => check!(format!("{e}").contains(&format!("client error {id}")), "error-lost/from_bytes-faulty", "the client's error became {e:?}"), Ok(Ok(_)) => violation!("accepted/from_bytes-faulty", "the client's error was lost"), Err(p) => violation!("panic/from_bytes-faulty", "{}", p.0) }
            }
        }
        ev(id & 7);
    }
    fn mismatched(&self, t: &mut Tape) {
        // bytes of one type, possibly damaged, read as another
        let v = self.st.g();
        let plain: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i].k, Kept::Plain(_))).collect();
        if plain.is_empty() { return; }
        let i = plain[t.usize(plain.len())];
        let Kept::Plain(b) = v[i].k.clone() else { return };
        let name = ZOO[v[i].ty].name;
        let mut b = b.to_vec();
        let dmg = t.chance(1, 2);
        if dmg { damage::faults(t, &mut b, &[]); }
        let g = simrt::guarded_copy(&b, t.chance(1, 2));
        if dmg {
            // documents that share collections take too long for any reader that visits every path
            let ok = must!("from_bytes", match Value::from_bytes(g) { Ok(v) => { let mut n = 4000; let _ = walk(v, &Bounds::of(g), None, &mut n, 0); n > 0 } Err(_) => true });
            if !ok { simrt::arena::guarded_free(g); return; }
            count("damaged serde documents read");
        } else { count("documents read as another type"); }
        let n = t.usize(ZOO.len());
        trace!("read a {name} ({}) as other types from {}", if dmg { "damaged" } else { "intact" }, ZOO[n].name);
        for k in 0..6 {
            let ty = &ZOO[(n + k) % ZOO.len()];
            let r = must!("from_bytes-mismatch", (ty.read)(g).is_ok());
            ev(u64::from(r));
        }
        let r = must!("from_bytes-any", fleece::from_bytes::<De>(g).is_ok());
        ev(u64::from(r));
        simrt::arena::guarded_free(g);
    }
    /// Readers of another version of the type: unknown fields are skipped, missing ones defaulted.
    fn evolve(&self, t: &mut Tape) {
        use crate::zoo::{Gen, Ints2};
        let (beta, name) = (i64::gen(t, 0), String::gen(t, 0));
        let sk = t.chance(1, 2);
        let dict = t.chance(1, 2);
        count("records read by another version of their type");
        trace!("a record read by an older version of its type (enum {}, shared keys {sk})", !dict);
        macro_rules! trip { ($v:expr, $t:ty) => {{
            let v = $v;
            if sk {
                let sc = match must!("to_bytes_with_shared_keys", fleece::to_bytes_with_shared_keys(&v)) { Ok(s) => s, Err(e) => violation!("refused/to_bytes_with_shared_keys", "{e:?}") };
                let d = must!("scope-data", sc.data()).expect("data");
                let r = must!("from_bytes-evolved", fleece::from_bytes::<$t>(&d));
                must!("drop", { drop(d); drop(sc); });
                r
            } else {
                let b = match must!("to_bytes", fleece::to_bytes(&v)) { Ok(s) => s, Err(e) => violation!("refused/to_bytes", "{e:?}") };
                let r = must!("from_bytes-evolved", fleece::from_bytes::<$t>(&b));
                must!("drop", drop(b));
                r
            }
        }}; }
        if dict {
            let tail = if t.chance(1, 2) { Some(Box::new(Grown { alpha: Ints2::gen(t, 0), beta: 1, extra: BTreeMap::new(), name: "inner".into(), tail: None, zeta: (1, vec![]) })) } else { None };
            let g = Grown { alpha: Ints2::gen(t, 0), beta, extra: Gen::gen(t, 1), name: name.clone(), tail, zeta: Gen::gen(t, 1) };
            match trip!(g, Old) { Ok(o) => check!(o == Old { beta, name: name.clone(), later: vec![] }, "content/from_bytes-evolved", "beta {beta} name {} read as {o:?}", cut(&name)), Err(e) => violation!("refused/from_bytes-evolved", "{e:?}") }
            // a required field is missing: an error
            if let Ok(x) = trip!(Old { beta, name, later: vec![1] }, Grown) { violation!("accepted/from_bytes-evolved", "fields from nowhere: {x:?}") }
        } else {
            let g = GrownE::Rec { alpha: Gen::gen(t, 1), beta, mid: Box::new(if t.chance(1, 2) { GrownE::Gone } else { GrownE::New(3) }), name: name.clone() };
            match trip!(g, OldE) { Ok(o) => check!(o == OldE::Rec { beta, later: None, name: name.clone() }, "content/from_bytes-evolved", "beta {beta} name {} read as {o:?}", cut(&name)), Err(e) => violation!("refused/from_bytes-evolved", "{e:?}") }
            if let Ok(x) = trip!(OldE::Rec { beta, later: Some(1), name }, GrownE) { violation!("accepted/from_bytes-evolved", "fields from nowhere: {x:?}") }
            if let Ok(x) = trip!(GrownE::New(7), OldE) { violation!("accepted/from_bytes-evolved", "an unknown variant became {x:?}") }
        }
        ev(beta as u64);
    }
    fn content(&self, t: &mut Tape) {
        let m = gen::doc_any(t);
        let sk = t.chance(1, 2);
        trace!("serialize {} (shared keys {sk})", m.brief());
        let back = if sk {
            let sc = match must!("to_bytes_with_shared_keys", fleece::to_bytes_with_shared_keys(&Ser(&m))) { Ok(s) => s, Err(e) => violation!("refused/to_bytes_with_shared_keys", "{e:?} for {}", m.brief()) };
            let root = match must!("scope-root", sc.root()) { Some(r) => r, None => violation!("no-root/to_bytes_with_shared_keys", "no root for {}", m.brief()) };
            let r: Res = must!("read-scope", same_value(&root, &m, Sk::Auto));
            if let Err(e) = r { violation!("content/to_bytes_with_shared_keys", "{e} [{}]", m.brief()); }
            let d = must!("scope-data", sc.data()).expect("data");
            let x = must!("from_bytes-scope", fleece::from_bytes::<De>(&d).map(|De(m)| m));
            let x = match x { Ok(x) => x, Err(e) => violation!("refused/from_bytes-scope", "{e:?} for {}", m.brief()) };
            must!("drop", { drop(root); drop(d); drop(sc); });
            x
        } else {
            let b = match must!("to_bytes", fleece::to_bytes(Ser(&m))) { Ok(s) => pause_lib(|| s.as_slice().to_vec()), Err(e) => violation!("refused/to_bytes", "{e:?} for {}", m.brief()) };
            match refdec::decode(&b, None) { Ok(x) => check!(x.same(&m), "content/to_bytes", "{} became {}", m.brief(), x.brief()), Err(e) => violation!("invalid/to_bytes", "{e} for {}", m.brief()) }
            let x = must!("from_bytes", fleece::from_bytes::<De>(&b).map(|De(m)| m));
            match x { Ok(x) => x, Err(e) => violation!("refused/from_bytes", "{e:?} for {}", m.brief()) }
        };
        check!(back.same(&m), "content/from_bytes-any", "{} came back as {}", m.brief(), back.brief());
        must!("drop", drop(back));
        ev(m.nodes() as u64);
        count("client values read back");
    }
}
impl Workload for W {
    const NAME: &'static str = "C09";
    fn knobs() -> Knobs { Knobs { edge_budget: 200_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[3, 4, 3]);
        let ops = (0..n).map(|_| [3, 6, 12, 25][t.usize(4)]).collect();
        (W { st: Sh::new(vec![]) }, ops)
    }
    fn op(&self, _th: usize, t: &mut Tape) {
        match t.weighted(&[8, 8, 4, 2, 3, 3, 3, 2]) {
            w @ 0..=1 => {
                let k = t.usize(ZOO.len());
                let v = (ZOO[k].gen)(t);
                let text = Arc::new(v.text());
                trace!("serialize a {}{}: {}", ZOO[k].name, if w == 1 { " with shared keys" } else { "" }, cut(&text));
                ev(k as u64);
                if w == 0 { self.plain(t, k, &*v, text); } else { self.keyed(t, k, &*v, text); }
            }
            2 => self.reread(t),
            3 => self.unaccepted(t),
            4 => self.faulty(t),
            5 => self.mismatched(t),
            6 => self.content(t),
            _ => self.evolve(t),
        }
    }
    fn finish(&self) { for s in self.st.g().drain(..) { if let Kept::Scope(s) = s.k { must!("drop", drop(s)); } } }
}
