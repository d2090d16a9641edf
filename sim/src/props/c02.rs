//! Documents on a failing disk.
use crate::damage;
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::serdem::De;
use crate::{agree_ctx, must, refdec, refenc};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value, ValueType};
use serde::Deserialize;
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

struct File { bytes: Vec<u8>, older: Vec<u8>, m: M, keys: Option<Arc<SharedKeys>>, key_list: Vec<String> }
pub struct W { th: Vec<Sh<Vec<File>>> }

/// Client types that a damaged document is read into.
#[derive(Deserialize)]
#[allow(dead_code)]
struct Person { name: String, age: u32, #[serde(default)] id: Option<i64>, #[serde(default)] k1: Vec<u8> }
#[derive(Deserialize)]
#[allow(dead_code)]
enum Shape { Unit, New(u32), Tup(u8, String), Struct { a: i64, b: Vec<i16> } }

/// Where everything a reader returns must lie.
pub struct Bounds { lo: usize, hi: usize }
impl Bounds {
    pub fn of(b: &[u8]) -> Self { Bounds { lo: b.as_ptr() as usize, hi: b.as_ptr() as usize + b.len() } }
    fn value(&self, v: &Value, how: &str) -> Res {
        let p = (v as *const Value).cast::<u8>() as usize;
        if p < self.lo || p + v.len() > self.hi { return Err(format!("{how} gave a value at {} + {} of a document of {} bytes", p as i64 - self.lo as i64, v.len(), self.hi - self.lo)); }
        Ok(())
    }
    fn slice(&self, s: &[u8], how: &str) -> Res {
        let p = s.as_ptr() as usize;
        if !s.is_empty() && (p < self.lo || p + s.len() > self.hi) { return Err(format!("{how} gave {} bytes at {} of a document of {} bytes", s.len(), p as i64 - self.lo as i64, self.hi - self.lo)); }
        Ok(())
    }
}
/// Visit everything reachable, up to `budget` values. Call inside `lib`.
pub fn walk(v: &Value, b: &Bounds, keys: Option<&SharedKeys>, budget: &mut usize, depth: usize) -> Res {
    if *budget == 0 || depth > 2000 { *budget = 0; return Ok(()); }
    *budget -= 1;
    b.value(v, "a reader")?;
    let t = v.value_type();
    let _ = (v.to_bool(), v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int(), v.to_double(), v.to_float());
    b.slice(v.to_data(), "to_data")?;
    b.slice(v.to_str().as_bytes(), "to_str")?;
    let _ = v.required_size();
    if core::str::from_utf8(v.to_str().as_bytes()).is_err() { return Err("to_str gave invalid UTF-8".into()); }
    match t {
        ValueType::Array => {
            let Some(a) = v.as_array() else { return Err("as_array of an array gave nothing".into()) };
            let n = a.len();
            if n != a.iter().size_hint().0 { return Err("size hint and length differ".into()); }
            let mut c = 0usize;
            for x in a {
                c += 1;
                walk(x, b, keys, budget, depth + 1)?;
                if *budget == 0 { return Ok(()); }
            }
            if c != n { return Err(format!("{c} elements of {n}")); }
            for i in [0, 1, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX / 2, usize::MAX] {
                match a.get(i) { Some(x) => { if i >= n { return Err(format!("element {i} of {n}")); } b.value(x, "get")?; } None => if i < n { return Err(format!("no element {i} of {n}")); } }
            }
            let _ = (a.is_empty(), a.is_wide(), a.width());
        }
        ValueType::Dict => {
            let Some(d) = v.as_dict() else { return Err("as_dict of a dict gave nothing".into()) };
            let n = d.len();
            let mut c = 0usize;
            let mut some = vec![];
            for (k, x) in d {
                c += 1;
                if c > n { return Err(format!("more than {n} pairs")); }
                // a key lies in the document or in the shared keys
                let inside = b.slice(k.as_bytes(), "iter").is_ok();
                if !inside && keys.is_none() { return Err(format!("the key {k:?} lies outside the document")); }
                if some.len() < 4 { some.push(k.to_string()); }
                walk(x, b, keys, budget, depth + 1)?;
                if *budget == 0 { return Ok(()); }
            }
            for k in some.iter().map(String::as_str).chain(["name", "k1", "a", "", "nonexistent", "sixteen_chars_aa"]) {
                if let Some(x) = d.get(k) { b.value(x, "dict get")?; }
                let _ = d.contains_key(k);
                if let Some(s) = keys { if let Some(x) = d.get_with_shared_keys(k, s) { b.value(x, "dict get")?; } let _ = d.contains_key_with_shared_keys(k, s); }
            }
            match d.first() { Some((k, x)) => { if n == 0 { return Err("a first pair of an empty dict".into()); } b.value(k, "first")?; b.value(x, "first")?; } None => if n != 0 { return Err("no first pair".into()); } }
            let _ = (d.is_empty(), d.is_wide(), d.width());
        }
        ValueType::Pointer => return Err("a reader gave an unresolved pointer".into()),
        _ => if v.as_array().is_some() || v.as_dict().is_some() { return Err("a scalar became a collection".into()); },
    }
    Ok(())
}
fn walk_mut_arr(a: &MutableArray, budget: &mut usize) {
    for r in a { if *budget == 0 { return; } *budget -= 1; if let Some(v) = r.value() { touch(v); } if let Some(a) = r.array() { walk_mut_arr(a, budget); } if let Some(d) = r.dict() { walk_mut_dict(d, budget); } }
    let _ = (a.get(0), a.get(a.len()), a.get_array(0), a.get_dict(0));
}
fn walk_mut_dict(d: &MutableDict, budget: &mut usize) {
    for (k, r) in d { if *budget == 0 { return; } *budget -= 1; let _ = d.contains_key(k); if let Some(v) = r.value() { touch(v); } if let Some(a) = r.array() { walk_mut_arr(a, budget); } if let Some(d) = r.dict() { walk_mut_dict(d, budget); } }
}
fn touch(v: &Value) { let _ = (v.value_type(), v.to_int(), v.to_double(), v.to_str().len(), v.to_data().iter().fold(0u8, |a, b| a ^ b), v.to_bool()); }

/// Every reader over bytes that were accepted. `deep`: also the ones that visit everything themselves.
fn exercise(v: &Value, g: &'static [u8], keys: Option<&SharedKeys>, which: u64) -> bool {
    let b = Bounds::of(g);
    let mut budget = 20_000usize;
    let r: Res = must!("walk", walk(v, &b, keys, &mut budget, 0));
    if let Err(e) = r { violation!("unsafe/walk", "{e}"); }
    let all = budget > 0;
    ev(20_000 - budget as u64);
    if !all { count("very large accepted document: whole-document readers skipped"); return false; }
    if which & 1 != 0 { let s = must!("debug", format!("{v:?}")); ev(s.len() as u64); }
    if which & 2 != 0 {
        must!("to_mutable", {
            let mut n = 20_000;
            if let Some(a) = v.as_array() { let m = a.to_mutable(); walk_mut_arr(&m, &mut n); let c = MutableArray::clone_from(a); drop(m); walk_mut_arr(&c, &mut n); }
            if let Some(d) = v.as_dict() { let m = d.to_mutable(); let c = m.clone(); drop(m); walk_mut_dict(&c, &mut n); }
        });
    }
    if which & 4 != 0 {
        let out = must!("write_fleece", {
            let mut e = Encoder::new();
            let _ = e.begin_array(1);
            let ok = e.write_fleece(v).is_ok();
            (ok, e.finish())
        });
        ev(out.0.into());
        if out.0 { let o = simrt::guarded_copy(&out.1, false); match must!("open-copy", Value::from_bytes(o)) { Ok(v) => { let mut n = 5000; let r: Res = must!("walk-copy", walk(v, &Bounds::of(o), None, &mut n, 0)); if let Err(e) = r { violation!("unsafe/walk-copy", "{e}"); } } Err(e) => ev(format!("{e:?}").len() as u64) } simrt::arena::guarded_free(o); }
    }
    true
}
fn serde_read(g: &'static [u8], which: u64) {
    macro_rules! t { ($n:expr, $t:ty) => { match must!($n, fleece::from_bytes::<$t>(g)) { Ok(x) => { ev(1); must!("drop", drop(x)) } Err(_) => ev(2) } } }
    t!("serde-any", De);
    match which % 7 {
        0 => t!("serde-struct", Person),
        1 => t!("serde-enum", Shape),
        2 => t!("serde-map", BTreeMap<String, i64>),
        3 => t!("serde-vec", Vec<Option<String>>),
        4 => t!("serde-ignored", serde::de::IgnoredAny),
        5 => t!("serde-vec-enum", Vec<Shape>),
        _ => t!("serde-map-struct", HashMap<String, Option<Person>>),
    }
}
impl W {
    fn write_file(&self, th: usize, t: &mut Tape) {
        let budget = [60, 200, 900, 4000][t.weighted(&[4, 5, 4, 1])];
        let mut m = if t.chance(1, 40) { count("large collections written"); gen::many(t, 30_000) } else { gen::doc(t, budget) };
        // sometimes a document inside the data of another: its bytes look like Fleece
        if t.chance(1, 4) {
            let inner = gen::doc(t, 200);
            let s = t.word();
            let b = refenc::encode(&inner, s, None);
            let d = M::Data(b);
            match &mut m { M::Arr(v) => { let i = t.usize(v.len() + 1); v.insert(i, d); } M::Dict(x) => { x.insert("blob".into(), d); } _ => {} }
        }
        if t.chance(1, 6) {
            let n = 2 * (1 + t.usize(200));
            let p = t.pick(&[[0x80u8, 0, 0, 2], [0x80, 1, 0x80, 1], [0x60, 1, 0x80, 1], [0x70, 1, 0x41, 0x61], [0x7f, 0xff, 0xff, 0xff], [0x67, 0xff, 0x81, 0x10], [0x4f, 0xff, 0xff, 0xff]]);
            let d = M::Data((0..n).map(|i| p[i % 4]).collect());
            match &mut m { M::Arr(v) => v.push(d), M::Dict(x) => { x.insert("pat".into(), d); } _ => {} }
        }
        let how = t.word();
        let kind = t.weighted(&[3, 3, 2, 1]);
        let mut keys = None;
        let mut key_list = vec![];
        let bytes = match kind {
            0 => doc_bytes(&m, how),
            1 => refenc::encode(&m, how, None),
            _ => {
                let mut sk = SharedKeys::new();
                if t.chance(1, 3) { for i in 0..t.usize(300) { let k = format!("pre{i}"); must!("encode_and_insert", sk.encode_and_insert(&k)); } }
                let sc = match must!("encode-sk", encode_sk(&m, sk, how)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") };
                let d = must!("scope-data", sc.data()).expect("data");
                let out = d.to_vec();
                let k = sc.shared_keys().expect("keys").clone();
                key_list = must!("sk-iter", k.iter().map(|(k, _)| simrt::pause_lib(|| k.to_string())).collect::<Vec<_>>()).into_iter().collect();
                keys = Some(k);
                must!("drop", { drop(d); drop(sc); });
                if kind == 3 {
                    let map: HashMap<String, u16> = key_list.iter().enumerate().map(|(i, k)| (k.clone(), i as u16)).collect();
                    refenc::encode(&m, how, Some(&map))
                } else { out }
            }
        };
        trace!("write file: {} bytes, kind {kind}: {}", bytes.len(), m.brief());
        let files = self.th[th].g();
        if files.len() >= 3 || (!files.is_empty() && t.chance(1, 2)) {
            let i = t.usize(files.len());
            let old = std::mem::take(&mut files[i].bytes);
            files[i] = File { bytes, older: old, m, keys, key_list };
        } else { files.push(File { bytes, older: vec![], m, keys, key_list }); }
    }
}
impl Workload for W {
    const NAME: &'static str = "C02";
    fn knobs() -> Knobs { Knobs { edge_budget: 400_000_000, call_budget: 100_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[3, 2]);
        let ops = (0..n).map(|_| [4, 12, 30][t.usize(3)]).collect();
        (W { th: (0..n).map(|_| Sh::new(vec![])).collect() }, ops)
    }
    fn op(&self, th: usize, t: &mut Tape) {
        if self.th[th].g().is_empty() || t.chance(1, 5) { self.write_file(th, t); }
        let files = self.th[th].g();
        let f = &files[t.usize(files.len())];
        let mut b = f.bytes.clone();
        let faults = if t.chance(1, 8) { 0 } else { damage::faults(t, &mut b, &f.older) };
        let intact = b == f.bytes;
        if intact { count("undamaged documents opened"); } else if faults > 0 { count("damaged documents opened"); }
        let g: &'static [u8] = simrt::guarded_copy(&b, t.chance(1, 2));
        let which = t.word();
        let kn = f.keys.as_deref();
        trace!("open {} bytes ({}), readers {which:x}", g.len(), if intact { "intact".into() } else { format!("{faults} faults") });
        let r = must!("from_bytes", Value::from_bytes(g));
        ev(u64::from(r.is_ok()));
        match r {
            Ok(v) => {
                count(if intact { "accepted intact" } else { "accepted damaged" });
                if intact {
                    let sk = match kn { Some(s) => Sk::Given(s), None => Sk::Auto };
                    agree_ctx!("read-intact", f.m.brief(), same_value(v, &f.m, sk));
                } else if refdec::decode(g, f.keys.as_ref().map(|_| &f.key_list[..])).is_err() { count("accepted although the reference decoder refuses"); }
                let small = exercise(v, g, kn, which);
                if small {
                    if which & 8 != 0 { serde_read(g, which >> 16); }
                    if which & 16 != 0 {
                        match must!("clone_from_bytes", Value::clone_from_bytes(g)) {
                            Ok(a) => {
                                let vs: &Value = &a;
                                check!(vs.len() == v.len(), "differs/clone_from_bytes", "the copy's root has {} bytes, the original's {}", vs.len(), v.len());
                                let bb = Bounds::of(unsafe { core::slice::from_raw_parts((vs as *const Value).cast::<u8>(), vs.len()) });
                                let _ = bb;
                                let s = must!("debug-clone", format!("{:?}", a.value()));
                                let s2 = must!("debug", format!("{v:?}"));
                                check!(s == s2, "differs/clone_from_bytes", "the copy reads differently: {s} / {s2}");
                                must!("to_array", { let c = a.clone(); drop(a); let x = c.clone().to_array(); let y = c.to_dict(); drop(x); drop(y); });
                            }
                            Err(e) => violation!("differs/clone_from_bytes", "from_bytes accepts, clone_from_bytes refuses: {e:?}"),
                        }
                    }
                    if which & 32 != 0 {
                        let (a, d) = must!("typed-from_bytes", (Array::from_bytes(g).is_ok(), Dict::from_bytes(g).is_ok()));
                        let t = v.value_type();
                        check!(a == (t == ValueType::Array) && d == (t == ValueType::Dict), "differs/typed-from_bytes", "Array::from_bytes {a}, Dict::from_bytes {d} of another kind of root");
                        must!("typed-clone", { let a = Array::clone_from_bytes(g); let d = Dict::clone_from_bytes(g); drop(a); drop(d); });
                    }
                    if which & 64 != 0 {
                        must!("state", { let s = SharedKeys::from_state_bytes(g); let n = s.as_ref().map_or(0, |s| s.iter().map(|(k, _)| k.len()).sum::<usize>()); drop(s); let s = SharedKeys::from_state_value(v); drop(s); n });
                    }
                    if which & 128 != 0 {
                        // through a scope, with and without its keys
                        let k = if which & 256 != 0 { f.keys.clone() } else { None };
                        let with = k.is_some();
                        let sc = must!("scope", Scope::new(g.to_vec(), k));
                        let root = must!("scope-root", sc.root());
                        let Some(root) = root else { violation!("differs/scope", "a scope refuses bytes from_bytes accepts") };
                        let data = must!("scope-data", sc.data()).expect("data");
                        let mut n = 20_000;
                        let r: Res = must!("walk-scope", walk(&root, &Bounds::of(&data), if with { kn } else { None }, &mut n, 0));
                        if let Err(e) = r { violation!("unsafe/walk-scope", "{e}"); }
                        must!("scope-mutable", { let a = MutableArray::from_scope(&sc); let d = MutableDict::from_scope(&sc); let mut n = 20_000; if let Some(a) = &a { walk_mut_arr(a, &mut n); } if let Some(d) = &d { walk_mut_dict(d, &mut n); } });
                        must!("drop", { drop(root); drop(data); });
                        if which & 512 != 0 { must!("scope-remove", sc.remove()); }
                        must!("drop", drop(sc));
                    }
                }
            }
            Err(e) => {
                count(if intact { "refused intact" } else { "refused damaged" });
                if intact { violation!("refused/from_bytes", "an undamaged document is refused: {e:?}; it holds {}", f.m.brief()); }
                must!("error-format", format!("{e:?} {e}"));
                // the other entry points refuse as well
                let a = must!("clone_from_bytes", Value::clone_from_bytes(g).is_ok());
                let s = if which & 8 != 0 { must!("serde-any", fleece::from_bytes::<De>(g).is_ok()) } else { false };
                let k = if which & 16 != 0 { must!("state", SharedKeys::from_state_bytes(g).is_some()) } else { false };
                let t = must!("typed-from_bytes", Array::from_bytes(g).is_ok() || Dict::from_bytes(g).is_ok() || Array::clone_from_bytes(g).is_ok() || Dict::clone_from_bytes(g).is_ok());
                check!(!a && !s && !k && !t, "differs/refused", "from_bytes refuses, another entry point accepts: clone_from_bytes {a}, serde {s}, key state {k}, typed {t}");
                if which & 128 != 0 {
                    let sc = must!("scope", Scope::new(g.to_vec(), None));
                    let r = must!("scope-root", sc.root().is_some());
                    check!(!r, "differs/scope", "a scope has a root in bytes from_bytes refuses");
                    must!("drop", drop(sc));
                }
            }
        }
        simrt::arena::guarded_free(g);
    }
    fn finish(&self) {}
}
