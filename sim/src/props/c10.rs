//! Many readers of the same documents, by every read path.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::serdem::De;
use crate::{agree_ctx, must, refdec, refenc};
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value, ValueType};
use simrt::run::{Knobs, Workload};
use simrt::{call, check, count, ev, pause_lib, trace, violation, Tape};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

enum Hold { Raw, Val(AllocedValue), Arr(AllocedArray), Dict(AllocedDict), Scope(Arc<Scope>, Arc<[u8]>) }
struct Doc { g: &'static [u8], m: M, hold: Hold, keys: Option<Vec<String>>, debug: Sh<Option<String>>, id: usize }
pub struct W { docs: Sh<Vec<&'static Doc>>, max: usize }
macro_rules! bad { ($($a:tt)*) => { return Err(pause_lib(|| format!($($a)*))) }; }

impl Doc {
    fn data(&self) -> &[u8] { match &self.hold { Hold::Scope(_, d) => d, _ => self.g } }
    /// The root, opened again or as held.
    fn open(&self, t: &mut Tape) -> &Value {
        let how = t.draw(4);
        match &self.hold {
            Hold::Val(v) if how < 2 => v,
            _ if how == 3 => { count("read: unchecked open"); must!("from_bytes_unchecked", unsafe { Value::from_bytes_unchecked(self.data()) }) }
            _ => match must!("from_bytes", Value::from_bytes(self.data())) { Ok(v) => v, Err(e) => violation!("refused/from_bytes", "document #{} is refused: {e:?}; {}", self.id, self.m.brief()) },
        }
    }
}
/// Documents of every size of collection, besides the generated ones.
fn sized(t: &mut Tape) -> M {
    let huge = t.chance(1, 10);
    let n = match t.draw(4) { _ if huge => t.pick(&[16382usize, 16383, 16384, 16385, 20_000, 32_767, 32_768, 65_535, 65_536]), 0 => t.usize(20), 1 => t.usize(80), 2 => t.pick(&[255usize, 256, 257, 500, 1023, 1024]), _ => t.pick(&[2045usize, 2046, 2047, 2048, 2049, 2050, 4094, 4095, 4096, 4097]) };
    let k = t.draw(4);
    let long = t.draw(3);
    let val = |i: usize| match (k, i % 4) { (0, _) => M::Int(i as i128), (1, 0) => M::Str(format!("value {i}")), (2, 1) => M::Arr(vec![M::Int(i as i128), M::Str("x".into())]), (3, 2) => M::F64(i as f64 + 0.1), (_, 3) => M::Dict([("i".to_string(), M::Int(i as i128))].into()), _ => M::Int(i as i128 * 1000) };
    if huge || t.chance(1, 3) { return M::Arr((0..n).map(val).collect()); }
    M::Dict((0..n).map(|i| (match long { 0 => format!("{i}"), 1 => format!("key {i:04} that is not shared"), _ => char::from_u32(0x21 + (i as u32 * 7) % 0x500).unwrap().to_string() + &"k".repeat(i % 17) }, val(i))).collect())
}
/// Some value inside, with its content, reached by a mix of paths.
fn descend<'v>(v: &'v Value, m: &'v M, t: &mut Tape) -> (&'v Value, &'v M) {
    let (mut v, mut m) = (v, m);
    for _ in 0..5 {
        if t.chance(1, 3) { break; }
        let (x, y) = match m {
            M::Arr(a) if !a.is_empty() => { let i = t.usize(a.len()); let how = t.draw(3); (must!("descend", v.as_array().and_then(|x| match how { 0 => x.get(i), 1 => x.iter().nth(i), _ => Some(&x[i]) })), &a[i]) }
            M::Dict(d) if !d.is_empty() => { let (k, y) = d.iter().nth(t.usize(d.len())).unwrap(); let how = t.draw(3); (must!("descend", v.as_dict().and_then(|x| match how { 0 => x.get(k.as_str()), 1 => x.iter().find(|p| p.0 == k).map(|p| p.1), _ => Some(&x[k.as_str()]) })), y) }
            _ => break,
        };
        let Some(x) = x else { violation!("missing/descend", "an element of {} cannot be read", m.brief()) };
        v = x;
        m = y;
    }
    (v, m)
}
/// The iterator protocol of an array: hints, fusing, skipping, two at once.
fn iterate(a: &Array, m: &[M], x: usize) -> Res {
    let mut it = a.iter();
    for (i, e) in m.iter().enumerate() {
        if it.size_hint() != (m.len() - i, Some(m.len() - i)) { bad!("size_hint {:?} with {} elements left", it.size_hint(), m.len() - i) }
        let Some(v) = it.next() else { bad!("iteration ended at {i} of {}", m.len()) };
        if !e.is_coll() { same_value(v, e, Sk::Auto).map_err(|e| pause_lib(|| format!("iter[{i}] {e}")))?; }
    }
    for _ in 0..3 { if it.next().is_some() { bad!("an element after the last of {}", m.len()) } if it.size_hint() != (0, Some(0)) { bad!("size_hint {:?} at the end", it.size_hint()) } }
    if a.into_iter().count() != m.len() || a.iter().len() != m.len() { bad!("count differs from {}", m.len()) }
    if a.iter().last().is_some() != !m.is_empty() { bad!("last") }
    if let (Some(v), Some(e)) = (a.iter().last(), m.last()) { if !e.is_coll() { same_value(v, e, Sk::Auto)?; } }
    let x = x % (m.len() + 2);
    for (k, (v, e)) in a.iter().skip(x).step_by(1 + x % 3).zip(m.iter().skip(x).step_by(1 + x % 3)).enumerate().take(50) { if !e.is_coll() { same_value(v, e, Sk::Auto).map_err(|e| pause_lib(|| format!("skip {x} step[{k}] {e}")))?; } }
    if a.iter().nth(x).is_some() != (x < m.len()) { bad!("nth({x}) of {}", m.len()) }
    // two iterators over the same array do not disturb each other
    let (mut p, mut q) = (a.iter(), a.iter());
    for i in 0..m.len().min(40) {
        let v = p.next();
        if i % 2 == 0 { let w = q.next(); if w.is_none() { bad!("a second iterator ended early") } let e = &m[i / 2]; if !e.is_coll() { same_value(w.unwrap_or(v.unwrap_or(&a[0])), e, Sk::Auto)?; } }
        let Some(v) = v else { bad!("one of two iterators ended early") };
        if !m[i].is_coll() { same_value(v, &m[i], Sk::Auto)?; }
    }
    Ok(())
}
fn pairs(d: &Dict, m: &BTreeMap<String, M>, x: usize) -> Res {
    let mut it = d.iter();
    let mut n = 0;
    loop {
        if it.size_hint() != (m.len() - n, Some(m.len() - n)) { bad!("size_hint {:?} with {} pairs left", it.size_hint(), m.len() - n) }
        let Some((k, v)) = it.next() else { break };
        if n == m.len() { bad!("more than {} pairs", m.len()) }
        n += 1;
        let Some(e) = m.get(k) else { bad!("iteration gave the key {k:?}") };
        if !e.is_coll() { same_value(v, e, Sk::Auto).map_err(|e| pause_lib(|| format!("iter[{k:?}] {e}")))?; }
    }
    if n != m.len() { bad!("iteration gave {n} pairs of {}", m.len()) }
    for _ in 0..2 { if it.next().is_some() { bad!("a pair after the last") } }
    if d.into_iter().count() != m.len() { bad!("count differs from {}", m.len()) }
    let x = x % (m.len() + 2);
    if d.iter().nth(x).is_some() != (x < m.len()) { bad!("nth({x}) of {}", m.len()) }
    if let (Some((k, v)), Some((l, w))) = (d.iter().nth(x), d.iter().skip(x).next()) { if k != l || !core::ptr::eq(v, w) { bad!("nth({x}) gives {k:?}, skip({x}) {l:?}") } }
    Ok(())
}
impl W {
    fn add(&self, t: &mut Tape) {
        let m = match t.weighted(&[4, 3, 1]) { 0 => gen::doc_any(t), 1 => sized(t),  _ => { let b = gen::doc(t, 500); M::Arr(vec![b.clone(), b]) } };
        let how = t.word();
        let kind = t.weighted(&[4, 5, 3, 2]);
        let mut keys = None;
        let mut scope = None;
        let b: Vec<u8> = match kind {
            0 => doc_bytes(&m, how),
            1 => refenc::encode(&m, how, None),
            k => {
                let mut sk = SharedKeys::new();
                if t.chance(1, 4) { for i in 0..t.usize(40) { must!("encode_and_insert", sk.encode_and_insert(&format!("k{i}"))); } }
                let sc = match must!("encode-sk", encode_sk(&m, sk, how)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") };
                let shared = sc.shared_keys().expect("keys").clone();
                let list: Vec<String> = must!("sk-iter", shared.iter().map(|(k, _)| pause_lib(|| k.to_string())).collect::<Vec<_>>()).into_iter().collect();
                let out = if k == 2 { scope = Some(sc); vec![] } else {
                    let map: HashMap<String, u16> = list.iter().enumerate().map(|(i, k)| (k.clone(), i as u16)).collect();
                    let b = refenc::encode(&m, how, Some(&map));
                    scope = Some(must!("scope-new", Scope::new(b, Some(shared))));
                    must!("drop", drop(sc));
                    vec![]
                };
                keys = Some(list);
                out
            }
        };
        // an odd address now and then: nothing in the format asks for an even one
        let g: &'static [u8] = if t.chance(1, 6) { let mut x = vec![0x99]; x.extend(&b); &simrt::guarded_copy(&x, true)[1..] } else { simrt::guarded_copy(&b, t.chance(1, 2)) };
        let hold = match scope {
            Some(s) => { let d = must!("scope-data", s.data()).expect("data"); Hold::Scope(s, d) }
            None => match t.draw(4) {
                0 => Hold::Raw,
                1 => match must!("clone_from_bytes", Value::clone_from_bytes(g)) { Ok(v) => Hold::Val(v), Err(e) => violation!("refused/clone_from_bytes", "{e:?} for {}", m.brief()) },
                2 => { count("read: unchecked clone"); Hold::Val(must!("clone_from_bytes_unchecked", unsafe { Value::clone_from_bytes_unchecked(g) })) }
                _ => match &m {
                    M::Arr(_) => match must!("array-clone_from_bytes", Array::clone_from_bytes(g)) { Ok(v) => Hold::Arr(v), Err(e) => violation!("refused/clone_from_bytes", "{e:?} for {}", m.brief()) },
                    _ => match must!("dict-clone_from_bytes", Dict::clone_from_bytes(g)) { Ok(v) => Hold::Dict(v), Err(e) => violation!("refused/clone_from_bytes", "{e:?} for {}", m.brief()) },
                },
            },
        };
        let v = self.docs.g();
        let id = v.len();
        trace!("document #{id} kind {kind}, {} bytes: {}", b.len(), m.brief());
        let d: &'static Doc = Box::leak(Box::new(Doc { g, m, hold, keys, debug: Sh::new(None), id }));
        self.docs.g().push(d);
        count("documents created");
    }
    fn read(&self, t: &mut Tape) {
        let v = self.docs.g();
        let d = v[t.usize(v.len())];
        let root = d.open(t);
        let path = t.weighted(&[5, 4, 4, 4, 4, 3, 3, 2, 3, 3, 3, 2, 3]);
        trace!("read #{} path {path}", d.id);
        ev(path as u64 * 16 + d.id as u64);
        count(["read: lookup, membership, iteration", "read: indexes", "read: keys and first entry", "read: iterator protocol", "read: mutable copy", "read: owned values", "read: typed open", "read: debug text", "read: serde", "read: copied into an encoder", "read: relocated copy", "read: reference decoder", "read: panicking index"][path]);
        let b = d.m.brief();
        match path {
            0 => agree_ctx!("read-deep", b, same_deep(root, &d.m, Sk::Auto)),
            1 => {
                let (v, m) = descend(root, &d.m, t);
                agree_ctx!("read-part", m.brief(), same_value(v, m, Sk::Auto));
                if let M::Arr(a) = m {
                    let n = a.len();
                    let ix = [0, n / 2, n.wrapping_sub(1), n, n + 1, 2 * n, n + 2048, n | 0x8000, n + 65536, usize::MAX / 4, usize::MAX / 2, usize::MAX - 1, usize::MAX, t.usize(n + 3)];
                    agree_ctx!("index", m.brief(), (|| { let arr = v.as_array().ok_or("no array")?; for i in ix { match (arr.get(i), a.get(i)) { (Some(x), Some(y)) => if !y.is_coll() { same_value(x, y, Sk::Auto)? }, (None, None) => {} (g, _) => bad!("get({i}) of an array of {n} gives {}", if g.is_some() { "a value" } else { "nothing" }) } } Ok(()) })());
                }
            }
            2 => {
                let (v, m) = descend(root, &d.m, t);
                if let M::Dict(x) = m {
                    let absent: Vec<String> = absent_keys(x).into_iter().chain((0..3).map(|_| gen::key(t)).filter(|k| !x.contains_key(k))).collect();
                    agree_ctx!("keys", m.brief(), (|| {
                        let y = v.as_dict().ok_or("no dict")?;
                        if y.len() != x.len() || y.is_empty() != x.is_empty() { bad!("length {} of {}", y.len(), x.len()) }
                        for (k, e) in x { if !y.contains_key(k) { bad!("contains_key({k:?}) is false") } let Some(w) = y.get(k) else { bad!("no value under {k:?}") }; if !e.is_coll() { same_value(w, e, Sk::Auto).map_err(|e| pause_lib(|| format!("[{k:?}] {e}")))?; } }
                        dict_extra(y, x, &absent, Sk::Auto, false)?;
                        match (y.first(), y.iter().next()) {
                            (None, None) => if !x.is_empty() { bad!("no first entry") },
                            (Some((k, v)), Some((l, w))) => {
                                let k = if k.value_type() == ValueType::Short { d.keys.as_ref().and_then(|s| s.get(k.to_unsigned_short() as usize)).map_or("", |s| s.as_str()) } else { k.to_str() };
                                if k != l || !core::ptr::eq(v, w) && !core::ptr::eq((v as *const Value).cast::<u8>(), (w as *const Value).cast::<u8>()) { bad!("first() gives {k:?}, iteration starts with {l:?}") }
                                let Some(e) = x.get(k) else { bad!("first() gives {k:?}, which was never written") };
                                if !e.is_coll() { same_value(v, e, Sk::Auto)?; }
                            }
                            (a, _) => bad!("first() gives {}", if a.is_some() { "an entry, iteration none" } else { "nothing, iteration an entry" }),
                        }
                        Ok(())
                    })());
                }
            }
            3 => {
                let (v, m) = descend(root, &d.m, t);
                let x = t.usize(5000);
                match m {
                    M::Arr(a) => agree_ctx!("array-iterator", m.brief(), iterate(v.as_array().ok_or("no array")?, a, x)),
                    M::Dict(e) => agree_ctx!("dict-iterator", m.brief(), pairs(v.as_dict().ok_or("no dict")?, e, x)),
                    _ => agree_ctx!("read-part", m.brief(), same_value(v, m, Sk::Auto)),
                }
            }
            4 => {
                let (v, m) = descend(root, &d.m, t);
                let how = t.draw(3);
                match (m, &d.hold) {
                    (M::Arr(a), Hold::Scope(s, _)) if how == 0 && matches!(d.m, M::Arr(_)) => { let M::Arr(all) = &d.m else { return }; let _ = a; let x = must!("from_scope", MutableArray::from_scope(s)); let Some(x) = x else { violation!("missing/from_scope", "no mutable copy of #{}", d.id) }; agree_ctx!("from_scope", b, same_mut_array(&x, all)); must!("drop", drop(x)); }
                    (M::Arr(a), _) => { let x = must!("array-to_mutable", match v.as_array() { Some(y) => if how == 1 { y.to_mutable() } else { MutableArray::clone_from(y) }, None => MutableArray::new() }); agree_ctx!("array-to_mutable", m.brief(), same_mut_array(&x, a)); must!("drop", drop(x)); }
                    (M::Dict(a), _) => { let x = must!("dict-to_mutable", match v.as_dict() { Some(y) => if how == 1 { y.to_mutable() } else { MutableDict::clone_from(y) }, None => MutableDict::new() }); agree_ctx!("dict-to_mutable", m.brief(), same_mut_dict(&x, a)); must!("drop", drop(x)); }
                    _ => {}
                }
            }
            5 => match &d.hold {
                Hold::Val(v) => {
                    let how = t.draw(3);
                    let (a, c) = must!("convert", (v.clone().to_array(), v.clone().to_dict()));
                    check!(a.is_some() == matches!(d.m, M::Arr(_)) && c.is_some() == matches!(d.m, M::Dict(_)), "convert/owned", "to_array {} to_dict {} of {b}", a.is_some(), c.is_some());
                    match (&a, &c, &d.m) { (Some(x), _, M::Arr(m)) => agree_ctx!("owned-array", b, same_array(x, m, Sk::Auto, how as usize)), (_, Some(x), M::Dict(m)) => agree_ctx!("owned-dict", b, same_dict(x, m, Sk::Auto, 0)), _ => {} }
                    must!("drop", { drop(a); drop(c); });
                }
                Hold::Arr(a) => { let c = must!("clone", a.clone()); if let M::Arr(m) = &d.m { agree_ctx!("owned-array", b, same_array(&c, m, Sk::Auto, 1)); } must!("drop", drop(c)); }
                Hold::Dict(a) => { let c = must!("clone", a.clone()); if let M::Dict(m) = &d.m { agree_ctx!("owned-dict", b, same_dict(&c, m, Sk::Auto, 1)); let ab = absent_keys(m); agree_ctx!("owned-dict", b, dict_extra(&c, m, &ab, Sk::Auto, true)); } must!("drop", drop(c)); }
                Hold::Scope(s, _) => { let r = must!("scope-root", s.root()); let Some(r) = r else { violation!("no-root/scope", "#{}", d.id) }; agree_ctx!("owned-root", b, same_value(&r, &d.m, Sk::Auto)); must!("drop", drop(r)); }
                Hold::Raw => agree_ctx!("read-again", b, same_value(root, &d.m, Sk::Auto)),
            },
            6 => {
                let x = d.data();
                let (a, c) = must!("typed-open", (Array::from_bytes(x).ok(), Dict::from_bytes(x).ok()));
                check!(a.is_some() == matches!(d.m, M::Arr(_)) && c.is_some() == matches!(d.m, M::Dict(_)), "open/typed", "Array::from_bytes {} Dict::from_bytes {} of {b}", a.is_some(), c.is_some());
                match (a, c, &d.m) { (Some(x), _, M::Arr(m)) => agree_ctx!("typed-array", b, same_array(x, m, Sk::Auto, 1)), (_, Some(x), M::Dict(m)) => agree_ctx!("typed-dict", b, same_dict(x, m, Sk::Auto, 0)), _ => {} }
            }
            7 => {
                if d.m.nodes() < 1500 {
                    let s = must!("debug", format!("{root:?}"));
                    let s = pause_lib(|| s.as_str().to_owned());
                    let now = d.debug.g();
                    match now { None => *now = Some(s), Some(o) => check!(*o == s, "differs/debug", "document #{} read {o} and now {s}", d.id) }
                }
            }
            8 => {
                let r = must!("serde", fleece::from_bytes::<De>(d.data()).map(|De(m)| m));
                match r { Ok(m) => { check!(m.same(&d.m), "content/serde", "{b} reads as {}", m.brief()); must!("drop", drop(m)); } Err(e) => violation!("refused/serde", "{e:?} for {b}") }
            }
            9 => {
                let (v, m) = descend(root, &d.m, t);
                let out = must!("write_fleece", { let mut e = Encoder::new(); e.begin_array(1).and_then(|()| e.write_fleece(v)).map(|()| e.finish()) });
                match out { Ok(o) => { let Ok(c) = must!("from_bytes", Value::from_bytes(&o)) else { violation!("refused/copy", "a copy of {} is refused", m.brief()) }; agree_ctx!("read-copy", m.brief(), same_value(c, &M::Arr(vec![m.clone()]), Sk::Auto)); must!("drop", drop(o)); } Err(e) => violation!("refused/write_fleece", "{e:?} for {}", m.brief()) }
            }
            10 => {
                if d.keys.is_none() {
                    let o = t.usize(5);
                    let mut x = vec![0x80u8; o];
                    x.extend(d.g);
                    let g = &simrt::guarded_copy(&x, true)[o..];
                    let Ok(v) = must!("from_bytes", Value::from_bytes(g)) else { violation!("refused/relocated", "a copy of {b} at another address is refused") };
                    agree_ctx!("read-relocated", b, same_deep(v, &d.m, Sk::Auto));
                    let c = must!("clone_from_bytes", Value::clone_from_bytes(g));
                    simrt::arena::guarded_free(unsafe { core::slice::from_raw_parts(g.as_ptr().sub(o), x.len()) });
                    let Ok(c) = c else { violation!("refused/relocated", "an owned copy of {b} is refused") };
                    agree_ctx!("read-owned-copy", b, same_value(&c, &d.m, Sk::Auto));
                    must!("drop", drop(c));
                } else if let Hold::Scope(s, x) = &d.hold {
                    let s2 = must!("scope-new", Scope::new(x.to_vec(), s.shared_keys().cloned()));
                    let Some(r) = must!("scope-root", s2.root()) else { violation!("no-root/scope", "a copy of #{} has no root", d.id) };
                    agree_ctx!("read-relocated", b, same_deep(&r, &d.m, Sk::Auto));
                    must!("drop", { drop(r); drop(s2); });
                }
            }
            11 => match refdec::decode(d.data(), d.keys.as_deref()) { Ok(m) => check!(m.same(&d.m), "content/reference", "the bytes of {b} now hold {}", m.brief()), Err(e) => violation!("content/reference", "the bytes of {b} became invalid: {e}") },
            _ => {
                let (v, m) = descend(root, &d.m, t);
                simrt::set_op("index-absent");
                let p = match m {
                    M::Arr(a) => { let i = a.len() + [0, 1, 7, usize::MAX / 2][t.usize(4)]; call(|| v.as_array().map(|x| { let _ = &x[i]; })).is_err() }
                    M::Dict(x) => { let k = absent_keys(x).into_iter().nth(t.usize(4)).unwrap_or_default(); x.contains_key(&k) || call(|| v.as_dict().map(|y| { let _ = &y[k.as_str()]; })).is_err() }
                    _ => true,
                };
                check!(p, "accepted/index-absent", "indexing past the content of {} did not panic", m.brief());
                count("fault: reader panics");
            }
        }
    }
    /// A dict with so many pairs that its count takes three bytes, looked at here and there.
    fn huge(&self, t: &mut Tape) {
        let n = t.pick(&[16_383usize, 16_384, 16_385, 20_000, 65_535, 65_536, 70_000]);
        let long = t.chance(1, 2);
        let m = M::Dict((0..n).map(|i| (if long { format!("key number {i:06}") } else { format!("{i:x}") }, M::Int(i as i128 % 2000))).collect());
        let b = refenc::encode(&m, t.word(), None);
        let g = simrt::guarded_copy(&b, false);
        let M::Dict(d) = &m else { return };
        let Ok(v) = must!("from_bytes", Value::from_bytes(g)) else { violation!("refused/from_bytes", "a dict of {n} pairs is refused") };
        let some: Vec<(&String, &M)> = (0..20).map(|i| d.iter().nth(match i { 0 => 0, 1 => n - 1, _ => t.usize(n) }).unwrap()).collect();
        agree_ctx!("huge", m.brief(), (|| {
            let x = v.as_dict().ok_or("no dict")?;
            if x.len() != n || x.iter().size_hint() != (n, Some(n)) { bad!("{} pairs of {n}", x.len()) }
            for (k, e) in &some { if !x.contains_key(k.as_str()) { bad!("contains_key({k:?}) is false") } let Some(w) = x.get(k.as_str()) else { bad!("no value under {k:?}") }; same_value(w, e, Sk::Auto)?; }
            for k in ["", "key number", "key number 0000000", "zzzzzzzzzzz", "-"] { if x.get(k).is_some() { bad!("a value under {k:?}") } }
            let (Some((a, b)), Some((k, w))) = (x.first(), x.iter().next()) else { bad!("no first entry") };
            if a.to_str() != k || !core::ptr::eq(b, w) { bad!("first() gives {:?}", a.to_str()) }
            for (j, (k, w)) in x.iter().enumerate() { if j % 97 == 0 || j + 3 > n { let Some(e) = d.get(k) else { bad!("iteration gave {k:?}") }; same_value(w, e, Sk::Auto)?; } }
            Ok(())
        })());
        simrt::arena::guarded_free(g);
        count("huge dicts");
    }
    /// One place in memory holds one document after another; what was copied from it stays as it was.
    fn reuse(&self, t: &mut Tape) {
        let docs: Vec<(M, Vec<u8>)> = (0..2 + t.usize(2)).map(|_| { let m = gen::doc(t, 200); let how = t.word(); let b = if t.chance(1, 2) { doc_bytes(&m, how) } else { refenc::encode(&m, how, None) }; (m, b) }).collect();
        let len = docs.iter().map(|d| d.1.len()).max().unwrap();
        let len = len + len % 2;
        let place = simrt::guarded_copy(&vec![0; len], false);
        let mut kept: Vec<(AllocedValue, usize)> = vec![];
        for round in 0..3 + t.usize(4) {
            let i = t.usize(docs.len());
            let (m, b) = &docs[i];
            if b.len() % 2 != 0 { continue; }
            place.fill(0);
            place[len - b.len()..].copy_from_slice(b);
            let Ok(v) = must!("from_bytes", Value::from_bytes(place)) else { violation!("refused/reused", "round {round}: {} is refused", m.brief()) };
            agree_ctx!("read-reused", m.brief(), same_value(v, m, Sk::Auto));
            match t.draw(3) {
                0 => kept.push((match must!("clone_from_bytes", Value::clone_from_bytes(place)) { Ok(v) => v, Err(e) => violation!("refused/reused", "round {round}: {e:?} for {}", m.brief()) }, i)),
                1 => kept.push((must!("clone_from_bytes_unchecked", unsafe { Value::clone_from_bytes_unchecked(place) }), i)),
                _ => {}
            }
            let r = must!("serde", fleece::from_bytes::<De>(place).map(|De(m)| m));
            match r { Ok(x) => { check!(x.same(m), "content/reused", "{} reads as {}", m.brief(), x.brief()); must!("drop", drop(x)); } Err(e) => violation!("refused/reused", "{e:?} for {}", m.brief()) }
            for (v, i) in &kept { agree_ctx!("read-kept", docs[*i].0.brief(), same_value(v, &docs[*i].0, Sk::Auto)); }
            if !kept.is_empty() && t.chance(1, 3) { let x = kept.swap_remove(t.usize(kept.len())); must!("drop", drop(x)); }
        }
        simrt::arena::guarded_free(place);
        for (v, i) in &kept { agree_ctx!("read-kept", docs[*i].0.brief(), same_value(v, &docs[*i].0, Sk::Auto)); }
        must!("drop", drop(kept));
        count("buffer used again");
    }
    /// Something else goes on next to the readers.
    fn noise(&self, t: &mut Tape) {
        let m = gen::doc(t, 300);
        match t.draw(3) {
            0 => { let b = must!("encode", encode(&m, 3)); must!("drop", drop(b)); }
            1 => { let s = must!("encode-sk", encode_sk(&m, SharedKeys::new(), 1)); if let Ok(s) = s { if t.chance(1, 2) { must!("remove", s.remove()); } must!("drop", drop(s)); } }
            _ => {
                // a scope over the same bytes as one of the documents, with or without keys, comes and goes
                let v = self.docs.g();
                let d = v[t.usize(v.len())];
                let s = must!("scope-new", Scope::new(d.data().to_vec(), if t.chance(1, 2) { Some(Arc::new(SharedKeys::new())) } else { None }));
                must!("drop", drop(s));
            }
        }
        count("other activity");
    }
}
impl Workload for W {
    const NAME: &'static str = "C10";
    fn knobs() -> Knobs { Knobs { edge_budget: 400_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[2, 4, 3, 1]);
        let ops = (0..n).map(|_| [4, 10, 20, 40][t.usize(4)]).collect();
        let w = W { docs: Sh::new(vec![]), max: 1 + t.usize(5) };
        w.add(t);
        (w, ops)
    }
    fn op(&self, _th: usize, t: &mut Tape) {
        let huge = t.chance(1, 60);
        match t.weighted(&[18, if self.docs.g().len() < self.max { 4 } else { 0 }, 4, 2, u64::from(huge)]) { 0 => self.read(t), 1 => self.add(t), 2 => self.noise(t), 3 => self.reuse(t), _ => self.huge(t) }
    }
    fn finish(&self) { let mut t = Tape::quiet(3); for _ in 0..3 { self.read(&mut t); } }
}
