//! Mutable collections against plain ones.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::{agree_ctx, must, refenc};
use fleece::alloced::AllocedValue;
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{MutableArray, MutableDict, Scope, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{call, check, count, ev, trace, violation, Tape};
use std::collections::BTreeMap;
use std::sync::Arc;

enum C { A(MutableArray), D(MutableDict) }
struct Item { c: C, m: M, id: usize }
enum SrcH { Scope(Arc<Scope>), Val(AllocedValue) }
struct Src { h: SrcH, m: Arc<M>, bytes: Vec<u8>, at: usize }
struct St { items: Vec<Item>, srcs: Vec<Src>, next: usize }
pub struct W { st: Sh<St> }

macro_rules! with_scalar {
    ($m:expr, $ty:expr, $x:ident => $e:expr) => {
        match $m {
            M::Null => { let $x = NullValue; $e }
            M::Undef => { let $x = UndefinedValue; $e }
            M::Bool(b) => { let $x = *b; $e }
            M::Int(i) => {
                if let (Ok(v), 0) = (u8::try_from(*i), $ty) { let $x = v; $e }
                else if let (Ok(v), 1) = (i16::try_from(*i), $ty) { let $x = v; $e }
                else if let (Ok(v), 2) = (u32::try_from(*i), $ty) { let $x = v; $e }
                else if let (Ok(v), 3) = (i32::try_from(*i), $ty) { let $x = v; $e }
                else if let (Ok(v), 4) = (u64::try_from(*i), $ty) { let $x = v; $e }
                else if let Ok(v) = i64::try_from(*i) { let $x = v; $e }
                else { let $x = u64::try_from(*i).unwrap(); $e }
            }
            M::F32(f) => { let $x = *f; $e }
            M::F64(f) => { let $x = *f; $e }
            M::Str(s) => { let $x = s.as_str(); $e }
            M::Data(d) => { let $x = d.as_slice(); $e }
            _ => unreachable!(),
        }
    };
}
enum R<'a> { A(&'a mut MutableArray, &'a mut Vec<M>), D(&'a mut MutableDict, &'a mut BTreeMap<String, M>) }
fn view<'a>(c: &'a mut C, m: &'a mut M) -> R<'a> {
    match (c, m) { (C::A(a), M::Arr(v)) => R::A(a, v), (C::D(d), M::Dict(v)) => R::D(d, v), _ => unreachable!() }
}
/// A position; the ends are more interesting than the middle.
fn pos(t: &mut Tape, n: usize) -> usize { match t.weighted(&[3, 2, 1]) { 0 => t.usize(n), 1 => n - 1 - t.usize(n.min(4)), _ => t.usize(n.min(4)) } }
fn compare(it: &Item) {
    let b = it.m.brief();
    match (&it.c, &it.m) {
        (C::A(a), M::Arr(v)) => agree_ctx!("compare", b, same_mut_array(a, v)),
        (C::D(d), M::Dict(v)) => agree_ctx!("compare", b, same_mut_dict(d, v)),
        _ => unreachable!(),
    }
    count("collections compared");
}
impl Src {
    fn value(&self) -> AllocedValue {
        match &self.h { SrcH::Scope(s) => match must!("scope-root", s.root()) { Some(r) => r, None => violation!("no-root/scope", "a source has no root") }, SrcH::Val(v) => must!("clone", v.clone()) }
    }
    fn check(&self) {
        let now = unsafe { core::slice::from_raw_parts(self.at as *const u8, self.bytes.len()) };
        check!(now == &self.bytes[..], "changed/source", "the bytes of a source document changed; it holds {}", self.m.brief());
        let v = self.value();
        agree_ctx!("read-source", self.m.brief(), same_value(&v, &self.m, Sk::Auto));
        must!("drop", drop(v));
    }
    fn release(self) { match self.h { SrcH::Scope(s) => must!("drop", drop(s)), SrcH::Val(v) => must!("drop", drop(v)) } }
}
/// Some value inside a document with its content.
fn somewhere<'v>(v: &'v Value, m: &M, t: &mut Tape) -> (&'v Value, M) {
    let (mut v, mut m) = (v, m.clone());
    for _ in 0..4 {
        if !t.chance(2, 3) { break; }
        let next = match &m {
            M::Arr(a) if !a.is_empty() => { let i = t.usize(a.len()); must!("get", v.as_array().and_then(|x| x.get(i))).map(|x| (x, a[i].clone())) }
            M::Dict(d) if !d.is_empty() => { let i = t.usize(d.len()); let (k, y) = d.iter().nth(i).unwrap(); must!("get", v.as_dict().and_then(|x| x.get(k.as_str()))).map(|x| (x, y.clone())) }
            _ => break,
        };
        match next { Some((x, y)) => { v = x; m = y; } None => violation!("missing/source", "an element of {} cannot be read", m.brief()) }
    }
    (v, m)
}
impl W {
    fn make_src(&self, t: &mut Tape) -> Src {
        let m = { let b = [80, 300, 2000, 60_000][t.weighted(&[20, 20, 5, 1])]; gen::doc(t, b) };
        let how = t.word();
        let kind = t.draw(4);
        let h = match kind {
            0 => { let b = doc_bytes(&m, how); SrcH::Scope(must!("scope-new", Scope::new(b, None))) }
            1 => match must!("encode-sk", encode_sk(&m, SharedKeys::new(), how)) { Ok(s) => SrcH::Scope(s), Err(e) => violation!("refused/encode-sk", "{e:?}") },
            2 => { let b = doc_bytes(&m, how); match must!("clone_from_bytes", Value::clone_from_bytes(&b)) { Ok(v) => SrcH::Val(v), Err(e) => violation!("refused/clone_from_bytes", "{e:?}") } }
            _ => { let b = refenc::encode(&m, how, None); match must!("clone_from_bytes", Value::clone_from_bytes(&b)) { Ok(v) => SrcH::Val(v), Err(e) => violation!("refused/clone_from_bytes", "{e:?}") } }
        };
        // the whole block around the root, as it is now
        let s = Src { h, m: Arc::new(m), bytes: vec![], at: 0 };
        let v = s.value();
        let p = v.value() as *const Value as *const u8 as usize;
        let Some(b) = simrt::block_info(p) else { violation!("freed/source", "a source outside the heap") };
        must!("drop", drop(v));
        // behind the reference counts
        let (at, len) = (b.addr + 16, b.size - 16);
        let bytes = unsafe { core::slice::from_raw_parts(at as *const u8, len) }.to_vec();
        Src { bytes, at, ..s }
    }
    fn take_src(&self, t: &mut Tape) -> Src {
        let st = self.st.g();
        if st.srcs.is_empty() || (st.srcs.len() < 6 && t.chance(1, 3)) { let s = self.make_src(t); s } else { let k = t.usize(st.srcs.len()); st.srcs.swap_remove(k) }
    }
    fn new_item(&self, t: &mut Tape) -> Item {
        let st = self.st.g();
        st.next += 1;
        let id = st.next;
        let kind = t.draw(4);
        if kind == 0 { return Item { c: C::A(must!("new", MutableArray::new())), m: M::Arr(vec![]), id }; }
        if kind == 1 {
            let d = if t.chance(1, 2) { must!("new", MutableDict::new()) } else {
                must!("new", { let mut k = SharedKeys::new(); for x in ["name", "age", "k1", "sixteen_chars_aa", "a"] { k.encode_and_insert(x); } MutableDict::new_with_shared_keys(Arc::new(k)) })
            };
            return Item { c: C::D(d), m: M::Dict(BTreeMap::new()), id };
        }
        let s = self.take_src(t);
        let way = t.draw(4);
        let v = s.value();
        let m = (*s.m).clone();
        let c = match (&m, way) {
            (M::Arr(_), 0) => must!("from", v.to_array().map(MutableArray::from)).map(C::A),
            (M::Arr(_), 1) => { let r = must!("to_mutable", v.as_array().map(|a| a.to_mutable())).map(C::A); must!("drop", drop(v)); r }
            (M::Arr(_), 2) => { must!("drop", drop(v)); if let SrcH::Scope(s) = &s.h { must!("from_scope", MutableArray::from_scope(s)).map(C::A) } else { let v = s.value(); let r = must!("from-ref", v.as_array().map(MutableArray::from)).map(C::A); must!("drop", drop(v)); r } }
            (M::Arr(_), _) => { let r = must!("clone_from", v.as_array().map(MutableArray::clone_from)).map(C::A); must!("drop", drop(v)); r }
            (_, 0) => must!("from", v.to_dict().map(MutableDict::from)).map(C::D),
            (_, 1) => { let r = must!("to_mutable", v.as_dict().map(|a| a.to_mutable())).map(C::D); must!("drop", drop(v)); r }
            (_, 2) => { must!("drop", drop(v)); if let SrcH::Scope(s) = &s.h { must!("from_scope", MutableDict::from_scope(s)).map(C::D) } else { let v = s.value(); let r = must!("clone_from", v.as_dict().map(MutableDict::clone_from)).map(C::D); must!("drop", drop(v)); r } }
            (_, _) => { let r = must!("clone_from", v.as_dict().map(MutableDict::clone_from)).map(C::D); must!("drop", drop(v)); r }
        };
        let Some(c) = c else { violation!("none/copy", "no mutable copy of {}", m.brief()) };
        count("mutable copies made");
        // the source may go at once
        if t.chance(1, 3) { if let (SrcH::Scope(sc), true) = (&s.h, t.chance(1, 2)) { must!("remove", sc.remove()); } s.release(); count("fault: source dropped right after the copy"); } else { self.st.g().srcs.push(s); }
        Item { c, m, id }
    }
    /// Some collection to put inside another one.
    fn nested(&self, t: &mut Tape) -> (C, M) {
        let st = self.st.g();
        if !st.items.is_empty() && t.chance(1, 2) {
            let k = t.usize(st.items.len());
            let it = st.items.swap_remove(k);
            let keep = t.chance(2, 3) && it.m.nodes() < 80;
            if !keep { return (it.c, it.m); }
            let c = match &it.c { C::A(a) => C::A(must!("clone", a.clone())), C::D(d) => C::D(must!("clone", d.clone())) };
            let m = it.m.clone();
            self.st.g().items.push(it);
            return (c, m);
        }
        let it = self.new_item(t);
        (it.c, it.m)
    }
    fn edit(&self, it: &mut Item, t: &mut Tape) {
        let mut r = view(&mut it.c, &mut it.m);
        let mut path = String::new();
        // go down to some nested collection
        loop {
            if !t.chance(1, 2) { break; }
            r = match r {
                R::A(a, v) => {
                    let kids: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_coll()).collect();
                    if kids.is_empty() { r = R::A(a, v); break; }
                    let i = kids[t.usize(kids.len())];
                    path += &format!("[{i}]");
                    match &mut v[i] {
                        M::Arr(x) => match must!("get_array_mut", a.get_array_mut(i)) { Some(y) => R::A(y, x), None => violation!("missing/get_array_mut", "no array at {path}") },
                        M::Dict(x) => match must!("get_dict_mut", a.get_dict_mut(i)) { Some(y) => R::D(y, x), None => violation!("missing/get_dict_mut", "no dict at {path}") },
                        _ => unreachable!(),
                    }
                }
                R::D(d, v) => {
                    let kids: Vec<String> = v.iter().filter(|(_, x)| x.is_coll()).map(|(k, _)| k.clone()).collect();
                    if kids.is_empty() { r = R::D(d, v); break; }
                    let k = kids[t.usize(kids.len())].clone();
                    path += &format!("[{k:?}]");
                    match v.get_mut(&k).unwrap() {
                        M::Arr(x) => match must!("get_array_mut", d.get_array_mut(&k)) { Some(y) => R::A(y, x), None => violation!("missing/get_array_mut", "no array at {path}") },
                        M::Dict(x) => match must!("get_dict_mut", d.get_dict_mut(&k)) { Some(y) => R::D(y, x), None => violation!("missing/get_dict_mut", "no dict at {path}") },
                        _ => unreachable!(),
                    }
                }
            };
            if path.len() > 200 { break; }
        }
        let id = it.id;
        match r {
            R::A(a, v) => {
                let op = if v.is_empty() { [0, 1, 2, 3, 10][t.weighted(&[16, 8, 4, 4, 1])] } else { t.weighted(&[16, 8, 4, 4, 16, 8, 8, 8, 16, 4, 2]) };
                trace!("#{id}{path} array op {op} (len {})", v.len());
                ev(op as u64);
                let far = |t: &mut Tape, n: usize| n + [0usize, 1, 5, usize::MAX / 2][t.usize(4)];
                match op {
                    0 => { let s = gen::scalar_or_long(t); let ty = t.draw(6); with_scalar!(&s, ty, x => must!("push", a.push(&x))); v.push(s); }
                    1 => {
                        // straight out of a document
                        let src = self.take_src(t);
                        let val = src.value();
                        let (x, m) = somewhere(&val, &src.m, t);
                        let at = if v.is_empty() || t.chance(1, 2) { None } else { Some(pos(t, v.len())) };
                        match at { None => { must!("push_fleece", a.push_fleece(x)); v.push(m); } Some(i) => { must!("set_fleece", a.set_fleece(i, x)); v[i] = m; } }
                        must!("drop", drop(val));
                        if t.chance(1, 4) { src.release(); count("fault: source dropped right after the copy"); } else { self.st.g().srcs.push(src); }
                    }
                    2 => {
                        // an edit that must panic and change nothing
                        let i = far(t, v.len());
                        let s = gen::scalar(t, 60);
                        count("fault: edit that panics");
                        simrt::set_op("set-out-of-range");
                        let p = match t.draw(6) {
                            0 | 1 => with_scalar!(&s, 9, x => call(|| a.set(i, x)).is_err()),
                            2 => { let (c, _) = self.nested(t); match c { C::A(n) => call(|| a.set_array(i, n)).is_err(), C::D(n) => call(|| a.set_dict(i, n)).is_err() } }
                            3 | 4 => {
                                let src = self.take_src(t);
                                let val = src.value();
                                let (x, _) = somewhere(&val, &src.m, t);
                                simrt::set_op("set-out-of-range");
                                let p = call(|| a.set_fleece(i, x)).is_err();
                                must!("drop", drop(val));
                                self.st.g().srcs.push(src);
                                p
                            }
                            _ => call(|| { let _ = &a[i]; }).is_err(),
                        };
                        check!(p, "accepted/set-out-of-range", "setting index {i} of {} did not panic", v.len());
                    }
                    3 => { let i = far(t, v.len()); must!("remove-absent", a.remove(i)); }
                    4 => { let i = pos(t, v.len()); let s = gen::scalar_or_long(t); let ty = t.draw(6); with_scalar!(&s, ty, x => must!("set", a.set(i, x))); v[i] = s; }
                    5 => { let i = pos(t, v.len()); let (c, m) = self.nested(t); match c { C::A(n) => must!("set_array", a.set_array(i, n)), C::D(n) => must!("set_dict", a.set_dict(i, n)) } v[i] = m; }
                    6 => {
                        // from its own content
                        let i = t.usize(v.len());
                        if !v[i].is_coll() {
                            let own = must!("get", a.get(i).map(|x| x.value_type()));
                            check!(own.is_some(), "missing/get", "no value at {i}");
                            let c = must!("clone", a.clone());
                            must!("push_fleece", if let Some(x) = c.get(i) { a.push_fleece(x); });
                            must!("drop", drop(c));
                            let m = v[i].clone();
                            v.push(m);
                        }
                    }
                    7 => {
                        let i = t.usize(v.len());
                        let src = self.take_src(t);
                        let val = src.value();
                        match &*src.m { M::Arr(_) => must!("set_array-from", if let Some(x) = val.as_array() { a.set_array(i, x) }), _ => must!("set_dict-from", if let Some(x) = val.as_dict() { a.set_dict(i, x.to_mutable()) }) }
                        v[i] = (*src.m).clone();
                        must!("drop", drop(val));
                        self.st.g().srcs.push(src);
                    }
                    8 => { let i = pos(t, v.len()); must!("remove", a.remove(i)); v.remove(i); }
                    9 => { let from_end = t.chance(1, 2); while v.len() > 1 { let i = if from_end { v.len() - 1 } else { 0 }; must!("remove", a.remove(i)); v.remove(i); } }
                    // becomes a large one
                    _ => { let to = 33 + t.usize(120); while v.len() < to { let s = M::Int(gen::int(t)); with_scalar!(&s, 9, x => must!("push", a.push(&x))); v.push(s); } count("arrays grown large"); }
                }
            }
            R::D(d, v) => {
                let op = t.weighted(&[24, 16, 12, 12, 8, 4, 2]);
                trace!("#{id}{path} dict op {op} (len {})", v.len());
                ev(20 + op as u64);
                let pick = |t: &mut Tape, v: &BTreeMap<String, M>| if v.is_empty() || t.chance(1, 3) { gen::key(t) } else { let i = t.usize(v.len()); v.keys().nth(i).unwrap().clone() };
                match op {
                    0 => { let k = gen::key(t); let s = gen::scalar_or_long(t); let ty = t.draw(6); with_scalar!(&s, ty, x => must!("insert", d.insert(&k, x))); v.insert(k, s); }
                    1 => { let k = pick(t, v); let s = gen::scalar(t, 100); let ty = t.draw(6); with_scalar!(&s, ty, x => must!("insert", d.insert(&k, x))); v.insert(k, s); }
                    2 => { let k = pick(t, v); let (c, m) = self.nested(t); match c { C::A(n) => must!("insert_array", d.insert_array(&k, n)), C::D(n) => must!("insert_dict", d.insert_dict(&k, n)) } v.insert(k, m); }
                    3 => { let k = pick(t, v); must!("remove", d.remove(&k)); v.remove(&k); }
                    4 => {
                        let k = pick(t, v);
                        let src = self.take_src(t);
                        let val = src.value();
                        match &*src.m { M::Arr(_) => must!("insert_array-from", if let Some(x) = val.as_array() { d.insert_array(&k, x) }), _ => { let v2 = must!("clone", val.clone()); must!("insert_dict-from", if let Some(x) = v2.to_dict() { d.insert_dict(&k, x) }) } }
                        v.insert(k, (*src.m).clone());
                        must!("drop", drop(val));
                        self.st.g().srcs.push(src);
                    }
                    6 => { let (a, n) = (t.usize(1000), 20 + t.usize(80)); for i in 0..n { let k = if i % 7 == 0 { format!("a longer key of number {}", i + a) } else { format!("n{}", (i * 37 + a) % 1000) }; let i = i as i64; must!("insert", d.insert(&k, i)); v.insert(k, M::Int(i.into())); } count("dicts grown large"); }
                    _ => {
                        let k = absent_keys(v).into_iter().nth(t.usize(6)).unwrap_or_default();
                        if v.contains_key(&k) { return; }
                        count("fault: edit that panics");
                        simrt::set_op("index-absent");
                        check!(call(|| { let _ = &d[&k]; }).is_err(), "accepted/index-absent", "indexing with the absent key {k:?} did not panic");
                    }
                }
            }
        }
    }
}
impl Workload for W {
    const NAME: &'static str = "C08";
    fn knobs() -> Knobs { Knobs { edge_budget: 200_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[3, 4, 3]);
        let ops = (0..n).map(|_| [6, 15, 40, 80][t.usize(4)]).collect();
        (W { st: Sh::new(St { items: vec![], srcs: vec![], next: 0 }) }, ops)
    }
    fn op(&self, _th: usize, t: &mut Tape) {
        let st = self.st.g();
        let n = st.items.len();
        match t.weighted(&[if n < 8 { 3 } else { 0 }, if n > 0 { 14 } else { 0 }, if n > 0 && n < 12 { 2 } else { 0 }, if n > 2 { 1 } else { 0 }, 1, if st.srcs.is_empty() { 0 } else { 1 }]) {
            0 => { let it = self.new_item(t); compare(&it); self.st.g().items.push(it); }
            1 => {
                let k = t.usize(n);
                let mut it = st.items.swap_remove(k);
                for _ in 0..1 + t.usize(4) { if it.m.nodes() < 500 { self.edit(&mut it, t); } }
                compare(&it);
                ev(it.m.nodes() as u64);
                self.st.g().items.push(it);
            }
            2 => {
                let k = t.usize(n);
                let it = st.items.swap_remove(k);
                let c = match &it.c { C::A(a) => C::A(must!("clone", a.clone())), C::D(d) => C::D(must!("clone", d.clone())) };
                let st = self.st.g();
                st.next += 1;
                let new = Item { c, m: it.m.clone(), id: st.next };
                trace!("clone #{} to #{}", it.id, new.id);
                compare(&new);
                if t.chance(1, 3) { match it.c { C::A(a) => must!("drop", drop(a)), C::D(d) => must!("drop", drop(d)) } compare(&new); } else { self.st.g().items.push(it); }
                self.st.g().items.push(new);
                count("collections cloned");
            }
            3 => { let k = t.usize(n); let it = st.items.swap_remove(k); match it.c { C::A(a) => must!("drop", drop(a)), C::D(d) => must!("drop", drop(d)) } }
            4 => {
                let k = t.usize(n.max(1));
                if n == 0 { return; }
                let it = st.items.swap_remove(k);
                let s = must!("debug", match &it.c { C::A(a) => format!("{:?}", a.len()).len(), C::D(a) => format!("{:?}", a.len()).len() });
                check!(s > 0, "debug/mutable", "");
                compare(&it);
                self.st.g().items.push(it);
            }
            _ => {
                let k = t.usize(st.srcs.len());
                let s = st.srcs.swap_remove(k);
                s.check();
                if t.chance(1, 2) { if let (SrcH::Scope(sc), true) = (&s.h, t.chance(1, 2)) { must!("remove", sc.remove()); } s.release(); count("fault: source dropped while copies live"); } else { self.st.g().srcs.push(s); }
            }
        }
    }
    fn finish(&self) {
        let st = self.st.g();
        for s in &st.srcs { s.check(); }
        for s in st.srcs.drain(..) { s.release(); }
        for it in &st.items { compare(it); }
        for it in st.items.drain(..) { match it.c { C::A(a) => must!("drop", drop(a)), C::D(d) => must!("drop", drop(d)) } }
    }
}
