//! Who keeps what alive: threads pass around every kind of handle to shared buffers.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::{agree_ctx, must, refenc};
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use simrt::run::{Knobs, Workload};
use simrt::{arena, check, count, ev, trace, violation, Tape};
use std::sync::Arc;

type Strs = Vec<(usize, usize, String)>;
enum H { Scope(Arc<Scope>), Data(Arc<[u8]>), Val(AllocedValue), Arr(AllocedArray), Dict(AllocedDict), Keys(Arc<SharedKeys>), Borrow(AllocedValue, Option<Arc<SharedKeys>>, Strs) }
impl H {
    fn name(&self) -> &'static str { match self { H::Scope(_) => "scope", H::Data(_) => "data", H::Val(_) => "value", H::Arr(_) => "array", H::Dict(_) => "dict", H::Keys(_) => "keys", H::Borrow(..) => "borrow" } }
    fn data(&self) -> bool { !matches!(self, H::Keys(_)) }
    fn keys(&self, b: &Buf) -> bool { b.keys.is_some() && matches!(self, H::Scope(_) | H::Keys(_) | H::Borrow(_, Some(_), _)) }
}
struct Buf { valid: bool, m: M, bytes: Vec<u8>, addr: usize, block: usize, refs: i64, held: i64, keys: Option<SharedKeys>, kblock: usize, krefs: i64, removed: bool }
struct St { bufs: Vec<Option<Box<Buf>>>, pool: Vec<(usize, H)>, busy: u32 }
pub struct W { st: Sh<St> }

fn block_of(a: usize) -> usize { arena::block_info(a).map_or(0, |b| b.id) }
/// Strings of the document, as a client would hold them: where they are and what they must read.
fn borrow_strings(v: &Value, m: &M, keys: bool, out: &mut Strs) {
    if out.len() > 40 { return; }
    let mut put = |s: &str, want: &str| { let (p, l) = (s.as_ptr() as usize, s.len()); let w = simrt::pause_lib(|| want.to_string()); simrt::pause_lib(|| out.push((p, l, w))); };
    match m {
        M::Str(s) => put(v.to_str(), s),
        M::Arr(a) => { if let Some(x) = v.as_array() { for (i, y) in a.iter().enumerate().take(8) { if let Some(e) = x.get(i) { borrow_strings(e, y, keys, out); } } } }
        M::Dict(d) => {
            if let Some(x) = v.as_dict() {
                for (k, e) in x { if let Some((k2, y)) = d.get_key_value(k) { if keys { let (p, l) = (k.as_ptr() as usize, k.len()); let w = simrt::pause_lib(|| k2.clone()); simrt::pause_lib(|| out.push((p, l, w))); } borrow_strings(e, y, keys, out); } }
            }
        }
        _ => {}
    }
}
impl W {
    fn buf(&self, i: usize) -> &mut Buf { self.st.g().bufs[i].as_mut().unwrap() }
    fn add(&self, i: usize, h: H) {
        let b = self.buf(i);
        if h.data() { b.refs += 1; b.held += 1; }
        if h.keys(b) { b.krefs += 1; }
        self.st.g().pool.push((i, h));
    }
    /// A handle is about to be dropped / has been dropped.
    fn release(&self, i: usize, h: H) {
        let b = self.buf(i);
        let (d, k) = (h.data(), h.keys(b));
        let op = match &h { H::Scope(_) => "drop-scope", H::Data(_) => "drop-data", H::Val(_) => "drop-value", H::Arr(_) => "drop-array", H::Dict(_) => "drop-dict", H::Keys(_) => "drop-keys", H::Borrow(..) => "drop-borrow" };
        trace!("{op} of #{i} (data refs {}, key refs {})", b.refs, b.krefs);
        // from here on a lookup may find another document at this address
        if d { b.held -= 1; }
        must!(op, drop(h));
        let st = self.st.g();
        let b = st.bufs[i].as_mut().unwrap();
        if d { b.refs -= 1; }
        if k { b.krefs -= 1; }
        if st.busy == 0 { self.check_released(i); }
    }
    fn check_released(&self, i: usize) {
        let b = self.buf(i);
        if b.refs == 0 && b.block != 0 {
            check!(!arena::block_live(b.block), "leak/data", "the last handle to document #{i} is gone, its {} bytes are not released", b.bytes.len());
            b.block = 0;
            count("buffers seen released after their last handle");
        }
        if b.keys.is_some() && b.krefs == 0 && b.refs_scope_none() && b.kblock != 0 {
            check!(!arena::block_live(b.kblock), "leak/keys", "the last handle to the shared keys of #{i} is gone, they are not released");
            b.kblock = 0;
        }
    }
    fn check_one(&self, i: usize, h: &H) {
        let b = self.buf(i);
        if h.data() {
            check!(arena::block_live(b.block), format!("freed/{}", h.name()), "a {} handle to document #{i} is held, its buffer was released", h.name());
            let now = unsafe { core::slice::from_raw_parts(b.addr as *const u8, b.bytes.len()) };
            check!(now == &b.bytes[..], format!("changed/{}", h.name()), "the bytes of document #{i} changed while a {} handle is held", h.name());
        }
        if h.keys(b) { check!(arena::block_live(b.kblock), format!("freed-keys/{}", h.name()), "a {} handle is held, the shared keys of #{i} were released", h.name()); }
        if !b.valid { return self.check_junk(i, h); }
        self.st.g().busy += 1;
        let keys = b.keys.clone();
        let sk = match &keys { Some(k) => Sk::Given(k), None => Sk::Auto };
        let (m, ctx) = (b.m.clone(), b.m.brief());
        match h {
            H::Scope(s) => {
                let r = must!("scope-root", s.root());
                let Some(r) = r else { violation!("no-root/scope", "the scope of document #{i} has no root") };
                agree_ctx!("read-scope", ctx, same_value(&r, &m, sk));
                must!("drop", drop(r));
                let d = must!("scope-data", s.data());
                check!(d.as_ref().is_some_and(|d| d.as_ptr() as usize == b.addr), "moved/scope", "the scope of document #{i} has its data elsewhere ({:?} of {})", d.as_ref().map(|d| (d.as_ptr() as usize).wrapping_sub(b.addr) as isize), b.bytes.len());
                must!("drop", drop(d));
                match &m {
                    M::Dict(d) => { let n = must!("mutable-from_scope", MutableDict::from_scope(s).map(|d| d.len())); check!(n == Some(d.len()), "content/mutable-from_scope", "{n:?} pairs of {}", d.len()); }
                    M::Arr(a) => { let n = must!("mutable-from_scope", MutableArray::from_scope(s).map(|d| d.len())); check!(n == Some(a.len()), "content/mutable-from_scope", "{n:?} elements of {}", a.len()); }
                    _ => {}
                }
            }
            H::Data(d) => {
                let v = must!("from_bytes", Value::from_bytes(d));
                let Ok(v) = v else { violation!("refused/data", "document #{i} is no longer accepted") };
                agree_ctx!("read-data", ctx, same_value(v, &m, sk));
            }
            H::Val(v) => agree_ctx!("read-value", ctx, same_value(v, &m, sk)),
            H::Arr(a) => if let M::Arr(x) = &m { agree_ctx!("read-array", ctx, same_array(a, x, sk, 0)); let c = must!("clone", a.clone()); must!("drop", drop(c)); },
            H::Dict(d) => if let M::Dict(x) = &m { agree_ctx!("read-dict", ctx, same_dict(d, x, sk, 0)); },
            H::Keys(k) => {
                let want: Vec<String> = keys.as_ref().unwrap().iter().map(|(k, _)| k.to_string()).collect();
                let ok = must!("keys-read", k.len() as usize == want.len() && want.iter().enumerate().all(|(i, w)| k.decode(i as u16) == Some(w) && k.encode(w) == Some(i as u16)));
                check!(ok, "changed/keys", "the shared keys of #{i} changed");
            }
            H::Borrow(v, _, strs) => {
                for (p, l, want) in strs {
                    check!(*l == 0 || arena::is_live(*p), "freed/borrow", "a borrowed string of document #{i} ({want:?}) points into released memory");
                    let s = unsafe { core::slice::from_raw_parts(*p as *const u8, *l) };
                    check!(s == want.as_bytes(), "changed/borrow", "the borrowed string {want:?} of document #{i} now reads {s:?}");
                }
                agree_ctx!("read-borrow", ctx, same_value(v, &m, sk));
            }
        }
        self.st.g().busy -= 1;
        count("handles checked");
    }
    /// A handle to data that need not be a document.
    fn check_junk(&self, i: usize, h: &H) {
        let b = self.buf(i);
        let (addr, len) = (b.addr, b.bytes.len());
        let nkeys = b.keys.as_ref().map(|k| k.len());
        self.st.g().busy += 1;
        match h {
            H::Scope(s) => {
                let r = must!("scope-root", s.root());
                if let Some(r) = &r { let p = r.value() as *const Value as *const u8 as usize; check!(p >= addr && p < addr + len.max(1), "moved/scope-root", "the root of #{i} is elsewhere"); }
                must!("drop", drop(r));
                let d = must!("scope-data", s.data());
                check!(d.as_ref().is_some_and(|d| d.as_ptr() as usize == addr && d.len() == len), "moved/scope", "the scope of #{i} has its data elsewhere");
                let (x, y) = must!("mutable-from_scope", (MutableDict::from_scope(s).is_some(), MutableArray::from_scope(s).is_some()));
                check!(!(x && y), "content/mutable-from_scope", "#{i} is both an array and a dict");
                must!("drop", drop(d));
            }
            H::Data(d) => { must!("from_bytes", { let _ = Value::from_bytes(d).is_ok(); }); let c = must!("clone_from_bytes", Value::clone_from_bytes(d)); must!("drop", drop(c)); }
            H::Keys(k) => { let n = must!("keys-read", k.len()); check!(Some(n) == nkeys, "changed/keys", "the shared keys of #{i} changed"); }
            _ => {}
        }
        self.st.g().busy -= 1;
        count("handles checked");
    }
    /// Things a client does that leave nothing behind, each time anew: nothing it allocated may stay.
    /// A dict is iterated while its scope goes: the iteration retains what it needs.
    fn mid_iteration(&self, t: &mut Tape) {
        let mut d = std::collections::BTreeMap::new();
        for _ in 0..2 + t.usize(6) { let k = gen::key(t); let v = gen::scalar(t, 40); d.insert(k, v); }
        let m = M::Dict(d.clone());
        let keyed = t.chance(3, 4);
        let (cut, end) = (t.usize(d.len()), t.draw(4));
        trace!("iterate {} (keys {keyed}), {} after {cut}", m.brief(), ["drop the scope", "remove the scope", "remove and drop the scope", "go on"][end as usize]);
        let how = t.word();
        let sc = if keyed { match must!("encode-sk", encode_sk(&m, SharedKeys::new(), how)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") } } else { let b = doc_bytes(&m, how); must!("scope-new", Scope::new(b, None)) };
        let root = must!("scope-root", sc.root());
        let other = must!("scope-root", sc.root());
        let (Some(root), Some(other)) = (root, other) else { violation!("no-root/scope", "the scope of {} has no root", m.brief()) };
        let copy = must!("clone_from_bytes", Value::clone_from_bytes(&sc.data().expect("data")));
        let same = must!("value-eq", (root == other, root == root.clone(), root.cmp(&other), copy.as_ref().map(|c| c == &root && root == *c)));
        check!(same.0 && same.1 && same.2.is_eq() && same.3.as_ref().is_ok_and(|x| !x), "equality/value", "owned values of one buffer compare {same:?}");
        must!("drop", { drop(other); drop(copy); });
        let Some(dict) = must!("to_dict", root.to_dict()) else { violation!("content/to_dict", "{} is no dict", m.brief()) };
        let mut it = must!("iter", dict.iter());
        let mut sc = Some(sc);
        let mut seen = 0;
        loop {
            if seen == cut {
                if end == 1 || end == 2 { let s = sc.as_ref().unwrap(); must!("remove", s.remove()); }
                if end == 0 || end == 2 { let s = sc.take(); must!("drop-scope", drop(s)); count("scopes gone in mid-iteration"); }
                if end < 3 && t.chance(1, 2) { let noise = gen::doc(t, 200); must!("noise", { let _ = encode(&noise, 1); }); }
            }
            let Some((k, v)) = must!("iter-next", it.next()) else { break };
            check!(k.is_empty() || arena::is_live(k.as_ptr() as usize), "freed/iteration", "a key of an iteration in progress points into released memory");
            let Some(w) = d.get(k) else { violation!("content/iteration", "the key {k:?}, which was never written, in {}", m.brief()) };
            agree_ctx!("read-value", m.brief(), same_value(v, w, Sk::Auto));
            seen += 1;
            if seen > d.len() { break; }
        }
        check!(seen == d.len(), "content/iteration", "an iteration (keys {keyed}, interrupted after {cut}) gave {seen} pairs of {}", d.len());
        must!("drop", drop(it)); must!("drop", { drop(dict); drop(sc); });
    }
    fn nothing_left(&self, t: &mut Tape) {
        let m = gen::doc(t, 300);
        let good = doc_bytes(&m, t.word());
        let mut bad = good.clone();
        bad.truncate(1 + t.usize(bad.len()));
        if t.chance(1, 3) { let k = t.usize(bad.len()); bad[k] ^= 1 << t.draw(8); }
        let what = t.draw(9);
        let name = ["refused-copy", "refused-array-copy", "refused-dict-copy", "wrong-conversion", "junk-scope", "abandoned-encoder", "reads", "mutable-copy", "serde"][what as usize];
        if what == 4 { bad.resize(bad.len() + 1500, 0xFF); }
        trace!("{name} three times: {}", m.brief());
        let mut kept = vec![];
        for _ in 0..3 {
            let mark = arena::mark();
            match what {
                0 => must!("clone_from_bytes", { let v = Value::clone_from_bytes(&bad); drop(v); }),
                1 => must!("array-clone_from_bytes", { let v = (fleece::Array::clone_from_bytes(&bad), fleece::Array::clone_from_bytes(&good)); drop(v); }),
                2 => must!("dict-clone_from_bytes", { let v = (fleece::Dict::clone_from_bytes(&bad), fleece::Dict::clone_from_bytes(&good)); drop(v); }),
                3 => must!("conversion", { if let Ok(v) = Value::clone_from_bytes(&good) { let a = v.clone().to_array(); let d = v.to_dict(); drop(a); drop(d); } }),
                4 => must!("scope-removed", { let s = Scope::new(bad.clone(), None); let r = s.root(); let r2 = s.root(); s.remove(); drop(r); drop(r2); drop(s); }),
                5 => must!("abandoned-encoder", { let mut e = Encoder::new(); let _ = e.begin_dict(); let _ = e.write_key("a rather long key, not inlined"); let _ = e.begin_array(9); let _ = e.write_value("a string that is no inline value"); drop(e); }),
                6 => must!("reads", if let Ok(v) = Value::from_bytes(&good) { let s = format!("{v:?}"); if let Some(d) = v.as_dict() { for (k, _) in d { let _ = d.contains_key(k); } } drop(s); }),
                7 => must!("mutable-copy", if let Ok(v) = Value::from_bytes(&good) { if let Some(d) = v.as_dict() { let a = d.to_mutable(); let b = a.clone(); drop(a); drop(b); } if let Some(d) = v.as_array() { let a = d.to_mutable(); let b = a.clone(); drop(a); drop(b); } }),
                _ => must!("serde", { let v = fleece::from_bytes::<crate::serdem::De>(&bad); drop(v); let v = fleece::from_bytes::<Vec<String>>(&good); drop(v); }),
            }
            // the map of scopes grows and splits its entries: only the data itself counts there
            kept.push(arena::kept_since(mark, if what == 4 { 1500 } else { 0 }));
        }
        // a cache would fill once
        check!(kept.iter().any(|n| *n == 0), format!("leak/{name}"), "every {name} leaves memory behind: {kept:?} blocks for {}", m.brief());
        count("operations seen to leave nothing behind");
    }
    fn create(&self, t: &mut Tape) {
        let st = self.st.g();
        let i = st.bufs.len();
        let mut m = { let b = [60, 200, 800][t.usize(3)]; gen::doc(t, b) };
        let mut kind = t.weighted(&[6, 6, 4, 4, 2, 2]);
        // a document that is nothing but its root's two bytes
        let tiny = t.chance(1, 8);
        if tiny {
            m = match t.draw(6) { 0 => M::Null, 1 => M::Bool(true), 2 => M::Int(i128::from(t.draw(4096)) - 2048), 3 => M::Str(["", "x"][t.usize(2)].into()), 4 => M::Arr(vec![]), _ => M::Dict(Default::default()) };
            if kind == 1 || kind >= 4 { kind = 0; }
            count("documents of two bytes");
        }
        let how = t.word();
        st.bufs.push(None);
        trace!("create #{i} kind {kind}: {}", m.brief());
        let mk = |addr: usize, bytes: Vec<u8>, keys: Option<SharedKeys>, kaddr: usize, m: M| Buf { valid: true, m, bytes, addr, block: block_of(addr), refs: 0, held: 0, keys, kblock: if kaddr != 0 { block_of(kaddr) } else { 0 }, krefs: 0, removed: false };
        let (h, b) = match kind {
            0 => {
                let v = if tiny { refenc::encode(&m, how, None) } else { doc_bytes(&m, how) };
                let s = if how & 1 == 0 { must!("scope-new", Scope::new(v.clone(), None)) } else { let a: Arc<[u8]> = must!("to-arc", Arc::from(&v[..])); must!("scope-new", Scope::new(a, None)) };
                let d = must!("scope-data", s.data()).expect("data");
                let b = mk(d.as_ptr() as usize, d.to_vec(), None, 0, m);
                must!("drop", drop(d));
                (H::Scope(s), b)
            }
            1 => {
                let s = match must!("encode-sk", encode_sk(&m, SharedKeys::new(), how)) { Ok(s) => s, Err(e) => violation!("refused/encode-sk", "{e:?}") };
                let d = must!("scope-data", s.data()).expect("data");
                let k = s.shared_keys().expect("keys");
                let b = mk(d.as_ptr() as usize, d.to_vec(), Some(k.as_ref().clone()), Arc::as_ptr(k) as usize, m);
                must!("drop", drop(d));
                (H::Scope(s), b)
            }
            5 => {
                // data which need not be a document
                let mut v: Vec<u8> = (0..1 + t.usize(300)).map(|_| t.draw(256) as u8).collect();
                if t.chance(1, 2) { v = doc_bytes(&m, how); v.truncate(1 + t.usize(v.len())); }
                let valid = must!("from_bytes", Value::from_bytes(&v).is_ok());
                let k = if how & 2 == 0 { None } else { let mut k = must!("new", SharedKeys::new()); must!("encode_and_insert", k.encode_and_insert("akey")); Some(must!("arc", Arc::new(k))) };
                let s = must!("scope-new", Scope::new(v, k.clone()));
                let d = must!("scope-data", s.data()).expect("data");
                let ka = k.as_ref().map_or(0, |k| Arc::as_ptr(k) as usize);
                let mut b = mk(d.as_ptr() as usize, d.to_vec(), k.as_ref().map(|k| k.as_ref().clone()), ka, m);
                b.valid = false;
                must!("drop", { drop(d); drop(k); });
                if valid { count("junk that is a document"); } else { count("fault: registered data that is no document"); }
                (H::Scope(s), b)
            }
            2 | 3 => {
                let v = if tiny { refenc::encode(&m, how, None) } else { doc_bytes(&m, how) };
                let a = match must!("clone_from_bytes", if kind == 2 { Value::clone_from_bytes(&v) } else { Ok(unsafe { Value::clone_from_bytes_unchecked(&v) }) }) { Ok(a) => a, Err(e) => violation!("refused/clone_from_bytes", "{e:?}") };
                // the buffer ends with the root pointer, right behind the value
                let p = a.value() as *const Value as *const u8 as usize;
                let bi = arena::block_info(p);
                let Some(bi) = bi else { violation!("freed/clone_from_bytes", "an owned value outside the heap") };
                let addr = find_at(bi.addr, bi.size, &v);
                let b = mk(addr, v, None, 0, m);
                (H::Val(a), b)
            }
            _ => {
                let a = match must!("finish_value", { let mut e = Encoder::new(); put(&mut e, &m, how).map(|()| e.finish_value()) }) { Ok(a) => a, Err(e) => violation!("refused/finish_value", "{e:?}") };
                let p = a.value() as *const Value as *const u8 as usize;
                let Some(bi) = arena::block_info(p) else { violation!("freed/finish_value", "an owned value outside the heap") };
                let whole = unsafe { core::slice::from_raw_parts(bi.addr as *const u8, bi.size) };
                // reference counts come first
                let b = mk(bi.addr + 16, whole[16.min(whole.len())..].to_vec(), None, 0, m);
                (H::Val(a), b)
            }
        };
        self.st.g().bufs[i] = Some(Box::new(b));
        self.add(i, h);
        count("documents created");
    }
}
/// Where in the block (behind its reference counts) the bytes are.
fn find_at(lo: usize, len: usize, want: &[u8]) -> usize {
    let all = unsafe { core::slice::from_raw_parts(lo as *const u8, len) };
    for off in [16usize, 8, 0, 24, 32] { if all.len() >= off + want.len() && &all[off..off + want.len()] == want { return lo + off; } }
    simrt::fail(3, "harness", "cannot find the document in its own buffer")
}
impl Buf { fn refs_scope_none(&self) -> bool { self.krefs == 0 } }
impl Workload for W {
    const NAME: &'static str = "C04";
    fn knobs() -> Knobs { Knobs { edge_budget: 100_000_000, call_budget: 50_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[2, 4, 3]);
        let ops = (0..n).map(|_| [5, 12, 30, 70][t.usize(4)]).collect();
        (W { st: Sh::new(St { bufs: vec![], pool: vec![], busy: 0 }) }, ops)
    }
    fn op(&self, _th: usize, t: &mut Tape) {
        let st = self.st.g();
        let what = if st.pool.is_empty() { 0 } else { t.weighted(&[3, 9, 6, 8, 2, 3, 1, 1, 1]) };
        ev(what as u64);
        if what == 0 { if st.pool.len() < 60 && st.bufs.len() < 80 { self.create(t); } return; }
        if what == 7 { return self.nothing_left(t); }
        if what == 8 { return self.mid_iteration(t); }
        if what == 5 {
            // find a scope by address, alive or long gone
            let k = t.usize(st.bufs.len());
            let Some(b) = &st.bufs[k] else { return };
            let a = b.addr + b.bytes.len() / 2;
            st.busy += 1;
            let s = must!("containing", Scope::containing(a as *const u8));
            if let Some(s) = s {
                let d = must!("scope-data", s.data()).expect("data");
                let (p, l) = (d.as_ptr() as usize, d.len());
                let st = self.st.g();
                // the newest document at this address
                let i = st.bufs.iter().enumerate().rev().find(|(_, b)| b.as_ref().is_some_and(|b| b.addr == p && b.bytes.len() == l && b.held > 0)).map(|x| x.0);
                must!("drop", drop(d));
                if let Some(i) = i { self.add(i, H::Scope(s)); } else { must!("drop", drop(s)); }
            }
            self.st.g().busy -= 1;
            return;
        }
        if what == 6 {
            let m = gen::doc(t, 300);
            must!("noise", { let _ = encode(&m, 1); });
            let e = must!("empty", (AllocedArray::empty(), AllocedDict::empty()));
            let ok = must!("empty", e.0.len() == 0 && e.0.get(0).is_none() && e.1.len() == 0 && e.1.get("a").is_none() && e.0.clone().iter().next().is_none());
            check!(ok, "content/empty", "an empty owned collection is not empty");
            must!("drop", drop(e));
            return;
        }
        let k = t.usize(st.pool.len());
        let (i, h) = st.pool.swap_remove(k);
        match what {
            1 => {
                // derive another handle
                let c = t.draw(8);
                trace!("derive {c} from a {} handle of #{i}", h.name());
                let mut borrowing = false;
                let new = match &h {
                    H::Scope(s) => match c {
                        0 => Some(H::Scope(must!("clone", s.clone()))),
                        1 | 2 => must!("scope-data", s.data()).map(H::Data),
                        3 | 4 | 5 => { let r = must!("scope-root", s.root()); if self.buf(i).valid { r.map(H::Val) } else { must!("drop", drop(r)); None } }
                        _ => s.shared_keys().map(|k| H::Keys(must!("clone", k.clone()))),
                    },
                    H::Data(d) => if c < 5 { Some(H::Data(must!("clone", d.clone()))) } else { None },
                    H::Val(v) => match c {
                        0 | 1 => Some(H::Val(must!("clone", v.clone()))),
                        2 | 3 => must!("to_array", v.clone().to_array()).map(H::Arr),
                        4 | 5 => must!("to_dict", v.clone().to_dict()).map(H::Dict),
                        _ => {
                            let keyed = self.buf(i).keys.is_some();
                            // the keys come from another handle than this one, and count only once they are in the pool
                            self.st.g().busy += 1;
                            borrowing = true;
                            // with shared keys the borrow is only good together with them
                            let held = if keyed { let p = &self.st.g().pool; p.iter().find_map(|(j, h)| match h { H::Keys(k) if *j == i => Some(k), _ => None }).cloned() } else { None };
                            let c = must!("clone", v.clone());
                            let m = self.buf(i).m.clone();
                            let mut s = vec![];
                            must!("borrow", borrow_strings(&c, &m, !keyed || held.is_some(), &mut s));
                            Some(H::Borrow(c, held, s))
                        }
                    },
                    H::Arr(a) => Some(H::Arr(must!("clone", a.clone()))),
                    H::Dict(d) => Some(H::Dict(must!("clone", d.clone()))),
                    H::Keys(k) => Some(H::Keys(must!("clone", k.clone()))),
                    H::Borrow(v, _, _) => Some(H::Val(must!("clone", v.clone()))),
                };
                let want = if !self.buf(i).valid { None } else { match (&h, c) { (H::Val(_), 2 | 3) => Some(matches!(self.buf(i).m, M::Arr(_))), (H::Val(_), 4 | 5) => Some(matches!(self.buf(i).m, M::Dict(_))), (H::Scope(_), 1..=5) => Some(true), _ => None } };
                if let Some(w) = want { check!(new.is_some() == w, "conversion/handle", "converting a {} handle of #{i} ({c}): {}", h.name(), new.is_some()); }
                if let Some(n) = new { self.add(i, n); }
                if borrowing { self.st.g().busy -= 1; }
                self.st.g().pool.push((i, h));
            }
            2 => { self.check_one(i, &h); self.st.g().pool.push((i, h)); }
            3 => self.release(i, h),
            _ => {
                if let H::Scope(s) = &h { trace!("remove #{i}"); self.buf(i).removed = true; must!("remove", s.remove()); count("scopes removed while held"); }
                self.st.g().pool.push((i, h));
            }
        }
    }
    fn finish(&self) {
        let mut t = Tape::quiet(self.st.g().bufs.len() as u64);
        // everything still held reads what it should, then goes in some order
        let n = self.st.g().pool.len();
        for k in 0..n { let (i, h) = self.st.g().pool.swap_remove(0); self.check_one(i, &h); self.st.g().pool.push((i, h)); let _ = k; }
        while !self.st.g().pool.is_empty() {
            let k = t.usize(self.st.g().pool.len());
            let (i, h) = self.st.g().pool.swap_remove(k);
            self.release(i, h);
        }
        for i in 0..self.st.g().bufs.len() { if self.st.g().bufs[i].is_some() { self.check_released(i); } }
    }
}
