//! The scope registry as a concurrent object.
//!
//! Every call is recorded with its invocation and response times. Per scope the history must be
//! explainable by one instant at which it became findable (inside the creating call) and one at which
//! it stopped being findable (inside the first removal, or when the last handle went).
use crate::kit::*;
use crate::must;
use fleece::{Encoder, Scope, SharedKeys};
use simrt::run::{Knobs, Workload};
use simrt::{check, count, ev, trace, violation, Tape};
use std::sync::Arc;

const INF: u64 = u64::MAX;
struct Rec { lo: usize, hi: usize, cb: u64, ce: u64, removes: Vec<(u64, u64)>, drops: Vec<(u64, u64)>, open: usize, keyed: bool, group: usize }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Got { Scope(usize), Nothing, NoKeys }
struct Look { a: u64, b: u64, addr: usize, got: Got, by: &'static str }
struct Handle { s: Arc<Scope>, id: usize }
struct St { clock: u64, recs: Vec<Rec>, looks: Vec<Look>, handles: Vec<Handle>, datas: Vec<(usize, Arc<[u8]>)>, inflight: Vec<(u64, usize)> }
pub struct W { st: Sh<St>, w: [u64; 8], storm: bool }

impl W {
    fn tick(&self) -> u64 { let s = self.st.g(); s.clock += 1; s.clock }
    /// Which scope is this? Call outside `lib`.
    fn identify(&self, s: &Scope) -> usize {
        if let Some(k) = s.shared_keys() {
            let n = must!("sk-decode", k.decode(0).map(|k| k.trim_start_matches("scope").parse::<usize>().ok()));
            let Some(Some(n)) = n else { violation!("foreign/keys", "a scope with unknown shared keys") };
            return n;
        }
        let Some(d) = must!("scope-data", s.data()) else { violation!("no-data/scope", "a held scope has no data") };
        if d.len() < 8 { violation!("foreign/data", "a scope with {} bytes of unknown data", d.len()) }
        let n = u64::from_le_bytes(d[..8].try_into().unwrap()) as usize;
        must!("drop", drop(d));
        n
    }
    fn check_range(&self, s: &Scope, id: usize, addr: usize, what: &str) {
        let recs = &self.st.g().recs;
        check!(id < recs.len(), format!("foreign/{what}"), "the scope found is none that was created ({id})");
        let d = must!("scope-data", s.data());
        let Some(d) = d else { violation!(format!("no-data/{what}"), "the scope found has no data") };
        let (lo, hi) = (d.as_ptr() as usize, d.as_ptr() as usize + d.len());
        check!(lo <= addr && addr < hi, format!("not-containing/{what}"), "scope {id} was found for an address outside its data");
        let (rlo, rhi, group) = { let r = &recs[id]; (r.lo, r.hi, r.group) };
        if rhi != 0 { check!(rlo == lo && rhi == hi, format!("moved/{what}"), "scope {id} now has other data"); }
        let rg = must!("scope-range", s.range());
        check!(rg == Some(lo..hi), format!("range/{what}"), "range() differs from the data");
        // the content is still what was put there
        let g = group;
        check!(u64::from_le_bytes(d[..8].try_into().unwrap()) as usize == g, format!("content/{what}"), "the data of scope {id} has changed");
        must!("drop", drop(d));
    }
    fn drop_handle(&self, h: Handle) {
        let a = self.tick();
        let id = h.id;
        trace!("drop a handle of s{id}");
        must!("drop-scope", drop(h.s));
        let b = self.tick();
        let r = &mut self.st.g().recs[id];
        r.drops.push((a, b));
        r.open -= 1;
    }
    fn lookup(&self, addr: usize, keys: bool, keep: bool) {
        let a = self.tick();
        self.st.g().inflight.push((a, addr));
        let by = if keys { "find_shared_keys" } else { "containing" };
        let got = if keys {
            let k = must!("find_shared_keys", Scope::find_shared_keys(addr as *const u8));
            let b = self.tick();
            match k {
                None => (b, Got::NoKeys),
                Some(k) => {
                    let n = must!("sk-decode", k.decode(0).and_then(|k| k.trim_start_matches("scope").parse::<usize>().ok()));
                    must!("drop", drop(k));
                    let Some(n) = n else { violation!("foreign/find_shared_keys", "shared keys nobody registered") };
                    check!(n < self.st.g().recs.len(), "foreign/find_shared_keys", "the keys of scope {n}, which was never created");
                    (b, Got::Scope(n))
                }
            }
        } else {
            match must!("containing", Scope::containing(addr as *const u8)) {
                None => (self.tick(), Got::Nothing),
                Some(s) => {
                    let b = self.tick();
                    let id = self.identify(&s);
                    self.check_range(&s, id, addr, "containing");
                    self.st.g().recs[id].open += 1;
                    let h = Handle { s, id };
                    if keep { self.st.g().handles.push(h); } else { self.drop_handle(h); }
                    (b, Got::Scope(id))
                }
            }
        };
        trace!("{by} -> {:?}", got.1);
        ev(match got.1 { Got::Scope(i) => i as u64, _ => 9999 });
        let s = self.st.g();
        s.inflight.retain(|x| *x != (a, addr));
        s.looks.push(Look { a, b: got.0, addr, got: got.1, by });
        count(match got.1 { Got::Scope(_) => "lookups that found a scope", _ => "lookups that found nothing" });
    }
    fn create(&self, t: &mut Tape) {
        let id = self.st.g().recs.len();
        let st = self.st.g();
        let kind = t.weighted(&[4, 2, 2, 2]);
        let keyed = kind == 2 || kind == 3 || t.chance(1, 2);
        let mut group = id;
        // the record exists before the call: a concurrent lookup may already find it
        st.recs.push(Rec { lo: 0, hi: 0, cb: 0, ce: INF, removes: vec![], drops: vec![], open: 1, keyed, group });
        let sk = || { let mut k = SharedKeys::new(); must!("encode_and_insert", k.encode_and_insert(&format!("scope{id}"))); k };
        let shared: Option<(usize, Arc<[u8]>)> = if kind == 2 && !st.datas.is_empty() { let i = t.usize(st.datas.len()); let (g, d) = st.datas.swap_remove(i); let d2 = must!("clone", d.clone()); self.st.g().datas.push((g, d)); Some((g, d2)) } else { None };
        if let Some((g, _)) = &shared { group = *g; self.st.g().recs[id].group = group; }
        let a = self.tick();
        self.st.g().recs[id].cb = a;
        let len = 8 + t.pick(&[0usize, 2, 8, 8, 24, 56, 100, 1, 500]);
        let mut bytes = (group as u64).to_le_bytes().to_vec();
        bytes.resize(len, 0x5a);
        let how = t.draw(3);
        trace!("create s{id} (data of s{group}, keys {keyed}, kind {kind})");
        let s = if let Some((_, d)) = shared {
            count("scopes created over data of another scope");
            let k = sk();
            must!("scope-new", Scope::new(d, Some(Arc::new(k))))
        } else if kind == 3 {
            // a document: its first bytes are made to hold the id
            let k = sk();
            let n = t.usize(4);
            must!("finish_scoped", {
                let mut e = Encoder::new_to_vec(bytes[..8].to_vec());
                e.set_shared_keys(k);
                let _ = e.begin_array(3);
                for i in 0..=n { let _ = e.write_value(i as i64 * 1000); }
                let _ = e.end_array();
                e.finish_scoped()
            })
        } else {
            let k = if keyed { Some(sk()) } else { None };
            match how {
                0 => must!("scope-new", Scope::new(bytes, k.map(Arc::new))),
                1 => must!("scope-new", Scope::new(bytes.into_boxed_slice(), k.map(Arc::new))),
                _ => must!("scope-new", Scope::new(Arc::<[u8]>::from(&bytes[..]), k.map(Arc::new))),
            }
        };
        let b = self.tick();
        let d = must!("scope-data", s.data()).expect("data");
        let st = self.st.g();
        let r = &mut st.recs[id];
        r.ce = b;
        r.lo = d.as_ptr() as usize;
        r.hi = r.lo + d.len();
        if t.chance(1, 3) && st.datas.len() < 6 { st.datas.push((group, d)); } else { must!("drop", drop(d)); }
        self.st.g().handles.push(Handle { s, id });
        count("scopes created");
        let rs = &self.st.g().recs;
        if rs.iter().enumerate().any(|(i, r)| i != id && r.hi > rs[id].lo && r.lo < rs[id].hi && r.group != group) { count("fault: a scope reuses addresses of a dead one"); }
        ev(id as u64);
    }
    fn some_addr(&self, t: &mut Tape) -> usize {
        let recs = &self.st.g().recs;
        let known: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].hi != 0).collect();
        if known.is_empty() { return 8; }
        // recent ones mostly
        if self.storm && t.chance(9, 10) { let r = &recs[known[known.len() - 1]]; return [r.lo, (r.lo + r.hi) / 2][t.usize(2)]; }
        let k = t.usize(known.len().min(6));
        let i = if t.chance(1, 4) { t.usize(known.len()) } else { known.len() - 1 - k };
        let r = &recs[known[i]];
        match t.weighted(&[4, 3, 3, 1, 1, 1]) { 0 => r.lo, 1 => (r.lo + r.hi) / 2, 2 => r.hi - 1, 3 => r.hi, 4 => r.lo - 1, _ => [0usize, 1, usize::MAX, 4096][t.usize(4)] }
    }
    fn judge(&self) {
        let st = self.st.g();
        for (id, r) in st.recs.iter().enumerate() {
            if r.ce == INF { continue; }
            let ours = |l: &Look| l.addr >= r.lo && l.addr < r.hi;
            let shared = st.recs.iter().enumerate().any(|(i, o)| i != id && o.group == r.group);
            // when the last handle went
            let (mut db, mut de) = (INF, INF);
            if r.open == 0 {
                db = r.drops.iter().map(|d| d.0).max().unwrap_or(r.ce);
                de = r.drops.iter().map(|d| d.1).max().unwrap_or(INF);
                // a lookup in progress may hold the scope for its own duration
                loop {
                    let e = st.looks.iter().filter(|l| ours(l) && l.a <= de && l.b > de).map(|l| l.b).max();
                    match e { Some(e) => de = e, None => break }
                }
            }
            if let Some(rb) = r.removes.iter().map(|x| x.0).min() { db = db.min(rb); de = de.min(r.removes.iter().map(|x| x.1).min().unwrap()); }
            // latest possible creation, earliest possible end
            let (mut c, mut d) = (r.ce, db);
            for l in &st.looks {
                if l.got == Got::Scope(id) {
                    check!(ours(l), format!("wrong-scope/{}", l.by), "{} found s{id}, whose data does not contain the address", l.by);
                    check!(r.cb <= l.b, format!("before-creation/{}", l.by), "s{id} was found before it was created");
                    check!(l.a <= de, format!("stale/{}", l.by), "{} found s{id} although it was {} before the lookup began (gone at {de}, lookup {}..{})", l.by, if r.removes.is_empty() { "dropped" } else { "removed" }, l.a, l.b);
                    c = c.min(l.b);
                    d = d.max(l.a);
                }
            }
            for l in &st.looks {
                if !ours(l) { continue; }
                let missed = match l.got {
                    Got::Scope(o) => o != id && !shared,
                    Got::Nothing => true,
                    Got::NoKeys => r.keyed,
                };
                if missed {
                    check!(c >= l.a || d <= l.b, format!("missed/{}", l.by), "{} during {}..{} did not find s{id}, which was findable from {c} to {} ({:?} instead)", l.by, l.a, l.b, if d == INF { "the end".into() } else { d.to_string() }, l.got);
                }
            }
        }
    }
}
impl Workload for W {
    const NAME: &'static str = "C03";
    fn knobs() -> Knobs { Knobs { edge_budget: 50_000_000, call_budget: 50_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = 1 + t.weighted(&[1, 5, 3, 2]);
        // a storm: one or two scopes at a time, which everybody looks up, drops and creates
        let storm = t.chance(1, 4);
        let n = if storm { n.max(2) } else { n };
        let ops: Vec<usize> = (0..n).map(|_| if storm { 80 } else { [4, 10, 25, 60][t.usize(4)] }).collect();
        let mut w = if storm { [6, 8, 4, 0, 4, 0, 0, 0] } else { [5, 8, 4, 3, 4, 2, 1, 2] };
        if storm { w[3] = t.draw(2); w[5] = t.draw(2); } else if t.chance(1, 3) { for x in &mut w[1..] { if t.chance(1, 3) { *x = 0; } } }
        (W { st: Sh::new(St { clock: 0, recs: vec![], looks: vec![], handles: vec![], datas: vec![], inflight: vec![] }), w, storm }, ops)
    }
    fn op(&self, _th: usize, t: &mut Tape) {
        let st = self.st.g();
        match t.weighted(&self.w) {
            0 => { if st.recs.len() < 120 && (!self.storm || st.handles.len() < 2) { self.create(t); } }
            1 => { let a = self.some_addr(t); let keep = t.chance(1, 4); self.lookup(a, false, keep); }
            2 => { let a = self.some_addr(t); self.lookup(a, true, false); }
            3 => {
                // another handle
                if st.handles.is_empty() { return; }
                let i = t.usize(st.handles.len());
                let h = st.handles.swap_remove(i);
                let s = must!("clone", h.s.clone());
                let st = self.st.g();
                st.recs[h.id].open += 1;
                st.handles.push(Handle { s, id: h.id });
                st.handles.push(h);
            }
            4 => {
                if st.handles.is_empty() { return; }
                let i = t.usize(st.handles.len());
                let h = st.handles.swap_remove(i);
                self.drop_handle(h);
            }
            5 => {
                if st.handles.is_empty() { return; }
                let i = t.usize(st.handles.len());
                let h = st.handles.swap_remove(i);
                let a = self.tick();
                trace!("remove s{}", h.id);
                must!("remove", h.s.remove());
                let b = self.tick();
                self.st.g().recs[h.id].removes.push((a, b));
                count("scopes removed");
                self.st.g().handles.push(h);
            }
            7 => {
                // two scopes are equal when they hold the same data
                if st.handles.is_empty() { return; }
                let i = t.usize(st.handles.len());
                let h = st.handles.swap_remove(i);
                let o = if st.handles.is_empty() { None } else { let k = t.usize(st.handles.len()); Some(st.handles.swap_remove(k)) };
                let g = |h: &Handle| self.st.g().recs[h.id].group;
                let (x, same) = match &o { Some(o) => (must!("eq", *h.s == *o.s && !(*o.s != *h.s)), g(&h) == g(o)), None => (must!("eq", h.s == h.s), true) };
                check!(x == same, "equality/eq", "s{} == s{}: {x}", h.id, o.as_ref().map_or(h.id, |o| o.id));
                count(if same { "scopes of the same data compared" } else { "scopes of different data compared" });
                let st = self.st.g();
                st.handles.push(h);
                if let Some(o) = o { st.handles.push(o); }
            }
            _ => {
                if st.datas.is_empty() { return; }
                let i = t.usize(st.datas.len());
                let d = st.datas.swap_remove(i);
                must!("drop-data", drop(d));
            }
        }
    }
    fn finish(&self) {
        // quiet now: every living scope that was not removed must be found, and nothing else
        let addrs: Vec<usize> = self.st.g().recs.iter().filter(|r| r.hi != 0).flat_map(|r| [r.lo, r.hi - 1]).collect();
        for (i, a) in addrs.iter().enumerate() { if i < 60 || i + 60 > addrs.len() { self.lookup(*a, i % 3 == 2, false); } }
        while let Some(h) = self.st.g().handles.pop() { self.drop_handle(h); }
        for (i, a) in addrs.iter().enumerate() { if i < 40 || i + 40 > addrs.len() { self.lookup(*a, i % 2 == 1, false); } }
        self.judge();
        // equal content is not the same data
        let bytes = vec![0x5a; 16];
        let (a, b) = must!("scope-new", (Scope::new(bytes.clone(), None), Scope::new(bytes, None)));
        let c = must!("scope-new", Scope::new(a.data().expect("data"), None));
        let x = must!("eq", (*a == *b, *a == *c, *c == *b));
        check!(x == (false, true, false), "equality/eq", "a scope compares {x:?} with one over equal bytes elsewhere, one over its own data, and these with each other");
        must!("drop-scope", { drop(c); drop(b); drop(a); });
        let st = self.st.g();
        let d = std::mem::take(&mut st.datas);
        must!("drop-data", drop(d));
    }
}
