//! The same calls give the same bytes: on any thread, in any order, whatever ran before, wherever memory lies
//! and whatever it contained.
use crate::gen;
use crate::kit::*;
use crate::model::*;
use crate::zoo::ZOO;
use crate::{must, refenc};
use fleece::alloced::AllocedValue;
use fleece::{Encoder, Scope, SharedKeys, Value};
use serde::ser::{SerializeMap, SerializeSeq, Serializer};
use serde::Serialize;
use simrt::arena::{self, Policy};
use simrt::run::{Knobs, Workload};
use simrt::{call, count, ev, pause_lib, trace, violation, Tape};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// One call on an encoder.
enum Call { Val(M, u64), Key(String), Begin(bool, usize), End(bool), Put(M, u64), Copy(M, Src, u64) }
/// Where a copied value comes from.
#[derive(Clone, Copy)]
enum Src { Enc, Ref(u64), Keyed, Part(usize) }
/// Something that produces bytes.
enum Script {
    Session { prefix: usize, spare: usize, keys: Option<Vec<String>>, calls: Vec<Call>, fin: u64 },
    State { keys: Vec<String>, clones: u64, cut: usize },
    Serde { ty: usize, seed: u64, keyed: bool },
    Tree { m: M, seed: u64, keyed: bool },
}
/// A session in progress that any thread may take over.
struct Part { script: usize, e: Encoder, next: usize, verdicts: Vec<u8>, feed: Feed }
pub struct W { scripts: Vec<Script>, gold: Vec<Arc<Vec<u8>>>, open: Sh<Vec<Option<Box<Part>>>>, kept: Sh<Vec<Arc<Scope>>> }

fn is_send<T: Send>(t: T) -> T { t }
/// Where the strings a client passes lie.
struct Feed { how: u64, off: usize, n: usize, same: BTreeMap<Vec<u8>, Box<[u8]>>, slot: Vec<u8>, kept: Vec<Vec<u8>> }
impl Feed {
    /// 0: every time somewhere else; 1: equal strings in the same place; 2: all in one place
    fn new(how: u64, off: usize) -> Feed { Feed { how, off, n: 0, same: BTreeMap::new(), slot: vec![], kept: vec![] } }
    fn at(&mut self, s: &[u8]) -> &[u8] {
        self.n += 1;
        match self.how {
            1 => self.same.entry(s.to_vec()).or_insert_with(|| s.into()),
            2 => {
                if self.slot.len() < s.len() + 8 { let old = std::mem::replace(&mut self.slot, vec![b'~'; s.len() + 4096]); self.kept.push(old); }
                let o = self.off % 8;
                self.slot[o..o + s.len()].copy_from_slice(s);
                &self.slot[o..o + s.len()]
            }
            _ => {
                let off = (self.off + self.n) % 23;
                let mut v = vec![b'~'; off];
                v.extend_from_slice(s);
                v.extend_from_slice(&b"}{|~"[..off % 5]);
                self.kept.push(v);
                &self.kept.last().unwrap()[off..off + s.len()]
            }
        }
    }
    fn text(&mut self, s: &str) -> &str { unsafe { core::str::from_utf8_unchecked(self.at(s.as_bytes())) } }
}
fn scalar(e: &mut Encoder, m: &M, ty: u64, f: &mut Feed) -> ER {
    match m {
        M::Str(s) => { let a = pause_lib(|| f.text(s)); e.write_value(a) }
        M::Data(d) => { let a = pause_lib(|| f.at(d)); e.write_value(a) }
        _ => put_scalar(e, m, ty),
    }
}
fn step(e: &mut Encoder, c: &Call, f: &mut Feed) -> ER {
    match c {
        Call::Val(m, ty) => scalar(e, m, *ty, f),
        Call::Key(k) => { let a = pause_lib(|| f.text(k)); e.write_key(a) }
        Call::Begin(false, cap) => e.begin_array(*cap),
        Call::Begin(true, _) => e.begin_dict(),
        Call::End(false) => e.end_array(),
        Call::End(true) => e.end_dict(),
        Call::Put(m, how) => put(e, m, *how),
        Call::Copy(m, src, how) => match src {
            Src::Keyed => {
                let s = encode_sk(m, SharedKeys::new(), *how)?;
                let v = s.root();
                match v { Some(v) => e.write_fleece(&v), None => pause_lib(|| violation!("no-root/finish_scoped", "a keyed document has no root")) }
            }
            Src::Enc => { let b = encode(m, *how)?; let v = open(&b); e.write_fleece(v) }
            Src::Ref(seed) => { let b = pause_lib(|| refenc::encode(m, *seed, None)); let r = { let v = open(&b); e.write_fleece(v) }; pause_lib(|| drop(b)); r }
            Src::Part(i) => { let b = encode(m, *how)?; let v = open(&b); match v.as_array().and_then(|a| a.get(*i)) { Some(v) => e.write_fleece(v), None => e.write_fleece(v) } }
        },
    }
}
fn open(b: &[u8]) -> &Value { match Value::from_bytes(b) { Ok(v) => v, Err(e) => pause_lib(|| violation!("refused/from_bytes", "a valid document is refused: {e:?}")) } }
fn start(prefix: usize, spare: usize, keys: &Option<Vec<String>>) -> Encoder {
    let mut e = if prefix + spare > 0 {
        let mut v: Vec<u8> = Vec::with_capacity(prefix + spare);
        v.extend((0..prefix).map(|i| (i * 7) as u8));
        Encoder::new_to_vec(v)
    } else { Encoder::new() };
    if let Some(k) = keys {
        let mut sk = SharedKeys::new();
        for x in k { sk.encode_and_insert(x); }
        e.set_shared_keys(sk);
    }
    e
}
fn raw(v: &AllocedValue) -> Vec<u8> { let d = v.value(); format!("{d:?}").into_bytes() }
/// Finish a session. Returns the bytes, followed by the state of the keys.
fn end(e: Encoder, fin: u64, kept: Option<&mut Vec<Arc<Scope>>>) -> Vec<u8> {
    match fin {
        0 => { let b = e.finish(); pause_lib(|| b.as_slice().to_vec()) }
        1 => { let v = e.finish_value(); let t = raw(&v); pause_lib(|| t.as_slice().to_vec()) }
        _ => {
            let s = e.finish_scoped();
            let mut o = match s.data() { Some(d) => pause_lib(|| d.to_vec()), None => vec![] };
            if let Some(k) = s.shared_keys() { let st = k.get_state_bytes(); pause_lib(|| o.extend_from_slice(&st)); }
            if let Some(k) = kept { pause_lib(|| k.push(s.clone())); }
            o
        }
    }
}
struct Ser<'a>(&'a M, u64);
impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let next = |k: usize| simrt::rng::mix(self.1, k as u64);
        match self.0 {
            M::Null => s.serialize_none(),
            M::Undef => s.serialize_unit(),
            M::Bool(b) => s.serialize_bool(*b),
            M::Int(i) => match i64::try_from(*i) { Ok(x) => s.serialize_i64(x), _ => s.serialize_u64(*i as u64) },
            M::F32(f) => s.serialize_f32(*f),
            M::F64(f) => s.serialize_f64(*f),
            M::Str(x) => s.serialize_str(x),
            M::Data(x) => s.serialize_bytes(x),
            M::Arr(v) => { let mut q = s.serialize_seq(if self.1 & 1 == 0 { Some(v.len()) } else { None })?; for (i, x) in v.iter().enumerate() { q.serialize_element(&Ser(x, next(i)))?; } q.end() }
            M::Dict(d) => { let mut q = s.serialize_map(if self.1 & 1 == 0 { Some(d.len()) } else { None })?; let mut put = |i: usize, k: &str, x: &M| q.serialize_entry(k, &Ser(x, next(i))); if self.1 & 2 == 0 { for (i, (k, x)) in d.iter().enumerate() { put(i, k, x)?; } } else { for (i, (k, x)) in d.iter().rev().enumerate() { put(i, k, x)?; } } q.end() }
        }
    }
}
/// Fails or panics after some elements.
struct Fails<'a>(&'a M, usize, bool);
impl Serialize for Fails<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let fail = || -> S::Error { if self.2 { panic!("client panic") } serde::ser::Error::custom("client error") };
        match self.0 {
            M::Arr(v) => { let mut q = s.serialize_seq(None)?; for (i, x) in v.iter().enumerate() { if i == self.1 { return Err(fail()); } q.serialize_element(&Ser(x, 0))?; } Err(fail()) }
            M::Dict(d) => { let mut q = s.serialize_map(None)?; for (i, (k, x)) in d.iter().enumerate() { if i == self.1 { return Err(fail()); } q.serialize_entry(k, &Ser(x, 0))?; } Err(fail()) }
            _ => Err(fail()),
        }
    }
}
impl Script {
    /// Everything the script produces, from the beginning.
    fn run(&self, feed: &mut Feed, kept: Option<&mut Vec<Arc<Scope>>>) -> Vec<u8> {
        match self {
            Script::Session { prefix, spare, keys, calls, fin } => {
                let mut v = vec![];
                let mut e = must!("new", start(*prefix, *spare, keys));
                for c in calls { v.push(u8::from(must!(c.name(), step(&mut e, c, feed)).is_ok())); }
                let mut o = must!("finish", end(e, *fin, kept));
                o.extend(v);
                o
            }
            Script::State { keys, clones, cut } => {
                let mut sk = must!("new", SharedKeys::new());
                let mut o = vec![];
                for (i, k) in keys.iter().enumerate() {
                    if i == *cut {
                        // saved, reloaded, extended
                        let b = must!("get_state_bytes", sk.get_state_bytes());
                        o.extend_from_slice(&b);
                        let Some(n) = must!("from_state_bytes", SharedKeys::from_state_bytes(&b)) else { violation!("refused/from_state_bytes", "a saved state is refused") };
                        must!("drop", { drop(b); drop(std::mem::replace(&mut sk, n)); });
                    }
                    if clones >> (i % 60) & 1 != 0 && i % 7 == 0 { let n = must!("clone", sk.clone()); must!("drop", drop(std::mem::replace(&mut sk, n))); }
                    let a = feed.text(k);
                    let id = must!("encode_and_insert", sk.encode_and_insert(a));
                    o.extend_from_slice(&id.unwrap_or(u16::MAX).to_be_bytes());
                }
                let b = must!("get_state_bytes", sk.get_state_bytes());
                o.extend_from_slice(&b);
                must!("drop", drop(b));
                let mut e = must!("new", Encoder::new());
                let r = must!("write_state", (|| { e.begin_array(1).ok()?; sk.write_state(&mut e)?; e.end_array().ok() })());
                o.push(u8::from(r.is_some()));
                let b = must!("finish", e.finish());
                o.extend_from_slice(&b);
                must!("drop", { drop(b); drop(sk); });
                o
            }
            Script::Serde { ty, seed, keyed } => {
                let mut t = Tape::quiet(*seed);
                let v = (ZOO[*ty].gen)(&mut t);
                if *keyed {
                    match must!("to_bytes_with_shared_keys", v.ser_sk()) {
                        Ok(s) => must!("finish", { let mut o = match s.data() { Some(d) => pause_lib(|| d.to_vec()), None => vec![] }; if let Some(k) = s.shared_keys() { let st = k.get_state_bytes(); pause_lib(|| o.extend_from_slice(&st)); } if let Some(k) = kept { pause_lib(|| k.push(s.clone())); } o }),
                        Err(e) => format!("{e:?}").into_bytes(),
                    }
                } else {
                    match must!("to_bytes", v.ser()) { Ok(b) => { let o = b.as_slice().to_vec(); must!("drop", drop(b)); o } Err(e) => format!("{e:?}").into_bytes() }
                }
            }
            Script::Tree { m, seed, keyed } => {
                if *keyed {
                    match must!("to_bytes_with_shared_keys", fleece::to_bytes_with_shared_keys(Ser(m, *seed))) {
                        Ok(s) => must!("finish", { let mut o = match s.data() { Some(d) => pause_lib(|| d.to_vec()), None => vec![] }; if let Some(k) = s.shared_keys() { let st = k.get_state_bytes(); pause_lib(|| o.extend_from_slice(&st)); } drop(s); o }),
                        Err(e) => violation!("refused/to_bytes", "{e:?} for {}", m.brief()),
                    }
                } else {
                    match must!("to_bytes", fleece::to_bytes(Ser(m, *seed))) { Ok(b) => { let o = b.as_slice().to_vec(); must!("drop", drop(b)); o } Err(e) => violation!("refused/to_bytes", "{e:?} for {}", m.brief()) }
                }
            }
        }
    }
    fn name(&self) -> &'static str { match self { Script::Session { .. } => "session", Script::State { .. } => "key-state", Script::Serde { .. } => "serialize", Script::Tree { .. } => "serialize-tree" } }
    fn gen(t: &mut Tape) -> Script {
        match t.weighted(&[6, 2, 2, 2]) {
            0 => {
                let keys = t.chance(1, 3).then(|| { let n = [0usize, 3, 40, 2040][t.weighted(&[4, 3, 2, 1])]; (0..n).map(|i| if n < 10 { gen::KEYS[i * 3 % gen::KEYS.len()].to_string() } else { format!("k{i}") }).collect() });
                let fin = if keys.is_some() { 2 } else { t.draw(3) };
                let prefix = if fin == 0 && keys.is_none() && t.chance(1, 4) { [2usize, 10, 0x3ff0, 0x7ff0][t.usize(4)] } else { 0 };
                let spare = [0usize, 1, 64, 5000][t.usize(4)];
                let mut calls = vec![];
                let n = [3, 10, 30, 80][t.usize(4)];
                gen_calls(t, &mut calls, n, fin == 1);
                Script::Session { prefix, spare, keys, calls, fin }
            }
            1 => {
                let n = [0, 1, 5, 60, 300, 2050][t.weighted(&[1, 2, 4, 4, 2, 1])];
                let keys = (0..n).map(|i| if n > 200 || t.chance(1, 3) { format!("key{i}") } else { gen::key(t) }).collect();
                Script::State { keys, clones: t.word(), cut: if t.chance(1, 2) { t.usize(n + 1) } else { usize::MAX } }
            }
            2 => Script::Serde { ty: t.usize(ZOO.len()), seed: t.word(), keyed: t.chance(1, 2) },
            _ => { let b = [100, 600, 3000, 60_000][t.weighted(&[3, 4, 2, 1])]; let m = gen::doc(t, b); Script::Tree { m, seed: t.word(), keyed: t.chance(1, 2) } }
        }
    }
}
impl Call {
    fn name(&self) -> &'static str { match self { Call::Val(..) => "write_value", Call::Key(_) => "write_key", Call::Begin(false, _) => "begin_array", Call::Begin(..) => "begin_dict", Call::End(false) => "end_array", Call::End(_) => "end_dict", Call::Put(..) => "put", Call::Copy(..) => "write_fleece" } }
}
/// Mostly calls that fit, some the encoder must refuse, sometimes cut off with collections open.
fn gen_calls(t: &mut Tape, out: &mut Vec<Call>, n: usize, value: bool) {
    enum F { A, D(BTreeSet<String>, bool) }
    let mut st: Vec<F> = vec![];
    let mut seen: Vec<String> = vec![];
    let mut last: Option<M> = None;
    let mut root = false;
    for i in 0..n {
        if root { break; }
        if i > 0 && t.chance(1, 12) {
            // does not fit the state
            let c = match (st.last(), t.draw(3)) {
                (Some(F::D(_, false)), 0) => Call::Val(gen::scalar(t, 100), t.draw(128)),
                (Some(F::D(_, false)), 1) => Call::Begin(false, 3),
                (Some(F::D(_, false)), _) => Call::End(false),
                (Some(F::D(_, true)), 0) => Call::End(true),
                (Some(F::D(_, true)), 1) => Call::End(false),
                (Some(F::D(_, true)), _) => Call::Key("not now, please, not now".into()),
                (_, 0) => Call::End(true),
                (_, _) => Call::Key("a key in an array".into()),
            };
            out.push(c);
            continue;
        }
        let depth = st.len();
        match st.last_mut() {
            None => { let d = t.chance(1, 2); out.push(Call::Begin(d, t.usize(20))); st.push(if d { F::D(BTreeSet::new(), false) } else { F::A }); }
            Some(F::D(k, w @ false)) => {
                if t.chance(1, 6) && depth > 0 { out.push(Call::End(true)); st.pop(); if st.is_empty() { root = true; } else if let Some(F::D(_, w)) = st.last_mut() { *w = false; } continue; }
                // records tend to repeat their keys
                let mut x = if !seen.is_empty() && t.chance(1, 3) { let n = seen.len(); seen[n - 1 - t.usize(n.min(4))].clone() } else { gen::key(t) };
                if !k.insert(x.clone()) { x = format!("unique{}", k.len()); k.insert(x.clone()); }
                seen.push(x.clone());
                out.push(Call::Key(x));
                *w = true;
            }
            Some(f) => {
                let arr = matches!(f, F::A);
                if let F::D(_, w) = f { *w = false; }
                match t.weighted(&[8, 2, 2, if arr { 2 } else { 0 }, 2]) {
                    0 => { let m = match &last { Some(m) if t.chance(1, 5) => m.clone(), _ => gen::scalar(t, 3000) }; last = Some(m.clone()); out.push(Call::Val(m, t.draw(128))) }
                    1 => { let d = t.chance(1, 2); out.push(Call::Begin(d, t.usize(20))); st.push(if d { F::D(BTreeSet::new(), false) } else { F::A }); }
                    2 => { let m = { let b = [200, 2000, 40_000][t.weighted(&[4, 3, 1])]; gen::value(t, 1, &mut gen::Budget(b)) }; out.push(Call::Put(m, t.word())); }
                    3 => { out.push(Call::End(false)); st.pop(); if st.is_empty() { root = true; } else if let Some(F::D(_, w)) = st.last_mut() { *w = false; } }
                    _ => { let m = gen::doc(t, 300); let s = match t.draw(4) { 0 => Src::Enc, 1 => Src::Ref(t.word()), 2 => Src::Keyed, _ => Src::Part(t.usize(4)) }; out.push(Call::Copy(m, s, t.word())); }
                }
            }
        }
    }
    let _ = value;
}
impl W {
    fn same(&self, k: usize, got: &[u8], how: &str) {
        let want = &self.gold[k];
        if got == &want[..] { count("outputs compared with the first one"); return; }
        let at = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        violation!(format!("differs/{}-{how}", self.scripts[k].name()), "the same {} calls gave other bytes: {} bytes instead of {}, first difference at {at}: {:02x?} instead of {:02x?}", self.scripts[k].name(), got.len(), want.len(), &got[at..(at + 6).min(got.len())], &want[at..(at + 6).min(want.len())]);
    }
    /// Advance a session that several threads take turns at.
    fn relay(&self, t: usize, tape: &mut Tape, all: bool) {
        let list = self.open.g();
        let taken: Option<Box<Part>> = if list.is_empty() { None } else { let i = tape.usize(list.len()); list.swap_remove(i) };
        let mut p = match taken {
            Some(p) => p,
            None => {
                if all { return; }
                let c: Vec<usize> = (0..self.scripts.len()).filter(|k| matches!(self.scripts[*k], Script::Session { .. })).collect();
                if c.is_empty() { return; }
                let k = c[tape.usize(c.len())];
                let Script::Session { prefix, spare, keys, .. } = &self.scripts[k] else { return };
                let e = must!("new", start(*prefix, *spare, keys));
                Box::new(Part { script: k, e: is_send(e), next: 0, verdicts: vec![], feed: Feed::new(tape.draw(3), 1) })
            }
        };
        let Script::Session { calls, fin, .. } = &self.scripts[p.script] else { return };
        let n = if all { calls.len() } else { 1 + tape.usize(1 + calls.len() / 2) };
        trace!("thread {t} makes calls {}.. of a handed-over session of script {}", p.next, p.script);
        for _ in 0..n {
            let Some(c) = calls.get(p.next) else { break };
            p.verdicts.push(u8::from(must!(c.name(), step(&mut p.e, c, &mut p.feed)).is_ok()));
            p.next += 1;
        }
        if p.next < calls.len() { self.open.g().push(Some(p)); count("sessions handed to another thread"); return; }
        let Part { script, e, verdicts, .. } = *p;
        let mut o = must!("finish", end(e, *fin, None));
        o.extend(verdicts);
        self.same(script, &o, "handed-over");
        count("handed-over sessions finished");
        ev(o.len() as u64);
    }
}
impl Workload for W {
    const NAME: &'static str = "C12";
    fn knobs() -> Knobs { Knobs { edge_budget: 400_000_000, ..Knobs::default() } }
    fn setup(t: &mut Tape) -> (Self, Vec<usize>) {
        let n = threads(t, 3);
        let ops = (0..n).map(|_| [4, 8, 16, 30][t.usize(4)]).collect();
        let k = 1 + t.usize(5);
        let scripts: Vec<Script> = (0..k).map(|_| Script::gen(t)).collect();
        let mut gold = vec![];
        for s in &scripts {
            let o = s.run(&mut Feed::new(t.draw(3), 0), None);
            trace!("script {} gives {} bytes", s.name(), o.len());
            ev(o.iter().fold(o.len() as u64, |h, b| simrt::rng::mix(h, u64::from(*b))));
            gold.push(Arc::new(o));
        }
        (W { scripts, gold, open: Sh::new(vec![]), kept: Sh::new(vec![]) }, ops)
    }
    fn op(&self, t: usize, tape: &mut Tape) {
        // what memory contains and where it comes from changes under way
        if tape.chance(1, 2) { arena::set_poison([0, 0xFF, 0x41, 0x10, 0x80, 0xA5, 0x01, 0x7F][tape.usize(8)]); count("fault: contents of fresh memory changed"); }
        if tape.chance(1, 6) { arena::set_policy([Policy::Never, Policy::Lifo, Policy::FirstFit, Policy::Random][tape.usize(4)]); count("fault: heap placement policy changed"); }
        let k = tape.usize(self.scripts.len());
        match tape.weighted(&[8, 4, 2, 2, 1, 1]) {
            0 => {
                trace!("thread {t} repeats script {k} ({})", self.scripts[k].name());
                let mut feed = Feed::new(tape.draw(3), tape.usize(16));
                let mut mine = vec![];
                let o = self.scripts[k].run(&mut feed, if tape.chance(1, 3) { Some(&mut mine) } else { None });
                self.same(k, &o, "repeated");
                for s in mine { let v = self.kept.g(); if v.len() < 20 { v.push(s); count("scopes kept alive"); } else { must!("drop", drop(s)); } }
                ev(o.len() as u64);
            }
            1 => self.relay(t, tape, false),
            2 => {
                // a session that is abandoned
                if let Script::Session { prefix, spare, keys, calls, .. } = &self.scripts[k] {
                    let n = tape.usize(calls.len() + 1);
                    trace!("thread {t} abandons script {k} after {n} calls");
                    let mut e = must!("new", start(*prefix, *spare, keys));
                    let mut f = Feed::new(tape.draw(3), 3);
                    for c in &calls[..n] { let _ = must!(c.name(), step(&mut e, c, &mut f)); }
                    if tape.chance(1, 4) { std::mem::forget(e); } else { must!("drop", drop(e)); }
                    count("fault: session abandoned");
                }
            }
            3 => {
                // a serialization that fails or panics
                let m = gen::doc(tape, 400);
                let f = Fails(&m, tape.usize(4), tape.chance(1, 2));
                let keyed = tape.chance(1, 2);
                trace!("thread {t} serializes something that fails after {}", f.1);
                simrt::set_op("to_bytes-failing");
                let r = if keyed { call(|| fleece::to_bytes_with_shared_keys(&f).map(|_| ())) } else { call(|| fleece::to_bytes(&f).map(|_| ())) };
                match r { Ok(Ok(())) => violation!("accepted/to_bytes-failing", "a serialization whose client failed returned success"), Ok(Err(_)) => count("fault: serialization failed in the client"), Err(_) => count("fault: serialization panicked in the client") }
            }
            4 => {
                let v = self.kept.g();
                if v.is_empty() { return; }
                let s = v.swap_remove(tape.usize(v.len()));
                must!("drop", { if tape.chance(1, 2) { s.remove(); } drop(s); });
            }
            _ => {
                // other work: a document decoded, damaged data registered
                let m = gen::doc(tape, 600);
                let mut b = doc_bytes(&m, tape.word());
                let older = b.clone();
                crate::damage::faults(tape, &mut b, &older);
                count("fault: damaged document opened in between");
                let _ = call(|| { let s = Scope::new(b.clone(), None); let r = s.root().map(|v| format!("{v:?}").len()); let u = Value::clone_from_bytes(&b).is_ok(); drop(s); (r, u) });
            }
        }
        ev(3);
    }
    fn finish(&self) {
        let mut t = Tape::quiet(1);
        while !self.open.g().is_empty() { self.relay(0, &mut t, true); }
        for k in 0..self.scripts.len() {
            let o = self.scripts[k].run(&mut Feed::new(k as u64 % 3, k), None);
            self.same(k, &o, "at-end");
        }
        let v = std::mem::take(self.kept.g());
        must!("drop", drop(v));
    }
}
