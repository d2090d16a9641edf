//! The content model every oracle compares against, and the comparison itself.
use fleece::{Array, Dict, Value, ValueType};
use simrt::pause_lib;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum M {
    Null,
    Undef,
    Bool(bool),
    /// i64::MIN ..= u64::MAX
    Int(i128),
    F32(f32),
    F64(f64),
    Str(String),
    Data(Vec<u8>),
    Arr(Vec<M>),
    Dict(BTreeMap<String, M>),
}
impl M {
    pub fn is_coll(&self) -> bool { matches!(self, M::Arr(_) | M::Dict(_)) }
    pub fn nodes(&self) -> usize {
        1 + match self { M::Arr(v) => v.iter().map(M::nodes).sum(), M::Dict(d) => d.values().map(M::nodes).sum(), _ => 0usize }
    }
    pub fn brief(&self) -> String {
        let s = format!("{self:?}");
        if s.len() <= 160 { s } else { let mut e = 150; while !s.is_char_boundary(e) { e -= 1; } format!("{}… ({} chars)", &s[..e], s.len()) }
    }
    /// Equal as Fleece content (one integer kind, one float kind, NaN equals NaN).
    pub fn same(&self, o: &M) -> bool {
        match (self, o) {
            (M::Null, M::Null) | (M::Undef, M::Undef) => true,
            (M::Bool(a), M::Bool(b)) => a == b,
            (M::Int(a), M::Int(b)) => a == b,
            (M::F32(_) | M::F64(_), M::F32(_) | M::F64(_)) => {
                let f = |m: &M| match m { M::F32(x) => f64::from(*x), M::F64(x) => *x, _ => 0.0 };
                let (a, b) = (f(self), f(o));
                a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
            }
            (M::Str(a), M::Str(b)) => a == b,
            (M::Data(a), M::Data(b)) => a == b,
            (M::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (M::Dict(a), M::Dict(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && x.same(y)),
            _ => false,
        }
    }
}
pub type Res = Result<(), String>;
fn short<T: std::fmt::Debug>(x: T) -> String { pause_lib(|| { let s = format!("{x:?}"); s.chars().take(120).collect() }) }
macro_rules! bad { ($($a:tt)*) => { return Err(pause_lib(|| format!($($a)*))) }; }

/// How shared keys are found when reading.
#[derive(Clone, Copy)]
pub enum Sk<'a> { Auto, Given(&'a fleece::SharedKeys) }

/// Compare a decoded value with the model through the basic read paths. Call inside `lib`.
pub fn same_value(v: &Value, m: &M, sk: Sk) -> Res { same_at(v, m, sk, 0) }
fn same_at(v: &Value, m: &M, sk: Sk, depth: usize) -> Res {
    let t = v.value_type();
    match m {
        M::Null => if t != ValueType::Null { bad!("expected null, found {}", short(&t)) },
        M::Undef => if t != ValueType::Undefined { bad!("expected undefined, found {}", short(&t)) },
        M::Bool(b) => {
            let want = if *b { ValueType::True } else { ValueType::False };
            if t != want || v.to_bool() != *b { bad!("expected {b}, found {} ({})", short(&t), v.to_bool()) }
        }
        M::Int(i) => {
            let got = match t {
                ValueType::Short | ValueType::Int => i128::from(v.to_int()),
                ValueType::UnsignedInt => i128::from(v.to_unsigned_int()),
                _ => bad!("expected the integer {i}, found {}", short(&t)),
            };
            if got != *i { bad!("expected the integer {i}, found {got} ({})", short(&t)) }
            if t == ValueType::Short && i128::from(v.to_short()) != *i { bad!("to_short of {i} gave {}", v.to_short()) }
            if let Ok(s) = i64::try_from(*i) { if v.to_int() != s { bad!("to_int of {i} gave {}", v.to_int()) } }
            if let Ok(s) = u64::try_from(*i) { if v.to_unsigned_int() != s { bad!("to_unsigned_int of {i} gave {}", v.to_unsigned_int()) } }
        }
        M::F32(f) => {
            if !matches!(t, ValueType::Float | ValueType::Double32 | ValueType::Double64) { bad!("expected the float {f}, found {}", short(&t)) }
            let g = v.to_float();
            if g.to_bits() != f.to_bits() && !(g.is_nan() && f.is_nan()) { bad!("expected the float {f:?}, found {g:?}") }
        }
        M::F64(f) => {
            if !matches!(t, ValueType::Float | ValueType::Double32 | ValueType::Double64) { bad!("expected the double {f}, found {}", short(&t)) }
            let g = v.to_double();
            if g.to_bits() != f.to_bits() && !(g.is_nan() && f.is_nan()) { bad!("expected the double {f:?}, found {g:?}") }
        }
        M::Str(s) => {
            if t != ValueType::String { bad!("expected the string {}, found {}", short(s), short(&t)) }
            if v.to_str() != s || v.to_data() != s.as_bytes() { bad!("expected the string {} ({} bytes), found {} ({} bytes)", short(s), s.len(), short(v.to_str()), v.to_data().len()) }
        }
        M::Data(d) => {
            if t != ValueType::Data { bad!("expected {} bytes of data, found {}", d.len(), short(&t)) }
            if v.to_data() != &d[..] { bad!("expected the data {} ({} bytes), found {} ({} bytes)", short(d), d.len(), short(v.to_data()), v.to_data().len()) }
        }
        M::Arr(a) => {
            let Some(arr) = v.as_array() else { bad!("expected an array, found {}", short(&t)) };
            same_array(arr, a, sk, depth)?;
        }
        M::Dict(d) => {
            let Some(dict) = v.as_dict() else { bad!("expected a dict, found {}", short(&t)) };
            same_dict(dict, d, sk, depth)?;
        }
    }
    Ok(())
}
/// Which of n positions to visit when n is large.
pub fn sample(n: usize, i: usize) -> bool { n <= 80 || i < 12 || i + 12 >= n || i % 61 == 0 || (2040..2056).contains(&i) || (250..260).contains(&i) }

pub fn same_array(arr: &Array, a: &[M], sk: Sk, depth: usize) -> Res {
    if arr.len() != a.len() { bad!("array of {} elements reports length {}", a.len(), arr.len()) }
    if arr.is_empty() != a.is_empty() { bad!("is_empty is wrong for an array of {}", a.len()) }
    if depth % 2 == 0 {
        for (i, m) in a.iter().enumerate() {
            if !sample(a.len(), i) { continue; }
            let Some(v) = arr.get(i) else { bad!("no element at index {i} of {}", a.len()) };
            if i % 3 == 0 && !core::ptr::eq(&arr[i], v) { bad!("[{i}] is another element than get({i}) of {}", a.len()) }
            same_at(v, m, sk, depth + 1).map_err(|e| pause_lib(|| format!("[{i}] {e}")))?;
        }
        // iteration: kinds and scalars only (the elements were compared above)
        let mut n = 0;
        for v in arr { if n < a.len() && !a[n].is_coll() { same_at(v, &a[n], sk, depth + 1).map_err(|e| pause_lib(|| format!("iter[{n}] {e}")))?; } n += 1; }
        if n != a.len() { bad!("iteration gave {n} elements of {}", a.len()) }
    } else {
        let mut n = 0;
        for v in arr {
            if n >= a.len() { bad!("iteration gave more than {} elements", a.len()) }
            same_at(v, &a[n], sk, depth + 1).map_err(|e| pause_lib(|| format!("iter[{n}] {e}")))?;
            n += 1;
        }
        if n != a.len() { bad!("iteration gave {n} elements of {}", a.len()) }
    }
    if arr.get(a.len()).is_some() { bad!("an element at index {} of an array of {}", a.len(), a.len()) }
    Ok(())
}
fn dget<'d>(d: &'d Dict, k: &str, sk: Sk) -> Option<&'d Value> { match sk { Sk::Auto => d.get(k), Sk::Given(s) => d.get_with_shared_keys(k, s) } }
pub fn same_dict(dict: &Dict, d: &BTreeMap<String, M>, sk: Sk, depth: usize) -> Res {
    if dict.len() != d.len() { bad!("dict of {} pairs reports length {}", d.len(), dict.len()) }
    if dict.is_empty() != d.is_empty() { bad!("is_empty is wrong for a dict of {}", d.len()) }
    for (i, (k, m)) in d.iter().enumerate() {
        if !sample(d.len(), i) { continue; }
        let Some(v) = dget(dict, k, sk) else { bad!("key {} not found among {} keys", short(k), d.len()) };
        if i % 3 == 1 { let w = match sk { Sk::Auto => core::ptr::eq(&dict[k.as_str()], v) && dict.contains_key(k), Sk::Given(s) => dict.contains_key_with_shared_keys(k.as_str(), s) }; if !w { bad!("the index operator or contains_key disagree with get under {}", short(k)) } }
        same_at(v, m, sk, depth + 1).map_err(|e| pause_lib(|| format!("[{}] {e}", short(k))))?;
    }
    Ok(())
}
/// Keys near the present ones that are not present.
pub fn absent_keys(d: &BTreeMap<String, M>) -> Vec<String> {
    let mut o: Vec<String> = vec!["".into(), "a".into(), "zzzz".into(), "\u{10ffff}".into(), "q".repeat(15), "q".repeat(16), "q".repeat(17), "a\0".into()];
    for (i, k) in d.keys().enumerate() {
        if i >= 6 { break; }
        o.push(format!("{k}a"));
        o.push(format!("{k}\0"));
        let mut c = k.clone();
        if c.pop().is_some() { o.push(c.clone()); c.push('~'); o.push(c); }
        o.push(k.to_uppercase());
        if k.len() >= 15 { let mut e = 15; while !k.is_char_boundary(e) { e -= 1; } o.push(k[..e].into()); o.push(format!("{}ZZ", &k[..e])); }
    }
    o.retain(|k| !d.contains_key(k));
    o.sort();
    o.dedup();
    o
}
/// Absent keys are not found; iteration gives each pair once. Call inside `lib`.
pub fn dict_extra(dict: &Dict, d: &BTreeMap<String, M>, absent: &[String], sk: Sk, iter: bool) -> Res {
    for k in absent {
        if dget(dict, k, sk).is_some() { bad!("the absent key {} was found", short(k)) }
        let c = match sk { Sk::Auto => dict.contains_key(k.as_str()), Sk::Given(s) => dict.contains_key_with_shared_keys(k.as_str(), s) };
        if c { bad!("contains_key({}) is true for an absent key", short(k)) }
    }
    if iter {
        let mut seen = pause_lib(|| vec![false; d.len()]);
        let mut n = 0;
        let idx: BTreeMap<&str, usize> = pause_lib(|| d.keys().enumerate().map(|(i, k)| (k.as_str(), i)).collect());
        for (k, v) in dict {
            let Some(i) = idx.get(k) else { bad!("iteration gave the key {}, which was never written", short(k)) };
            if seen[*i] { bad!("iteration gave the key {} twice", short(k)) }
            seen[*i] = true;
            let m = &d[k];
            if m.is_coll() {
                let ok = match m { M::Arr(a) => v.as_array().is_some_and(|x| x.len() == a.len()), M::Dict(e) => v.as_dict().is_some_and(|x| x.len() == e.len()), _ => true };
                if !ok { bad!("iteration gave another value under {}", short(k)) }
            } else { same_at(v, m, sk, 1).map_err(|e| pause_lib(|| format!("iter[{}] {e}", short(k))))?; }
            n += 1;
        }
        if n != d.len() { bad!("iteration gave {n} of {} pairs", d.len()) }
        pause_lib(|| drop((seen, idx)));
    }
    Ok(())
}
/// The thorough comparison: every dict also probed with absent keys and iterated.
pub fn same_deep(v: &Value, m: &M, sk: Sk) -> Res {
    same_value(v, m, sk)?;
    deep(v, m, sk)
}
fn deep(v: &Value, m: &M, sk: Sk) -> Res {
    match m {
        M::Arr(a) => {
            let Some(arr) = v.as_array() else { bad!("not an array") };
            for (i, x) in a.iter().enumerate() {
                if !x.is_coll() || !sample(a.len(), i) { continue; }
                let Some(e) = arr.get(i) else { bad!("no element {i}") };
                deep(e, x, sk)?;
            }
        }
        M::Dict(d) => {
            let Some(dict) = v.as_dict() else { bad!("not a dict") };
            let absent = pause_lib(|| absent_keys(d));
            dict_extra(dict, d, &absent, sk, true)?;
            for (k, x) in d { if x.is_coll() { if let Some(e) = dget(dict, k, sk) { deep(e, x, sk)?; } } }
        }
        _ => {}
    }
    Ok(())
}
// ---- mutable collections ------------------------------------------------------------------------
use fleece::{MutableArray, MutableDict};
/// The numeric content of a mutable slot: which float width is used for it is not content.
fn slot(v: Option<&Value>, m: &M) -> Res {
    let Some(v) = v else { bad!("no value where {} should be", short(m)) };
    match m { M::F64(_) | M::F32(_) => { if v.to_double().is_nan() && matches!(m, M::F32(f) if f.is_nan()) { return Ok(()); } same_value(v, m, Sk::Auto) } _ => same_value(v, m, Sk::Auto) }
}
macro_rules! slots {
    ($m:expr, $v:expr, $a:expr, $d:expr, $deep:expr) => {{
        let (v, a, d) = ($v, $a, $d);
        match $m {
            M::Arr(x) => { if v.is_some() || d.is_some() { bad!("an array slot also reads as a value or dict") } let Some(y) = a else { bad!("no array where one of {} should be", x.len()) }; if $deep { same_mut_array(y, x)?; } else if y.len() != x.len() { bad!("another array") } }
            M::Dict(x) => { if v.is_some() || a.is_some() { bad!("a dict slot also reads as a value or array") } let Some(y) = d else { bad!("no dict where one of {} should be", x.len()) }; if $deep { same_mut_dict(y, x)?; } else if y.len() != x.len() { bad!("another dict") } }
            s => { if a.is_some() || d.is_some() { bad!("a value slot also reads as a collection") } slot(v, s)?; }
        }
    }};
}
/// A mutable array against a list, by every query. Call inside `lib`.
pub fn same_mut_array(a: &MutableArray, m: &[M]) -> Res {
    if a.len() != m.len() || a.is_empty() != m.is_empty() { bad!("a mutable array of {} elements reports {}", m.len(), a.len()) }
    for (i, x) in m.iter().enumerate() {
        if !sample(m.len(), i) { continue; }
        let r: Res = (|| { slots!(x, a.get(i), a.get_array(i), a.get_dict(i), true); Ok(()) })();
        r.map_err(|e| pause_lib(|| format!("[{i}] {e}")))?;
        if i % 3 == 0 && !x.is_coll() && !a.get(i).is_some_and(|v| core::ptr::eq(&a[i], v)) { bad!("[{i}] is another element than get({i}) of {}", m.len()) }
    }
    for i in [m.len(), m.len() + 1, usize::MAX] { if a.get(i).is_some() || a.get_array(i).is_some() || a.get_dict(i).is_some() { bad!("an element at index {i} of {}", m.len()) } }
    let mut n = 0;
    let mut it = a.iter();
    loop {
        let (lo, hi) = it.size_hint();
        let left = m.len() - n;
        if lo > left || hi.is_some_and(|h| h < left) { bad!("size_hint ({lo}, {hi:?}) with {left} elements left of {}", m.len()) }
        let Some(r) = it.next() else { break };
        if n >= m.len() { bad!("iteration gave more than {} elements", m.len()) }
        let x = &m[n];
        if (r.is_value(), r.is_array(), r.is_dict()) != (!x.is_coll(), matches!(x, M::Arr(_)), matches!(x, M::Dict(_))) { bad!("iteration gave the wrong kind at {n}") }
        slots!(x, r.value(), r.array(), r.dict(), false);
        n += 1;
    }
    if n != m.len() { bad!("iteration gave {n} of {} elements", m.len()) }
    Ok(())
}
/// A mutable dict against a map, by every query. Call inside `lib`.
pub fn same_mut_dict(d: &MutableDict, m: &BTreeMap<String, M>) -> Res {
    if d.len() != m.len() || d.is_empty() != m.is_empty() { bad!("a mutable dict of {} pairs reports {}", m.len(), d.len()) }
    for (i, (k, x)) in m.iter().enumerate() {
        if !sample(m.len(), i) { continue; }
        if !d.contains_key(k) { bad!("contains_key({}) is false", short(k)) }
        let r: Res = (|| { slots!(x, d.get(k), d.get_array(k), d.get_dict(k), true); Ok(()) })();
        r.map_err(|e| pause_lib(|| format!("[{}] {e}", short(k))))?;
        if i % 3 == 0 && !x.is_coll() && !d.get(k).is_some_and(|v| core::ptr::eq(&d[k], v)) { bad!("the index operator disagrees with get under {}", short(k)) }
    }
    let absent = pause_lib(|| absent_keys(m));
    for k in &absent { if d.contains_key(k) || d.get(k).is_some() || d.get_array(k).is_some() || d.get_dict(k).is_some() { bad!("the absent key {} was found", short(k)) } }
    let mut seen = pause_lib(|| std::collections::BTreeSet::new());
    let mut it = d.iter();
    loop {
        let (lo, hi) = it.size_hint();
        let left = m.len() - seen.len();
        if lo > left || hi.is_some_and(|h| h < left) { bad!("size_hint ({lo}, {hi:?}) with {left} pairs left of {}", m.len()) }
        let Some((k, r)) = it.next() else { break };
        let Some(x) = m.get(k) else { bad!("iteration gave the key {}", short(k)) };
        if !pause_lib(|| seen.insert(k.to_string())) { bad!("iteration gave the key {} twice", short(k)) }
        if (r.is_value(), r.is_array(), r.is_dict()) != (!x.is_coll(), matches!(x, M::Arr(_)), matches!(x, M::Dict(_))) { bad!("iteration gave the wrong kind under {}", short(k)) }
        slots!(x, r.value(), r.array(), r.dict(), false);
    }
    if seen.len() != m.len() { bad!("iteration gave {} of {} pairs", seen.len(), m.len()) }
    Ok(())
}
/// What can be read must be right; things may be missing. Call inside `lib`.
pub fn nothing_wrong(v: &Value, m: &M, depth: usize) -> Res {
    match m {
        M::Arr(a) => {
            let Some(x) = v.as_array() else { bad!("not an array") };
            if x.len() != a.len() { bad!("another length") }
            for (i, y) in a.iter().enumerate() { if sample(a.len(), i) { let Some(e) = x.get(i) else { bad!("no element {i}") }; nothing_wrong(e, y, depth + 1)?; } }
        }
        M::Dict(d) => {
            let Some(x) = v.as_dict() else { bad!("not a dict") };
            for (k, y) in d { if let Some(e) = x.get(k.as_str()) { nothing_wrong(e, y, depth + 1).map_err(|e| pause_lib(|| format!("[{}] {e}", short(k))))?; } }
            let absent = pause_lib(|| absent_keys(d));
            for k in &absent { if x.get(k.as_str()).is_some() { bad!("the absent key {} was found", short(k)) } }
            for (k, e) in x { let Some(y) = d.get(k) else { bad!("iteration gave the key {}, which was never written", short(k)) }; nothing_wrong(e, y, depth + 1).map_err(|e| pause_lib(|| format!("iter[{}] {e}", short(k))))?; }
        }
        s => same_value(v, s, Sk::Auto)?,
    }
    Ok(())
}
/// A decoded copy in which things may be missing.
pub fn part_of(part: &M, m: &M) -> bool {
    match (part, m) {
        (M::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| part_of(x, y)),
        (M::Dict(a), M::Dict(b)) => a.iter().all(|(k, x)| b.get(k).is_some_and(|y| part_of(x, y))),
        (a, b) => a.same(b),
    }
}
