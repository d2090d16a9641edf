//! Shared pieces of the workloads.
use crate::model::M;
use fleece::encoder::{EncodeError, NullValue, UndefinedValue};
use fleece::{Encoder, SharedKeys};
use simrt::Tape;
use std::cell::UnsafeCell;

/// State the simulated threads share. One thread runs at a time; never hold `g()` over library calls
/// that another thread's operation could interleave with.
pub struct Sh<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}
impl<T> Sh<T> {
    pub fn new(t: T) -> Self { Sh(UnsafeCell::new(t)) }
    #[allow(clippy::mut_from_ref)]
    #[inline(never)]
    pub fn g(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}
/// A library call that must not panic.
#[macro_export]
macro_rules! must {
    ($op:expr, $e:expr) => {{
        simrt::set_op($op);
        match simrt::call(|| $e) { Ok(v) => v, Err(p) => simrt::violation!(format!("panic/{}", $op), "{} panicked: {}", $op, p.0) }
    }};
}
/// A comparison that must succeed.
#[macro_export]
macro_rules! agree {
    ($op:expr, $e:expr) => {{
        let r: $crate::model::Res = $crate::must!($op, $e);
        if let Err(e) = r { simrt::violation!(format!("content/{}", $op), "{}: {}", $op, e) }
    }};
}
#[macro_export]
macro_rules! agree_ctx {
    ($op:expr, $ctx:expr, $e:expr) => {{
        let r: $crate::model::Res = $crate::must!($op, $e);
        if let Err(e) = r { simrt::violation!(format!("content/{}", $op), "{}: {} [{}]", $op, e, $ctx) }
    }};
}
pub type ER = Result<(), EncodeError>;

/// Write an integer through one of the supported integer types (`ty` says which to try first).
pub fn put_int(e: &mut Encoder, i: i128, ty: u64) -> ER {
    for k in 0..10 {
        macro_rules! t { ($t:ty) => { if let Ok(x) = <$t>::try_from(i) { return if ty & 32 != 0 { e.write_value(Some(x)) } else if ty & 64 != 0 { e.write_value(&x) } else { e.write_value(x) }; } } }
        match ((ty & 15) + k) % 10 {
            0 => t!(i64), 1 => t!(u64), 2 => t!(i32), 3 => t!(u32), 4 => t!(i16), 5 => t!(u16), 6 => t!(i8), 7 => t!(u8), 8 => t!(isize), _ => t!(usize),
        }
    }
    unreachable!()
}
/// Write a scalar.
pub fn put_scalar(e: &mut Encoder, m: &M, ty: u64) -> ER {
    let opt = ty & 32 != 0;
    match m {
        M::Null => if opt { e.write_value(None::<i32>) } else { e.write_value(NullValue) },
        M::Undef => e.write_value(UndefinedValue),
        M::Bool(b) => if opt { e.write_value(Some(*b)) } else { e.write_value(*b) },
        M::Int(i) => put_int(e, *i, ty),
        M::F32(f) => if opt { e.write_value(Some(*f)) } else { e.write_value(*f) },
        M::F64(f) => if opt { e.write_value(Some(f)) } else { e.write_value(f) },
        M::Str(s) => if opt { e.write_value(Some(s.as_str())) } else { e.write_value(s.as_str()) },
        M::Data(d) => if opt { e.write_value(Some(d.as_slice())) } else { e.write_value(d.as_slice()) },
        _ => unreachable!(),
    }
}
/// Write any content. Dict entries go in an order that `how` decides.
pub fn put(e: &mut Encoder, m: &M, how: u64) -> ER {
    match m {
        M::Arr(v) => {
            e.begin_array(if how & 1 == 0 { v.len() } else { (how as usize) & 3 })?;
            for (i, x) in v.iter().enumerate() { put(e, x, simrt::rng::mix(how, i as u64))?; }
            e.end_array()
        }
        M::Dict(d) => {
            e.begin_dict()?;
            if how & 2 == 0 {
                for (i, (k, x)) in d.iter().enumerate() { e.write_key(k)?; put(e, x, simrt::rng::mix(how, i as u64))?; }
            } else {
                for (i, (k, x)) in d.iter().rev().enumerate() { e.write_key(k)?; put(e, x, simrt::rng::mix(how, i as u64))?; }
            }
            e.end_dict()
        }
        _ => put_scalar(e, m, how >> 8),
    }
}
/// Encode a document. Call inside `lib`/`call`.
pub fn encode(m: &M, how: u64) -> Result<Vec<u8>, EncodeError> {
    let mut e = Encoder::new();
    put(&mut e, m, how)?;
    Ok(e.finish())
}
pub fn encode_sk(m: &M, sk: SharedKeys, how: u64) -> Result<std::sync::Arc<fleece::Scope>, EncodeError> {
    let mut e = Encoder::new();
    e.set_shared_keys(sk);
    put(&mut e, m, how)?;
    Ok(e.finish_scoped())
}
/// Encode a document that must be accepted.
pub fn doc_bytes(m: &M, how: u64) -> Vec<u8> {
    match crate::must!("encode", encode(m, how)) {
        Ok(b) => simrt::pause_lib(|| b.as_slice().to_vec()),
        Err(e) => simrt::violation!("refused/encode", "the encoder refused valid content: {e:?}"),
    }
}
/// An even number of threads between 1 and `max`, mostly more than one.
pub fn threads(t: &mut Tape, max: usize) -> usize { 1 + t.usize(max) }
