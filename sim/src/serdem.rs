//! The content model through serde: a client type that accepts anything.
use crate::model::M;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::collections::BTreeMap;
use std::fmt;

pub struct De(pub M);
struct V;
macro_rules! ints { ($($f:ident $t:ty)*) => { $(fn $f<E>(self, v: $t) -> Result<M, E> { Ok(M::Int(v as i128)) })* } }
impl<'de> Visitor<'de> for V {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, v: bool) -> Result<M, E> { Ok(M::Bool(v)) }
    ints! { visit_i8 i8 visit_i16 i16 visit_i32 i32 visit_i64 i64 visit_u8 u8 visit_u16 u16 visit_u32 u32 visit_u64 u64 }
    fn visit_f32<E>(self, v: f32) -> Result<M, E> { Ok(M::F32(v)) }
    fn visit_f64<E>(self, v: f64) -> Result<M, E> { Ok(M::F64(v)) }
    fn visit_str<E>(self, v: &str) -> Result<M, E> { Ok(M::Str(v.to_string())) }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<M, E> { Ok(M::Data(v.to_vec())) }
    fn visit_none<E>(self) -> Result<M, E> { Ok(M::Null) }
    fn visit_unit<E>(self) -> Result<M, E> { Ok(M::Undef) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> { d.deserialize_any(V) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> { d.deserialize_any(V) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        let mut v = vec![];
        while let Some(De(x)) = a.next_element()? { v.push(x); }
        Ok(M::Arr(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        let mut d = BTreeMap::new();
        while let Some(k) = a.next_key::<String>()? { let De(x) = a.next_value()?; d.insert(k, x); }
        Ok(M::Dict(d))
    }
}
impl<'de> Deserialize<'de> for De { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_any(V).map(De) } }
