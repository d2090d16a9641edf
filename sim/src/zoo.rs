//! Client types for the serde round trips, with generators.
use crate::gen;
use serde::de::{self, DeserializeOwned, Deserializer, Visitor};
use serde::ser::Serializer;
use serde::{Deserialize, Serialize};
use simrt::{pause_lib, Tape};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::net::IpAddr;
use std::num::{NonZeroU16, Wrapping};
use std::ops::{Bound, Range};
use std::time::Duration;

/// `NULLISH`: the type's own encoding may be null, so `Option` of it says nothing.
pub trait Gen: Sized { const NULLISH: bool = false; fn gen(t: &mut Tape, d: usize) -> Self; }
macro_rules! ints { ($($t:ty)*) => { $(impl Gen for $t { fn gen(t: &mut Tape, _: usize) -> Self {
    match t.weighted(&[3, 3, 4]) { 0 => t.draw(20) as $t, 1 => t.pick(&[<$t>::MIN, <$t>::MAX, <$t>::MAX / 2, <$t>::MIN / 2, 1]), _ => gen::int(t) as $t }
} })* } }
ints!(i8 i16 i32 i64 u8 u16 u32 u64 isize usize);
impl Gen for bool { fn gen(t: &mut Tape, _: usize) -> Self { t.chance(1, 2) } }
impl Gen for f32 { fn gen(t: &mut Tape, _: usize) -> Self { gen::f32v(t) } }
impl Gen for f64 { fn gen(t: &mut Tape, _: usize) -> Self { gen::f64v(t) } }
impl Gen for char { fn gen(t: &mut Tape, _: usize) -> Self { match t.draw(3) { 0 => (b'a' + t.draw(26) as u8) as char, 1 => t.pick(&['\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '名', '\u{ffff}', '😀', '\u{10ffff}', '"']), _ => char::from_u32(t.draw(0x11_0000) as u32).unwrap_or('?') } } }
impl Gen for () { fn gen(_: &mut Tape, _: usize) -> Self {} }
impl Gen for String { fn gen(t: &mut Tape, _: usize) -> Self { let c = [12, 40, 400, 20_000][t.weighted(&[5, 5, 3, 1])]; gen::string(t, c) } }
impl Gen for Box<str> { fn gen(t: &mut Tape, d: usize) -> Self { String::gen(t, d).into() } }
impl Gen for Cow<'static, str> { fn gen(t: &mut Tape, d: usize) -> Self { Cow::Owned(String::gen(t, d)) } }
impl<T: Gen> Gen for Box<T> { const NULLISH: bool = T::NULLISH; fn gen(t: &mut Tape, d: usize) -> Self { Box::new(T::gen(t, d)) } }
impl<T: Gen> Gen for Option<T> { const NULLISH: bool = true; fn gen(t: &mut Tape, d: usize) -> Self { if T::NULLISH || t.chance(1, 3) { None } else { Some(T::gen(t, d)) } } }
impl<T: Gen, U: Gen> Gen for Result<T, U> { fn gen(t: &mut Tape, d: usize) -> Self { if t.chance(1, 2) { Err(U::gen(t, d)) } else { Ok(T::gen(t, d)) } } }
fn many(t: &mut Tape, d: usize) -> usize { if d > 2 { return t.usize(3); } match t.weighted(&[4, 8, 3, 1]) { 0 => 0, 1 => 1 + t.usize(4), 2 => t.usize(20), _ => if d == 0 { t.pick(&[255usize, 256, 300, 2046, 2047, 2048, 2049]) } else { t.usize(40) } } }
impl<T: Gen> Gen for Vec<T> { fn gen(t: &mut Tape, d: usize) -> Self { let n = many(t, d); (0..n).map(|i| T::gen(t, d + 1 + usize::from(n > 30) * 2 + usize::from(i > 40))).collect() } }
impl<T: Gen> Gen for Box<[T]> { fn gen(t: &mut Tape, d: usize) -> Self { Vec::gen(t, d).into() } }
impl<T: Gen> Gen for VecDeque<T> { fn gen(t: &mut Tape, d: usize) -> Self { Vec::gen(t, d).into() } }
impl<T: Gen> Gen for LinkedList<T> { fn gen(t: &mut Tape, d: usize) -> Self { Vec::gen(t, d).into_iter().collect() } }
impl<T: Gen + Ord> Gen for BTreeSet<T> { fn gen(t: &mut Tape, d: usize) -> Self { Vec::gen(t, d).into_iter().collect() } }
impl<T: Gen, const N: usize> Gen for [T; N] { fn gen(t: &mut Tape, d: usize) -> Self { std::array::from_fn(|_| T::gen(t, d + 1)) } }
impl<A: Gen, B: Gen> Gen for (A, B) { fn gen(t: &mut Tape, d: usize) -> Self { (A::gen(t, d + 1), B::gen(t, d + 1)) } }
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) { fn gen(t: &mut Tape, d: usize) -> Self { (A::gen(t, d + 1), B::gen(t, d + 1), C::gen(t, d + 1)) } }
impl<V: Gen> Gen for BTreeMap<String, V> { fn gen(t: &mut Tape, d: usize) -> Self { (0..many(t, d)).map(|_| (gen::key(t), V::gen(t, d + 1))).collect() } }
impl<V: Gen> Gen for BTreeMap<char, V> { fn gen(t: &mut Tape, d: usize) -> Self { (0..many(t, d)).map(|_| (char::gen(t, d), V::gen(t, d + 1))).collect() } }
impl<V: Gen> Gen for BTreeMap<KeyT, V> { fn gen(t: &mut Tape, d: usize) -> Self { (0..many(t, d)).map(|_| (KeyT(gen::key(t)), V::gen(t, d + 1))).collect() } }
impl Gen for Duration { fn gen(t: &mut Tape, d: usize) -> Self { Duration::new(u64::gen(t, d), t.draw(1_000_000_000) as u32) } }
impl Gen for IpAddr { fn gen(t: &mut Tape, d: usize) -> Self { if t.chance(1, 2) { IpAddr::from(<[u8; 16]>::gen(t, d)) } else { IpAddr::from(<[u8; 4]>::gen(t, d)) } } }
impl Gen for NonZeroU16 { fn gen(t: &mut Tape, d: usize) -> Self { NonZeroU16::new(u16::gen(t, d).max(1)).unwrap() } }
impl<T: Gen> Gen for Wrapping<T> { const NULLISH: bool = T::NULLISH; fn gen(t: &mut Tape, d: usize) -> Self { Wrapping(T::gen(t, d)) } }
impl<T: Gen> Gen for Range<T> { fn gen(t: &mut Tape, d: usize) -> Self { T::gen(t, d)..T::gen(t, d) } }
impl<T: Gen> Gen for Bound<T> { fn gen(t: &mut Tape, d: usize) -> Self { match t.draw(3) { 0 => Bound::Unbounded, 1 => Bound::Included(T::gen(t, d)), _ => Bound::Excluded(T::gen(t, d)) } } }
impl<T> Gen for PhantomData<T> { const NULLISH: bool = true; fn gen(_: &mut Tape, _: usize) -> Self { PhantomData } }

/// Declare a type and generate every field.
macro_rules! gen_struct { ($n:ident { $($f:ident),* }) => { impl Gen for $n { fn gen(t: &mut Tape, d: usize) -> Self { let _ = (&t, d); $n { $($f: Gen::gen(t, d + 1)),* } } } }; }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct KeyT(pub String);
#[derive(Serialize, Deserialize, Debug)]
pub struct Ints { a: i8, b: i16, c: i32, d: i64, e: u8, f: u16, g: u32, h: u64, i: isize, j: usize }
gen_struct!(Ints { a, b, c, d, e, f, g, h, i, j });
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Ints2 { a: i8, d: i64, h: u64, s: Vec<Option<String>> }
gen_struct!(Ints2 { a, d, h, s });
#[derive(Serialize, Deserialize, Debug)]
pub struct Floats { x: f32, y: f64, list: Vec<f64>, small: Vec<f32> }
gen_struct!(Floats { x, y, list, small });
#[derive(Debug, Default)]
pub struct Bytes(Vec<u8>);
impl Gen for Bytes { fn gen(t: &mut Tape, _: usize) -> Self { let c = [12, 40, 400, 20_000][t.weighted(&[5, 5, 3, 1])]; Bytes(gen::data(t, c)) } }
impl Serialize for Bytes { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl Visitor<'_> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bytes") }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> { Ok(Bytes(v.to_vec())) }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Bytes, E> { Ok(Bytes(v)) }
        }
        d.deserialize_byte_buf(V)
    }
}
#[derive(Serialize, Deserialize, Debug)]
pub struct Texts { #[serde(rename = "é clé")] s: String, c: char, #[serde(rename = "")] empty_name: Box<str>, b: Bytes, #[serde(rename = "a field name that is far too long to be shared")] long: Cow<'static, str>, #[serde(rename = "sixteen_chars_aa")] sixteen: Option<Bytes>, #[serde(rename = "0")] digit: Vec<char> }
gen_struct!(Texts { s, c, empty_name, b, long, sixteen, digit });
#[derive(Serialize, Deserialize, Debug)]
pub struct Unit;
impl Gen for Unit { const NULLISH: bool = true; fn gen(_: &mut Tape, _: usize) -> Self { Unit } }
#[derive(Serialize, Deserialize, Debug)]
pub struct New(Vec<i32>);
impl Gen for New { fn gen(t: &mut Tape, d: usize) -> Self { New(Gen::gen(t, d)) } }
#[derive(Serialize, Deserialize, Debug)]
pub struct NewS(Ints);
impl Gen for NewS { fn gen(t: &mut Tape, d: usize) -> Self { NewS(Gen::gen(t, d)) } }
#[derive(Serialize, Deserialize, Debug)]
pub struct Tup(u8, String, f64, Option<i16>);
impl Gen for Tup { fn gen(t: &mut Tape, d: usize) -> Self { Tup(Gen::gen(t, d), Gen::gen(t, d), Gen::gen(t, d), Gen::gen(t, d)) } }
#[derive(Serialize, Deserialize, Debug)]
pub struct Empty {}
gen_struct!(Empty {});
#[derive(Serialize, Deserialize, Debug)]
pub struct Units { a: Unit, b: (), c: PhantomData<u8>, d: Option<()>, e: Empty, f: Vec<()>, g: Vec<Unit>, h: [(); 0] }
gen_struct!(Units { a, b, c, d, e, f, g, h });
#[derive(Serialize, Deserialize, Debug)]
pub struct Opts {
    a: Option<i32>, b: Option<String>, c: Option<Vec<Option<u8>>>, d: Option<()>,
    #[serde(default, skip_serializing_if = "Option::is_none")] e: Option<u64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")] f: Vec<Option<bool>>,
    next: Option<Box<Opts>>, g: Option<Color>, h: Option<Empty>,
}
impl Gen for Opts { fn gen(t: &mut Tape, d: usize) -> Self { Opts { a: Gen::gen(t, d), b: Gen::gen(t, d), c: Gen::gen(t, d + 1), d: Gen::gen(t, d), e: Gen::gen(t, d), f: Gen::gen(t, d + 1), next: if d > 5 || t.chance(1, 2) { None } else { Some(Box::new(Opts::gen(t, d + 1))) }, g: Gen::gen(t, d), h: Gen::gen(t, d) } } }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Color { Red, #[serde(rename = "vert foncé")] Green, #[serde(rename = "")] Nameless, AVariantNameLongerThanFifteen }
impl Gen for Color { fn gen(t: &mut Tape, _: usize) -> Self { match t.draw(4) { 0 => Color::Red, 1 => Color::Green, 2 => Color::Nameless, _ => Color::AVariantNameLongerThanFifteen } } }
#[derive(Serialize, Deserialize, Debug)]
pub enum Shape {
    Unit, New(u32), NewOpt(Option<String>), NewUnit(()), NewNull(Unit), NewVec(Vec<u8>), NewEmpty(Empty), Tup(u8, String), Tup0(), Tup4(i64, f64, Option<u8>, Color),
    Struct { a: i64, b: Vec<i16>, #[serde(rename = "a key of this name is long")] c: Option<bool> }, Struct0 {},
    Skip { #[serde(default, skip_serializing_if = "Option::is_none")] x: Option<i8>, y: u8, #[serde(skip)] z: u8 },
    Nest(Box<Shape>), List(Vec<Shape>), Map(BTreeMap<String, Shape>), Pair(Box<Shape>, Box<Shape>), In { s: Box<Shape>, t: Option<Box<Shape>> },
}
impl Gen for Shape {
    fn gen(t: &mut Tape, d: usize) -> Self {
        match t.draw(if d > 4 { 13 } else { 19 }) {
            0 => Shape::Unit, 1 => Shape::New(Gen::gen(t, d)), 2 => Shape::NewOpt(Gen::gen(t, d)), 3 => Shape::NewUnit(()), 4 => Shape::NewNull(Unit), 5 => Shape::NewVec(Gen::gen(t, d)), 6 => Shape::NewEmpty(Empty {}),
            7 => Shape::Tup(Gen::gen(t, d), Gen::gen(t, d)), 8 => Shape::Tup0(), 9 => Shape::Tup4(Gen::gen(t, d), Gen::gen(t, d), Gen::gen(t, d), Gen::gen(t, d)),
            10 => Shape::Struct { a: Gen::gen(t, d), b: Gen::gen(t, d + 1), c: Gen::gen(t, d) }, 11 => Shape::Struct0 {}, 12 => Shape::Skip { x: Gen::gen(t, d), y: Gen::gen(t, d), z: 0 },
            13 => Shape::Nest(Gen::gen(t, d + 1)), 14 | 15 => Shape::List(Gen::gen(t, d + 1)), 16 => Shape::Map(Gen::gen(t, d + 1)), 17 => Shape::Pair(Gen::gen(t, d + 1), Gen::gen(t, d + 1)),
            _ => Shape::In { s: Gen::gen(t, d + 1), t: Gen::gen(t, d + 1) },
        }
    }
}
#[derive(Serialize, Deserialize, Debug)]
pub struct Maps { a: BTreeMap<String, i64>, b: BTreeMap<char, Option<String>>, c: BTreeMap<KeyT, Vec<u16>>, d: BTreeMap<String, BTreeMap<String, Color>>, e: BTreeMap<String, ()> }
gen_struct!(Maps { a, b, c, d, e });
#[derive(Serialize, Deserialize, Debug)]
pub struct Seqs { a: [u16; 3], b: (i8, String), c: VecDeque<i64>, d: BTreeSet<String>, e: LinkedList<bool>, f: Box<[u32]>, g: Vec<Vec<Vec<u8>>>, h: [String; 0], i: (Color, (f32, [bool; 2]), Vec<(u8, u8)>) }
gen_struct!(Seqs { a, b, c, d, e, f, g, h, i });
#[derive(Serialize, Deserialize, Debug)]
pub struct Std { a: Duration, b: IpAddr, c: NonZeroU16, d: Wrapping<i64>, e: Range<i32>, f: Bound<u8>, g: Result<u8, String>, h: Vec<Result<Option<i8>, Color>> }
gen_struct!(Std { a, b, c, d, e, f, g, h });
#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "type")]
pub enum Tagged { A { x: i32, y: Option<String> }, B(Point), C, #[serde(rename = "a long variant name here")] D { b: Bytes, l: Vec<u16> } }
#[derive(Serialize, Deserialize, Debug)]
pub struct Point { px: i64, py: f64 }
gen_struct!(Point { px, py });
impl Gen for Tagged { fn gen(t: &mut Tape, d: usize) -> Self { match t.draw(4) { 0 => Tagged::A { x: Gen::gen(t, d), y: Gen::gen(t, d) }, 1 => Tagged::B(Gen::gen(t, d)), 2 => Tagged::C, _ => Tagged::D { b: Gen::gen(t, d), l: Gen::gen(t, d + 1) } } } }
#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "t", content = "c")]
pub enum Adj { U, N(i64), T(u8, String), S { a: Vec<i8>, b: bool } }
impl Gen for Adj { fn gen(t: &mut Tape, d: usize) -> Self { match t.draw(4) { 0 => Adj::U, 1 => Adj::N(Gen::gen(t, d)), 2 => Adj::T(Gen::gen(t, d), Gen::gen(t, d)), _ => Adj::S { a: Gen::gen(t, d + 1), b: Gen::gen(t, d) } } } }
#[derive(Serialize, Deserialize, Debug)]
#[serde(untagged)]
pub enum Untagged { I(i64), F(f64), S(String), L(Vec<i32>), P { px: u8, s: String }, M(BTreeMap<String, bool>) }
impl Gen for Untagged {
    fn gen(t: &mut Tape, d: usize) -> Self {
        match t.draw(6) { 0 => Untagged::I(Gen::gen(t, d)), 1 => Untagged::F(Gen::gen(t, d)), 2 => Untagged::S(Gen::gen(t, d)), 3 => Untagged::L(Gen::gen(t, d + 1)), 4 => Untagged::P { px: Gen::gen(t, d), s: Gen::gen(t, d) }, _ => Untagged::M(Gen::gen(t, d + 1)) }
    }
}
#[derive(Serialize, Deserialize, Debug)]
pub struct Flat { id: u32, #[serde(flatten)] p: Point, #[serde(flatten)] rest: BTreeMap<String, u64> }
impl Gen for Flat { fn gen(t: &mut Tape, d: usize) -> Self { Flat { id: Gen::gen(t, d), p: Gen::gen(t, d), rest: { let mut m: BTreeMap<String, u64> = Gen::gen(t, d + 1); for k in ["id", "px", "py"] { m.remove(k); } m } } } }
#[derive(Serialize, Deserialize, Debug)]
pub enum Wrap<T> { W(T), Two(T, T), St { a: T, b: Option<Box<T>> }, Many(Vec<T>), No }
impl<T: Gen> Gen for Wrap<T> {
    fn gen(t: &mut Tape, d: usize) -> Self { match t.draw(5) { 0 => Wrap::W(T::gen(t, d + 1)), 1 => Wrap::Two(T::gen(t, d + 1), T::gen(t, d + 2)), 2 => Wrap::St { a: T::gen(t, d + 1), b: Gen::gen(t, d + 2) }, 3 => Wrap::Many(Gen::gen(t, d + 1)), _ => Wrap::No } }
}
/// A field that is itself a document, written and read while the outer one is being written and read.
#[derive(Debug)]
pub struct Doc<T>(T);
impl<T: Gen> Gen for Doc<T> { fn gen(t: &mut Tape, d: usize) -> Self { Doc(T::gen(t, d + 1)) } }
impl<T: Serialize> Serialize for Doc<T> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&fleece::to_bytes(&self.0).map_err(serde::ser::Error::custom)?) } }
impl<'de, T: DeserializeOwned> Deserialize<'de> for Doc<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let b = Bytes::deserialize(d)?; fleece::from_bytes(&b.0).map(Doc).map_err(de::Error::custom) }
}
/// The same, with shared keys of its own.
#[derive(Debug)]
pub struct ScopedDoc<T>(T);
impl<T: Gen> Gen for ScopedDoc<T> { fn gen(t: &mut Tape, d: usize) -> Self { ScopedDoc(T::gen(t, d + 1)) } }
impl<T: Serialize + DeserializeOwned + Debug> Serialize for ScopedDoc<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let sc = fleece::to_bytes_with_shared_keys(&self.0).map_err(serde::ser::Error::custom)?;
        let d = sc.data().ok_or_else(|| serde::ser::Error::custom("no data"))?;
        let back: T = fleece::from_bytes(&d).map_err(serde::ser::Error::custom)?;
        if format!("{back:?}") != format!("{:?}", self.0) { return Err(serde::ser::Error::custom("inner document differs")); }
        s.serialize_bytes(&fleece::to_bytes(&back).map_err(serde::ser::Error::custom)?)
    }
}
impl<'de, T: DeserializeOwned> Deserialize<'de> for ScopedDoc<T> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Doc::deserialize(d).map(|x| ScopedDoc(x.0)) } }

thread_local! { static CLOSING: std::cell::RefCell<Option<std::sync::Arc<fleece::Scope>>> = const { std::cell::RefCell::new(None) }; }
/// Whoever reads a `Close` on this thread next removes the scope from the registry.
pub fn set_closing(s: Option<std::sync::Arc<fleece::Scope>>) -> Option<std::sync::Arc<fleece::Scope>> { CLOSING.with(|c| c.replace(s)) }
#[derive(Debug)]
pub struct Close;
impl Gen for Close { const NULLISH: bool = true; fn gen(_: &mut Tape, _: usize) -> Self { Close } }
impl Serialize for Close { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
impl<'de> Deserialize<'de> for Close {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <()>::deserialize(d)?;
        if let Some(s) = set_closing(None) { s.remove(); simrt::count("fault: scope removed in the middle of a deserialization"); }
        Ok(Close)
    }
}
pub trait Val { fn ser(&self) -> Result<Vec<u8>, fleece::Error>; fn ser_sk(&self) -> Result<std::sync::Arc<fleece::Scope>, fleece::Error>; fn text(&self) -> String; }
impl<T: Serialize + Debug> Val for T {
    fn ser(&self) -> Result<Vec<u8>, fleece::Error> { fleece::to_bytes(self) }
    fn ser_sk(&self) -> Result<std::sync::Arc<fleece::Scope>, fleece::Error> { fleece::to_bytes_with_shared_keys(self) }
    fn text(&self) -> String { format!("{self:?}") }
}
pub struct Ty { pub name: &'static str, pub gen: fn(&mut Tape) -> Box<dyn Val>, pub read: fn(&[u8]) -> Result<String, fleece::Error> }
fn gen_t<T: Gen + Serialize + Debug + 'static>(t: &mut Tape) -> Box<dyn Val> { Box::new(T::gen(t, 0)) }
fn read_t<T: DeserializeOwned + Debug>(b: &[u8]) -> Result<String, fleece::Error> { fleece::from_bytes::<T>(b).map(|v| pause_lib(|| format!("{v:?}"))) }
macro_rules! zoo { ($($t:ty),* $(,)?) => { pub const ZOO: &[Ty] = &[$(Ty { name: stringify!($t), gen: gen_t::<$t>, read: read_t::<$t> }),*]; } }
zoo! {
    Ints, Floats, Texts, New, NewS, Tup, Empty, Units, Opts, Color, Shape, Maps, Seqs, Std, Tagged, Adj, Flat,
    Vec<Untagged>, Vec<Ints>, Vec<Texts>, Vec<Opts>, Vec<Shape>, Vec<Tagged>, Vec<Adj>, Vec<Color>, Vec<i64>, Vec<u64>, Vec<String>, Vec<f64>, Vec<Bytes>, Vec<Option<Vec<u8>>>, Vec<(String, i32)>,
    BTreeMap<String, String>, BTreeMap<String, Opts>, BTreeMap<String, Shape>, BTreeMap<char, u64>, BTreeMap<KeyT, Tup>, BTreeMap<String, Vec<Maps>>,
    (Ints, Texts), (Color, Shape, Unit), [Seqs; 2], Box<Flat>, LinkedList<Std>, Wrap<Ints>, Wrap<Shape>, Wrap<Opts>, Wrap<String>, Wrap<()>, Wrap<Unit>, Wrap<Wrap<Color>>, Wrap<Maps>, Wrap<Bytes>,
    Result<Point, Shape>, Bound<Floats>, Range<Option<i32>>, (Doc<Opts>, u8), (Close, Wrap<Shape>), (Close, Maps), Vec<(Close, Option<Ints2>, Shape)>, Wrap<Doc<Shape>>, (ScopedDoc<Maps>, ScopedDoc<Vec<Texts>>), Vec<Doc<Vec<Doc<Tagged>>>>,
}
