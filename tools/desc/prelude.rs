// Support for generated descriptions (C19, C24): neutral values, a tracing serializer, a library of conversions.
use std::string::{String, ToString};
use std::vec::Vec;

#[derive(Clone, Debug, PartialEq)]
pub enum Val { I(i128), F(f64), G(f32), B(Vec<u8>), S(String), Nb(bool), N, L(Vec<Val>), E(String, u8) }
pub trait V { fn v(self) -> Val; }
macro_rules! vi { ($($t:ty)*) => { $(impl V for $t { fn v(self) -> Val { Val::I(self as i128) } })* } }
vi!(u8 i8 u16 i16 u32 i32 u64 i64 usize);
impl V for f64 { fn v(self) -> Val { Val::F(self) } }
impl V for f32 { fn v(self) -> Val { Val::G(self) } }
impl V for bool { fn v(self) -> Val { Val::Nb(self) } }
impl V for &[u8] { fn v(self) -> Val { Val::B(self.to_vec()) } }
impl<const N: usize> V for [u8; N] { fn v(self) -> Val { Val::B(self.to_vec()) } }
impl V for &str { fn v(self) -> Val { Val::S(self.to_string()) } }
impl<T: V> V for Option<T> { fn v(self) -> Val { match self { None => Val::N, Some(x) => x.v() } } }

/// One input of a builder.
#[derive(Clone, Debug)]
pub enum In { I(i128), F(f64), B(Vec<u8>), L(Vec<Vec<u8>>) }
impl In {
    pub fn i(&self) -> i128 { match self { In::I(x) => *x, _ => panic!("harness: input kind") } }
    pub fn f(&self) -> f64 { match self { In::F(x) => *x, _ => panic!("harness: input kind") } }
    pub fn a<const N: usize>(&self) -> [u8; N] { match self { In::B(x) => <[u8; N] as core::convert::TryFrom<&[u8]>>::try_from(&x[..]).expect("harness: size"), _ => panic!("harness: input kind") } }
    pub fn l(&self) -> Vec<Item> { match self { In::L(x) => x.iter().map(|b| Item(b.clone())).collect(), _ => panic!("harness: input kind") } }
}
/// Item of a variable-length builder field.
pub struct Item(Vec<u8>);
impl Item {
    pub fn extend_to<T>(&self, out: &mut T) -> usize where T: core::iter::Extend<u8> + core::ops::DerefMut<Target = [u8]> { out.extend(self.0.iter().copied()); self.0.len() }
}

/// Records what a builder asks of its writer.
#[derive(Default)]
pub struct Log { pub reserved: Vec<usize>, pub writes: Vec<Vec<u8>>, pub late: bool }
impl MemWriter for Log {
    type Error = ();
    fn reserve_allocate(&mut self, n: usize) -> Result<(), MemWriterError<()>> { if !self.writes.is_empty() { self.late = true; } self.reserved.push(n); Ok(()) }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<()>> { self.writes.push(b.to_vec()); Ok(()) }
}

pub struct Recv {
    pub validate: fn(&[u8]) -> Result<(), ParserError>,
    pub get: fn(&[u8]) -> Vec<(&'static str, Val)>,
    pub bytes: fn(&[u8]) -> Vec<u8>,
    pub debug: fn(&[u8]) -> (String, Vec<(&'static str, String)>),
    pub ser: fn(&[u8]) -> (Ser, Vec<(&'static str, Ser)>),
}
pub struct Fixed { pub len: usize, pub bytes: fn(&[In]) -> Vec<u8>, pub from: fn(&[In]) -> Vec<u8>, pub create: fn(&[In], &mut Log) -> bool, pub default: Option<fn() -> Vec<u8>> }
pub struct Dynamic { pub vec: fn(&[In]) -> Vec<u8>, pub extend: fn(&[In], Vec<u8>) -> Vec<u8>, pub default: Option<fn() -> Vec<u8>> }
pub struct Pk { pub name: &'static str, pub class: u8, pub id: u8, pub fixed: Option<u16>, pub max: u16, pub recv: Option<Recv>, pub send: Option<Fixed>, pub dynamic: Option<Dynamic> }
pub struct En {
    pub name: &'static str,
    pub from: Option<fn(u8) -> Val>,
    pub from_unchecked: Option<fn(u8) -> Val>,
    pub is_valid: Option<fn(u8) -> bool>,
    /// constant -> (Debug text, value), for every constant that must exist
    pub consts: fn() -> Vec<(&'static str, Val)>,
    pub raw: Option<fn(u8) -> u8>,
    pub ser: fn(u8) -> Ser,
}
pub struct Fl {
    pub name: &'static str,
    pub from: Option<fn(u32) -> u32>,
    pub raw: Option<fn(u32) -> u32>,
    pub all: u32,
    pub consts: fn() -> Vec<(&'static str, u32)>,
    pub ser: fn(u32) -> Ser,
}
pub struct Hit { pub variant: String, pub pair: (u8, u8), pub bytes: Vec<u8>, pub debug: String, pub inner_debug: String, pub ser: Ser }
pub struct Gr { pub packets: &'static [Pk], pub enums: &'static [En], pub flags: &'static [Fl], pub max: u16, pub parse: fn(u8, u8, &[u8]) -> Result<Hit, ParserError> }

// ---- conversions the descriptions use
macro_rules! conv { ($($t:ident $c:ident $from2:ident $valid2:ident $into2:ident $plus1:ident $infl:ident $isnz:ident $nzvalid:ident $nzinto:ident $opt:ident $optinto:ident)*) => { $(
    #[derive(Debug, Clone, Copy, PartialEq, Default)]
    #[cfg_attr(feature = "serde", derive(serde::Serialize))]
    pub struct $c(pub $t);
    impl $c {
        fn from(x: $t) -> Self { $c(x ^ 0x35) }
        fn from_unchecked(x: $t) -> Self { $c(x ^ 0x6b) }
        fn is_valid(x: $t) -> bool { (x as i64).rem_euclid(5) != 3 }
        fn into_raw(self) -> $t { self.0 ^ 0x35 }
    }
    impl V for $c { fn v(self) -> Val { Val::I(self.0 as i128) } }
    pub fn $from2(x: $t) -> $c { $c(x.wrapping_add(7)) }
    pub fn $valid2(x: $t) -> bool { (x as i64).rem_euclid(7) != 2 }
    pub fn $into2(x: $c) -> $t { x.0.wrapping_sub(9) }
    pub fn $plus1(x: $t) -> f64 { x as f64 + 1.0 }
    pub fn $infl(x: f64) -> $t { x as $t }
    pub fn $isnz(x: $t) -> bool { x & 1 == 1 }
    pub fn $nzvalid(x: $t) -> bool { x as i64 >= 0 && x as i64 <= 3 }
    pub fn $nzinto(x: bool) -> $t { if x { 3 } else { 2 } }
    pub fn $opt(x: $t) -> Option<$t> { if x == 0 { None } else { Some(x) } }
    pub fn $optinto(x: Option<$t>) -> $t { x.unwrap_or(0) }
)* } }
conv! {
    u8 CvU8 u8_from2 u8_valid2 u8_into2 u8_plus1 u8_of_f64 u8_odd u8_small u8_of_bool u8_opt u8_of_opt
    i8 CvI8 i8_from2 i8_valid2 i8_into2 i8_plus1 i8_of_f64 i8_odd i8_small i8_of_bool i8_opt i8_of_opt
    u16 CvU16 u16_from2 u16_valid2 u16_into2 u16_plus1 u16_of_f64 u16_odd u16_small u16_of_bool u16_opt u16_of_opt
    i16 CvI16 i16_from2 i16_valid2 i16_into2 i16_plus1 i16_of_f64 i16_odd i16_small i16_of_bool i16_opt i16_of_opt
    u32 CvU32 u32_from2 u32_valid2 u32_into2 u32_plus1 u32_of_f64 u32_odd u32_small u32_of_bool u32_opt u32_of_opt
    i32 CvI32 i32_from2 i32_valid2 i32_into2 i32_plus1 i32_of_f64 i32_odd i32_small i32_of_bool i32_opt i32_of_opt
}
macro_rules! narrow { ($($n:ident $w:ident $t:ident)*) => { $(pub fn $n(x: $w) -> $t { x as $t })* } }
narrow! { u16_to_u8 u16 u8 u32_to_u8 u32 u8 i32_to_u8 i32 u8 i16_to_u8 i16 u8 i16_to_i8 i16 i8 i32_to_i8 i32 i8 u32_to_u16 u32 u16 i32_to_u16 i32 u16 i32_to_i16 i32 i16 }

pub mod deep { pub mod er { pub use super::super::{u8_from2, u8_valid2, u8_into2, u16_from2, u16_valid2, u16_into2}; } }

fn b_str(b: &[u8]) -> &str { core::str::from_utf8(b).unwrap_or("?") }
fn b_utf8(b: &[u8]) -> bool { core::str::from_utf8(b).is_ok() }
fn b_same(b: &[u8]) -> &[u8] { b }
fn b_first(b: &[u8]) -> bool { b.first() != Some(&0xee) }
fn b_opt32(b: &[u8]) -> Option<u32> { if b.len() < 4 { None } else { Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]])) } }
fn b_optstr(b: &[u8]) -> Option<&str> { core::str::from_utf8(b).ok() }
#[derive(Debug, Clone, Copy, PartialEq, Default)]
#[cfg_attr(feature = "serde", derive(serde::Serialize))]
pub struct Sum(pub u32);
fn total(b: &[u8]) -> u32 { b.iter().enumerate().map(|(i, x)| (i as u32 + 1) * *x as u32).sum() }
impl Sum {
    fn from(b: &[u8]) -> Self { Sum(total(b)) }
    fn from_unchecked(b: &[u8]) -> Self { Sum(total(b) + 1) }
    fn is_valid(b: &[u8]) -> bool { b_first(b) }
    fn plus2(b: &[u8]) -> Self { Sum(total(b) + 2) }
}
fn sum_to_u16(s: Sum) -> u16 { s.0 as u16 }
fn sum_to_u32(s: Sum) -> u32 { s.0 }
impl V for Sum { fn v(self) -> Val { Val::I(self.0 as i128) } }

macro_rules! iters { ($($n:ident $w:literal $t:ident)*) => { $(
    #[derive(Clone)]
    pub struct $n<'a>(core::slice::ChunksExact<'a, u8>, u8);
    impl<'a> $n<'a> {
        fn new(b: &'a [u8]) -> Self { $n(b.chunks_exact($w), 0) }
        fn from(b: &'a [u8]) -> Self { $n(b.chunks_exact($w), 1) }
        fn from_unchecked(b: &'a [u8]) -> Self { $n(b.chunks_exact($w), 2) }
        fn is_valid(b: &[u8]) -> bool { b.len() % $w == 0 }
    }
    impl<'a> Iterator for $n<'a> { type Item = $t; fn next(&mut self) -> Option<$t> { self.0.next().map(|c| c.iter().fold(0, |a, x| (a as u32 * 256 + *x as u32) as $t)) } }
    impl core::fmt::Debug for $n<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{}/{}{:?}", stringify!($n), self.1, self.clone().collect::<Vec<_>>()) } }
    impl V for $n<'_> { fn v(self) -> Val { let mut l = Vec::from([Val::I(self.1 as i128)]); l.extend(self.map(|x| x.v())); Val::L(l) } }
)* } }
iters! { It1 1 u8 It2 2 u16 It3 3 u32 It4 4 u32 }

// ---- tracing serializer
#[derive(Clone, Debug, PartialEq)]
pub enum Ser { U(u64, u8), I(i64, u8), F(u64), G(u32), B(bool), S(String), None, Unit, Seq(Vec<Ser>), Map(Vec<(Ser, Ser)>), Other(&'static str) }
#[derive(Debug)]
pub struct SerErr(String);
impl core::fmt::Display for SerErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for SerErr {}
impl serde::ser::Error for SerErr { fn custom<T: core::fmt::Display>(m: T) -> Self { SerErr(m.to_string()) } }
pub fn ser<T: serde::Serialize + ?Sized>(x: &T) -> Ser { x.serialize(Tr).unwrap_or(Ser::Other("error")) }
pub fn ser_iter<I: Iterator>(x: I) -> Ser where I::Item: serde::Serialize { Ser::Seq(x.map(|i| ser(&i)).collect()) }
#[derive(Clone, Copy)]
pub struct Tr;
pub struct Many(Vec<Ser>, Vec<(Ser, Ser)>, Option<Ser>);
type SR = Result<Ser, SerErr>;
impl serde::Serializer for Tr {
    type Ok = Ser; type Error = SerErr;
    type SerializeSeq = Many; type SerializeTuple = Many; type SerializeTupleStruct = Many; type SerializeTupleVariant = Many; type SerializeMap = Many; type SerializeStruct = Many; type SerializeStructVariant = Many;
    fn serialize_bool(self, v: bool) -> SR { Ok(Ser::B(v)) }
    fn serialize_i8(self, v: i8) -> SR { Ok(Ser::I(v as i64, 1)) }
    fn serialize_i16(self, v: i16) -> SR { Ok(Ser::I(v as i64, 2)) }
    fn serialize_i32(self, v: i32) -> SR { Ok(Ser::I(v as i64, 4)) }
    fn serialize_i64(self, v: i64) -> SR { Ok(Ser::I(v, 8)) }
    fn serialize_u8(self, v: u8) -> SR { Ok(Ser::U(v as u64, 1)) }
    fn serialize_u16(self, v: u16) -> SR { Ok(Ser::U(v as u64, 2)) }
    fn serialize_u32(self, v: u32) -> SR { Ok(Ser::U(v as u64, 4)) }
    fn serialize_u64(self, v: u64) -> SR { Ok(Ser::U(v, 8)) }
    fn serialize_f32(self, v: f32) -> SR { Ok(Ser::G(v.to_bits())) }
    fn serialize_f64(self, v: f64) -> SR { Ok(Ser::F(v.to_bits())) }
    fn serialize_char(self, v: char) -> SR { Ok(Ser::S(v.to_string())) }
    fn serialize_str(self, v: &str) -> SR { Ok(Ser::S(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> SR { Ok(Ser::Seq(v.iter().map(|b| Ser::U(*b as u64, 1)).collect())) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, v: &T) -> SR { Ok(Ser::S(v.to_string())) }
    fn serialize_none(self) -> SR { Ok(Ser::None) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, v: &T) -> SR { v.serialize(Tr) }
    fn serialize_unit(self) -> SR { Ok(Ser::Unit) }
    fn serialize_unit_struct(self, n: &'static str) -> SR { Ok(Ser::Other(n)) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> SR { Ok(Ser::Other(n)) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> SR { v.serialize(Tr) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, n: &'static str, _: &T) -> SR { Ok(Ser::Other(n)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, SerErr> { Ok(Many(Vec::new(), Vec::new(), None)) }
    fn serialize_tuple(self, _: usize) -> Result<Many, SerErr> { self.serialize_seq(None) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, SerErr> { self.serialize_seq(None) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, SerErr> { self.serialize_seq(None) }
    fn serialize_map(self, _: Option<usize>) -> Result<Many, SerErr> { self.serialize_seq(None) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Many, SerErr> { self.serialize_seq(None) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, SerErr> { self.serialize_seq(None) }
}
impl serde::ser::SerializeSeq for Many { type Ok = Ser; type Error = SerErr; fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SerErr> { self.0.push(v.serialize(Tr)?); Ok(()) } fn end(self) -> SR { Ok(Ser::Seq(self.0)) } }
impl serde::ser::SerializeTuple for Many { type Ok = Ser; type Error = SerErr; fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SerErr> { self.0.push(v.serialize(Tr)?); Ok(()) } fn end(self) -> SR { Ok(Ser::Seq(self.0)) } }
impl serde::ser::SerializeTupleStruct for Many { type Ok = Ser; type Error = SerErr; fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SerErr> { self.0.push(v.serialize(Tr)?); Ok(()) } fn end(self) -> SR { Ok(Ser::Seq(self.0)) } }
impl serde::ser::SerializeTupleVariant for Many { type Ok = Ser; type Error = SerErr; fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SerErr> { self.0.push(v.serialize(Tr)?); Ok(()) } fn end(self) -> SR { Ok(Ser::Seq(self.0)) } }
impl serde::ser::SerializeMap for Many {
    type Ok = Ser; type Error = SerErr;
    fn serialize_key<T: ?Sized + serde::Serialize>(&mut self, k: &T) -> Result<(), SerErr> { self.2 = Some(k.serialize(Tr)?); Ok(()) }
    fn serialize_value<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SerErr> { let k = self.2.take().unwrap_or(Ser::None); self.1.push((k, v.serialize(Tr)?)); Ok(()) }
    fn end(self) -> SR { Ok(Ser::Map(self.1)) }
}
impl serde::ser::SerializeStruct for Many { type Ok = Ser; type Error = SerErr; fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> { self.1.push((Ser::S(k.to_string()), v.serialize(Tr)?)); Ok(()) } fn end(self) -> SR { Ok(Ser::Map(self.1)) } }
impl serde::ser::SerializeStructVariant for Many { type Ok = Ser; type Error = SerErr; fn serialize_field<T: ?Sized + serde::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> { self.1.push((Ser::S(k.to_string()), v.serialize(Tr)?)); Ok(()) } fn end(self) -> SR { Ok(Ser::Map(self.1)) } }
