// A positional binary form for serde: values are rebuilt through their (de)serialization, so the
// harness names no private field.
#![allow(dead_code)]
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self { E }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { E }
    fn missing_field(_: &'static str) -> Self { E }
    fn duplicate_field(_: &'static str) -> Self { E }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { E }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { E }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { E }
}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self { E }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    U(u64),
    S(&'a str),
    B(&'a [u8]),
    /// sequence/struct/tuple/map of n elements (maps: key, value alternate)
    Open(usize),
    None,
    Some,
}
pub struct De<'a, 't> {
    t: &'t [Tok<'a>],
    k: usize,
}
pub fn decode<'a, T: de::Deserialize<'a>>(t: &[Tok<'a>]) -> Result<T, E> {
    let mut d = De { t, k: 0 };
    let v = T::deserialize(&mut d)?;
    if d.k == t.len() { Ok(v) } else { Err(E) }
}
impl<'a, 't> De<'a, 't> {
    fn next(&mut self) -> Result<Tok<'a>, E> {
        let x = self.t.get(self.k).cloned().ok_or(E)?;
        self.k += 1;
        Ok(x)
    }
    fn u(&mut self) -> Result<u64, E> { match self.next()? { Tok::U(x) => Ok(x), _ => Err(E) } }
    fn open(&mut self) -> Result<usize, E> { match self.next()? { Tok::Open(x) => Ok(x), _ => Err(E) } }
}
macro_rules! ints { ($($f:ident $v:ident $t:ty;)*) => { $(fn $f<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { v.$v(self.u()? as $t) })* } }
impl<'a, 't> Deserializer<'a> for &mut De<'a, 't> {
    type Error = E;
    fn deserialize_any<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> {
        match self.t.get(self.k) {
            Some(Tok::U(_)) => self.deserialize_u64(v),
            Some(Tok::S(_)) => self.deserialize_str(v),
            Some(Tok::B(_)) => self.deserialize_bytes(v),
            Some(Tok::Open(_)) => self.deserialize_seq(v),
            Some(Tok::None | Tok::Some) => self.deserialize_option(v),
            None => Err(E),
        }
    }
    ints! { deserialize_u8 visit_u8 u8; deserialize_u16 visit_u16 u16; deserialize_u32 visit_u32 u32; deserialize_u64 visit_u64 u64;
            deserialize_i8 visit_i8 i8; deserialize_i16 visit_i16 i16; deserialize_i32 visit_i32 i32; deserialize_i64 visit_i64 i64; }
    fn deserialize_bool<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { v.visit_bool(self.u()? != 0) }
    fn deserialize_str<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { match self.next()? { Tok::S(s) => v.visit_borrowed_str(s), _ => Err(E) } }
    fn deserialize_string<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { self.deserialize_str(v) }
    fn deserialize_identifier<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { self.deserialize_str(v) }
    fn deserialize_bytes<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { match self.next()? {
        Tok::B(s) => v.visit_borrowed_bytes(s),
        Tok::Open(n) => {
            let mut b = Vec::with_capacity(n);
            for _ in 0..n { b.push(self.u()? as u8); }
            v.visit_byte_buf(b)
        }
        _ => Err(E) } }
    fn deserialize_byte_buf<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { self.deserialize_bytes(v) }
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { match self.next()? { Tok::None => v.visit_none(), Tok::Some => v.visit_some(self), _ => Err(E) } }
    fn deserialize_unit<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> {
        let n = self.open()?;
        v.visit_seq(Seq { d: self, n })
    }
    fn deserialize_tuple<V: Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_seq(v) }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_seq(v) }
    fn deserialize_struct<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_seq(v) }
    fn deserialize_map<V: Visitor<'a>>(self, v: V) -> Result<V::Value, E> {
        let n = self.open()?;
        v.visit_map(Seq { d: self, n })
    }
    fn deserialize_enum<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_enum(self) }
    serde::forward_to_deserialize_any! { <V: Visitor<'a>> f32 f64 char ignored_any i128 u128 }
    fn is_human_readable(&self) -> bool { false }
}
impl<'a, 't> EnumAccess<'a> for &mut De<'a, 't> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Result<(T::Value, Self), E> {
        let i = self.u()? as u32;
        let v = s.deserialize(de::value::U32Deserializer::<E>::new(i))?;
        Ok((v, self))
    }
}
impl<'a, 't> VariantAccess<'a> for &mut De<'a, 't> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Result<T::Value, E> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, E> { self.deserialize_seq(v) }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_seq(v) }
}
struct Seq<'x, 'a, 't> {
    d: &'x mut De<'a, 't>,
    n: usize,
}
impl<'a> SeqAccess<'a> for Seq<'_, 'a, '_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 { return Ok(None); }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.n) }
}
impl<'a> de::MapAccess<'a> for Seq<'_, 'a, '_> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.n == 0 { return Ok(None); }
        self.n -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(&mut *self.d) }
    fn size_hint(&self) -> Option<usize> { Some(self.n) }
}

// ---- the matching serializer -------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum OTok { U(u64), S(String), B(Vec<u8>), Open(usize), None, Some }
#[derive(Default)]
pub struct Ser { pub t: Vec<OTok> }
pub fn encode<T: Serialize + ?Sized>(v: &T) -> Result<Vec<OTok>, E> {
    let mut s = Ser::default();
    v.serialize(&mut s)?;
    Ok(s.t)
}
pub fn borrow(t: &[OTok]) -> Vec<Tok<'_>> {
    t.iter().map(|x| match x {
        OTok::U(k) => Tok::U(*k),
        OTok::S(s) => Tok::S(s),
        OTok::B(b) => Tok::B(b),
        OTok::Open(n) => Tok::Open(*n),
        OTok::None => Tok::None,
        OTok::Some => Tok::Some,
    }).collect()
}
pub struct Comp<'s> { s: &'s mut Ser, at: usize, n: usize }
impl<'s> Comp<'s> {
    fn new(s: &'s mut Ser) -> Self { let at = s.t.len(); s.t.push(OTok::Open(0)); Comp { s, at, n: 0 } }
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.n += 1; v.serialize(&mut *self.s) }
    fn fin(self) -> Result<(), E> { self.s.t[self.at] = OTok::Open(self.n); Ok(()) }
}
macro_rules! sints { ($($f:ident $t:ty;)*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.t.push(OTok::U(v as u64)); Ok(()) })* } }
impl<'s> ser::Serializer for &'s mut Ser {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Comp<'s>;
    type SerializeTuple = Comp<'s>;
    type SerializeTupleStruct = Comp<'s>;
    type SerializeTupleVariant = Comp<'s>;
    type SerializeMap = Comp<'s>;
    type SerializeStruct = Comp<'s>;
    type SerializeStructVariant = Comp<'s>;
    sints! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_char char; }
    fn serialize_f32(self, _: f32) -> Result<(), E> { Err(E) }
    fn serialize_f64(self, _: f64) -> Result<(), E> { Err(E) }
    fn serialize_str(self, v: &str) -> Result<(), E> { self.t.push(OTok::S(v.to_string())); Ok(()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> { self.t.push(OTok::B(v.to_vec())); Ok(()) }
    fn serialize_none(self) -> Result<(), E> { self.t.push(OTok::None); Ok(()) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> { self.t.push(OTok::Some); v.serialize(self) }
    fn serialize_unit(self) -> Result<(), E> { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> { self.t.push(OTok::U(i as u64)); Ok(()) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> { self.t.push(OTok::U(i as u64)); v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Comp<'s>, E> { Ok(Comp::new(self)) }
    fn serialize_tuple(self, _: usize) -> Result<Comp<'s>, E> { Ok(Comp::new(self)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Comp<'s>, E> { Ok(Comp::new(self)) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Comp<'s>, E> { self.t.push(OTok::U(i as u64)); Ok(Comp::new(self)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Comp<'s>, E> { Ok(Comp::new(self)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Comp<'s>, E> { Ok(Comp::new(self)) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Comp<'s>, E> { self.t.push(OTok::U(i as u64)); Ok(Comp::new(self)) }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! comp { ($($tr:ident $f:ident;)*) => { $(impl ser::$tr for Comp<'_> { type Ok = (); type Error = E;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.add(v) } fn end(self) -> Result<(), E> { self.fin() } })* } }
comp! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
macro_rules! comps { ($($tr:ident;)*) => { $(impl ser::$tr for Comp<'_> { type Ok = (); type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> { self.add(v) } fn end(self) -> Result<(), E> { self.fin() } })* } }
comps! { SerializeStruct; SerializeStructVariant; }
impl ser::SerializeMap for Comp<'_> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.add(v) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut *self.s) }
    fn end(self) -> Result<(), E> { self.fin() }
}

// ---- proofs ------------------------------------------------------------------------------
/// Collects the field names of a struct and stops.
struct Probe<'p>(&'p std::cell::Cell<&'static [&'static str]>);
impl<'a> Deserializer<'a> for Probe<'_> {
    type Error = E;
    fn deserialize_any<V: Visitor<'a>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_struct<V: Visitor<'a>>(self, _: &'static str, f: &'static [&'static str], _: V) -> Result<V::Value, E> {
        self.0.set(f);
        Err(E)
    }
    serde::forward_to_deserialize_any! { <V: Visitor<'a>> bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any }
    fn is_human_readable(&self) -> bool { false }
}
fn bit_toks<'a>(b: &[bool]) -> Vec<Tok<'a>> {
    let nw = b.len().div_ceil(32);
    let mut t = vec![Tok::Open(4), Tok::S("bitvec::order::Lsb0"), Tok::Open(2), Tok::U(32), Tok::U(0), Tok::U(b.len() as u64), Tok::Open(nw)];
    for w in 0..nw {
        let mut x = 0u64;
        for k in 0..32 {
            if let Some(v) = b.get(32 * w + k) {
                x |= (*v as u64) << k;
            }
        }
        t.push(Tok::U(x));
    }
    t
}
/// A multiproof as it arrives from the (untrusted) host: rebuilt from its serialized form. Fields
/// are matched by name where the names are the known ones, by position otherwise.
pub fn proof<'a, M: de::Deserialize<'a>>(data: &'a [u8], mask: &[bool], desc: &[bool], hint: u64) -> M {
    let cell = std::cell::Cell::new(&[] as &'static [&'static str]);
    let _ = M::deserialize(Probe(&cell));
    let parts = [("data", vec![Tok::B(data)]), ("value_mask", bit_toks(mask)), ("descriptor", bit_toks(desc)), ("max_stack_depth", vec![Tok::U(hint)])];
    let names = cell.get();
    let mut t = vec![Tok::Open(4)];
    if names.len() == 4 && parts.iter().all(|p| names.contains(&p.0)) {
        for n in names {
            t.extend(parts.iter().find(|p| p.0 == *n).unwrap().1.iter().cloned());
        }
    } else {
        for p in &parts {
            t.extend(p.1.iter().cloned());
        }
    }
    match decode(&t) {
        Ok(p) => p,
        Err(_) => {
            crate::vp::nd::assume(false); // unknown form: nothing can be decided
            panic!()
        }
    }
}
