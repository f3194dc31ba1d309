//! Model of the used part of `serde_with`.
pub use serde_with_macros::serde_as;
use serde::{de::{MapAccess, SeqAccess, Visitor}, ser::{SerializeMap, SerializeSeq}, Deserialize, Deserializer, Serialize, Serializer};
use std::{collections::BTreeMap, fmt, marker::PhantomData};
pub trait SerializeAs<T: ?Sized> {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>;
}
pub trait DeserializeAs<'de, T>: Sized {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>;
}
pub struct As<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> As<T> {
    pub fn serialize<S: Serializer, I>(v: &I, s: S) -> Result<S::Ok, S::Error> where T: SerializeAs<I>, I: ?Sized { T::serialize_as(v, s) }
    pub fn deserialize<'de, D: Deserializer<'de>, I>(d: D) -> Result<I, D::Error> where T: DeserializeAs<'de, I> { T::deserialize_as(d) }
}
pub struct Same;
impl<T: Serialize + ?Sized> SerializeAs<T> for Same { fn serialize_as<S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> { v.serialize(s) } }
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same { fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> { T::deserialize(d) } }
struct W<'a, T, U>(&'a T, PhantomData<U>);
impl<'a, T, U: SerializeAs<T>> Serialize for W<'a, T, U> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { U::serialize_as(self.0, s) } }
struct R<T, U>(T, PhantomData<U>);
impl<'de, T, U: DeserializeAs<'de, T>> Deserialize<'de> for R<T, U> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(R(U::deserialize_as(d)?, PhantomData)) } }
impl<T, U: SerializeAs<T>> SerializeAs<Vec<T>> for Vec<U> {
    fn serialize_as<S: Serializer>(v: &Vec<T>, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(v.len()))?;
        for x in v { q.serialize_element(&W::<T, U>(x, PhantomData))?; }
        q.end()
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Vec<T>> for Vec<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<T>, D::Error> {
        struct V<T, U>(PhantomData<(T, U)>);
        impl<'de, T, U: DeserializeAs<'de, T>> Visitor<'de> for V<T, U> {
            type Value = Vec<T>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("seq") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<T>, A::Error> {
                let mut v = Vec::new();
                while let Some(R(x, _)) = a.next_element::<R<T, U>>()? { v.push(x); }
                Ok(v)
            }
        }
        d.deserialize_seq(V::<T, U>(PhantomData))
    }
}
impl<K, V, KU: SerializeAs<K>, VU: SerializeAs<V>> SerializeAs<BTreeMap<K, V>> for BTreeMap<KU, VU> {
    fn serialize_as<S: Serializer>(v: &BTreeMap<K, V>, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(Some(v.len()))?;
        for (k, x) in v { q.serialize_entry(&W::<K, KU>(k, PhantomData), &W::<V, VU>(x, PhantomData))?; }
        q.end()
    }
}
impl<'de, K: Ord, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> DeserializeAs<'de, BTreeMap<K, V>> for BTreeMap<KU, VU> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<BTreeMap<K, V>, D::Error> {
        struct M<K, V, KU, VU>(PhantomData<(K, V, KU, VU)>);
        impl<'de, K: Ord, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> Visitor<'de> for M<K, V, KU, VU> {
            type Value = BTreeMap<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<BTreeMap<K, V>, A::Error> {
                let mut m = BTreeMap::new();
                while let Some((R(k, _), R(v, _))) = a.next_entry::<R<K, KU>, R<V, VU>>()? { m.insert(k, v); }
                Ok(m)
            }
        }
        d.deserialize_map(M::<K, V, KU, VU>(PhantomData))
    }
}
pub struct Bytes;
impl SerializeAs<[u8]> for Bytes { fn serialize_as<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(v) } }
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<&'de [u8], D::Error> { <&'de [u8]>::deserialize(d) }
}
