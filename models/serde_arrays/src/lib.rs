//! Model of `serde_arrays`: fixed-size arrays as tuples.
use serde::{de::{Error, SeqAccess, Visitor}, ser::SerializeTuple, Deserialize, Deserializer, Serialize, Serializer};
pub fn serialize<S: Serializer, T: Serialize, const N: usize>(a: &[T; N], s: S) -> Result<S::Ok, S::Error> {
    let mut t = s.serialize_tuple(N)?;
    for x in a { t.serialize_element(x)?; }
    t.end()
}
pub fn deserialize<'de, D: Deserializer<'de>, T: Deserialize<'de>, const N: usize>(d: D) -> Result<[T; N], D::Error> {
    struct V<T, const N: usize>(std::marker::PhantomData<T>);
    impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
        type Value = [T; N];
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("array") }
        fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<[T; N], A::Error> {
            let mut v = Vec::with_capacity(N);
            for k in 0..N { v.push(s.next_element()?.ok_or_else(|| A::Error::invalid_length(k, &self))?); }
            v.try_into().map_err(|_| A::Error::custom("length"))
        }
    }
    d.deserialize_tuple(N, V::<T, N>(std::marker::PhantomData))
}
