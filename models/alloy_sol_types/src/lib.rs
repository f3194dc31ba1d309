//! Model of the used part of `alloy-sol-types`: static structs of uint64 / bytes32 / structs,
//! encoded as 32-byte words. Decoding is non-validating (as `abi_decode` of the real crate):
//! surplus bytes and the upper bytes of a uint64 word are ignored.
pub use alloy_primitives as private;
#[derive(Debug, Clone, PartialEq)]
pub enum Error { Overrun, Other(String) }
impl Error { pub fn custom(s: impl Into<String>) -> Self { Error::Other(s.into()) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub trait Word: Sized {
    const WORDS: usize;
    fn put(&self, o: &mut Vec<u8>);
    fn take(d: &[u8]) -> Result<Self>;
}
impl Word for u64 {
    const WORDS: usize = 1;
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&[0u8; 24]); o.extend_from_slice(&self.to_be_bytes()); }
    fn take(d: &[u8]) -> Result<Self> {
        if d.len() < 32 { return Err(Error::Overrun); }
        let mut b = [0u8; 8];
        b.copy_from_slice(&d[24..32]);
        Ok(u64::from_be_bytes(b))
    }
}
impl Word for alloy_primitives::B256 {
    const WORDS: usize = 1;
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.0); }
    fn take(d: &[u8]) -> Result<Self> {
        if d.len() < 32 { return Err(Error::Overrun); }
        let mut b = [0u8; 32];
        b.copy_from_slice(&d[..32]);
        Ok(alloy_primitives::B256::new(b))
    }
}
pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
    fn abi_encode_(v: &Self::RustType) -> Vec<u8>;
}
pub trait SolValue { fn abi_encode(&self) -> Vec<u8>; fn abi_encoded_size(&self) -> usize; }
impl<T: Word> SolType for T {
    type RustType = T;
    const ENCODED_SIZE: Option<usize> = Some(T::WORDS * 32);
    fn abi_decode(data: &[u8]) -> Result<T> { T::take(data) }
    fn abi_encode_(v: &T) -> Vec<u8> { v.abi_encode() }
}
impl<T: Word> SolValue for T {
    fn abi_encode(&self) -> Vec<u8> { let mut o = Vec::new(); self.put(&mut o); o }
    fn abi_encoded_size(&self) -> usize { T::WORDS * 32 }
}
#[macro_export]
macro_rules! sol_ty {
    (uint64) => { u64 };
    (bytes32) => { $crate::private::B256 };
    ($x:ident) => { $x };
}
#[macro_export]
macro_rules! sol {
    ($($(#[$m:meta])* struct $n:ident { $($t:ident $f:ident;)* })*) => { $(
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $crate::sol_ty!($t),)* }
        impl $crate::Word for $n {
            const WORDS: usize = 0 $(+ <$crate::sol_ty!($t) as $crate::Word>::WORDS)*;
            fn put(&self, o: &mut Vec<u8>) { $($crate::Word::put(&self.$f, o);)* }
            #[allow(unused_assignments)]
            fn take(d: &[u8]) -> $crate::Result<Self> {
                let mut k = 0;
                $(
                    let $f = <$crate::sol_ty!($t) as $crate::Word>::take(d.get(32 * k..).ok_or($crate::Error::Overrun)?)?;
                    k += <$crate::sol_ty!($t) as $crate::Word>::WORDS;
                )*
                Ok($n { $($f,)* })
            }
        }
    )* };
}
