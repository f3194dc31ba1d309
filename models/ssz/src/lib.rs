//! Model of the `ethereum_ssz` interface.
#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError { BytesInvalid(String) }
pub trait Encode {
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn as_ssz_bytes(&self) -> Vec<u8> { let mut v = Vec::new(); self.ssz_append(&mut v); v }
}
pub trait Decode: Sized {
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}
