//! Ideal model of BLS keys and aggregate signatures. A signature carries the message it was made
//! over and, for every key that exists, whether that key signed; verification succeeds exactly for
//! that message and exactly that multiset of keys.
unsafe extern "C" {
    fn vsym_eq(a: *const u8, b: *const u8, n: usize) -> u64;
    fn vsym_and(a: u64, b: u64) -> u64;
}
pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
#[derive(Debug, PartialEq, Clone)]
pub enum Error { BlstError, InvalidByteLength { got: usize, expected: usize } }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey(pub [u8; 48]);
impl PublicKey {
    pub fn serialize(&self) -> [u8; 48] { self.0 }
    pub fn serialize_uncompressed(&self) -> [u8; 96] {
        let mut o = [0u8; 96];
        let mut k = 0;
        while k < 48 { o[k] = self.0[k]; o[48 + k] = !self.0[k]; k += 1; }
        o
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        Ok(PublicKey(b.try_into().map_err(|_| Error::InvalidByteLength { got: b.len(), expected: 48 })?))
    }
    pub fn deserialize_uncompressed(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 96 { return Err(Error::InvalidByteLength { got: b.len(), expected: 96 }); }
        let mut k = [0u8; 48];
        k.copy_from_slice(&b[..48]);
        let p = PublicKey(k);
        let u = p.serialize_uncompressed();
        if unsafe { vsym_eq(u.as_ptr(), b.as_ptr(), 96) } == 0 { return Err(Error::BlstError); }
        Ok(p)
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AggregateSignature {
    pub message: [u8; 32],
    pub signers: Vec<(PublicKey0, bool)>,
}
pub type PublicKey0 = [u8; 48];
fn same(a: &[u8], b: &[u8]) -> u64 { unsafe { vsym_eq(a.as_ptr(), b.as_ptr(), a.len()) } }
impl AggregateSignature {
    pub fn eth_fast_aggregate_verify<M: AsRef<[u8]>>(&self, msg: M, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() { return false; }
        self.fast_aggregate_verify(msg, pubkeys)
    }
    pub fn fast_aggregate_verify<M: AsRef<[u8]>>(&self, msg: M, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() || msg.as_ref().len() != 32 { return false; }
        let mut ok = same(&self.message, msg.as_ref());
        for pk in pubkeys {
            let mut n = 0u64;
            for (k, _) in &self.signers { n += same(k, &pk.0); }
            ok = unsafe { vsym_and(ok, (n == 1) as u64) };
        }
        for (k, signed) in &self.signers {
            let mut n = 0u64;
            for pk in pubkeys { n += same(k, &pk.0); }
            ok = unsafe { vsym_and(ok, (n == *signed as u64) as u64) };
        }
        ok != 0
    }
}
