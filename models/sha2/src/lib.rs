//! Verification model of SHA-256 as an *ideal* hash: equal messages <=> equal digests (and
//! nothing else is known about digests). `vsym_hash` is interpreted by the symbolic executor.
unsafe extern "C" {
    fn vsym_hash(p: *const u8, n: usize, out: *mut u8);
}

#[derive(Clone, Debug, Default)]
pub struct Sha256 {
    buf: Vec<u8>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Output([u8; 32]);
pub type Digest256 = Output;
impl From<Output> for [u8; 32] { fn from(o: Output) -> Self { o.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl std::ops::Deref for Output { type Target = [u8; 32]; fn deref(&self) -> &[u8; 32] { &self.0 } }
impl std::ops::DerefMut for Output { fn deref_mut(&mut self) -> &mut [u8; 32] { &mut self.0 } }
impl PartialEq<[u8; 32]> for Output { fn eq(&self, o: &[u8; 32]) -> bool { self.0 == *o } }
impl Output { pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() } }

fn h(m: &[u8]) -> Output {
    let mut o = [0u8; 32];
    unsafe { vsym_hash(m.as_ptr(), m.len(), o.as_mut_ptr()) };
    Output(o)
}

pub trait Digest: Sized {
    fn new() -> Self;
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn chain_update(self, d: impl AsRef<[u8]>) -> Self;
    fn finalize(self) -> Output;
    fn finalize_into(self, out: &mut Output);
    fn finalize_reset(&mut self) -> Output;
    fn reset(&mut self);
    fn output_size() -> usize { 32 }
    fn digest(d: impl AsRef<[u8]>) -> Output;
}
impl Digest for Sha256 {
    fn new() -> Self { Self::default() }
    fn new_with_prefix(d: impl AsRef<[u8]>) -> Self { Self::new().chain_update(d) }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.buf.extend_from_slice(d.as_ref()) }
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self { self.buf.extend_from_slice(d.as_ref()); self }
    fn finalize(self) -> Output { h(&self.buf) }
    fn finalize_into(self, out: &mut Output) { *out = h(&self.buf) }
    fn finalize_reset(&mut self) -> Output { let o = h(&self.buf); self.buf.clear(); o }
    fn reset(&mut self) { self.buf.clear() }
    fn digest(d: impl AsRef<[u8]>) -> Output { h(d.as_ref()) }
}
pub mod digest {
    pub use super::Digest;
    use super::{Output, Sha256};
    pub trait Update { fn update(&mut self, d: &[u8]); }
    impl Update for Sha256 { fn update(&mut self, d: &[u8]) { super::Digest::update(self, d) } }
    pub trait Reset { fn reset(&mut self); }
    impl Reset for Sha256 { fn reset(&mut self) { super::Digest::reset(self) } }
    pub trait FixedOutput: Sized {
        fn finalize_fixed(self) -> Output;
        fn finalize_into(self, out: &mut Output) { *out = self.finalize_fixed() }
    }
    impl FixedOutput for Sha256 { fn finalize_fixed(self) -> Output { super::Digest::finalize(self) } }
    pub trait FixedOutputReset: FixedOutput {
        fn finalize_fixed_reset(&mut self) -> Output;
        fn finalize_into_reset(&mut self, out: &mut Output) { *out = self.finalize_fixed_reset() }
    }
    impl FixedOutputReset for Sha256 { fn finalize_fixed_reset(&mut self) -> Output { super::Digest::finalize_reset(self) } }
}
