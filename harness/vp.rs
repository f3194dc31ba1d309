// Common prelude of every harness (module `vp` of the shadow crates).
// The `vsym_*` functions are intercepted by the symbolic executor; in a native replay they are
// provided by replay.c, which feeds the values of a counterexample.
#![allow(dead_code)]

mod ffi {
    unsafe extern "C" {
        pub fn vsym_nd(bits: u32) -> u64;
        pub fn vsym_assume(c: u64);
        pub fn vsym_assert(c: u64, p: *const u8, n: usize);
        pub fn vsym_cover(c: u64, p: *const u8, n: usize);
        pub fn vsym_conc(x: u64) -> u64;
        pub fn vsym_eq(a: *const u8, b: *const u8, n: usize) -> u64;
        pub fn vsym_and(a: u64, b: u64) -> u64;
        pub fn vsym_obs(x: u64);
        pub fn vsym_panic_is_violation();
        pub fn vsym_hash(p: *const u8, n: usize, out: *mut u8);
    }
}

/// Symbolic (unconstrained) values.
pub mod nd {
    use super::ffi::*;
    pub fn u8() -> u8 { unsafe { vsym_nd(8) as u8 } }
    pub fn u16() -> u16 { unsafe { vsym_nd(16) as u16 } }
    pub fn u32() -> u32 { unsafe { vsym_nd(32) as u32 } }
    pub fn u64() -> u64 { unsafe { vsym_nd(64) } }
    pub fn usize() -> usize { unsafe { vsym_nd(64) as usize } }
    pub fn bool() -> bool { unsafe { vsym_nd(1) != 0 } }
    /// a value of `bits` bits
    pub fn bits(n: u32) -> u64 { unsafe { vsym_nd(n) } }
    /// any value below n (n >= 1)
    pub fn below(n: u64) -> u64 {
        let b = 64 - (n - 1).leading_zeros();
        if b == 0 { return 0; }
        let x = unsafe { vsym_nd(b) };
        assume(x < n);
        x
    }
    /// like `below`, but split into one path per value
    pub fn pick(n: u64) -> u64 { conc(below(n)) }
    pub fn b32() -> [u8; 32] {
        let mut c = [0u8; 32];
        let mut k = 0;
        while k < 4 {
            let w = u64().to_le_bytes();
            let mut j = 0;
            while j < 8 { c[8 * k + j] = w[j]; j += 1; }
            k += 1;
        }
        c
    }
    pub fn assume(c: bool) { unsafe { vsym_assume(c as u64) } }
    pub fn conc(x: u64) -> u64 { unsafe { vsym_conc(x) } }
    pub fn conc_bool(x: bool) -> bool { unsafe { vsym_conc(x as u64) != 0 } }
}
/// Equality of two byte strings as a single term (no path split).
pub fn eqb(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { ffi::vsym_eq(a.as_ptr(), b.as_ptr(), a.len()) != 0 }
}
pub fn and(a: bool, b: bool) -> bool { unsafe { ffi::vsym_and(a as u64, b as u64) != 0 } }
/// A value compared between the symbolic run and the native replay of sampled paths.
pub fn obs(x: u64) { unsafe { ffi::vsym_obs(x) } }
pub fn no_panic() { unsafe { ffi::vsym_panic_is_violation() } }
pub fn hash(m: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { ffi::vsym_hash(m.as_ptr(), m.len(), o.as_mut_ptr()) };
    o
}
pub fn hash2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut m = [0u8; 64];
    m[..32].copy_from_slice(a);
    m[32..].copy_from_slice(b);
    hash(&m)
}
pub fn assert_(c: bool, m: &'static str) { unsafe { ffi::vsym_assert(c as u64, m.as_ptr(), m.len()) } }
pub fn cover_(c: bool, m: &'static str) { unsafe { ffi::vsym_cover(c as u64, m.as_ptr(), m.len()) } }

/// Property assertion. The label (a string literal) identifies the violated clause.
macro_rules! vassert { ($c:expr, $m:literal) => { $crate::vp::assert_($c, $m) }; }
/// Reachability witness: must be satisfiable, otherwise the harness is vacuous.
macro_rules! vcover { ($c:expr, $m:literal) => { $crate::vp::cover_($c, $m) }; }
/// `harness!(name, { body })` declares the entry point `h_name`.
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[unsafe(no_mangle)]
        pub extern "C" fn $name() $body
    };
}
#[allow(unused_imports)]
pub(crate) use {harness, vassert, vcover};
