//! Verification model of the swap-or-not shuffle: an *arbitrary* permutation that is a function of
//! (list, rounds, seed, direction). Every call is logged; equal arguments give the same result.
unsafe extern "C" {
    fn vsym_nd(bits: u32) -> u64;
    fn vsym_assume(c: u64);
    fn vsym_conc(x: u64) -> u64;
    fn vsym_eq(a: *const u8, b: *const u8, n: usize) -> u64;
}
pub struct Call { pub input: Vec<usize>, pub rounds: u8, pub seed: Vec<u8>, pub forwards: bool, pub output: Vec<usize> }
static mut LOG: Vec<Call> = Vec::new();
/// 0: every permutation; 1: rotations only; 2: the identity
pub static mut FAMILY: u8 = 0;
#[allow(static_mut_refs)]
pub fn log() -> &'static mut Vec<Call> { unsafe { &mut LOG } }
fn pick(n: usize) -> usize {
    if n <= 1 { return 0; }
    let b = usize::BITS - (n - 1).leading_zeros();
    unsafe {
        let x = vsym_nd(b);
        vsym_assume((x < n as u64) as u64);
        vsym_conc(x) as usize
    }
}
pub fn shuffle_list(input: Vec<usize>, rounds: u8, pivot_seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    if input.is_empty() || rounds == 0 || pivot_seed.len() != 32 { return None; }
    for c in log().iter() {
        if c.input == input && c.rounds == rounds && c.forwards == forwards
            && unsafe { vsym_conc(vsym_eq(c.seed.as_ptr(), pivot_seed.as_ptr(), 32)) } != 0 {
            return Some(c.output.clone());
        }
    }
    let n = input.len();
    let mut out = input.clone();
    match unsafe { FAMILY } {
        0 => { let mut k = n; while k > 1 { let j = pick(k); out.swap(j, k - 1); k -= 1; } }
        1 => { let r = pick(n); out.rotate_left(r); }
        _ => {}
    }
    log().push(Call { input, rounds, seed: pivot_seed.to_vec(), forwards, output: out.clone() });
    Some(out)
}
