// Shared pieces of the core harnesses.
#![allow(dead_code)]
use crate::vp::{self, hash2, nd};
use crate::*;
use beacon_types::{AggregateSignature, AttestationData, AttestationElectra, Bits};
use std::marker::PhantomData;

/// public key number k (distinct, concrete)
pub fn pk(k: usize) -> PublicKey {
    let mut b = [0x80u8; 48];
    b[0] = k as u8 + 1;
    b[47] = !(k as u8);
    PublicKey(b)
}
/// An arbitrary but fixed function of its arguments (distinct arguments give distinct values).
pub fn uf(tag: u8, a: u64, b: u64) -> [u8; 32] {
    let mut m = [0u8; 17];
    m[0] = tag;
    m[1..9].copy_from_slice(&a.to_le_bytes());
    m[9..].copy_from_slice(&b.to_le_bytes());
    vp::hash(&m)
}
pub fn chunk(x: u64) -> [u8; 32] {
    let mut c = [0u8; 32];
    c[..8].copy_from_slice(&x.to_le_bytes());
    c
}
/// reference hash_tree_root of attestation data
pub fn data_root(d: &AttestationData) -> [u8; 32] {
    let z = [0u8; 32];
    let s = hash2(&chunk(d.source.epoch.as_u64()), &d.source.root.0);
    let t = hash2(&chunk(d.target.epoch.as_u64()), &d.target.root.0);
    let a = hash2(&chunk(d.slot.as_u64()), &chunk(d.index));
    let b = hash2(&d.beacon_block_root.0, &s);
    hash2(&hash2(&a, &b), &hash2(&hash2(&t, &z), &hash2(&z, &z)))
}
/// reference attester signing root for a fork version and genesis validators root
pub fn signing_root(d: &AttestationData, version: [u8; 4], gvr: &[u8; 32]) -> [u8; 32] {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(&version);
    let r = hash2(&v, gvr);
    let mut dom = [0u8; 32];
    dom[0] = 1; // DOMAIN_BEACON_ATTESTER = 0x01000000
    dom[4..].copy_from_slice(&r[..28]);
    hash2(&data_root(d), &dom)
}
pub fn bits(n: usize) -> Bits { Bits { bits: (0..n).map(|_| nd::bool()).collect() } }
pub fn attn<E: EthSpec>(agg: Bits, data: AttestationData, signature: AggregateSignature, com: Bits) -> AttestationElectra<E> {
    AttestationElectra { aggregation_bits: agg, data, signature, committee_bits: com, _p: PhantomData }
}
pub fn data(slot: u64, index: u64, source: Checkpoint, target: Checkpoint) -> AttestationData {
    AttestationData { slot: Slot::new(slot), index, beacon_block_root: nd::b32().into(), source: source.into(), target: target.into() }
}
/// reference committee boundaries: members of committee `c` of `total` among n
pub fn range(n: usize, total: usize, c: usize) -> (usize, usize) { (n * c / total, n * (c + 1) / total) }

// ---- multiproofs ---------------------------------------------------------------------------
/// A multiproof with its shape: the smallest tree that has all of `values` as leaves.
pub struct Pr {
    pub d: Vec<bool>,
    pub pos: Vec<u64>,
    pub mask: Vec<bool>,
    pub c: Vec<[u8; 32]>,
}
fn level(g: u64) -> u32 { 63 - g.leading_zeros() }
fn walk(p: &mut Pr, g: u64, vals: &[u64]) {
    let under: Vec<u64> = vals.iter().copied().filter(|v| level(*v) >= level(g) && *v >> (level(*v) - level(g)) == g).collect();
    if under.is_empty() || under.contains(&g) {
        p.d.push(true);
        p.pos.push(g);
        p.mask.push(!under.is_empty());
    } else {
        p.d.push(false);
        walk(p, 2 * g, &under);
        walk(p, 2 * g + 1, &under);
    }
}
impl Pr {
    /// the shape for these value positions; values are symbolic chunks, helpers symbolic if asked
    pub fn new(values: &[u64], helpers: bool) -> Pr {
        let mut p = Pr { d: Vec::new(), pos: Vec::new(), mask: Vec::new(), c: Vec::new() };
        walk(&mut p, 1, values);
        for k in 0..p.pos.len() {
            p.c.push(if helpers || p.mask[k] { nd::b32() } else { [k as u8; 32] });
        }
        p
    }
    pub fn root(&self) -> [u8; 32] {
        let mut st: Vec<[u8; 32]> = Vec::new();
        let mut k = self.c.len();
        for b in self.d.iter().rev() {
            if *b {
                k -= 1;
                st.push(self.c[k]);
            } else {
                let l = st.pop().unwrap();
                let r = st.pop().unwrap();
                st.push(hash2(&l, &r));
            }
        }
        st.pop().unwrap()
    }
    pub fn at(&self, g: u64) -> Option<[u8; 32]> { self.pos.iter().position(|x| *x == g).map(|k| self.c[k]) }
    pub fn set(&mut self, g: u64, c: [u8; 32]) {
        let k = self.pos.iter().position(|x| *x == g).unwrap();
        self.c[k] = c;
    }
    pub fn flat(&self) -> Vec<u8> { self.c.iter().flatten().copied().collect() }
    pub fn mp<'a>(&self, flat: &'a [u8]) -> ssz_multiproofs::Multiproof<'a> { crate::wire::proof(flat, &self.mask, &self.d, 0) }
}
pub fn low(c: &[u8; 32]) -> u64 { u64::from_le_bytes(c[..8].try_into().unwrap()) }
