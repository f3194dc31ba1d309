//! Model of `ssz_rs`: SSZ merkleization (consensus-specs) with paths and single-leaf proofs.
//! Sequences are plain vectors; serialization of states is not modelled.
extern crate self as ssz_rs;
use alloy_primitives::B256;
use sha2::Digest;
use std::ops::Deref;
pub use ssz_rs_derive::{GeneralizedIndexable, HashTreeRoot, Prove, Serializable, SimpleSerialize};

pub type Node = B256;
pub type GeneralizedIndex = usize;
#[derive(Debug, Clone, PartialEq)]
pub enum MerkleizationError { InvalidPath, InvalidGeneralizedIndex }
impl std::fmt::Display for MerkleizationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("merkleization") } }
impl std::error::Error for MerkleizationError {}
#[derive(Debug, Clone, PartialEq)]
pub struct DeserializeError;
impl std::fmt::Display for DeserializeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deserialize") } }
impl std::error::Error for DeserializeError {}
#[derive(Debug, Clone, PartialEq)]
pub struct SerializeError;
impl std::fmt::Display for SerializeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("serialize") } }
impl std::error::Error for SerializeError {}

#[derive(Debug, Clone, PartialEq)]
pub enum PathElement { Length, Field(String), Index(usize) }
impl From<&str> for PathElement { fn from(s: &str) -> Self { PathElement::Field(s.to_string()) } }
impl From<usize> for PathElement { fn from(i: usize) -> Self { PathElement::Index(i) } }
pub type Path<'a> = &'a [PathElement];

pub trait HashTreeRoot { fn hash_tree_root(&self) -> Result<Node, MerkleizationError>; }
pub trait Serialize { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError>; }
pub trait Deserialize: Sized { fn deserialize(b: &[u8]) -> Result<Self, DeserializeError>; }
pub fn serialize<T: Serialize>(t: &T) -> Result<Vec<u8>, SerializeError> { let mut v = Vec::new(); t.serialize(&mut v)?; Ok(v) }
pub fn deserialize<T: Deserialize>(b: &[u8]) -> Result<T, DeserializeError> { T::deserialize(b) }
pub trait GeneralizedIndexable {
    fn index(g: usize, path: Path) -> Result<GeneralizedIndex, MerkleizationError>;
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> { Self::index(1, path) }
}
pub struct Tree;
pub trait Prove: HashTreeRoot {
    /// the node at a generalized index (relative to this object)
    fn node(&self, g: usize) -> Node;
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> { Ok(Tree) }
}
pub mod model {
    use super::*;
    pub fn hash(a: &Node, b: &Node) -> Node { B256::new(sha2::Sha256::new().chain_update(a.0).chain_update(b.0).finalize().into()) }
    static mut ZERO: Vec<Node> = Vec::new();
    #[allow(static_mut_refs)]
    pub fn zero(k: u32) -> Node {
        unsafe {
            if ZERO.is_empty() { ZERO.push(B256::ZERO); }
            while ZERO.len() <= k as usize { let z = ZERO[ZERO.len() - 1]; ZERO.push(hash(&z, &z)); }
            ZERO[k as usize]
        }
    }
    /// levels of a tree with n leaves
    pub fn depth(n: usize) -> u32 { n.next_power_of_two().trailing_zeros() }
    pub fn level(g: usize) -> u32 { usize::BITS - 1 - g.leading_zeros() }
    pub fn empty(r: usize) -> Node { if r == 1 { B256::ZERO } else { panic!("node below an absent leaf") } }
    fn sub(d: u32, lo: usize, leaf: &dyn Fn(usize, usize) -> Node, n: usize) -> Node {
        if lo >= n { return zero(d); }
        if d == 0 { return leaf(lo, 1); }
        hash(&sub(d - 1, lo, leaf, n), &sub(d - 1, lo + (1 << (d - 1)), leaf, n))
    }
    /// node g of a tree of depth d with n leaves (the rest is zero)
    pub fn sparse(d: u32, g: usize, leaf: &dyn Fn(usize, usize) -> Node, n: usize) -> Node {
        let l = level(g);
        if l <= d { return sub(d - l, (g - (1 << l)) << (d - l), leaf, n); }
        let i = (g >> (l - d)) - (1 << d);
        leaf(i, (1 << (l - d)) + (g & ((1 << (l - d)) - 1)))
    }
    pub fn leaf_only(c: Node, r: usize) -> Node { if r == 1 { c } else { panic!("node below a chunk") } }
}
use model::*;
macro_rules! basic {
    ($t:ty, $x:ident => $e:expr) => {
        impl HashTreeRoot for $t { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.node(1)) } }
        impl Prove for $t { fn node(&self, r: usize) -> Node { let $x = self; leaf_only($e, r) } }
        impl GeneralizedIndexable for $t {
            fn index(g: usize, p: Path) -> Result<usize, MerkleizationError> { if p.is_empty() { Ok(g) } else { Err(MerkleizationError::InvalidPath) } }
        }
    };
}
fn chunk(b: &[u8]) -> Node { let mut c = [0u8; 32]; c[..b.len()].copy_from_slice(b); B256::new(c) }
basic!(u8, x => chunk(&[*x]));
basic!(bool, x => chunk(&[*x as u8]));
basic!(u64, x => chunk(&x.to_le_bytes()));
basic!(usize, x => chunk(&(*x as u64).to_le_bytes()));
basic!(B256, x => *x);
basic!([u8; 4], x => chunk(&x[..]));
/// A subtree whose content does not matter.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Opaque(pub B256);
basic!(Opaque, x => x.0);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ByteVector<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for ByteVector<N> { fn default() -> Self { Self([0; N]) } }
impl<const N: usize> ByteVector<N> { pub fn as_slice(&self) -> &[u8] { &self.0 } }
impl<const N: usize> serde::Serialize for ByteVector<N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'de, const N: usize> serde::Deserialize<'de> for ByteVector<N> { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("model")) } }
impl<const N: usize> Deref for ByteVector<N> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl<const N: usize> AsRef<[u8]> for ByteVector<N> { fn as_ref(&self) -> &[u8] { &self.0 } }
impl<const N: usize> HashTreeRoot for ByteVector<N> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.node(1)) } }
impl<const N: usize> Prove for ByteVector<N> {
    fn node(&self, g: usize) -> Node {
        let n = N.div_ceil(32);
        sparse(depth(n), g, &|i, r| leaf_only(chunk(&self.0[32 * i..std::cmp::min(N, 32 * i + 32)]), r), n)
    }
}
impl<const N: usize> GeneralizedIndexable for ByteVector<N> {
    fn index(g: usize, p: Path) -> Result<usize, MerkleizationError> {
        match p {
            [] => Ok(g),
            [PathElement::Index(i)] if *i < N => Ok((g << depth(N.div_ceil(32))) + i / 32),
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
macro_rules! seq {
    ($n:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $n<T, const N: usize>(pub Vec<T>);
        impl<T, const N: usize> Deref for $n<T, N> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
        impl<T, const N: usize> std::ops::DerefMut for $n<T, N> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
        impl<T, const N: usize> serde::Serialize for $n<T, N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() } }
        impl<'de, T, const N: usize> serde::Deserialize<'de> for $n<T, N> { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("model")) } }
        impl<'a, T, const N: usize> IntoIterator for &'a $n<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
        impl<T: Prove, const N: usize> HashTreeRoot for $n<T, N> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.node(1)) } }
    };
}
seq!(List);
seq!(Vector);
impl<T, const N: usize> Default for List<T, N> { fn default() -> Self { Self(Vec::new()) } }
impl<T: Default + Clone, const N: usize> Default for Vector<T, N> { fn default() -> Self { Self(vec![T::default(); N]) } }
impl<T: Prove, const N: usize> Prove for Vector<T, N> { fn node(&self, g: usize) -> Node { sparse(depth(N), g, &|i, r| self.0[i].node(r), self.0.len()) } }
impl<T: Prove, const N: usize> Prove for List<T, N> {
    fn node(&self, g: usize) -> Node {
        let len = chunk(&(self.0.len() as u64).to_le_bytes());
        let data = |r| sparse(depth(N), r, &|i, r| if i < self.0.len() { self.0[i].node(r) } else { empty(r) }, self.0.len());
        if g == 1 { return hash(&data(1), &len); }
        let l = level(g);
        let r = (1 << (l - 1)) + (g & ((1 << (l - 1)) - 1));
        if g >> (l - 1) == 2 { data(r) } else { leaf_only(len, r) }
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn index(g: usize, p: Path) -> Result<usize, MerkleizationError> {
        match p.first() {
            None => Ok(g),
            Some(PathElement::Index(i)) if *i < N => T::index((g << depth(N)) + i, &p[1..]),
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn index(g: usize, p: Path) -> Result<usize, MerkleizationError> {
        match p.first() {
            None => Ok(g),
            Some(PathElement::Length) if p.len() == 1 => Ok(2 * g + 1),
            Some(PathElement::Index(i)) if *i < N => T::index(((2 * g) << depth(N)) + i, &p[1..]),
            _ => Err(MerkleizationError::InvalidPath),
        }
    }
}
/// a bit vector of at most 256 bits, as its chunk
pub type Bitvector<const N: usize> = Opaque;
pub mod proofs {
    use super::*;
    pub struct Prover { index: GeneralizedIndex, leaf: Node }
    pub struct Proof { pub leaf: Node, pub index: GeneralizedIndex }
    impl From<GeneralizedIndex> for Prover { fn from(index: GeneralizedIndex) -> Self { Prover { index, leaf: Node::ZERO } } }
    impl Prover {
        pub fn compute_proof_cached_tree<T: Prove>(&mut self, t: &T, _: &Tree) -> Result<(), MerkleizationError> {
            if self.index == 0 { return Err(MerkleizationError::InvalidGeneralizedIndex); }
            self.leaf = t.node(self.index);
            Ok(())
        }
        pub fn compute_proof<T: Prove>(&mut self, t: &T) -> Result<(), MerkleizationError> { self.compute_proof_cached_tree(t, &Tree) }
        pub fn into_proof(self) -> Proof { Proof { leaf: self.leaf, index: self.index } }
    }
}
pub mod prelude {
    pub use super::{proofs::*, Bitvector, ByteVector, GeneralizedIndex, GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node, Path, PathElement, Prove, Serializable, SimpleSerialize, Vector};
    pub use super::Serialize as Serializable_;
}
