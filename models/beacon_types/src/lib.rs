//! Model of the part of lighthouse's `types` crate that the repository uses.
use alloy_primitives::B256;
pub use bls::{AggregateSignature, PublicKey};
use safe_arith::{ArithError, SafeArith};
use std::{fmt, marker::PhantomData};
use tree_hash::{PackedEncoding, TreeHash, TreeHashType};
pub use typenum::Unsigned;
use typenum::{U1, U2, U3, U4, U8, U32, U64, U65536};

pub type Hash256 = B256;

macro_rules! u64_wrapper {
    ($t:ident) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
        #[serde(transparent)]
        pub struct $t(u64);
        impl $t {
            pub const fn new(x: u64) -> Self { Self(x) }
            pub const fn as_u64(self) -> u64 { self.0 }
            pub fn as_usize(self) -> usize { self.0 as usize }
            pub fn saturating_sub<T: Into<Self>>(&self, o: T) -> Self { Self(self.0.saturating_sub(o.into().0)) }
            pub fn saturating_add<T: Into<Self>>(&self, o: T) -> Self { Self(self.0.saturating_add(o.into().0)) }
            pub const fn max_value() -> Self { Self(u64::MAX) }
        }
        impl std::str::FromStr for $t { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(Self) } }
        impl From<u64> for $t { fn from(x: u64) -> Self { Self(x) } }
        impl From<$t> for u64 { fn from(x: $t) -> u64 { x.0 } }
        impl From<usize> for $t { fn from(x: usize) -> Self { Self(x as u64) } }
        impl From<$t> for usize { fn from(x: $t) -> usize { x.0 as usize } }
        impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
        impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}({})", stringify!($t), self.0) } }
        impl PartialEq<u64> for $t { fn eq(&self, o: &u64) -> bool { self.0 == *o } }
        impl PartialOrd<u64> for $t { fn partial_cmp(&self, o: &u64) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
        u64_wrapper!(@math $t, $t);
        u64_wrapper!(@math $t, u64);
    };
    (@math $t:ident, $o:ident) => {
        impl std::ops::Add<$o> for $t { type Output = $t; fn add(self, o: $o) -> $t { $t(self.0.saturating_add(u64::from(o))) } }
        impl std::ops::AddAssign<$o> for $t { fn add_assign(&mut self, o: $o) { *self = *self + o } }
        impl std::ops::Sub<$o> for $t { type Output = $t; fn sub(self, o: $o) -> $t { $t(self.0.saturating_sub(u64::from(o))) } }
        impl std::ops::SubAssign<$o> for $t { fn sub_assign(&mut self, o: $o) { *self = *self - o } }
        impl std::ops::Mul<$o> for $t { type Output = $t; fn mul(self, o: $o) -> $t { $t(self.0.saturating_mul(u64::from(o))) } }
        impl std::ops::Div<$o> for $t { type Output = $t; fn div(self, o: $o) -> $t { $t(self.0 / u64::from(o)) } }
        impl std::ops::Rem<$o> for $t { type Output = $t; fn rem(self, o: $o) -> $t { $t(self.0 % u64::from(o)) } }
        impl SafeArith<$o> for $t {
            const ZERO: Self = $t(0);
            const ONE: Self = $t(1);
            fn safe_add(&self, o: $o) -> Result<Self, ArithError> { self.0.safe_add(u64::from(o)).map($t) }
            fn safe_sub(&self, o: $o) -> Result<Self, ArithError> { self.0.safe_sub(u64::from(o)).map($t) }
            fn safe_mul(&self, o: $o) -> Result<Self, ArithError> { self.0.safe_mul(u64::from(o)).map($t) }
            fn safe_div(&self, o: $o) -> Result<Self, ArithError> { self.0.safe_div(u64::from(o)).map($t) }
            fn safe_rem(&self, o: $o) -> Result<Self, ArithError> { self.0.safe_rem(u64::from(o)).map($t) }
            fn safe_shl(&self, o: u32) -> Result<Self, ArithError> { self.0.safe_shl(o).map($t) }
            fn safe_shr(&self, o: u32) -> Result<Self, ArithError> { self.0.safe_shr(o).map($t) }
        }
    };
}
u64_wrapper!(Epoch);
u64_wrapper!(Slot);
impl Slot {
    pub fn epoch(self, slots_per_epoch: u64) -> Epoch {
        if slots_per_epoch == 0 { panic!("slots_per_epoch is not 0") }
        Epoch::new(self.0 / slots_per_epoch)
    }
}
impl Epoch {
    pub fn start_slot(self, slots_per_epoch: u64) -> Slot { Slot::new(self.0.saturating_mul(slots_per_epoch)) }
    pub fn end_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(self.0.saturating_mul(slots_per_epoch).saturating_add(slots_per_epoch - 1))
    }
    pub fn slot_iter(self, slots_per_epoch: u64) -> impl Iterator<Item = Slot> {
        let s = self.start_slot(slots_per_epoch).0;
        (0..slots_per_epoch).map(move |k| Slot::new(s + k))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub enum ForkName { Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas }
pub const FORKS: [ForkName; 8] = [ForkName::Base, ForkName::Altair, ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra, ForkName::Fulu, ForkName::Gloas];
impl ForkName {
    pub fn previous_fork(self) -> Option<ForkName> { if self as usize == 0 { None } else { Some(FORKS[self as usize - 1]) } }
    pub fn electra_enabled(self) -> bool { self >= ForkName::Electra }
}
impl fmt::Display for ForkName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Fork { pub previous_version: [u8; 4], pub current_version: [u8; 4], pub epoch: Epoch }
impl Fork {
    pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] { if epoch < self.epoch { self.previous_version } else { self.current_version } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Domain { BeaconProposer, BeaconAttester, Randao, Deposit, VoluntaryExit }

fn hash2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::new().chain_update(a).chain_update(b).finalize().into()
}
fn u64_chunk(x: u64) -> [u8; 32] { let mut c = [0u8; 32]; c[..8].copy_from_slice(&x.to_le_bytes()); c }

#[derive(Clone, Debug, PartialEq)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub far_future_epoch: Epoch,
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub shuffle_round_count: u8,
    pub min_per_epoch_churn_limit: u64,
    pub min_per_epoch_churn_limit_electra: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
    pub churn_limit_quotient: u64,
    pub min_activation_balance: u64,
    pub max_effective_balance: u64,
    pub max_effective_balance_electra: u64,
    pub ejection_balance: u64,
    pub effective_balance_increment: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub genesis_slot: Slot,
    /// (version, activation epoch) per fork, in order; the first is active at epoch 0
    pub forks: [([u8; 4], Option<Epoch>); 8],
}
impl Default for ChainSpec { fn default() -> Self { Self::mainnet() } }
impl ChainSpec {
    pub fn mainnet() -> Self {
        let v = |k: u8| [k, 0, 0, 0];
        ChainSpec {
            config_name: Some("mainnet".to_string()),
            far_future_epoch: Epoch::new(u64::MAX),
            max_committees_per_slot: 64,
            target_committee_size: 128,
            shuffle_round_count: 90,
            min_per_epoch_churn_limit: 4,
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
            churn_limit_quotient: 65536,
            min_activation_balance: 32_000_000_000,
            max_effective_balance: 32_000_000_000,
            max_effective_balance_electra: 2048_000_000_000,
            ejection_balance: 16_000_000_000,
            effective_balance_increment: 1_000_000_000,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            genesis_slot: Slot::new(0),
            forks: [(v(0), Some(Epoch::new(0))), (v(1), Some(Epoch::new(74240))), (v(2), Some(Epoch::new(144896))), (v(3), Some(Epoch::new(194048))),
                    (v(4), Some(Epoch::new(269568))), (v(5), Some(Epoch::new(364032))), (v(6), Some(Epoch::new(411392))), (v(7), None)],
        }
    }
    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName {
        let mut k = 7;
        while k > 0 {
            if let Some(e) = self.forks[k].1 { if epoch >= e { return FORKS[k]; } }
            k -= 1;
        }
        ForkName::Base
    }
    pub fn fork_version_for_name(&self, f: ForkName) -> [u8; 4] { self.forks[f as usize].0 }
    pub fn fork_epoch(&self, f: ForkName) -> Option<Epoch> { if f == ForkName::Base { Some(Epoch::new(0)) } else { self.forks[f as usize].1 } }
    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let cur = self.fork_name_at_epoch(epoch);
        let prev = cur.previous_fork().unwrap_or(ForkName::Base);
        Fork { previous_version: self.fork_version_for_name(prev), current_version: self.fork_version_for_name(cur), epoch: self.fork_epoch(cur).unwrap_or_else(|| Epoch::new(0)) }
    }
    pub fn get_domain_constant(&self, d: Domain) -> u32 { d as u32 }
    pub fn compute_domain(&self, d: Domain, fork_version: [u8; 4], gvr: Hash256) -> Hash256 {
        let mut c = [0u8; 32];
        c[..4].copy_from_slice(&fork_version);
        let r = hash2(&c, &gvr.0);
        let mut o = [0u8; 32];
        o[..4].copy_from_slice(&self.get_domain_constant(d).to_le_bytes());
        o[4..].copy_from_slice(&r[..28]);
        B256::new(o)
    }
    pub fn get_domain(&self, epoch: Epoch, d: Domain, fork: &Fork, gvr: Hash256) -> Hash256 { self.compute_domain(d, fork.get_fork_version(epoch), gvr) }
    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, ArithError> {
        let e: Epoch = epoch.safe_add(1u64)?;
        e.safe_add(self.max_seed_lookahead)
    }
}

pub trait EthSpec: 'static + Default + Sync + Send + Clone + fmt::Debug + PartialEq + Eq {
    type SlotsPerEpoch: Unsigned + Clone + Sync + Send + fmt::Debug + PartialEq;
    type EpochsPerHistoricalVector: Unsigned + Clone + Sync + Send + fmt::Debug + PartialEq;
    fn slots_per_epoch() -> u64 { Self::SlotsPerEpoch::to_u64() }
    fn epochs_per_historical_vector() -> usize { Self::EpochsPerHistoricalVector::to_usize() }
    fn get_committee_count_per_slot(active: usize, spec: &ChainSpec) -> Result<usize, Error> {
        if spec.target_committee_size == 0 { return Err(Error::ArithError(ArithError::DivisionByZero)); }
        let s = Self::SlotsPerEpoch::to_usize();
        Ok(std::cmp::max(1, std::cmp::min(spec.max_committees_per_slot, active / s / spec.target_committee_size)))
    }
}
macro_rules! preset { ($n:ident $s:ident $h:ident) => {
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct $n;
    impl EthSpec for $n { type SlotsPerEpoch = $s; type EpochsPerHistoricalVector = $h; }
} }
preset!(MainnetEthSpec U32 U65536);
preset!(MinimalEthSpec U8 U64);
// tiny presets for harnesses
preset!(Tiny2 U2 U4);
preset!(Tiny3 U3 U8);
preset!(Tiny4 U4 U8);
preset!(Tiny1 U1 U4);
#[derive(Debug, PartialEq, Clone)]
pub enum Error { ArithError(ArithError), IncorrectStateVariant, BitfieldOutOfBounds }
impl From<ArithError> for Error { fn from(e: ArithError) -> Self { Error::ArithError(e) } }

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Checkpoint { pub epoch: Epoch, pub root: Hash256 }
impl TreeHash for Checkpoint {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Container }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { unreachable!() }
    fn tree_hash_packing_factor() -> usize { unreachable!() }
    fn tree_hash_root(&self) -> Hash256 { B256::new(hash2(&u64_chunk(self.epoch.0), &self.root.0)) }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct AttestationData { pub slot: Slot, pub index: u64, pub beacon_block_root: Hash256, pub source: Checkpoint, pub target: Checkpoint }
impl TreeHash for AttestationData {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Container }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { unreachable!() }
    fn tree_hash_packing_factor() -> usize { unreachable!() }
    fn tree_hash_root(&self) -> Hash256 {
        let z = [0u8; 32];
        let a = hash2(&hash2(&u64_chunk(self.slot.0), &u64_chunk(self.index)), &hash2(&self.beacon_block_root.0, &self.source.tree_hash_root().0));
        let zz = hash2(&z, &z);
        let b = hash2(&hash2(&self.target.tree_hash_root().0, &z), &zz);
        B256::new(hash2(&a, &b))
    }
}
pub trait SignedRoot: TreeHash {
    fn signing_root(&self, domain: Hash256) -> Hash256 { B256::new(hash2(&self.tree_hash_root().0, &domain.0)) }
}
impl SignedRoot for AttestationData {}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Bits { pub bits: Vec<bool> }
impl Bits {
    pub fn get(&self, i: usize) -> Result<bool, Error> { self.bits.get(i).copied().ok_or(Error::BitfieldOutOfBounds) }
    pub fn set(&mut self, i: usize, v: bool) -> Result<(), Error> { *self.bits.get_mut(i).ok_or(Error::BitfieldOutOfBounds)? = v; Ok(()) }
    pub fn len(&self) -> usize { self.bits.len() }
    pub fn is_empty(&self) -> bool { self.bits.is_empty() }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.bits.iter().copied() }
    pub fn num_set_bits(&self) -> usize { self.bits.iter().filter(|b| **b).count() }
}
#[derive(Clone, Debug, PartialEq)]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: Bits,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    pub committee_bits: Bits,
    pub _p: PhantomData<E>,
}
impl<E: EthSpec> AttestationElectra<E> {
    pub fn get_committee_indices(&self) -> Vec<u64> {
        self.committee_bits.iter().enumerate().filter_map(|(i, b)| if b { Some(i as u64) } else { None }).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct AttestationBase<E: EthSpec> {
    pub aggregation_bits: Bits,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    pub _p: PhantomData<E>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Attestation<E: EthSpec> { Base(AttestationBase<E>), Electra(AttestationElectra<E>) }
#[derive(Clone, Debug, PartialEq)]
pub enum AttestationRef<'a, E: EthSpec> { Base(&'a AttestationBase<E>), Electra(&'a AttestationElectra<E>) }
impl<E: EthSpec> Attestation<E> {
    pub fn data(&self) -> &AttestationData { match self { Attestation::Base(a) => &a.data, Attestation::Electra(a) => &a.data } }
    pub fn signature(&self) -> &AggregateSignature { match self { Attestation::Base(a) => &a.signature, Attestation::Electra(a) => &a.signature } }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, Error> { match self { Attestation::Electra(a) => Ok(a), _ => Err(Error::IncorrectStateVariant) } }
    pub fn as_base(&self) -> Result<&AttestationBase<E>, Error> { match self { Attestation::Base(a) => Ok(a), _ => Err(Error::IncorrectStateVariant) } }
    pub fn to_ref(&self) -> AttestationRef<'_, E> { match self { Attestation::Base(a) => AttestationRef::Base(a), Attestation::Electra(a) => AttestationRef::Electra(a) } }
}
pub mod attestation {
    use super::*;
    use ssz::{Decode, DecodeError, Encode};
    #[derive(Clone, Debug, PartialEq)]
    pub struct AttestationOnDisk<E: EthSpec>(Attestation<E>);
    #[derive(Clone, Debug, PartialEq)]
    pub struct AttestationRefOnDisk<'a, E: EthSpec>(AttestationRef<'a, E>);
    impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> { fn from(a: AttestationRef<'a, E>) -> Self { Self(a) } }
    impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> { fn from(a: AttestationOnDisk<E>) -> Self { a.0 } }
    impl<E: EthSpec> From<Attestation<E>> for AttestationOnDisk<E> { fn from(a: Attestation<E>) -> Self { Self(a) } }
    fn put_bits(o: &mut Vec<u8>, b: &Bits) { o.push(b.bits.len() as u8); for x in &b.bits { o.push(*x as u8); } }
    fn put_cp(o: &mut Vec<u8>, c: &Checkpoint) { o.extend_from_slice(&c.epoch.as_u64().to_le_bytes()); o.extend_from_slice(&c.root.0); }
    fn put_data(o: &mut Vec<u8>, d: &AttestationData) {
        o.extend_from_slice(&d.slot.as_u64().to_le_bytes());
        o.extend_from_slice(&d.index.to_le_bytes());
        o.extend_from_slice(&d.beacon_block_root.0);
        put_cp(o, &d.source);
        put_cp(o, &d.target);
    }
    fn put_sig(o: &mut Vec<u8>, s: &AggregateSignature) {
        o.extend_from_slice(&s.message);
        o.push(s.signers.len() as u8);
        for (k, b) in &s.signers { o.extend_from_slice(k); o.push(*b as u8); }
    }
    impl<E: EthSpec> Encode for AttestationRefOnDisk<'_, E> {
        fn ssz_append(&self, o: &mut Vec<u8>) {
            match &self.0 {
                AttestationRef::Base(a) => { o.push(0); put_bits(o, &a.aggregation_bits); put_data(o, &a.data); put_sig(o, &a.signature); }
                AttestationRef::Electra(a) => { o.push(1); put_bits(o, &a.aggregation_bits); put_data(o, &a.data); put_sig(o, &a.signature); put_bits(o, &a.committee_bits); }
            }
        }
    }
    impl<E: EthSpec> Encode for AttestationElectra<E> {
        fn ssz_append(&self, o: &mut Vec<u8>) { put_bits(o, &self.aggregation_bits); put_data(o, &self.data); put_sig(o, &self.signature); put_bits(o, &self.committee_bits); }
    }
    impl<E: EthSpec> Decode for AttestationElectra<E> {
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            let mut r = Rd(b);
            let (aggregation_bits, data, signature) = (r.bits()?, r.data()?, r.sig()?);
            let committee_bits = r.bits()?;
            if !r.0.is_empty() { return Err(DecodeError::BytesInvalid("trailing".to_string())); }
            Ok(AttestationElectra { aggregation_bits, data, signature, committee_bits, _p: PhantomData })
        }
    }
    struct Rd<'a>(&'a [u8]);
    impl<'a> Rd<'a> {
        fn take(&mut self, n: usize) -> Result<&'a [u8], DecodeError> {
            if self.0.len() < n { return Err(DecodeError::BytesInvalid("short".to_string())); }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Ok(a)
        }
        fn u8(&mut self) -> Result<u8, DecodeError> { Ok(self.take(1)?[0]) }
        fn u64(&mut self) -> Result<u64, DecodeError> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
        fn h(&mut self) -> Result<B256, DecodeError> { Ok(B256::new(self.take(32)?.try_into().unwrap())) }
        fn bits(&mut self) -> Result<Bits, DecodeError> {
            let n = self.u8()? as usize;
            Ok(Bits { bits: self.take(n)?.iter().map(|x| *x & 1 != 0).collect() })
        }
        fn cp(&mut self) -> Result<Checkpoint, DecodeError> { Ok(Checkpoint { epoch: Epoch::new(self.u64()?), root: self.h()? }) }
        fn data(&mut self) -> Result<AttestationData, DecodeError> {
            Ok(AttestationData { slot: Slot::new(self.u64()?), index: self.u64()?, beacon_block_root: self.h()?, source: self.cp()?, target: self.cp()? })
        }
        fn sig(&mut self) -> Result<AggregateSignature, DecodeError> {
            let message = self.h()?.0;
            let n = self.u8()? as usize;
            let mut signers = Vec::with_capacity(n);
            for _ in 0..n {
                let k: [u8; 48] = self.take(48)?.try_into().unwrap();
                signers.push((k, self.u8()? & 1 != 0));
            }
            Ok(AggregateSignature { message, signers })
        }
    }
    impl<E: EthSpec> Decode for AttestationOnDisk<E> {
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
            let mut r = Rd(b);
            let base = match r.u8()? { 0 => true, 1 => false, _ => return Err(DecodeError::BytesInvalid("selector".to_string())) };
            let (aggregation_bits, data, signature) = (r.bits()?, r.data()?, r.sig()?);
            let a = if base {
                Attestation::Base(AttestationBase { aggregation_bits, data, signature, _p: PhantomData })
            } else {
                Attestation::Electra(AttestationElectra { aggregation_bits, data, signature, committee_bits: r.bits()?, _p: PhantomData })
            };
            if !r.0.is_empty() { return Err(DecodeError::BytesInvalid("trailing".to_string())); }
            Ok(AttestationOnDisk(a))
        }
    }
}
pub fn compute_committee_index_in_epoch(slot: Slot, slots_per_epoch: usize, committees_per_slot: usize, committee_index: usize) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}
pub fn compute_committee_range_in_epoch(epoch_committee_count: usize, index_in_epoch: usize, shuffling_len: usize) -> Option<core::ops::Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count { return None; }
    let start = (shuffling_len * index_in_epoch) / epoch_committee_count;
    let end = (shuffling_len * (index_in_epoch + 1)) / epoch_committee_count;
    Some(start..end)
}
pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize { committees_per_slot * slots_per_epoch }
