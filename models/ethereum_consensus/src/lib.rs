//! Model of the part of `ethereum_consensus` that the host uses: containers with the fields and order
//! of the consensus specification; parts of a state that nobody looks into are opaque subtrees.
//! Sizes of vectors are scaled down to match the `Tiny2` preset of models/beacon_types.
#![allow(unused_imports)]
pub use ssz_rs as ssz;
use ssz_rs::prelude::*;
use ssz_rs::Opaque;

pub mod primitives {
    use super::*;
    pub type Root = Node;
    pub type Bytes32 = ByteVector<32>;
    pub type BlsPublicKey = ByteVector<48>;
    pub type BlsSignature = ByteVector<96>;
    pub type Slot = u64;
    pub type Epoch = u64;
    pub type Gwei = u64;
    pub type Version = [u8; 4];
    pub type ValidatorIndex = usize;
    pub type WithdrawalIndex = usize;
    pub type ParticipationFlags = u8;
}
pub mod serde {
    macro_rules! unit { () => {
        pub fn serialize<T, S: ::serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() }
        pub fn deserialize<'de, T, D: ::serde::Deserializer<'de>>(_: D) -> Result<T, D::Error> { Err(::serde::de::Error::custom("model")) }
    } }
    pub mod as_str { unit!(); }
    pub mod seq_of_str { unit!(); }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fork { Phase0, Altair, Bellatrix, Capella, Deneb, Electra, Fulu }
impl std::fmt::Display for Fork { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }

pub mod phase0 {
    use super::*;
    use primitives::*;
    pub const JUSTIFICATION_BITS_LENGTH: usize = 4;
    macro_rules! container { ($n:ident { $($f:ident: $t:ty),* }) => {
        #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
        pub struct $n { $(pub $f: $t),* }
    } }
    container!(BeaconBlockHeader { slot: Slot, proposer_index: ValidatorIndex, parent_root: Root, state_root: Root, body_root: Root });
    container!(SignedBeaconBlockHeader { message: BeaconBlockHeader, signature: Opaque });
    #[derive(Default, Debug, Clone, Copy, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
    pub struct Checkpoint { pub epoch: Epoch, pub root: Root }
    container!(Fork { previous_version: Version, current_version: Version, epoch: Epoch });
    container!(Validator {
        public_key: BlsPublicKey, withdrawal_credentials: Bytes32, effective_balance: Gwei, slashed: bool,
        activation_eligibility_epoch: Epoch, activation_epoch: Epoch, exit_epoch: Epoch, withdrawable_epoch: Epoch
    });
    pub type Eth1Data = Opaque;
    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
    pub struct PendingAttestation<const M: usize>(pub Opaque);
    impl<const M: usize> HashTreeRoot for PendingAttestation<M> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.node(1)) } }
    impl<const M: usize> Prove for PendingAttestation<M> { fn node(&self, g: usize) -> Node { self.0.node(g) } }
    impl<const M: usize> GeneralizedIndexable for PendingAttestation<M> {
        fn index(g: usize, p: Path) -> Result<usize, MerkleizationError> { Opaque::index(g, p) }
    }
    pub mod mainnet {
        pub const MIN_SEED_LOOKAHEAD: u64 = 1;
        pub const PENDING_ATTESTATIONS_BOUND: usize = 4096;
        pub const SLOTS_PER_EPOCH: u64 = 2;
    }
    /// states of earlier forks: only the fields that the host reads
    macro_rules! state { ([$($c:ident)*] { $($f:ident: $t:ty),* }) => {
        #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
        pub struct BeaconState<$(const $c: usize),*> {
            pub genesis_validators_root: Root, pub slot: Slot, pub fork: phase0::Fork, pub latest_block_header: phase0::BeaconBlockHeader,
            pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>, pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
            pub validators: List<phase0::Validator, VALIDATOR_REGISTRY_LIMIT>, pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
            pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
            pub previous_justified_checkpoint: phase0::Checkpoint, pub current_justified_checkpoint: phase0::Checkpoint, pub finalized_checkpoint: phase0::Checkpoint,
            $(pub $f: $t),*
        }
    } }
    pub(crate) use state;
    state!([SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR
            MAX_VALIDATORS_PER_COMMITTEE PENDING_ATTESTATIONS_BOUND] {
        previous_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
        current_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>
    });
}
macro_rules! opaque { ($n:ident $($c:ident)*) => {
    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
    pub struct $n<$(const $c: usize),*>(pub Opaque);
    impl<$(const $c: usize),*> HashTreeRoot for $n<$($c),*> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.node(1)) } }
    impl<$(const $c: usize),*> Prove for $n<$($c),*> { fn node(&self, g: usize) -> Node { self.0.node(g) } }
    impl<$(const $c: usize),*> GeneralizedIndexable for $n<$($c),*> {
        fn index(g: usize, p: Path) -> Result<usize, MerkleizationError> { Opaque::index(g, p) }
    }
} }
pub mod altair {
    use super::*;
    use primitives::*;
    opaque!(SyncCommittee N);
    phase0::state!([SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR
            MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE] {
        previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>
    });
}
macro_rules! later { ($n:ident { $($x:tt)* }) => { pub mod $n {
    use super::*;
    use primitives::*;
    $($x)*
    phase0::state!([SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR
            MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES] {
        previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>
    });
} } }
later!(bellatrix {});
later!(capella { pub type HistoricalSummary = Opaque; });
later!(deneb { pub use super::phase0::{Checkpoint, Fork, PendingAttestation}; pub use super::primitives::ParticipationFlags; });
pub mod electra {
    use super::*;
    use primitives::*;
    pub use phase0::{BeaconBlockHeader, Checkpoint, SignedBeaconBlockHeader, Validator};
    pub type PendingConsolidation = Opaque;
    opaque!(ExecutionPayloadHeader A B);
    #[derive(Default, Debug, Clone, PartialEq, Eq)]
    pub struct AttestationData { pub slot: Slot, pub index: usize, pub beacon_block_root: Root, pub source: Checkpoint, pub target: Checkpoint }
    /// an attestation is its SSZ encoding
    #[derive(Default, Debug, Clone, PartialEq, Eq)]
    pub struct Attestation<const A: usize, const B: usize>(pub Vec<u8>);
    impl<const A: usize, const B: usize> ssz_rs::Serialize for Attestation<A, B> {
        fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> { b.extend_from_slice(&self.0); Ok(self.0.len()) }
    }
    #[derive(Default, Debug, Clone, PartialEq, Eq)]
    pub struct BeaconBlockBody { pub attestations: Vec<Attestation<8, 4>> }
    pub mod mainnet {
        pub use super::SignedBeaconBlockHeader;
        pub const BYTES_PER_LOGS_BLOOM: usize = 256;
        pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 4;
        pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 1;
        pub const ETH1_DATA_VOTES_BOUND: usize = 64;
        pub const HISTORICAL_ROOTS_LIMIT: usize = 1 << 24;
        pub const MAX_EXTRA_DATA_BYTES: usize = 32;
        pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
        pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 1 << 18;
        pub const PENDING_DEPOSITS_LIMIT: usize = 1 << 27;
        pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 1 << 27;
        pub const SLOTS_PER_HISTORICAL_ROOT: usize = 1;
        pub const SYNC_COMMITTEE_SIZE: usize = 512;
        pub const VALIDATOR_REGISTRY_LIMIT: usize = 1 << 40;
    }
}
pub mod types {
    use super::*;
    pub enum BeaconBlockBodyRef<'a> { Deneb, Electra(&'a electra::BeaconBlockBody) }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum BeaconBlock { Deneb, Electra(electra::BeaconBlockBody) }
    impl BeaconBlock {
        pub fn body(&self) -> BeaconBlockBodyRef<'_> {
            match self { BeaconBlock::Deneb => BeaconBlockBodyRef::Deneb, BeaconBlock::Electra(b) => BeaconBlockBodyRef::Electra(b) }
        }
    }
    pub mod mainnet { pub use super::BeaconBlock; }
}
