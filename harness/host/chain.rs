// A beacon node as the host sees it: consensus states, blocks, headers.
#![allow(dead_code)]
use crate::ChainReader;
use crate::vp::{eqb, nd};
use beacon_types::{AggregateSignature, AttestationData, AttestationElectra, Bits, Tiny2};
use ethereum_consensus::electra::{self, BeaconBlockBody};
use ethereum_consensus::phase0::SignedBeaconBlockHeader;
use ethereum_consensus::types::mainnet::BeaconBlock;
use std::fmt::Display;
use z_core::{Checkpoint, ConsensusState, Epoch, Root, Slot};

pub const SPE: u64 = 2;
pub enum Id { Number(u64), Root(Root) }
/// what an identifier denotes, from its value (texts are not modelled)
pub fn id<T: Display>(t: T) -> Id {
    let mut n = std::any::type_name::<T>();
    let mut p = &t as *const T as *const u8;
    while let Some(r) = n.strip_prefix('&') {
        n = r;
        p = unsafe { *(p as *const *const u8) };
    }
    if n == "u64" || n.ends_with("::Slot") {
        Id::Number(unsafe { std::ptr::read_unaligned(p as *const u64) })
    } else if n.ends_with("FixedBytes<32>") || n.ends_with("FixedBytes<32usize>") {
        Id::Root(unsafe { std::ptr::read_unaligned(p as *const Root) })
    } else {
        nd::assume(false);
        unreachable!()
    }
}
#[derive(Default)]
pub struct Chain {
    /// epoch of the first state
    pub epoch: u64,
    pub states: Vec<ConsensusState>,
    /// first slot of the blocks
    pub slot: u64,
    pub blocks: Vec<Option<BeaconBlock>>,
    pub headers: Vec<(Root, SignedBeaconBlockHeader)>,
}
impl ChainReader for &Chain {
    async fn get_block_header(&self, i: impl Display) -> Result<Option<SignedBeaconBlockHeader>, anyhow::Error> {
        match id(i) {
            Id::Root(r) => Ok(self.headers.iter().find(|h| eqb(&h.0.0, &r.0)).map(|h| h.1.clone())),
            Id::Number(_) => Err(anyhow::anyhow!("unsupported")),
        }
    }
    async fn get_block(&self, i: impl Display) -> Result<Option<BeaconBlock>, anyhow::Error> {
        match id(i) {
            Id::Number(s) => {
                if self.blocks.is_empty() { return Ok(None); }
                let k = nd::conc(s.wrapping_sub(self.slot)) as usize;
                Ok(self.blocks.get(k).cloned().flatten())
            }
            Id::Root(_) => Err(anyhow::anyhow!("unsupported")),
        }
    }
    /// the state at the start slot of an epoch of the chain; nothing else is known
    async fn get_consensus_state(&self, i: impl Display) -> Result<ConsensusState, anyhow::Error> {
        match id(i) {
            Id::Number(s) => {
                let d = nd::conc(s.wrapping_sub(self.epoch * SPE));
                match self.states.get((d / SPE) as usize) {
                    Some(x) if d % SPE == 0 => Ok(x.clone()),
                    _ => Err(anyhow::anyhow!("unknown state")),
                }
            }
            Id::Root(_) => Err(anyhow::anyhow!("unsupported")),
        }
    }
}
pub fn cp(e: u64) -> Checkpoint { Checkpoint::new(Epoch::new(e), nd::b32().into()) }
pub fn same(a: &Checkpoint, b: &Checkpoint) -> bool { crate::vp::and(a.epoch().as_u64() == b.epoch().as_u64(), eqb(&a.root().0, &b.root().0)) }

/// an attestation with distinguishable content
pub fn attestation(slot: u64, source: Checkpoint, target: Checkpoint) -> AttestationElectra<Tiny2> {
    AttestationElectra {
        aggregation_bits: Bits { bits: vec![nd::bool()] },
        data: AttestationData { slot: Slot::new(slot), index: 0, beacon_block_root: nd::b32().into(), source: source.into(), target: target.into() },
        signature: AggregateSignature { message: nd::b32(), signers: Vec::new() },
        committee_bits: Bits { bits: vec![true, false] },
        _p: std::marker::PhantomData,
    }
}
/// the same attestation as it is included in a block
pub fn included(a: &AttestationElectra<Tiny2>) -> electra::Attestation<8, 4> {
    let mut b = Vec::new();
    ssz::Encode::ssz_append(a, &mut b);
    electra::Attestation(b)
}
pub fn block(v: Vec<electra::Attestation<8, 4>>) -> BeaconBlock { BeaconBlock::Electra(BeaconBlockBody { attestations: v }) }
