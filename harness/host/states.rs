// State providers, state patches and the data that the host reader reports.
use super::chain::*;
use crate::mainnet::{BeaconState, ElectraBeaconState, FuluBeaconState};
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, hash2, harness, nd, no_panic, obs, vassert, vcover};
use crate::{CacheStateProvider, StatePatchBuilder, StateProvider, StateProviderError, StateRef};
use beacon_types::Tiny2;
use ethereum_consensus::phase0::Validator;
use ssz_rs::{ByteVector, HashTreeRoot};
use std::cell::RefCell;
use std::sync::Arc;
use z_core::{Checkpoint, Epoch, Root, Slot};

pub struct Store {
    pub states: Vec<(u64, StateRef)>,
    pub asked: RefCell<Vec<u64>>,
}
impl Store {
    pub fn new(states: Vec<StateRef>) -> Self { Store { states: states.into_iter().map(|s| (s.slot(), s)).collect(), asked: RefCell::new(Vec::new()) } }
}
impl StateProvider for &Store {
    type Spec = Tiny2;
    fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
        self.asked.borrow_mut().push(slot.as_u64());
        match self.states.iter().find(|s| s.0 == slot.as_u64()) {
            Some(s) => Ok(s.1.clone()),
            None => Err(StateProviderError::NotFound(slot)),
        }
    }
}
/// a state whose parts are all different; `k` tells states apart
pub fn electra(k: u8, slot: u64) -> ElectraBeaconState {
    let mut s = ElectraBeaconState::default();
    s.genesis_time = k as u64 + 7;
    s.slot = slot;
    s
}
pub fn same_state(a: &StateRef, b: &StateRef) -> bool { Arc::ptr_eq(a, b) }

/// the header with the state root filled in
pub fn block_root(s: &BeaconState, r: &[u8; 32]) -> [u8; 32] {
    let h = s.latest_block_header();
    let c = |x: u64| { let mut c = [0u8; 32]; c[..8].copy_from_slice(&x.to_le_bytes()); c };
    let z = [0u8; 32];
    let zz = hash2(&z, &z);
    let ab = hash2(&hash2(&c(h.slot), &c(h.proposer_index as u64)), &hash2(&h.parent_root.0, r));
    hash2(&ab, &hash2(&hash2(&h.body_root.0, &z), &zz))
}
/// states at the start of epoch e and at the d slots before, the last block being d slots old
fn checkpoint(fulu: bool) {
    no_panic();
    let e = 2 + nd::bits(32);
    let d = nd::pick(4);
    let mut all: Vec<StateRef> = Vec::new();
    for k in 0..4u64 {
        let slot = e * SPE - k;
        let (hs, pi, pr, br) = (if k <= d { e * SPE - d } else { nd::u64() }, nd::u64() as usize, nd::b32(), nd::b32());
        let mk = |h: &mut ethereum_consensus::phase0::BeaconBlockHeader| {
            h.slot = hs;
            h.proposer_index = pi;
            h.parent_root = pr.into();
            h.body_root = br.into();
        };
        let st = if fulu {
            let mut s = FuluBeaconState::default();
            s.genesis_time = nd::u64();
            s.slot = slot;
            mk(&mut s.latest_block_header);
            BeaconState::Fulu(s)
        } else {
            let mut s = electra(0, slot);
            s.genesis_time = nd::u64();
            mk(&mut s.latest_block_header);
            BeaconState::Electra(s)
        };
        all.push(Arc::new(st));
    }
    let want = all[d as usize].clone();
    let store = Store::new(all);
    let p = &store;
    match p.state_at_epoch_boundary(Epoch::new(e)) {
        Ok(s) => vassert!(same_state(&s, &want), "the epoch boundary state is not that of the last block at or before the start of the epoch"),
        Err(_) => vassert!(false, "no epoch boundary state although it is known"),
    }
    vcover!(d == 0, "block at the start slot");
    vcover!(d == 3, "three empty slots");
    let root = nd::b32();
    let r = want.hash_tree_root().ok().unwrap();
    let good = eqb(&root, &block_root(&want, &r.0));
    match p.state_at_checkpoint(Checkpoint::new(Epoch::new(e), root.into())) {
        Ok(s) => {
            vassert!(good, "a state is accepted for a checkpoint with another block root");
            vassert!(same_state(&s, &want), "wrong state for the checkpoint");
            vcover!(true, "accepted");
        }
        Err(StateProviderError::InvalidCheckpoint) => {
            vassert!(!good, "the state of the checkpoint's block is refused");
            vcover!(true, "refused");
        }
        Err(_) => vassert!(false, "unexpected error"),
    }
}
harness!(h_host_checkpoint_electra, { checkpoint(false) });
harness!(h_host_checkpoint_fulu, { checkpoint(true) });

/// n requests through the cache
fn cache(n: usize) {
    no_panic();
    let gvr = nd::b32();
    let slots = [nd::u64(), nd::u64()];
    nd::assume(slots[0] != slots[1]);
    let with_genesis = nd::conc_bool(nd::bool());
    nd::assume(!with_genesis || and(slots[0] != 0, slots[1] != 0));
    let mut v = Vec::new();
    let mut add = |k: u8, slot: u64| {
        let mut s = electra(k, slot);
        s.genesis_validators_root = gvr.into();
        v.push(Arc::new(BeaconState::Electra(s)));
    };
    add(1, slots[0]);
    add(2, slots[1]);
    if with_genesis { add(3, 0); }
    let store = Store::new(v);
    let c = CacheStateProvider::new(&store);
    let plain = Store::new(store.states.iter().map(|s| s.1.clone()).collect());
    for _ in 0..n {
        let s = Slot::new(nd::u64());
        let before = store.asked.borrow().len();
        let (a, b) = (c.state_at_slot(s), (&plain).state_at_slot(s));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                vassert!(same_state(&a, &b), "the cache returns another state");
                let seen = plain.asked.borrow()[..plain.asked.borrow().len() - 1].contains(&s.as_u64());
                vassert!(!seen || store.asked.borrow().len() == before, "a cached state is fetched again");
                vcover!(seen, "from the cache");
                vcover!(!seen, "fetched");
            }
            (Err(StateProviderError::NotFound(x)), Err(_)) => {
                vassert!(x == s, "the error names another slot");
                vcover!(true, "not found");
            }
            _ => vassert!(false, "the cache changes the outcome of a request"),
        }
    }
    let empty = !plain.asked.borrow().iter().any(|s| plain.states.iter().any(|x| x.0 == *s));
    match c.genesis_validators_root() {
        Ok(r) => {
            vassert!(eqb(&r.0, &gvr), "wrong genesis validators root");
            vcover!(true, "genesis root");
        }
        Err(_) => vassert!(and(empty, !with_genesis), "no genesis validators root although a state is known"),
    }
}
harness!(h_host_cache_2, { cache(2) });
harness!(h_host_cache_3, { cache(3) });

pub fn validator() -> Validator {
    let mut v = Validator::default();
    v.activation_epoch = nd::u64();
    v.exit_epoch = nd::u64();
    v
}
/// a patch against na validators, made from a state with nb validators
fn patch(na: usize, nb: usize) {
    let mixes: Vec<[u8; 32]> = (0..4).map(|_| nd::b32()).collect();
    let mut s = electra(0, nd::u64());
    for k in 0..4 { s.randao_mixes.0[k] = ByteVector(mixes[k]); }
    for _ in 0..nb { s.validators.0.push(validator()); }
    let base: Vec<Validator> = (0..na).map(|_| validator()).collect();
    let now: Vec<u64> = s.validators.iter().map(|v| v.exit_epoch).collect();
    let mut b = StatePatchBuilder::new(Arc::new(BeaconState::Electra(s)));
    no_panic();
    let (i, j) = (nd::conc(nd::below(6)), nd::conc(nd::below(6)));
    let diff = nd::conc_bool(nd::bool());
    if diff { b.validator_diff(base.iter()); }
    let (a, c) = (b.randao_mix(i as _), b.randao_mix(j as _));
    vassert!(a.is_ok() == (i < 4) && c.is_ok() == (j < 4), "a RANDAO mix is missing, or one past the end is found");
    let p = b.build::<Tiny2>();
    for k in 0..6u64 {
        match p.randao_mixes.get(&(k as _)) {
            Some(m) => {
                vassert!(k < 4 && (k == i || k == j), "a RANDAO mix that was not asked for");
                vassert!(eqb(&m.0, &mixes[k as usize]), "wrong RANDAO mix");
            }
            None => vassert!(!(k < 4 && (k == i || k == j)), "a RANDAO mix is not in the patch"),
        }
    }
    vassert!(p.randao_mixes.len() <= 2, "RANDAO mixes from nowhere");
    let mut n = 0;
    for k in 0..std::cmp::max(na, nb) {
        let want = diff && k < na && k < nb && nd::conc_bool(base[k].exit_epoch != now[k]);
        match p.validator_exits.get(&k) {
            Some(x) => {
                vassert!(want, "an exit that did not change");
                vassert!(x.as_u64() == now[k], "wrong exit epoch");
                n += 1;
            }
            None => vassert!(!want, "a changed exit is not in the patch"),
        }
    }
    vassert!(p.validator_exits.len() == n, "exits from nowhere");
    vcover!(n == std::cmp::min(na, nb), "all changed");
    vcover!(n == 0, "none changed");
}
harness!(h_host_patch_22, { patch(2, 2) });
harness!(h_host_patch_34, { patch(3, 4) });
harness!(h_host_cache_5, { cache(5) });
harness!(h_host_patch_45, { patch(4, 5) });
