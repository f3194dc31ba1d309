// What the host reader reports, and the guest input made from it.
use super::chain::*;
use super::states::{block_root, same_state, Store};
use crate::mainnet::{BeaconState, ElectraBeaconState, FuluBeaconState};
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, hash2, harness, nd, no_panic, obs, vassert, vcover};
use crate::{AssertInputReader, HostInputReader, PreflightInputReader, StateRef};
use beacon_types::{ChainSpec, Tiny2};
use ethereum_consensus::phase0::{BeaconBlockHeader, SignedBeaconBlockHeader, Validator};
use ssz_rs::{ByteVector, HashTreeRoot};
use std::sync::Arc;
use z_core::{Checkpoint, ConsensusState, Epoch, InputReader, Root};

pub const FAR: u64 = u64::MAX;
pub fn spec(fulu: bool) -> ChainSpec {
    let mut spec = ChainSpec::mainnet();
    for k in 0..8 {
        spec.forks[k].1 = if k < 6 || (k == 6 && fulu) { Some(Epoch::new(0)) } else { None };
    }
    spec.effective_balance_increment = 4;
    spec.min_per_epoch_churn_limit_electra = 9;
    spec.churn_limit_quotient = 2;
    spec
}
pub fn key(k: usize) -> [u8; 48] {
    let mut b = [0x80u8; 48];
    b[0] = k as u8 + 1;
    b[47] = !(k as u8);
    b
}
pub fn header(slot: u64) -> BeaconBlockHeader {
    let mut h = BeaconBlockHeader::default();
    h.slot = slot;
    h.proposer_index = nd::u64() as usize;
    h.parent_root = nd::b32().into();
    h.state_root = nd::b32().into();
    h.body_root = nd::b32().into();
    h
}
/// a state at `slot` on top of block `h`
pub fn state(fulu: bool, slot: u64, h: &BeaconBlockHeader, gvr: [u8; 32], vals: &[Validator], mixes: &[[u8; 32]]) -> BeaconState {
    let v = spec(fulu).fork_at_epoch(Epoch::new(slot / SPE));
    macro_rules! fill {
        ($t:ty) => {{
            let mut s = <$t>::default();
            s.genesis_time = nd::u64();
            s.slot = slot;
            s.genesis_validators_root = gvr.into();
            s.fork.previous_version = v.previous_version;
            s.fork.current_version = v.current_version;
            s.fork.epoch = v.epoch.as_u64();
            s.latest_block_header = h.clone();
            s.validators.0 = vals.to_vec();
            for k in 0..mixes.len() {
                s.randao_mixes.0[k] = ByteVector(mixes[k]);
            }
            s
        }};
    }
    if fulu { BeaconState::Fulu(fill!(FuluBeaconState)) } else { BeaconState::Electra(fill!(ElectraBeaconState)) }
}
fn mixes() -> Vec<[u8; 32]> { (0..4).map(|_| nd::b32()).collect() }
/// a validator with number k that is not about to be activated
fn validator(k: usize) -> Validator {
    let mut v = Validator::default();
    v.public_key = ByteVector(key(k));
    v.withdrawal_credentials = ByteVector(nd::b32());
    v.effective_balance = 64;
    v.slashed = nd::bool();
    v.activation_eligibility_epoch = nd::u64();
    v.activation_epoch = nd::u64();
    v.exit_epoch = nd::u64();
    v.withdrawable_epoch = nd::u64();
    v
}
pub struct World {
    pub e: u64,
    pub t: Checkpoint,
    pub chain: Chain,
    pub store: Store,
    pub gvr: [u8; 32],
    /// the states by epoch: trusted, target
    pub vals: [Vec<Validator>; 2],
    pub mixes: [Vec<[u8; 32]>; 2],
    pub header: Root,
    pub slot: u64,
}
/// `d`: slots between the trusted block and the start of its epoch
pub fn world(n: usize, fulu: bool, d: u64, change: impl Fn(u64, &Validator) -> Validator) -> World {
    let e = 4 + nd::bits(32);
    let gvr = nd::b32();
    let v0: Vec<Validator> = (0..n).map(validator).collect();
    let v1: Vec<Validator> = v0.iter().map(|v| change(e, v)).collect();
    let (m0, m1) = (mixes(), mixes());
    let mut h = header(e * SPE - d);
    let st = |slot, h: &BeaconBlockHeader, v: &[Validator], m: &[[u8; 32]]| -> StateRef { Arc::new(state(fulu, slot, h, gvr, v, m)) };
    let mut all = vec![st(e * SPE - d, &h, &v0, &m0)];
    let r = block_root(&all[0], &all[0].hash_tree_root().ok().unwrap().0);
    if d > 0 {
        h.state_root = all[0].hash_tree_root().ok().unwrap();
        all.push(st(e * SPE, &h, &v0, &m0));
    }
    all.push(st((e + 2) * SPE, &header((e + 2) * SPE), &v1, &m1));
    let t = Checkpoint::new(Epoch::new(e), r.into());
    let (j1, j2) = (cp(e + 1), cp(e + 2));
    let mut c = Chain { epoch: e + 1, slot: (e + 2) * SPE, ..Default::default() };
    c.states.push(ConsensusState::new(t, cp(e - 1)));
    c.states.push(ConsensusState::new(j1, t));
    c.states.push(ConsensusState::new(j2, j1));
    c.blocks.push(Some(block(vec![included(&attestation((e + 2) * SPE, j1, j2))])));
    let slot = nd::u64();
    let hh = header(slot);
    let root = hh.hash_tree_root().ok().unwrap();
    for _ in 0..1 {
        let mut s = SignedBeaconBlockHeader::default();
        s.message = hh.clone();
        c.headers.push((root, s));
    }
    World { e, t, chain: c, store: Store::new(all), gvr, vals: [v0, v1], mixes: [m0, m1], header: root, slot }
}
type Host<'a> = HostInputReader<Tiny2, &'a Store, &'a Chain>;
pub fn host<'a>(w: &'a World, fulu: bool) -> Option<Host<'a>> {
    futures::executor::block_on(HostInputReader::new(spec(fulu), &w.store, &w.chain, w.t)).ok()
}
fn active(v: &Validator, e: u64) -> bool { and(v.activation_epoch <= e, e < v.exit_epoch) }

/// the validators of `r` at `e` are the active ones of `vals`
fn check_active<R: InputReader>(r: &R, vals: &[Validator], e: u64, exits: bool) {
    let Ok(it) = r.active_validators(Epoch::new(e)) else {
        vassert!(false, "the validators of a known state are not available");
        return;
    };
    let got: Vec<_> = it.collect();
    let mut k = 0;
    for (i, v) in vals.iter().enumerate() {
        if nd::conc_bool(active(v, e)) {
            vassert!(k < got.len() && got[k].0 == i, "an active validator is missing or out of order");
            if k >= got.len() {
                return;
            }
            let g = got[k].1;
            vassert!(eqb(&g.pubkey.0, &v.public_key), "an active validator has another public key");
            vassert!(and(g.effective_balance == v.effective_balance, g.slashed == v.slashed), "an active validator has another balance or slashing");
            vassert!(and(g.activation_epoch.as_u64() == v.activation_epoch, g.activation_eligibility_epoch.as_u64() == v.activation_eligibility_epoch), "an active validator has another activation");
            vassert!(!exits || g.exit_epoch.as_u64() == v.exit_epoch, "an active validator has another exit epoch");
            k += 1;
        }
    }
    vassert!(k == got.len(), "a validator is active that should not be");
    vcover!(k == vals.len(), "all active");
    vcover!(k == 0, "none active");
}
fn reads(fulu: bool, n: usize) {
    no_panic();
    let w = world(n, fulu, 0, |_, v| {
        let mut v = v.clone();
        v.exit_epoch = nd::u64();
        v.activation_epoch = nd::u64();
        v.slashed = nd::bool();
        v
    });
    let Some(r) = host(&w, fulu) else {
        vassert!(false, "an honest chain is refused");
        return;
    };
    let k = nd::pick(2) as usize;
    let e = w.e + 2 * k as u64;
    check_active(&r, &w.vals[k], e, true);
    check_active(&r, &w.vals[1 - k], w.e + 2 * (1 - k) as u64, true);
    check_active(&r, &w.vals[k], e, true);
    for i in 0..6 {
        match r.randao_mix(Epoch::new(e), i as _) {
            Ok(Some(m)) => vassert!(i < 4 && eqb(&m.0, &w.mixes[k][i]), "wrong RANDAO mix"),
            Ok(None) => vassert!(i >= 4, "a RANDAO mix is missing"),
            Err(_) => vassert!(false, "the RANDAO mixes of a known state are not available"),
        }
    }
    let f = r.fork(Epoch::new(e)).ok().unwrap();
    vassert!(f == spec(fulu).fork_at_epoch(Epoch::new(e)), "the fork is not that of the state");
    let x = nd::u64();
    let known = nd::conc_bool(and(x == w.e, true)) || nd::conc_bool(x == w.e + 2);
    vassert!(r.active_validators(Epoch::new(x)).is_ok() == known, "validators of an unknown state");
    vassert!(r.consensus_state().ok().unwrap() == w.chain.states[1], "the consensus state is not the first that finalizes the trusted checkpoint");
    vassert!(r.attestations().ok().unwrap().count() == 1, "the attestation of the link is missing");
    let root = nd::b32();
    match r.slot_for_block(&root.into()) {
        Ok(s) => {
            vassert!(and(eqb(&root, &w.header.0), s == w.slot), "wrong slot of a block");
            vcover!(true, "slot");
        }
        Err(_) => vassert!(!eqb(&root, &w.header.0), "the slot of a known block is missing"),
    }
}
harness!(h_host_reads_electra_1, { reads(false, 1) });
harness!(h_host_reads_electra_2, { reads(false, 2) });
harness!(h_host_reads_electra_4, { reads(false, 4) });
harness!(h_host_reads_fulu_1, { reads(true, 1) });

/// the input made by a preflight run gives the guest the same data
fn input(fulu: bool, n: usize, d: u64) {
    no_panic();
    let w = world(n, fulu, d, |e, v| {
        // activations are known; at most one exit is initiated, late enough for the churn limit
        nd::assume(v.activation_epoch != FAR && v.activation_eligibility_epoch != FAR);
        let mut v = v.clone();
        if nd::conc_bool(v.exit_epoch == FAR) && nd::pick(2) == 1 {
            v.exit_epoch = e + 100 + nd::bits(8);
        }
        v
    });
    let Some(r) = host(&w, fulu) else {
        vassert!(false, "an honest chain is refused");
        return;
    };
    let pre = PreflightInputReader::new(&r, &w.chain, w.t);
    let target = Epoch::new(w.e + 2);
    let m = nd::pick(4);
    check_active(&pre, &w.vals[1], w.e + 2, true);
    let mix = pre.randao_mix(target, m as _).ok().flatten();
    let with_slot = nd::conc_bool(nd::bool());
    if with_slot {
        vassert!(pre.slot_for_block(&w.header).ok() == Some(w.slot), "wrong slot of a block");
    }
    let Ok(i) = pre.to_input() else {
        vassert!(false, "no input although all data is available");
        return;
    };
    let Ok(g) = i.into_reader(spec(fulu)) else {
        vassert!(false, "the guest refuses the host's input");
        return;
    };
    check_active(&g, &w.vals[1], w.e + 2, false);
    vassert!(mix.is_some() && g.randao_mix(target, m as _).ok().flatten() == mix, "the guest has another RANDAO mix");
    vassert!(eqb(&g.genesis_validators_root().ok().unwrap().0, &w.gvr), "the guest has another genesis validators root");
    vassert!(g.fork(target).ok() == r.fork(target).ok(), "the guest has another fork");
    vassert!(g.consensus_state().ok() == r.consensus_state().ok(), "the guest has another consensus state");
    let (a, b): (Vec<_>, Vec<_>) = (g.attestations().ok().unwrap().collect(), r.attestations().ok().unwrap().collect());
    vassert!(a.len() == 1 && a == b, "the guest has other attestations");
    vassert!(g.slot_for_block(&w.header).ok() == if with_slot { Some(w.slot) } else { None }, "the guest has another slot of a block");
}
harness!(h_host_input_1, { input(false, 1, 0) });
harness!(h_host_input_2, { input(false, 2, 0) });
harness!(h_host_input_1_gap, { input(false, 1, 1) });
harness!(h_host_input_fulu_1, { input(true, 1, 0) });
harness!(h_host_input_fulu_2, { input(true, 2, 0) });
