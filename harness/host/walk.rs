// HostInputReader::new: which state it starts from, and which attestations it collects.
use super::chain::*;
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::{HostInputReader, HostReaderError, StateProvider, StateProviderError, StateRef};
use beacon_types::{ChainSpec, EthSpec, Tiny2};
use z_core::{Attestation, Checkpoint, ConsensusState, Epoch, InputReader, Link, Slot};

struct NoStates;
impl StateProvider for NoStates {
    type Spec = Tiny2;
    fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> { Err(StateProviderError::NotFound(slot)) }
}
type Reader<'a> = HostInputReader<Tiny2, NoStates, &'a Chain>;
fn new(c: &Chain, t: Checkpoint) -> Result<Reader<'_>, HostReaderError> {
    futures::executor::block_on(HostInputReader::new(ChainSpec::mainnet(), NoStates, c, t))
}
fn st_eq(a: &ConsensusState, b: &ConsensusState) -> bool {
    and(same(&a.finalized_checkpoint(), &b.finalized_checkpoint()), same(&a.current_justified_checkpoint(), &b.current_justified_checkpoint()))
}

/// any consensus states, one per epoch after the trusted checkpoint's
fn walk(n: usize) {
    no_panic();
    let e = nd::bits(40);
    let t = cp(e);
    let mut c = Chain { epoch: e + 1, ..Default::default() };
    for k in 0..n as u64 {
        let (j, f) = (cp(nd::u64()), cp(nd::u64()));
        // a state only knows justified epochs before its own
        nd::assume(f.epoch() < j.epoch() && j.epoch().as_u64() < e + 1 + k);
        c.states.push(ConsensusState::new(j, f));
    }
    let r = new(&c, t);
    let mut k = 0;
    let start = loop {
        match c.states.get(k) {
            None => break None,
            Some(s) if same(&s.finalized_checkpoint(), &t) => break Some(k),
            Some(s) if s.finalized_checkpoint().epoch().as_u64() >= e => {
                vassert!(matches!(r, Err(HostReaderError::InvalidTrustedCheckpoint)), "a checkpoint that the chain skipped is not reported as invalid");
                vcover!(true, "skipped");
                return;
            }
            Some(_) => k += 1,
        }
    };
    let Some(start) = start else {
        vassert!(r.is_err(), "accepted although no state finalizes the trusted checkpoint");
        vcover!(true, "not finalized yet");
        return;
    };
    let mut m = start + 1;
    let ok = loop {
        let Some(s) = c.states.get(m) else { break false };
        if c.states[m - 1].transition_link(s).is_err() { break false; }
        if !same(&s.finalized_checkpoint(), &t) { break true; }
        m += 1;
    };
    match r {
        Ok(r) => {
            vassert!(ok, "accepted although the states do not lead to a new finalization");
            let s = r.consensus_state().ok().unwrap();
            vassert!(same(&s.finalized_checkpoint(), &t), "the initial state does not finalize the trusted checkpoint");
            vassert!(st_eq(&s, &c.states[start]), "the initial state is not the first that finalizes the trusted checkpoint");
            vassert!(r.attestations().ok().unwrap().count() == 0, "attestations from nowhere");
            vcover!(start == 1, "accepted, first state");
            vcover!(start > 1, "accepted, later state");
        }
        Err(_) => {
            vassert!(!ok, "a chain with a new finalization is refused");
            vcover!(true, "refused");
        }
    }
}
harness!(h_host_walk_4, { walk(4) });
harness!(h_host_walk_5, { walk(5) });

/// honest chains after the trusted checkpoint of epoch e: the links with their epochs, and the states
fn honest(e: u64, kind: u64) -> (Chain, Checkpoint, Vec<Link>) {
    let t = cp(e);
    let (f0, j1, j2) = (cp(e - 1), cp(e + 1), cp(e + 2));
    let s = |j: &Checkpoint, f: &Checkpoint| ConsensusState::new(*j, *f);
    let link = |a: &Checkpoint, b: &Checkpoint| Link { source: *a, target: *b };
    let mut c = Chain { epoch: e + 1, slot: (e + 1) * SPE, ..Default::default() };
    c.states.push(s(&t, &f0));
    c.states.push(s(&j1, &t));
    let links = match kind {
        // the next epoch is justified in time
        0 => {
            c.states.push(s(&j2, &j1));
            vec![link(&j1, &j2)]
        }
        // the next epoch is justified one epoch late
        1 => {
            c.states.push(s(&j1, &t));
            c.states.push(s(&j2, &j1));
            vec![link(&j1, &j2)]
        }
        // an epoch is never justified; the following two are
        _ => {
            let (j3, j4) = (cp(e + 3), cp(e + 4));
            c.states.push(s(&j1, &t));
            c.states.push(s(&j3, &t));
            c.states.push(s(&j4, &j3));
            vec![link(&j1, &j3), link(&j3, &j4)]
        }
    };
    (c, t, links)
}
fn lk_eq(l: &Link, s: &Checkpoint, t: &Checkpoint) -> bool { and(same(&l.source, s), same(&l.target, t)) }
fn data_eq(a: &Attestation<Tiny2>, b: &beacon_types::AttestationElectra<Tiny2>) -> bool {
    let (x, y) = (a.data(), &b.data);
    let mut q = and(x.slot.as_u64() == y.slot.as_u64(), eqb(&x.beacon_block_root.0, &y.beacon_block_root.0));
    q = and(q, and(same(&x.source.into(), &y.source.into()), same(&x.target.into(), &y.target.into())));
    q = and(q, eqb(&a.signature().message, &b.signature.message));
    match a {
        Attestation::Electra(z) => {
            q = and(q, z.aggregation_bits.len() == 1 && z.aggregation_bits.bits[0] == b.aggregation_bits.bits[0]);
            and(q, z.committee_bits == b.committee_bits)
        }
        _ => false,
    }
}
/// n attestations in blocks of an honest chain
fn collect(n: usize, kind: u64) {
    no_panic();
    let e = 1 + nd::bits(32);
    let (mut c, t, links) = honest(e, kind);
    let last = links.last().unwrap().target.epoch().as_u64();
    let total = (last + 2) * SPE - c.slot;
    let mut at = Vec::new();
    let mut per: Vec<Vec<_>> = (0..total).map(|_| Vec::new()).collect();
    let mut from = 0;
    for _ in 0..n {
        // target epoch relative to e + 1; included in that epoch or in the next one, after its slot
        let rel = nd::pick(total / SPE - 1);
        let target = e + 1 + rel;
        let off = nd::pick(SPE);
        let slot = target * SPE + off;
        let b = rel * SPE + off + 1 + nd::pick(2 * SPE - off - 1);
        nd::assume(b >= from);
        from = b;
        let a = attestation(slot, cp(nd::u64()), cp(target));
        per[b as usize].push(included(&a));
        at.push((b, a));
    }
    for (k, v) in per.into_iter().enumerate() {
        // slots without attestations have no block, except for one
        c.blocks.push(if v.is_empty() && k != 1 { None } else { Some(block(v)) });
    }
    let Ok(r) = new(&c, t) else {
        vassert!(false, "an honest chain is refused");
        return;
    };
    let got: Vec<&Attestation<Tiny2>> = r.attestations().ok().unwrap().collect();
    let mut k = 0;
    for l in &links {
        for (b, a) in &at {
            if nd::conc_bool(lk_eq(l, &a.data.source.into(), &a.data.target.into())) {
                vassert!(k < got.len(), "an attestation for a link is missing");
                if k >= got.len() { return; }
                vassert!(data_eq(got[k], a), "attestations are not those for the links, in the order of the links");
                vcover!(*b == total - 1, "included at the latest slot");
                k += 1;
            }
        }
    }
    vassert!(k == got.len(), "attestations that belong to no link");
    vcover!(k == n, "all collected");
    vcover!(k == 0, "none collected");
}
harness!(h_host_collect_0_1, { collect(1, 0) });
harness!(h_host_collect_1_1, { collect(1, 1) });
harness!(h_host_collect_2_1, { collect(1, 2) });
harness!(h_host_collect_0_2, { collect(2, 0) });
harness!(h_host_collect_1_2, { collect(2, 1) });
harness!(h_host_collect_2_2, { collect(2, 2) });
harness!(h_host_walk_6, { walk(6) });
harness!(h_host_collect_0_3, { collect(3, 0) });
harness!(h_host_collect_1_3, { collect(3, 1) });
harness!(h_host_collect_2_3, { collect(3, 2) });
