// Casper FFG state transitions over all states and links.
#[allow(unused_imports)]
use crate::vp::{and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::{Checkpoint, ConsensusError, ConsensusState, Epoch, Link};

pub fn cp() -> Checkpoint { Checkpoint::new(Epoch::new(nd::u64()), nd::b32().into()) }
pub fn zero(c: &Checkpoint) -> bool { and(c.epoch().as_u64() == 0, eqb(&c.root().0, &[0u8; 32])) }
pub fn same(a: &Checkpoint, b: &Checkpoint) -> bool { and(a.epoch().as_u64() == b.epoch().as_u64(), eqb(&a.root().0, &b.root().0)) }
/// reference validity: finalized strictly before justified, or the all-zero genesis state
pub fn valid(j: &Checkpoint, f: &Checkpoint) -> bool { f.epoch().as_u64() < j.epoch().as_u64() || and(zero(j), zero(f)) }
/// any valid state, as (justified, finalized)
pub fn state() -> (Checkpoint, Checkpoint, ConsensusState) {
    let (j, f) = (cp(), cp());
    nd::assume(valid(&j, &f));
    (j, f, ConsensusState::new(j, f))
}

harness!(h_ffg_transition, {
    no_panic();
    let (j, f, s) = state();
    vassert!(s.is_valid(), "a valid state is reported invalid");
    let (source, target) = (cp(), cp());
    let from_j = same(&source, &j);
    let r = s.state_transition(&Link { source, target });
    // the mathematical gap, without overflow
    let gap = target.epoch().as_u64() as u128;
    let base = source.epoch().as_u64() as u128;
    match r {
        Ok(n) => {
            vassert!(from_j, "a link that does not start at the justified checkpoint is applied");
            vassert!(gap > base, "a link that does not advance is applied");
            vassert!(same(&n.current_justified_checkpoint(), &target), "the target is not justified");
            if gap == base + 1 {
                vassert!(same(&n.finalized_checkpoint(), &source), "a consecutive link does not finalize its source");
                vcover!(true, "finalizing");
            } else {
                vassert!(same(&n.finalized_checkpoint(), &f), "a skipping link changes the finalized checkpoint");
                vcover!(true, "justifying only");
            }
            let (nj, nf) = (n.current_justified_checkpoint(), n.finalized_checkpoint());
            vassert!(valid(&nj, &nf), "the new state is invalid");
            vassert!(n.is_valid(), "the new state is reported invalid");
            vassert!(nf.epoch().as_u64() >= f.epoch().as_u64(), "finality goes backwards");
            vassert!(nj.epoch().as_u64() > j.epoch().as_u64(), "justification does not advance");
            // the supermajority link is recovered from the two states (genesis with a zero link excepted: see DESIGN)
        }
        Err(ConsensusError::InvalidTransition) => {
            vassert!(!(from_j && gap > base), "a valid link is rejected");
            vcover!(from_j, "rejected: does not advance");
            vcover!(gap > base, "rejected: foreign source");
        }
        Err(ConsensusError::ArithError(_)) => {
            vassert!(from_j && source.epoch().as_u64() == u64::MAX, "arithmetic error on a valid link");
            vcover!(true, "epoch overflow");
        }
        Err(_) => vassert!(false, "unexpected error"),
    }
});

harness!(h_ffg_inverse, {
    no_panic();
    // applying a link and recovering it
    let (_j, _f, s) = state();
    let (source, target) = (cp(), cp());
    if let Ok(n) = s.state_transition(&Link { source, target }) {
        match s.transition_link(&n) {
            Ok(Some(l)) => {
                vassert!(same(&l.source, &source) && same(&l.target, &target), "the recovered link differs from the applied one");
                vcover!(true, "recovered");
            }
            Ok(None) => vassert!(false, "no link is recovered for a transition"),
            Err(_) => vassert!(false, "the applied link is not recovered"),
        }
    }
});

harness!(h_ffg_link_sound, {
    // a recovered link reproduces the other state
    let (j, f, s) = state();
    let (j2, f2, t) = state();
    match s.transition_link(&t) {
        Ok(Some(l)) => {
            match s.state_transition(&l) {
                Ok(n) => vassert!(same(&n.current_justified_checkpoint(), &j2) && same(&n.finalized_checkpoint(), &f2), "the recovered link leads to another state"),
                Err(_) => vassert!(false, "the recovered link is not applicable"),
            }
            vcover!(same(&f, &f2), "justification only");
            vcover!(!same(&f, &f2), "finalization");
        }
        Ok(None) => {
            vassert!(same(&j, &j2) && same(&f, &f2), "two different states are reported as equal");
            vcover!(true, "unchanged");
        }
        Err(ConsensusError::TwoFinality) => {
            vassert!(!same(&f, &f2) && j2.epoch().as_u64() == f2.epoch().as_u64() + 2, "2-finality reported without it");
            vcover!(true, "2-finality");
        }
        Err(ConsensusError::InvalidTransition) => {
            vassert!(!(same(&j, &j2) && same(&f, &f2)), "equal states are reported as an invalid transition");
        }
        Err(_) => vassert!(false, "unexpected error"),
    }
});
