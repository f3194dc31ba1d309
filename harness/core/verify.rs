// `verify` against a reference of Casper FFG with attestation aggregation (Electra).
use super::ffg::{cp, same, state};
use super::misc::RErr;
use super::sup::*;
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::*;
use alloy_primitives::B256;
use beacon_types::{AggregateSignature, Bits, Fork, ForkName, Tiny1, Tiny2};

pub struct World<E: EthSpec> {
    spec: ChainSpec,
    cfg: Config,
    gvr: [u8; 32],
    fork_epoch: u64,
    j: Checkpoint,
    f: Checkpoint,
    vals: Vec<(usize, ValidatorInfo)>,
    atts: Vec<Attestation<E>>,
    // the attestations again, in the form the reference uses
    raw: Vec<Raw>,
}
struct Raw {
    slot: u64,
    index: u64,
    source: Checkpoint,
    target: Checkpoint,
    data: AttestationData,
    agg: Vec<bool>,
    com: Vec<bool>,
    message: [u8; 32],
    signed: Vec<bool>,
}
fn take4(x: [u8; 32]) -> [u8; 4] { [x[0], x[1], x[2], x[3]] }
fn slot_of(root: &[u8; 32]) -> u64 {
    let h = hash2(root, &[7u8; 32]);
    u64::from_le_bytes(h[..8].try_into().unwrap())
}
use crate::vp::hash2;
impl<E: EthSpec> World<E> {
    fn fork_at(&self, epoch: u64) -> Fork {
        Fork { previous_version: take4(uf(2, epoch, 0)), current_version: take4(uf(3, epoch, 0)), epoch: Epoch::new(self.fork_epoch) }
    }
    fn version(&self, t: u64) -> [u8; 4] {
        let fork = self.fork_at(t);
        if nd::conc_bool(t < fork.epoch.as_u64()) { fork.previous_version } else { fork.current_version }
    }
    fn active_at(&self, k: usize, epoch: u64) -> bool {
        let v = &self.vals[k].1;
        nd::conc_bool(and(v.activation_epoch.as_u64() <= epoch, epoch < v.exit_epoch.as_u64()))
    }
}
impl<E: EthSpec> InputReader for World<E> {
    type Error = RErr;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec { &self.spec }
    fn genesis_validators_root(&self) -> Result<Root, RErr> { Ok(self.gvr.into()) }
    fn fork(&self, e: Epoch) -> Result<Fork, RErr> { Ok(self.fork_at(e.as_u64())) }
    fn active_validators(&self, e: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, RErr> {
        let mut out = Vec::new();
        for k in 0..self.vals.len() {
            if self.active_at(k, e.as_u64()) {
                out.push((self.vals[k].0, &self.vals[k].1));
            }
        }
        Ok(out.into_iter())
    }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, RErr> { Ok(Some(uf(1, epoch.as_u64(), idx as u64).into())) }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, RErr> { Ok(self.atts.iter()) }
    fn consensus_state(&self) -> Result<ConsensusState, RErr> { Ok(ConsensusState::new(self.j, self.f)) }
    fn slot_for_block(&self, root: &Root) -> Result<u64, RErr> { Ok(slot_of(&root.0)) }
}
pub struct Shape {
    n: usize,       // validators
    atts: usize,    // attestations (at least one)
    links: bool,    // may the attestations differ in their link
    com: u64,       // committee bits per attestation
    dynamic: usize, // validators whose activity is symbolic
    slashable: usize,
    cfgs: u64,
    wild: bool,     // malformed attestations as well
    honest: bool,   // every validator votes correctly; only the links are symbolic
}
fn world<E: EthSpec>(sh: &Shape, max_com: usize, mode: Mode) -> World<E> {
    let mut spec = ChainSpec::mainnet();
    spec.max_committees_per_slot = max_com;
    spec.target_committee_size = 1;
    spec.effective_balance_increment = 3 << 48;
    // the fork schedule is symbolic except where only the order of links matters
    let (e5, e6) = if mode == Mode::Ffg && sh.honest { (0, u64::MAX) } else { (nd::u64(), nd::u64()) };
    nd::assume(e5 <= e6);
    for k in 0..5 {
        spec.forks[k].1 = Some(Epoch::new(0));
    }
    spec.forks[5].1 = Some(Epoch::new(e5));
    spec.forks[6].1 = Some(Epoch::new(e6));
    spec.forks[7].1 = None;
    let (factor, quotient) = [(2, 3), (85, 100), (1, 2)][nd::pick(sh.cfgs) as usize];
    let cfg = Config {
        min_version: ForkName::Electra,
        max_version: ForkName::Electra,
        epoch_lookahead_limit: Epoch::new(if mode == Mode::Ffg && sh.honest { u64::MAX } else { nd::u64() }),
        justification_threshold_factor: factor,
        justification_threshold_quotient: quotient,
    };
    let (j, f, _) = state();
    let mut vals = Vec::new();
    for k in 0..sh.n {
        let (mut a, mut x) = (Epoch::new(0), Epoch::new(u64::MAX));
        if k < sh.dynamic {
            if k % 2 == 0 { a = Epoch::new(nd::u64()) } else { x = Epoch::new(nd::u64()) }
        }
        vals.push((2 * k + 1, ValidatorInfo {
            pubkey: pk(k),
            effective_balance: nd::bits(8) << 48, // coarse: solver cost; wide enough that 64-bit products overflow
            slashed: if sh.n - k <= sh.slashable { nd::bool() } else { false },
            activation_eligibility_epoch: Epoch::new(0),
            activation_epoch: a,
            exit_epoch: x,
        }));
    }
    let (gvr, fork_epoch) = (nd::b32(), if sh.honest { 0 } else { nd::u64() });
    let mut w = World { spec, cfg, gvr, fork_epoch, j, f, vals, atts: Vec::new(), raw: Vec::<Raw>::new() };
    for i in 0..sh.atts {
        let (source, target) = if i > 0 && !sh.links { (w.raw[0].source, w.raw[0].target) } else { (cp(), cp()) };
        let t = target.epoch().as_u64();
        let (slot, index) = if sh.honest { (t * E::slots_per_epoch(), 0) } else { (nd::u64(), nd::u64()) };
        let com: Vec<bool> = (0..sh.com).map(|_| sh.honest || nd::bool()).collect();
        let len = if sh.honest { sh.n } else if sh.wild { nd::pick(sh.n as u64 + 1) as usize } else { nd::pick(sh.n as u64) as usize + 1 };
        let agg: Vec<bool> = (0..len).map(|_| sh.honest || nd::bool()).collect();
        let signed: Vec<bool> = (0..sh.n).map(|_| sh.honest || nd::bool()).collect();
        let d = data(slot, index, source, target);
        let message = if sh.honest { signing_root(&d, w.version(t), &w.gvr) } else { nd::b32() };
        let signature = AggregateSignature { message, signers: signed.iter().enumerate().map(|(k, s)| (pk(k).0, *s)).collect() };
        let a = attn::<E>(Bits { bits: agg.clone() }, d.clone(), signature, Bits { bits: com.clone() });
        w.atts.push(Attestation::Electra(a));
        w.raw.push(Raw { slot, index, source, target, data: d, agg, com, message, signed });
    }
    w
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Assume, Ffg, Votes, Admit, Outcome }
/// The reference. Conditions of the focused group are asserted (they must hold once `verify`
/// accepted); in mode Assume all of them are assumed (then `verify` must accept).
/// Returns the new justified and finalized checkpoints.
fn reference<E: EthSpec>(w: &World<E>, mode: Mode) -> (Checkpoint, Checkpoint) {
    let need = |group: Mode, c: bool, m: &'static str| {
        if mode == Mode::Assume {
            nd::assume(c)
        } else if mode == group {
            vp::assert_(c, m)
        }
    };
    let spe = E::slots_per_epoch();
    let (mut j, mut f) = (w.j, w.f);
    let mut i = 0;
    let mut finalized = false;
    while i < w.raw.len() {
        let (source, target) = (w.raw[i].source, w.raw[i].target);
        let t = target.epoch().as_u64();
        need(Mode::Ffg, !finalized, "links are applied after a new finalization");
        need(Mode::Ffg, same(&source, &j), "a link does not start at the justified checkpoint");
        need(Mode::Ffg, source.epoch().as_u64() < t, "a link does not advance");
        let (e5, e6) = (w.spec.forks[5].1.unwrap().as_u64(), w.spec.forks[6].1.unwrap().as_u64());
        need(Mode::Admit, and(e5 <= t, t < e6), "a target epoch of an unsupported fork is accepted");
        need(Mode::Admit, t <= w.f.epoch().as_u64().saturating_add(w.cfg.epoch_lookahead_limit.as_u64()), "a target beyond the lookahead limit is accepted");
        // committees of the target epoch
        let act: Vec<usize> = (0..w.vals.len()).filter(|k| w.active_at(*k, t)).collect();
        let list: Vec<usize> = act.iter().map(|k| w.vals[*k].0).collect();
        need(Mode::Votes, !act.is_empty(), "votes without active validators are accepted");
        if act.is_empty() {
            return (j, f);
        }
        let cps = std::cmp::max(1, std::cmp::min(w.spec.max_committees_per_slot, act.len() / spe as usize));
        let vector = E::epochs_per_historical_vector() as u64;
        need(Mode::Votes, t <= u64::MAX - vector, "an epoch without a seed is accepted");
        let mix = uf(1, t, (t + vector - 2) % vector);
        let mut m = [0u8; 44];
        m[0] = 1;
        m[4..12].copy_from_slice(&t.to_le_bytes());
        m[12..].copy_from_slice(&mix);
        let sh = swap_or_not_shuffle::shuffle_list(list, w.spec.shuffle_round_count, &vp::hash(&m), false).unwrap();
        let version = w.version(t);
        let mut voted = vec![false; w.vals.len()];
        // consecutive attestations with the same link
        loop {
            let a = &w.raw[i];
            need(Mode::Votes, a.slot / spe == t, "a vote is accepted from a slot outside the target epoch");
            need(Mode::Votes, a.index == 0, "a vote with a committee index is accepted");
            let s = if spe == 1 { 0 } else { nd::conc(a.slot % spe) as usize };
            let mut mine = vec![false; w.vals.len()];
            let mut off = 0;
            for (c, on) in a.com.iter().enumerate() {
                if !nd::conc_bool(*on) {
                    continue;
                }
                need(Mode::Votes, c < cps, "a vote of a missing committee is accepted");
                if c >= cps {
                    return (j, f);
                }
                let (lo, hi) = range(act.len(), cps * spe as usize, s * cps + c);
                let mut some = false;
                for p in lo..hi {
                    let k = w.vals.iter().position(|v| v.0 == sh[p]).unwrap();
                    let b = off < a.agg.len() && nd::conc_bool(a.agg[off]);
                    mine[k] |= b;
                    some |= b;
                    off += 1;
                }
                need(Mode::Votes, some, "a vote naming a committee without voters is accepted");
            }
            need(Mode::Votes, off == a.agg.len(), "a vote with a wrong number of participation bits is accepted");
            need(Mode::Votes, mine.iter().any(|x| *x), "an empty vote is accepted");
            need(Mode::Votes, eqb(&a.message, &signing_root(&a.data, version, &w.gvr)), "a signature over other data, domain or fork is accepted");
            for k in 0..w.vals.len() {
                need(Mode::Votes, a.signed[k] == mine[k], "a vote is counted without the signature of its validator");
                voted[k] |= mine[k];
            }
            i += 1;
            if i >= w.raw.len() || !nd::conc_bool(and(same(&w.raw[i].source, &source), same(&w.raw[i].target, &target))) {
                break;
            }
        }
        // two balances: voted and unslashed, and all active
        let (mut vb, mut ab) = (0u64, 0u64);
        for k in &act {
            let b = w.vals[*k].1.effective_balance;
            ab = ab.wrapping_add(b);
            if voted[*k] && !nd::conc_bool(w.vals[*k].1.slashed) {
                vb = vb.wrapping_add(b);
            }
        }
        let inc = w.spec.effective_balance_increment;
        let vb = if vb > inc { vb } else { inc };
        let ab = if ab > inc { ab } else { inc };
        let (q, k) = (w.cfg.justification_threshold_quotient as u128, w.cfg.justification_threshold_factor as u128);
        need(Mode::Votes, vb as u128 * q >= ab as u128 * k, "a link is accepted below the configured threshold of unslashed active balance");
        need(Mode::Votes, vb * 3 >= ab * 2, "a link is accepted below two thirds of the active balance");
        if nd::conc_bool(t - source.epoch().as_u64() == 1) {
            f = source;
            finalized = !nd::conc_bool(same(&f, &w.f)); // the genesis link finalizes nothing new
        }
        j = target;
    }
    need(Mode::Ffg, finalized, "an input without a new finalization is accepted");
    (j, f)
}
fn sound<E: EthSpec>(sh: Shape, max_com: usize, mode: Mode) {
    let w = world::<E>(&sh, max_com, mode);
    let r = verify(&w.cfg, &w);
    if let Ok((s, slot)) = r {
        let (j, f) = reference(&w, mode);
        vcover!(true, "accepted");
        if mode == Mode::Ffg {
            vassert!(same(&s.current_justified_checkpoint(), &j), "the returned justified checkpoint is not the last target");
            vassert!(same(&s.finalized_checkpoint(), &f), "the returned finalized checkpoint is not the source of the finalizing link");
            vassert!(slot == slot_of(&f.root().0), "the returned slot is not that of the finalized block");
            vassert!(s.is_valid(), "the returned state is invalid");
        }
    } else {
        vcover!(true, "rejected");
    }
}
fn complete<E: EthSpec>(sh: Shape, max_com: usize) {
    no_panic();
    let w = world::<E>(&sh, max_com, Mode::Assume);
    let (j, f) = reference(&w, Mode::Assume);
    match verify(&w.cfg, &w) {
        Ok((s, slot)) => {
            vassert!(same(&s.current_justified_checkpoint(), &j) && same(&s.finalized_checkpoint(), &f), "an honest input leads to another state");
            vassert!(slot == slot_of(&f.root().0), "the returned slot is not that of the finalized block");
            vcover!(true, "accepted");
        }
        Err(_) => vassert!(false, "an honest input is rejected"),
    }
}
fn rot() { unsafe { swap_or_not_shuffle::FAMILY = 1 } }
fn id() { unsafe { swap_or_not_shuffle::FAMILY = 2 } }
const ONE: Shape = Shape { n: 3, atts: 1, links: false, com: 3, dynamic: 1, slashable: 1, cfgs: 3, wild: true, honest: false };
const LINKS: Shape = Shape { n: 2, atts: 2, links: true, com: 1, dynamic: 1, slashable: 0, cfgs: 1, wild: false, honest: false };
const SAME: Shape = Shape { n: 3, atts: 2, links: false, com: 2, dynamic: 0, slashable: 1, cfgs: 1, wild: false, honest: false };
const CHAIN: Shape = Shape { n: 1, atts: 3, links: true, com: 1, dynamic: 0, slashable: 0, cfgs: 1, wild: false, honest: true };
harness!(h_verify_votes_1, { rot(); sound::<Tiny1>(ONE, 2, Mode::Votes) });
harness!(h_verify_votes_2, { id(); sound::<Tiny1>(SAME, 2, Mode::Votes) });
harness!(h_verify_votes_slots, { rot(); sound::<Tiny2>(Shape { n: 4, com: 2, dynamic: 1, slashable: 0, cfgs: 1, wild: false, ..ONE }, 2, Mode::Votes) });
harness!(h_verify_admit_3, { id(); sound::<Tiny1>(CHAIN, 1, Mode::Admit) });
harness!(h_verify_admit_4, { id(); sound::<Tiny1>(Shape { atts: 4, ..CHAIN }, 1, Mode::Admit) });
harness!(h_verify_ffg_2, { id(); sound::<Tiny1>(Shape { n: 2, ..LINKS }, 1, Mode::Ffg) });
harness!(h_verify_ffg_3, { id(); sound::<Tiny1>(CHAIN, 1, Mode::Ffg) });
harness!(h_verify_ffg_4, { id(); sound::<Tiny1>(Shape { atts: 4, ..CHAIN }, 1, Mode::Ffg) });
harness!(h_verify_votes_4, { rot(); sound::<Tiny1>(Shape { n: 4, wild: false, slashable: 2, com: 2, ..ONE }, 2, Mode::Votes) });
harness!(h_verify_votes_link2, { id(); sound::<Tiny1>(LINKS, 1, Mode::Votes) });
harness!(h_verify_accept_chain, { id(); complete::<Tiny1>(CHAIN, 1) });
harness!(h_verify_accept_1, { rot(); complete::<Tiny1>(Shape { cfgs: 2, wild: false, com: 2, ..ONE }, 2) });
harness!(h_verify_accept_2, { id(); complete::<Tiny1>(LINKS, 1) });
harness!(h_verify_accept_same, { id(); complete::<Tiny1>(SAME, 2) });
#[allow(dead_code)]
fn _u() { let _ = Mode::Outcome; obs(0); }
