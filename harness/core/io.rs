// The serialised guest input and the guest program.
use super::ffg::{cp, same, state};
use super::reader::*;
use super::sup::*;
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::*;
use beacon_types::{AggregateSignature, AttestationBase, Bits, ForkName, Tiny2};
use risc0_zkvm::guest::env;
use std::collections::BTreeMap;
use std::marker::PhantomData;

fn some_bits(n: u64) -> Bits { bits(nd::pick(n) as usize) }
fn signature() -> AggregateSignature { AggregateSignature { message: nd::b32(), signers: (0..nd::pick(2) as usize).map(|k| (pk(k).0, nd::bool())).collect() } }
fn some_patch() -> StatePatch {
    let mut p = StatePatch::new();
    for _ in 0..nd::pick(3) {
        p.validator_exits.insert(nd::usize(), ep(nd::u64()));
    }
    for _ in 0..nd::pick(2) {
        p.randao_mixes.insert(nd::u32(), nd::b32().into());
    }
    p
}
/// `part`: which part of the input varies
fn round_trip(part: u32) {
    no_panic();
    let (_, _, cs) = state();
    let shapes: [&[u64]; 4] = [&[11], &[8, 11], &[1], &[5, 13, 24]];
    let pr = || {
        let k = if part == 0 { nd::pick(4) as usize } else { 1 };
        let mut p = Pr::new(shapes[k], true);
        if part == 0 {
            for m in p.mask.iter_mut() {
                *m = nd::conc_bool(nd::bool());
            }
        }
        p
    };
    let b = pr();
    let (s, v) = (Pr::new(&[8, 11], true), Pr::new(&[6, 7], true));
    let (fb, fs, fv) = (b.flat(), s.flat(), v.flat());
    let slots: Vec<Pr> = (0..nd::pick(if part == 0 { 2 } else { 1 })).map(|_| Pr::new(&[8], true)).collect();
    let fl: Vec<Vec<u8>> = slots.iter().map(|p| p.flat()).collect();
    let mut patches = BTreeMap::new();
    let mut attestations: Vec<Attestation<Tiny2>> = Vec::new();
    let mut public_keys = Vec::new();
    match part {
        1 => {
            for _ in 0..nd::pick(3) {
                patches.insert(ep(nd::u64()), some_patch());
            }
        }
        2 => {
            for _ in 0..nd::pick(3) {
                let d = data(nd::u64(), nd::u64(), cp(), cp());
                attestations.push(match nd::pick(2) {
                    0 => Attestation::Base(AttestationBase { aggregation_bits: some_bits(3), data: d, signature: signature(), _p: PhantomData }),
                    _ => Attestation::Electra(attn(some_bits(3), d, signature(), some_bits(3))),
                });
            }
        }
        _ => {
            for _ in 0..nd::pick(3) {
                let mut k = pk(0);
                for w in k.0.chunks_mut(8) {
                    w.copy_from_slice(&nd::u64().to_le_bytes());
                }
                public_keys.push(k);
            }
        }
    }
    let i = GuestInput::<Tiny2> {
        beacon_block: b.mp(&fb),
        beacon_state: s.mp(&fs),
        active_validators: v.mp(&fv),
        public_keys,
        patches,
        consensus_state: cs,
        attestations,
        block_slot_proofs: slots.iter().zip(&fl).map(|(p, f)| p.mp(f)).collect(),
    };
    let bytes = bincode::serialize(&i).unwrap();
    match bincode::deserialize::<GuestInput<Tiny2>>(&bytes) {
        Ok(o) => {
            vassert!(o.beacon_block == i.beacon_block && o.beacon_state == i.beacon_state && o.active_validators == i.active_validators && o.block_slot_proofs == i.block_slot_proofs, "a proof changes when the input is serialised");
            vassert!(o.public_keys == i.public_keys, "a public key changes when the input is serialised");
            vassert!(o.patches == i.patches, "a state patch changes when the input is serialised");
            vassert!(o.attestations == i.attestations, "an attestation changes when the input is serialised");
            vassert!(same(&o.consensus_state.current_justified_checkpoint(), &i.consensus_state.current_justified_checkpoint()) && same(&o.consensus_state.finalized_checkpoint(), &i.consensus_state.finalized_checkpoint()), "the trusted state changes when the input is serialised");
            vcover!(!i.patches.is_empty() || !i.attestations.is_empty() || !i.public_keys.is_empty(), "round trip");
        }
        Err(_) => vassert!(false, "a serialised input does not deserialise"),
    }
    // a truncated input is rejected
    if part == 3 {
        let cut = nd::pick(64) as usize + 1;
        vassert!(bincode::deserialize::<GuestInput<Tiny2>>(&bytes[..bytes.len() - cut]).is_err(), "a truncated input deserialises");
    }
}
harness!(h_input_proofs, { round_trip(0) });
harness!(h_input_patches, { round_trip(1) });
harness!(h_input_votes, { round_trip(2) });
harness!(h_input_keys, { round_trip(3) });
harness!(h_input_config, {
    no_panic();
    let forks = [ForkName::Base, ForkName::Electra, ForkName::Fulu];
    let c = Config {
        min_version: forks[nd::pick(3) as usize],
        max_version: forks[nd::pick(3) as usize],
        epoch_lookahead_limit: ep(nd::u64()),
        justification_threshold_factor: nd::u64(),
        justification_threshold_quotient: nd::u64(),
    };
    let b = bincode::serialize(&c).unwrap();
    match bincode::deserialize::<Config>(&b) {
        Ok(d) => vassert!(d == c, "a configuration changes when it is serialised"),
        Err(_) => vassert!(false, "a serialised configuration does not deserialise"),
    }
    vcover!(true, "round trip");
});

// ---- the guest program -------------------------------------------------------------------------
fn word(x: u64) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&x.to_be_bytes());
    w
}
fn put(o: &mut Vec<u8>, c: &Checkpoint) {
    o.extend_from_slice(&word(c.epoch().as_u64()));
    o.extend_from_slice(&c.root().0);
}
/// One validator, honest proofs; the votes follow a chain of up to `n` links.
/// `honest`: the guest must succeed.
fn guest(n: u64, honest_votes: bool) {
    if honest_votes {
        no_panic();
    }
    unsafe { swap_or_not_shuffle::FAMILY = 2 }
    let mut w = honest(1, 1);
    w.spec.forks[6].1 = Some(ep(FAR));
    w.spec.forks[5].1 = Some(ep(0));
    w.spec.forks[7].1 = None;
    w.spec.max_committees_per_slot = 1;
    w.spec.target_committee_size = 1;
    w.spec.config_name = Some("test".to_string());
    w.set_fork();
    fill(&mut w, 1);
    for (k, x) in [(2, 1 << 35), (3, 0), (4, 0), (5, 0), (6, FAR)] {
        w.vals.set(vfield(0, k), chunk(x));
    }
    let cfg = Config { min_version: ForkName::Electra, max_version: ForkName::Electra, epoch_lookahead_limit: ep(FAR), justification_threshold_factor: 85, justification_threshold_quotient: 100 };
    let block = Pr::new(&[BLOCK_SLOT], true);
    let slot = low(&block.at(BLOCK_SLOT).unwrap());
    // the block that gets finalized: the first justified one, or the first target
    let skip = nd::pick(n);
    w.j = Checkpoint::new(w.j.epoch(), block.root().into());
    w.slots.push(block);
    w.seal();
    let (mut j, mut f) = (w.j, w.f);
    let gvr = w.state.at(field("genesis_validators_root")).unwrap();
    let count = if honest_votes { skip + 1 } else { nd::pick(n + 1) };
    let mut atts = Vec::new();
    let mut mixes = Vec::new();
    for k in 0..count {
        let step = if honest_votes { if k < skip { 2 } else { 1 } } else { nd::pick(3) };
        let t = j.epoch().as_u64() + step;
        let mut target = Checkpoint::new(ep(t), cp().root());
        if honest_votes && k + 1 == skip {
            target = Checkpoint::new(ep(t), w.j.root()); // same block justified twice, then finalized
        }
        let source = if honest_votes || nd::pick(2) == 0 { j } else { cp() };
        let d = data(t * SPE + 1, 0, source, target);
        let message = if honest_votes { signing_root(&d, w.spec.fork_at_epoch(ep(t)).current_version, &gvr) } else { nd::b32() };
        let signature = AggregateSignature { message, signers: vec![(pk(0).0, honest_votes || nd::bool())] };
        let agg = Bits { bits: vec![honest_votes || nd::bool()] };
        atts.push(Attestation::Electra(attn::<Tiny2>(agg, d, signature, Bits { bits: vec![true] })));
        mixes.push(t);
        if step == 1 {
            f = j;
        }
        j = target;
    }
    // Tiny2 keeps 4 RANDAO mixes; the seed of epoch t is made of mix t - 2
    for t in mixes {
        let mut p = StatePatch::new();
        for k in 0..4 {
            p.randao_mixes.insert(k, nd::b32().into());
        }
        w.patches.insert(ep(t), p);
    }
    let (fb, fs, fv) = (w.block.flat(), w.state.flat(), w.vals.flat());
    let fl: Vec<Vec<u8>> = w.slots.iter().map(|p| p.flat()).collect();
    let input = || GuestInput::<Tiny2> {
        beacon_block: w.block.mp(&fb),
        beacon_state: w.state.mp(&fs),
        active_validators: w.vals.mp(&fv),
        public_keys: w.keys.clone(),
        patches: w.patches.clone(),
        consensus_state: ConsensusState::new(w.j, w.f),
        attestations: atts.clone(),
        block_slot_proofs: w.slots.iter().zip(&fl).map(|(p, f)| p.mp(f)).collect(),
    };
    let bytes = bincode::serialize(&input()).unwrap();
    #[allow(static_mut_refs)]
    let journal = unsafe {
        env::FRAME = bytes;
        env::JOURNAL.clear();
        crate::vp_guest::entry::<Tiny2>(w.spec.clone(), &cfg);
        env::JOURNAL.clone()
    };
    // the guest finished: its journal is the verified transition of this input
    let done = match input().into_reader(w.spec.clone()) {
        Ok(r) => verify(&cfg, &r).ok(),
        Err(_) => None,
    };
    match done {
        Some((s, got)) => {
            let mut want = Vec::new();
            put(&mut want, &w.j);
            put(&mut want, &w.f);
            put(&mut want, &s.current_justified_checkpoint());
            put(&mut want, &s.finalized_checkpoint());
            want.extend_from_slice(&word(got));
            vassert!(journal.len() == want.len() && eqb(&journal, &want), "the journal is not the trusted state, the verified state and the finalized slot");
            vassert!(same(&s.current_justified_checkpoint(), &j) && same(&s.finalized_checkpoint(), &f) && got == slot, "the journal does not follow the votes");
            vcover!(count == 1, "one link");
            vcover!(count == 2, "two links");
        }
        None => vassert!(false, "the guest commits a journal for an input that does not verify"),
    }
}
harness!(h_guest_honest, { guest(2, true) });
harness!(h_guest_any, { guest(2, false) });
