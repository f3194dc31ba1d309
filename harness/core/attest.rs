// Committees and attesting indices.
use super::sup::*;
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::*;
use beacon_types::{AggregateSignature, Bits, Tiny1, Tiny2, Tiny3};

/// distinct, not contiguous, increasing validator indices
pub fn indices(n: usize) -> Vec<usize> {
    let a = nd::pick(2) as usize; // starts at 0 or 1
    (0..n).map(|k| a + k * 2 - k / 2).collect()
}
fn partition<E: EthSpec>(nmax: u64, cmax: u64, spe: usize) {
    let n = 1 + nd::pick(nmax) as usize;
    let cps = 1 + nd::pick(cmax) as usize;
    let list = indices(n);
    let seed = nd::b32();
    let mut spec = ChainSpec::mainnet();
    spec.shuffle_round_count = nd::u8();
    nd::assume(spec.shuffle_round_count != 0);
    // slots per epoch that are not a power of two: small numbers (solver cost of 64-bit division)
    let p2 = spe.is_power_of_two();
    let epoch = if p2 { nd::u64() } else { [0, 1, 1000][nd::pick(3) as usize] };
    nd::assume(epoch < u64::MAX / spe as u64 - 1);
    let c = match CommitteeCache::<E>::initialized(&spec, ShuffleData { seed: seed.into(), indices: list.clone(), committees_per_slot: cps }, Epoch::new(epoch)) {
        Ok(c) => c,
        Err(_) => {
            vassert!(false, "no committees for a non-empty validator set");
            return;
        }
    };
    // the oracle: the (backwards) shuffle of the active validators by the seed, split into
    // contiguous slices in slot-major order
    let sh = swap_or_not_shuffle::shuffle_list(list.clone(), spec.shuffle_round_count, &seed, false).unwrap();
    vassert!(swap_or_not_shuffle::log().len() == 1, "the shuffle was not computed from the active validators, the seed and the round count");
    vassert!(c.shuffling() == sh, "the shuffling is altered");
    vassert!(c.active_validator_count() == n, "the number of active validators is wrong");
    vassert!(c.get_committee_count_per_slot() == cps && c.epoch_committee_count() == cps * spe, "the number of committees is wrong");
    let mut all = Vec::new();
    for s in 0..spe {
        let slot = Slot::new(epoch * spe as u64 + s as u64);
        let at = c.get_beacon_committees_at_slot(slot);
        vassert!(at.is_ok(), "no committees at a slot of the epoch");
        let at = at.unwrap();
        vassert!(at.len() == cps, "wrong number of committees at a slot");
        for i in 0..cps {
            let (a, b) = range(n, cps * spe, s * cps + i);
            match c.get_beacon_committee(slot, i) {
                Ok(m) => {
                    vassert!(m == &sh[a..b], "a committee has wrong members");
                    vassert!(at[i] == m, "the committees of a slot are not in index order");
                    all.extend_from_slice(m);
                }
                Err(_) => vassert!(false, "a committee is missing"),
            }
        }
    }
    vassert!(all == sh, "the committees of an epoch do not partition the active validators");
    for v in 0..=list[n - 1] + 1 {
        let want = sh.iter().position(|x| *x == v);
        vassert!(c.shuffled_position(v) == want, "the reported shuffled position is wrong");
    }
    // out of range requests
    let (slot, idx) = (if p2 { nd::u64() } else { nd::u16() as u64 & 0xfff }, nd::usize());
    match c.get_beacon_committee(Slot::new(slot), idx) {
        Ok(_) => vassert!(and(slot / spe as u64 == epoch, idx < cps), "a committee is returned for another epoch or index"),
        Err(_) => vassert!(!and(slot / spe as u64 == epoch, idx < cps), "a committee of the epoch is refused"),
    }
    vcover!(n as u64 == nmax && cps as u64 == cmax, "largest committee structure");
}
harness!(h_committees_2, { no_panic(); partition::<Tiny2>(4, 3, 2) });
harness!(h_committees_3, { no_panic(); partition::<Tiny3>(4, 2, 3) });
harness!(h_committees_rot, { no_panic(); unsafe { swap_or_not_shuffle::FAMILY = 1 }; partition::<Tiny2>(9, 5, 2) });

fn attesters<E: EthSpec>(nmax: u64, cmax: u64, spe: usize, well_formed: bool) {
    let n = 1 + nd::pick(nmax) as usize;
    let cps = 1 + nd::pick(cmax) as usize;
    let list = indices(n);
    let spec = ChainSpec::mainnet();
    let epoch = nd::u64();
    nd::assume(epoch < u64::MAX / spe as u64 - 1);
    let seed = nd::b32();
    let c = CommitteeCache::<E>::initialized(&spec, ShuffleData { seed: seed.into(), indices: list.clone(), committees_per_slot: cps }, Epoch::new(epoch)).unwrap();
    let sh = swap_or_not_shuffle::shuffle_list(list.clone(), 90, &seed, false).unwrap();
    let s = nd::pick(spe as u64) as usize;
    let slot = if well_formed { epoch * spe as u64 + s as u64 } else { nd::u64() };
    nd::assume(slot / spe as u64 != epoch || slot % spe as u64 == s as u64);
    // committee bits: one more than there are committees
    let cb: Vec<bool> = (0..cps + 1).map(|_| nd::conc_bool(nd::bool())).collect();
    let mut total = 0;
    let mut ok = !cb[cps];
    for i in 0..cps {
        if cb[i] {
            let (a, b) = range(n, cps * spe, s * cps + i);
            total += b - a;
        }
    }
    let len = if well_formed { total } else { nd::pick(total as u64 + 2) as usize };
    ok = ok && len == total;
    let agg: Vec<bool> = (0..len).map(|_| nd::bool()).collect();
    // reference: who attests, and does every selected committee have an attester
    let mut want = vec![false; n]; // by position in `list`
    let mut off = 0;
    let mut good = true;
    if ok {
        for i in 0..cps {
            if !cb[i] {
                continue;
            }
            let (a, b) = range(n, cps * spe, s * cps + i);
            let mut any = false;
            for k in a..b {
                let p = list.iter().position(|x| *x == sh[k]).unwrap();
                want[p] = agg[off];
                any |= agg[off];
                off += 1;
            }
            good = and(good, any);
        }
    }
    if well_formed {
        nd::assume(ok);
        nd::assume(good);
    }
    let d = data(slot, 0, Checkpoint::default(), Checkpoint::default());
    let a = attn::<E>(Bits { bits: agg }, d, AggregateSignature::default(), Bits { bits: cb });
    match get_attesting_indices(&a, &c) {
        Ok(got) => {
            vassert!(ok, "an attestation naming a missing committee or with a wrong number of bits is accepted");
            vassert!(good, "an attestation with an empty committee is accepted");
            if !cb_none(&a) {
                vassert!(slot / spe as u64 == epoch, "an attestation of another epoch is accepted");
            }
            if slot / spe as u64 == epoch && slot % spe as u64 == s as u64 {
                let mut m = 0;
                for (p, v) in list.iter().enumerate() {
                    vassert!(got.contains(v) == want[p], "the attesting validators are not those whose bits are set");
                    m += got.contains(v) as usize;
                }
                vassert!(m == got.len(), "a validator outside the committees attests");
                vcover!(m > 1, "several attesters");
            }
        }
        Err(_) => vassert!(!(ok && good && slot / spe as u64 == epoch), "a well-formed attestation is rejected"),
    }
}
fn cb_none<E: EthSpec>(a: &beacon_types::AttestationElectra<E>) -> bool { a.committee_bits.bits.iter().all(|b| !b) }
harness!(h_attesting_any, { unsafe { swap_or_not_shuffle::FAMILY = 1 }; attesters::<Tiny2>(4, 2, 2, false) });
harness!(h_attesting_exact, { no_panic(); attesters::<Tiny2>(4, 3, 2, true) });
harness!(h_attesting_exact_1, { no_panic(); unsafe { swap_or_not_shuffle::FAMILY = 1 }; attesters::<Tiny1>(7, 3, 1, true) });
