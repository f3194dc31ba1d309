// Balances, configuration, public keys, seeds.
use super::sup::*;
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::*;
use alloy_primitives::B256;
use beacon_types::{ForkName, Tiny2, Tiny3};

pub fn validator(k: usize) -> ValidatorInfo {
    ValidatorInfo {
        pubkey: pk(k),
        effective_balance: nd::u64(),
        slashed: nd::bool(),
        activation_eligibility_epoch: Epoch::new(nd::u64()),
        activation_epoch: Epoch::new(nd::u64()),
        exit_epoch: Epoch::new(nd::u64()),
    }
}
fn total_balance(n: u64) {
    no_panic();
    let k = nd::pick(n + 1) as usize;
    let vs: Vec<ValidatorInfo> = (0..k).map(validator).collect();
    let mut spec = ChainSpec::mainnet();
    spec.effective_balance_increment = nd::u64();
    // exact sum: 64 low bits and whether anything was carried out of them
    let (mut sum, mut over) = (0u64, false);
    for v in &vs {
        let t = sum.wrapping_add(v.effective_balance);
        over = over | (t < sum);
        sum = t;
    }
    match get_total_balance(&spec, &vs) {
        Ok(b) => {
            vassert!(!over, "an overflowing balance sum is accepted");
            let want = if sum > spec.effective_balance_increment { sum } else { spec.effective_balance_increment };
            vassert!(b == want, "the total balance is not max(increment, sum)");
            vcover!(sum > spec.effective_balance_increment, "sum dominates");
            vcover!(sum < spec.effective_balance_increment, "increment dominates");
        }
        Err(_) => {
            vassert!(over, "a representable balance sum is rejected");
            vcover!(true, "overflow");
        }
    }
}
harness!(h_total_balance_4, { total_balance(4) });
harness!(h_total_balance_6, { total_balance(6) });

fn fork_name() -> ForkName { beacon_types::FORKS[nd::pick(8) as usize] }
harness!(h_config_versions, {
    no_panic();
    let (min, max, f) = (fork_name(), fork_name(), fork_name());
    let c = Config { min_version: min, max_version: max, epoch_lookahead_limit: Epoch::new(nd::u64()), justification_threshold_factor: nd::u64(), justification_threshold_quotient: nd::u64() };
    let want = (min as u8) <= (f as u8) && (f as u8) <= (max as u8);
    vassert!(c.is_supported_version(f) == want, "a fork is supported outside the configured range or unsupported inside it");
    vcover!(want, "supported");
    vcover!(!want, "unsupported");
});
harness!(h_config_shipped, {
    no_panic();
    for c in [&DEFAULT_CONFIG, &SEPOLIA_CONFIG] {
        // meeting the configured threshold implies a two-thirds majority, for every pair of balances
        let (t, a) = (nd::u64(), nd::u64());
        let met = t as u128 * c.justification_threshold_quotient as u128 >= a as u128 * c.justification_threshold_factor as u128;
        vassert!(!met || t as u128 * 3 >= a as u128 * 2, "the shipped threshold is below two thirds");
        vassert!(!(t == a) || met, "full participation does not meet the shipped threshold");
        vassert!(c.justification_threshold_quotient > 0, "the shipped quotient is zero");
        // the guest hard-codes the Electra state and attestation layout
        for f in beacon_types::FORKS {
            if c.is_supported_version(f) {
                vassert!(f >= ForkName::Electra, "a fork before Electra is supported");
            }
        }
        vassert!(c.is_supported_version(ForkName::Electra), "Electra is not supported");
        vassert!(c.epoch_lookahead_limit.as_u64() <= 4, "validators activated by unseen deposits could be active within the lookahead");
        vcover!(met, "threshold met");
        vcover!(!met, "threshold not met");
    }
});

harness!(h_pubkey_chunks, {
    no_panic();
    let mut k = [0u8; 48];
    let (a, b) = (nd::b32(), nd::b32());
    k[..32].copy_from_slice(&a);
    k[32..].copy_from_slice(&b[..16]);
    let (c1, c2) = (nd::b32(), nd::b32());
    let want = and(and(eqb(&c1, &k[..32]), eqb(&c2[..16], &k[32..])), eqb(&c2[16..], &[0u8; 16]));
    let got = has_compressed_chunks(&PublicKey(k), &c1, &c2);
    vassert!(got == want, "a public key is matched with chunks that are not its SSZ serialization");
    vcover!(got, "match");
    vcover!(!got, "mismatch");
});

/// reader with only the randao
struct Rng<E> {
    spec: ChainSpec,
    present: bool,
    asked: std::cell::Cell<Option<(u64, u32)>>,
    _p: std::marker::PhantomData<E>,
}
#[derive(Debug)]
pub struct RErr;
impl std::fmt::Display for RErr {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for RErr {}
impl From<safe_arith::ArithError> for RErr {
    fn from(_: safe_arith::ArithError) -> Self { RErr }
}
impl<E: EthSpec> InputReader for Rng<E> {
    type Error = RErr;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec { &self.spec }
    fn genesis_validators_root(&self) -> Result<Root, RErr> { Err(RErr) }
    fn fork(&self, _: Epoch) -> Result<beacon_types::Fork, RErr> { Err(RErr) }
    fn active_validators(&self, _: Epoch) -> Result<impl Iterator<Item = (ValidatorIndex, &ValidatorInfo)>, RErr> { Ok(std::iter::empty()) }
    fn randao_mix(&self, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, RErr> {
        self.asked.set(Some((epoch.as_u64(), idx)));
        Ok(if self.present { Some(uf(1, epoch.as_u64(), idx as u64).into()) } else { None })
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, RErr> { Ok(std::iter::empty()) }
    fn consensus_state(&self) -> Result<ConsensusState, RErr> { Err(RErr) }
    fn slot_for_block(&self, _: &Root) -> Result<u64, RErr> { Err(RErr) }
}
fn seed<E: EthSpec>(vector: u64) {
    let mut spec = ChainSpec::mainnet();
    let look = nd::u64();
    nd::assume(look < vector); // MIN_SEED_LOOKAHEAD + 1 <= EPOCHS_PER_HISTORICAL_VECTOR
    spec.min_seed_lookahead = Epoch::new(look);
    let r = Rng::<E> { spec, present: true, asked: Default::default(), _p: Default::default() };
    let (epoch, domain) = (nd::u64(), [nd::u8(), nd::u8(), nd::u8(), nd::u8()]);
    match r.get_seed(Epoch::new(epoch), domain.into()) {
        Ok(s) => {
            let idx = ((epoch as u128 + vector as u128 - look as u128 - 1) % vector as u128) as u64;
            let mix = uf(1, epoch, idx);
            let mut m = [0u8; 44];
            m[..4].copy_from_slice(&domain);
            m[4..12].copy_from_slice(&epoch.to_le_bytes());
            m[12..].copy_from_slice(&mix);
            vassert!(eqb(&s.0, &vp::hash(&m)), "the seed is not hash(domain, epoch, mix of the epoch min_seed_lookahead + 1 ago)");
            vcover!(true, "seed computed");
        }
        Err(_) => {
            vassert!(epoch as u128 + vector as u128 > u64::MAX as u128, "the seed of a representable epoch is rejected");
            vcover!(true, "overflow");
        }
    }
}
harness!(h_seed_tiny, { no_panic(); seed::<Tiny2>(4) });
harness!(h_seed_tiny3, { no_panic(); seed::<Tiny3>(8) });
harness!(h_seed_mainnet, { no_panic(); seed::<MainnetEthSpec>(65536) });
harness!(h_randao_mix, {
    // a missing mix never yields a value
    let present = nd::conc_bool(nd::bool());
    let r = Rng::<Tiny3> { spec: ChainSpec::mainnet(), present, asked: Default::default(), _p: Default::default() };
    let (se, e) = (nd::u64(), nd::u64());
    if let Ok(m) = r.get_randao_mix(Epoch::new(se), Epoch::new(e)) {
        vassert!(present, "a missing RANDAO mix is replaced by a value");
        vassert!(eqb(&m.0, &uf(1, se, e % 8)), "the RANDAO mix of another epoch is returned");
        vcover!(true, "mix read");
    } else {
        vassert!(false, "reading a mix fails");
    }
});

harness!(h_patch_active, {
    no_panic();
    let v = validator(0);
    let (e, x, idx, key) = (nd::u64(), nd::u64(), nd::usize(), nd::usize());
    let mut p = StatePatch::new();
    p.validator_exits.insert(key, Epoch::new(x));
    let exit = v.exit_epoch.as_u64();
    let mut want = and(v.activation_epoch.as_u64() <= e, e < exit);
    vassert!(v.is_active_at(Epoch::new(e)) == want, "activity is not activation <= epoch < exit");
    if idx == key {
        want = and(want, e < x);
    }
    vassert!(p.is_active_validator(&idx, &v, Epoch::new(e)) == want, "a patched exit is not honoured");
    vcover!(want, "active");
    vcover!(!want, "inactive");
});
