// The guest's input: authentication, registry, state patches, block slots.
// Only the public interface is used: the fields of `GuestInput`, `into_reader` and `InputReader`.
use super::ffg::{cp, same};
use super::sup::*;
#[allow(unused_imports)]
use crate::vp::{self, and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::*;
use beacon_types::{Fork, Tiny2};
use std::collections::BTreeMap;

// SSZ layout (consensus-specs, Electra): generalized indices
pub const BLOCK_SLOT: u64 = 8; // BeaconBlock: slot, proposer_index, parent_root, state_root, body
pub const BLOCK_STATE_ROOT: u64 = 8 + 3;
pub const ST: u64 = 64; // BeaconState has 37 fields: depth 6
pub const LIST_LEN: u64 = 3; // List: data root, length
/// fields of the Electra state, in order
const FIELDS: [&str; 37] = [
    "genesis_time", "genesis_validators_root", "slot", "fork", "latest_block_header", "block_roots", "state_roots", "historical_roots", "eth1_data", "eth1_data_votes",
    "eth1_deposit_index", "validators", "balances", "randao_mixes", "slashings", "previous_epoch_participation", "current_epoch_participation", "justification_bits",
    "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint", "inactivity_scores", "current_sync_committee", "next_sync_committee",
    "latest_execution_payload_header", "next_withdrawal_index", "next_withdrawal_validator_index", "historical_summaries", "deposit_requests_start_index",
    "deposit_balance_to_consume", "exit_balance_to_consume", "earliest_exit_epoch", "consolidation_balance_to_consume", "earliest_consolidation_epoch",
    "pending_deposits", "pending_partial_withdrawals", "pending_consolidations",
];
pub fn field(n: &str) -> u64 { ST + FIELDS.iter().position(|f| *f == n).unwrap() as u64 }
/// fields of a validator: pubkey, withdrawal_credentials, effective_balance, slashed,
/// activation_eligibility_epoch, activation_epoch, exit_epoch, withdrawable_epoch
pub fn vfield(i: u64, k: u64) -> u64 { ((2 << 40) + i) * 8 + k }
pub fn vkey(i: u64, half: u64) -> u64 { vfield(i, 0) * 2 + half }
pub fn state_values() -> Vec<u64> {
    let fork = field("fork") * 4;
    vec![
        field("genesis_validators_root"), field("slot"), fork, fork + 1, fork + 2, field("validators"), field("finalized_checkpoint") * 2,
        field("earliest_exit_epoch"), field("earliest_consolidation_epoch"),
    ]
}
/// the values of a full validator
pub fn full(i: u64) -> Vec<u64> { vec![vkey(i, 0), vkey(i, 1), vfield(i, 2), vfield(i, 3), vfield(i, 4), vfield(i, 5), vfield(i, 6)] }

pub struct Base {
    pub spec: ChainSpec,
    pub block: Pr,
    pub state: Pr,
    pub vals: Pr,
    pub keys: Vec<PublicKey>,
    pub j: Checkpoint,
    pub f: Checkpoint,
    pub patches: BTreeMap<Epoch, StatePatch>,
    pub slots: Vec<Pr>,
}
pub const SPE: u64 = 2;
pub fn spec() -> ChainSpec {
    let mut spec = ChainSpec::mainnet();
    spec.max_seed_lookahead = Epoch::new(4);
    for k in 0..5 {
        spec.forks[k].1 = Some(Epoch::new(0));
    }
    spec
}
pub fn ep(x: u64) -> Epoch { Epoch::new(x) }
impl Base {
    /// runs the code under test
    pub fn read(&self) -> Option<GuestInputReader<Tiny2>> {
        let (fb, fs, fv) = (self.block.flat(), self.state.flat(), self.vals.flat());
        let fl: Vec<Vec<u8>> = self.slots.iter().map(|p| p.flat()).collect();
        let i = GuestInput::<Tiny2> {
            beacon_block: self.block.mp(&fb),
            beacon_state: self.state.mp(&fs),
            active_validators: self.vals.mp(&fv),
            public_keys: self.keys.clone(),
            patches: self.patches.clone(),
            consensus_state: ConsensusState::new(self.j, self.f),
            attestations: Vec::new(),
            block_slot_proofs: self.slots.iter().zip(&fl).map(|(p, f)| p.mp(f)).collect(),
        };
        i.into_reader(self.spec.clone()).ok()
    }
    /// links the proofs: validators -> state -> block -> trusted checkpoint
    pub fn seal(&mut self) {
        self.state.set(field("validators"), self.vals.root());
        self.block.set(BLOCK_STATE_ROOT, self.state.root());
        self.f = Checkpoint::new(self.f.epoch(), self.block.root().into());
    }
    pub fn state_epoch(&self) -> u64 { low(&self.state.at(field("slot")).unwrap()) / SPE }
    pub fn put(&mut self, g: u64, x: u64) { self.state.set(g, chunk(x)) }
    pub fn word(&self, g: u64) -> Option<u64> { self.state.at(g).map(|c| low(&c)) }
    pub fn set_fork(&mut self) {
        let f = self.spec.fork_at_epoch(ep(self.state_epoch()));
        let g = field("fork") * 4;
        let mut a = nd::b32(); // bytes after the version are padding
        a[..4].copy_from_slice(&f.previous_version);
        let mut c = nd::b32();
        c[..4].copy_from_slice(&f.current_version);
        self.state.set(g, a);
        self.state.set(g + 1, c);
        self.state.set(g + 2, chunk(f.epoch.as_u64()));
    }
}
/// A well-formed input with n full validators; epochs: state <= trusted < justified <= state + gap.
pub fn honest(n: u64, gap: u64) -> Base { honest_with(n, gap, 60) }
fn honest_with(n: u64, gap: u64, bits: u32) -> Base {
    let mut spec = spec();
    spec.forks[6].1 = Some(ep(nd::u64()));
    let mut v: Vec<u64> = (0..n).flat_map(full).collect();
    v.push(LIST_LEN);
    let mut w = Base {
        spec,
        block: Pr::new(&[BLOCK_STATE_ROOT], false),
        state: Pr::new(&state_values(), false),
        vals: Pr::new(&v, false),
        keys: (0..n as usize).map(pk).collect(),
        j: cp(),
        f: cp(),
        patches: BTreeMap::new(),
        slots: Vec::new(),
    };
    let s = nd::bits(bits);
    let dj = 1 + nd::pick(gap);
    let df = nd::pick(dj);
    w.j = Checkpoint::new(ep(s / SPE + dj), w.j.root());
    w.f = Checkpoint::new(ep(s / SPE + df), w.f.root());
    w.put(field("slot"), s);
    let (fin, e, c) = (nd::u64(), nd::u64(), nd::u64());
    nd::assume(fin <= s / SPE);
    w.put(field("finalized_checkpoint") * 2, fin);
    w.put(field("earliest_exit_epoch"), e);
    w.put(field("earliest_consolidation_epoch"), c);
    w.set_fork();
    w
}

// ---- authentication --------------------------------------------------------------------------
fn eq_at(p: &Pr, g: u64, want: &[u8]) -> bool { match p.at(g) { Some(c) => eqb(&c[..want.len()], want), None => false } }
fn auth(alter: bool, masks: bool) {
    let mut spec = spec();
    let (e5, e6) = (nd::u64(), nd::u64());
    nd::assume(e5 <= e6);
    spec.forks[5].1 = Some(ep(e5));
    spec.forks[6].1 = Some(ep(e6));
    // one value position moved to its sibling, parent or child: all other shapes of a missing value
    let (mut sv, mut bv) = (state_values(), vec![BLOCK_STATE_ROOT]);
    let n = sv.len() as u64;
    let k = if alter { nd::pick(3 * n + 4) } else { 3 * n + 3 };
    let moved = |g: u64, how: u64| match how { 0 => g ^ 1, 1 => g / 2, _ => 2 * g };
    if k < 3 * n {
        sv[(k % n) as usize] = moved(sv[(k % n) as usize], k / n);
    } else if k < 3 * n + 3 {
        bv[0] = moved(bv[0], k - 3 * n);
    }
    let mut w = Base {
        spec,
        block: Pr::new(&bv, true),
        state: Pr::new(&sv, true),
        vals: Pr::new(&[vfield(0, 6), LIST_LEN], true),
        keys: Vec::new(),
        j: cp(),
        f: cp(),
        patches: BTreeMap::new(),
        slots: Vec::new(),
    };
    if masks {
        for m in [&mut w.block.mask, &mut w.state.mask] {
            for x in m.iter_mut() {
                *x = nd::bool();
            }
        }
    }
    let (j, f) = (w.j.epoch().as_u64(), w.f.epoch().as_u64());
    nd::assume(f < j);
    // at most two epochs of registry updates
    if let Some(s) = w.word(field("slot")) {
        nd::assume(j < 2 || j - 2 < s / SPE);
    }
    if let Some(r) = w.read() {
        vassert!(eqb(&w.f.root().0, &w.block.root()), "a block other than the trusted finalized block is accepted");
        vassert!(eq_at(&w.block, BLOCK_STATE_ROOT, &w.state.root()), "a state other than that of the trusted block is accepted");
        vassert!(eq_at(&w.state, field("validators"), &w.vals.root()), "a registry other than that of the trusted state is accepted");
        vassert!(eq_at(&w.state, field("genesis_validators_root"), &r.genesis_validators_root().unwrap().0), "the genesis validators root is not that of the trusted state");
        match w.word(field("slot")) {
            Some(s) => {
                let fork = w.spec.fork_at_epoch(ep(s / SPE));
                let g = field("fork") * 4;
                vassert!(eq_at(&w.state, g, &fork.previous_version), "a state with another previous fork version than the specification is accepted");
                vassert!(eq_at(&w.state, g + 1, &fork.current_version), "a state with another fork version than the specification is accepted");
                vassert!(w.word(g + 2) == Some(fork.epoch.as_u64()), "a state with another fork epoch than the specification is accepted");
            }
            None => vassert!(false, "a state without a proven slot is accepted"),
        }
        let cs = r.consensus_state().unwrap();
        vassert!(and(same(&cs.current_justified_checkpoint(), &w.j), same(&cs.finalized_checkpoint(), &w.f)), "the trusted consensus state is altered");
        let e = nd::u64();
        vassert!(r.fork(ep(e)).unwrap() == w.spec.fork_at_epoch(ep(e)), "the fork of an epoch is not that of the specification");
        vassert!(*r.chain_spec() == w.spec, "the specification is altered");
        vcover!(true, "accepted");
    } else {
        vcover!(true, "rejected");
    }
}
harness!(h_reader_auth_moved, { auth(true, false) });
harness!(h_reader_auth_masks, { auth(false, true) });

// ---- registry --------------------------------------------------------------------------------
pub const FAR: u64 = u64::MAX;
/// a validator as the chain sees it
pub struct Val {
    idx: u64,
    key: usize,
    bal: u64,
    slashed: bool,
    elig: u64,
    act: u64,
    exit: u64,
}
/// the reference epoch transition of the registry, for `n` epochs starting at `from`
pub fn registry(w: &Base, v: &mut Val, from: u64, n: u64) {
    let fin = w.word(field("finalized_checkpoint") * 2).unwrap();
    for k in 0..n {
        let e = from + k;
        // finality moves to the trusted checkpoint with the justified epoch
        let fin = if k + 1 == n { w.f.epoch().as_u64() } else { fin };
        if nd::conc_bool(and(v.elig == FAR, v.bal >= w.spec.min_activation_balance)) {
            v.elig = e + 1;
        } else if nd::conc_bool(and(v.elig <= fin, v.act == FAR)) {
            v.act = e + 1 + w.spec.max_seed_lookahead.as_u64();
        }
    }
}
pub fn bool_chunk(c: &[u8; 32]) -> bool { and(c[0] <= 1, eqb(&c[1..], &[0u8; 31])) }
pub fn val_of(w: &Base, i: u64, key: usize) -> Option<Val> {
    let g = |k| w.vals.at(vfield(i, k));
    Some(Val { idx: i, key, bal: low(&g(2)?), slashed: g(3)?[0] == 1, elig: low(&g(4)?), act: low(&g(5)?), exit: low(&g(6)?) })
}
fn key_ok(w: &Base, i: u64, key: usize) -> bool {
    match (w.vals.at(vkey(i, 0)), w.vals.at(vkey(i, 1)), w.keys.get(key)) {
        (Some(a), Some(c), Some(k)) => and(eqb(&a, &k.0[..32]), and(eqb(&c[..16], &k.0[32..]), eqb(&c[16..], &[0u8; 16]))),
        _ => false,
    }
}
/// the active validators of every epoch are exactly those of the reference, in index order
pub fn same_active(w: &Base, r: &GuestInputReader<Tiny2>, vals: &[Val], e: u64) {
    let got: Vec<(usize, &ValidatorInfo)> = r.active_validators(ep(e)).unwrap().collect();
    let mut k = 0;
    for v in vals {
        let patched = w.patches.iter().find(|(x, _)| nd::conc_bool(x.as_u64() == e)).and_then(|(_, p)| p.validator_exits.get(&(v.idx as usize)));
        let mut on = and(v.act <= e, e < v.exit);
        if let Some(x) = patched {
            on = and(on, e < x.as_u64());
        }
        if nd::conc_bool(on) {
            vassert!(k < got.len() && got[k].0 as u64 == v.idx, "an active validator is missing or out of order");
            if k >= got.len() {
                return;
            }
            let g = got[k].1;
            vassert!(eqb(&g.pubkey.0, &w.keys[v.key].0), "an active validator has another public key");
            vassert!(and(g.effective_balance == v.bal, g.slashed == v.slashed), "an active validator has another balance or slashing");
            k += 1;
        }
    }
    vassert!(k == got.len(), "a validator is active that should not be");
}
/// every kind of registry proof: per validator full, exit epoch only, nothing, or full without one
/// of its fields; any list length, number and content of the public keys
fn registry_any(n: u64) {
    let n = nd::pick(n + 1);
    let mut v = Vec::new();
    let mut kinds = Vec::new();
    for i in 0..n {
        let k = nd::pick(10);
        match k {
            0 => v.extend(full(i)),
            1 => v.push(vfield(i, 6)),
            2 => (),
            _ => v.extend(full(i).into_iter().enumerate().filter(|(q, _)| *q as u64 != k - 3).map(|x| x.1)),
        }
        kinds.push(k);
    }
    v.push(LIST_LEN);
    let mut w = honest(0, 1);
    w.vals = Pr::new(&v, false);
    let nk = nd::pick(n + 1) as usize;
    w.keys = (0..nk).map(|k| { let mut p = pk(k); p.0[5] = nd::u8(); p.0[40] = nd::u8(); p }).collect();
    w.seal();
    let len = low(&w.vals.at(LIST_LEN).unwrap());
    let f = w.f.epoch().as_u64();
    // no activations here: `registry_updates` decides those
    for i in 0..n {
        if let Some(c) = w.vals.at(vfield(i, 5)) {
            nd::assume(low(&c) != FAR);
        }
    }
    if let Some(r) = w.read() {
        vassert!(len <= n, "a registry proof without all validators is accepted");
        let m = nd::conc(len);
        vassert!(kinds[m as usize..].iter().all(|k| *k == 2), "a registry with more validators than its length is accepted");
        let mut key = 0;
        let mut vals = Vec::new();
        for i in 0..m {
            match kinds[i as usize] {
                0 => {
                    vassert!(key_ok(&w, i, key), "a public key that does not match the registry is accepted");
                    if key >= w.keys.len() {
                        return;
                    }
                    vals.push(val_of(&w, i, key).unwrap());
                    vassert!(bool_chunk(&w.vals.at(vfield(i, 3)).unwrap()), "a malformed slashed flag is accepted");
                    key += 1;
                }
                1 => vassert!(low(&w.vals.at(vfield(i, 6)).unwrap()) <= f, "a validator that has not exited is left out of the registry"),
                _ => vassert!(false, "an incomplete validator is accepted"),
            }
        }
        let e = nd::u64();
        same_active(&w, &r, &vals, e);
        vcover!(n > 0 && vals.len() as u64 == n, "only full validators");
        vcover!(n > 0 && vals.len() as u64 != n, "an exited validator");
    } else {
        let mut ok = and(len == n, kinds.iter().all(|k| *k < 2));
        for i in 0..n {
            // the total balance fits 64 bits
            ok = and(ok, w.vals.at(vfield(i, 2)).is_none_or(|c| low(&c) < 1 << 60));
        }
        if nd::conc_bool(ok) {
            // honest registries are accepted
            let mut good = true;
            let mut key = 0;
            for i in 0..n {
                let x = low(&w.vals.at(vfield(i, 6)).unwrap());
                if kinds[i as usize] == 0 {
                    good = and(good, and(key_ok(&w, i, key), bool_chunk(&w.vals.at(vfield(i, 3)).unwrap())));
                    key += 1;
                } else {
                    good = and(good, x <= f);
                }
            }
            vassert!(!good, "a true registry proof is rejected");
        }
        vcover!(true, "rejected");
    }
}
harness!(h_reader_registry_1, { registry_any(1) });
harness!(h_reader_registry_2, { registry_any(2) });

/// the public keys, slashed flags and length of n honest validators
pub fn fill(w: &mut Base, n: u64) {
    for i in 0..n {
        for k in 0..2 {
            let key = w.keys[i as usize].0;
            let mut c = [0u8; 32];
            let m = if k == 0 { &key[..32] } else { &key[32..] };
            c[..m.len()].copy_from_slice(m);
            w.vals.set(vkey(i, k), c);
        }
        w.vals.set(vfield(i, 3), chunk(nd::bool() as u64));
    }
    w.vals.set(LIST_LEN, chunk(n));
}
/// the registry is brought from the state's epoch to the justified epoch
fn updates(n: u64, gap: u64) {
    no_panic();
    let mut w = honest(n, gap);
    fill(&mut w, n);
    for i in 0..n {
        nd::assume(low(&w.vals.at(vfield(i, 2)).unwrap()) < 1 << 60); // sums do not overflow
    }
    w.seal();
    let from = w.state_epoch();
    let gap = nd::conc(w.j.epoch().as_u64() - from) + 1;
    match w.read() {
        Some(r) => {
            let mut vals: Vec<Val> = (0..n).map(|i| val_of(&w, i, i as usize).unwrap()).collect();
            for v in &mut vals {
                let before = v.act;
                registry(&w, v, from, gap);
                vcover!(v.act != before, "activated");
            }
            same_active(&w, &r, &vals, nd::u64());
        }
        None => vassert!(false, "a true input is rejected"),
    }
}
harness!(h_reader_updates_1_2, { updates(1, 2) });
harness!(h_reader_updates_1_5, { updates(1, 5) });
harness!(h_reader_updates_2, { updates(2, 2) });

// ---- state patches ---------------------------------------------------------------------------
/// What a patch may claim, in exact arithmetic: asserted (of accepted inputs) or assumed.
fn plausible(w: &Base, n: u64, assume: bool) {
    macro_rules! need {
        ($c:expr, $m:literal) => {
            if assume { nd::assume($c) } else { vassert!($c, $m) }
        };
    }
    let f = w.f.epoch().as_u64();
    let exit = |i: u64| low(&w.vals.at(vfield(i, 6)).unwrap());
    let bal = |i: u64| low(&w.vals.at(vfield(i, 2)).unwrap());
    let act = |i: u64| low(&w.vals.at(vfield(i, 5)).unwrap());
    let mut total = 0u64;
    for i in 0..n {
        if act(i) == 0 && nd::conc_bool(f < exit(i)) {
            total += bal(i); // concrete
        }
    }
    let inc = w.spec.effective_balance_increment;
    let churn = std::cmp::max(w.spec.min_per_epoch_churn_limit_electra, total.max(inc) / w.spec.churn_limit_quotient);
    let churn = 2 * (churn - churn % inc);
    let max = |a: u64, b: u64| !nd_min(!a, !b);
    let st = |k: &str| w.word(field(k)).unwrap();
    let first = max(nd_min(st("earliest_exit_epoch"), st("earliest_consolidation_epoch")), f + 1 + w.spec.max_seed_lookahead.as_u64());
    // (validator, exit) of all patches so far
    let mut exits: Vec<(u64, u64)> = Vec::new();
    for (e, p) in &w.patches {
        need!(e.as_u64() >= f, "a patch for an epoch before the trusted one is accepted");
        for (i, x) in &p.validator_exits {
            let (i, x) = (*i as u64, x.as_u64());
            need!(i < n, "a patch for a validator outside the registry is accepted");
            if i >= n {
                return;
            }
            let before = exits.iter().find(|k| k.0 == i).map_or(exit(i), |k| k.1);
            if nd::conc_bool(before == x) {
                continue;
            }
            need!(before == FAR, "a patch changes an exit epoch that is already set");
            need!(x >= first, "a patched exit is earlier than the chain allows");
            if assume {
                nd::assume(x - first < 1 << 32);
            }
            exits.push((i, x));
        }
    }
    for (_, x) in &exits {
        let mut sum = 0u64; // balances are below 2^60
        for (i, y) in &exits {
            sum += if nd::conc_bool(*y <= *x) { bal(*i) } else { 0 };
        }
        // sum <= churn * (1 + x - first), without overflow
        need!(or(sum == 0, sum.wrapping_sub(1) / churn <= x.wrapping_sub(first)), "patched exits exceed the churn limit");
    }
}
fn or(a: bool, b: bool) -> bool { !and(!a, !b) }
fn nd_min(a: u64, b: u64) -> u64 { if nd::conc_bool(a < b) { a } else { b } }
/// `xb`: bits of epochs other than far-future
fn patch_world(n: u64, np: u64, bals: &[u64], xb: u32, complete: bool) -> Base {
    let mut w = honest_with(n, 1, std::cmp::min(xb, 60));
    w.spec.effective_balance_increment = 4;
    w.spec.min_per_epoch_churn_limit_electra = 9;
    w.spec.churn_limit_quotient = 2;
    fill(&mut w, n);
    for i in 0..n {
        let k = if np == 0 { 1 } else { nd::pick(bals.len() as u64 + 1) as usize };
        w.vals.set(vfield(i, 4), chunk(0));
        w.vals.set(vfield(i, 5), chunk(if k == 0 { FAR } else { 0 }));
        w.vals.set(vfield(i, 2), chunk(if k == 0 { nd::bits(std::cmp::min(xb + 2, 60)) } else { bals[k - 1] }));
        w.vals.set(vfield(i, 6), chunk(if complete || nd::pick(2) == 0 { FAR } else { nd::bits(xb) }));
    }
    let f = w.f.epoch().as_u64();
    // which of the two state fields limits the first exit
    match if np == 0 { 1 } else { nd::pick(3) } {
        0 => {
            w.put(field("earliest_exit_epoch"), 0);
            w.put(field("earliest_consolidation_epoch"), FAR);
        }
        1 => {
            w.put(field("earliest_exit_epoch"), nd::bits(xb));
            w.put(field("earliest_consolidation_epoch"), FAR);
        }
        _ => {
            w.put(field("earliest_exit_epoch"), FAR);
            w.put(field("earliest_consolidation_epoch"), nd::bits(xb));
        }
    }
    let mut e = f + nd::pick(2);
    if np == 1 {
        e = nd::u64();
    }
    for k in 0..np {
        let mut p = StatePatch::new();
        for i in 0..n + (n == 1 && np == 1) as u64 {
            match nd::pick(if xb < 60 { 3 } else { 2 }) {
                1 => p.validator_exits.insert(i as usize, ep(nd::bits(xb))),
                2 => p.validator_exits.insert(i as usize, ep(FAR)),
                _ => None,
            };
        }
        w.patches.insert(ep(e), p);
        if k + 1 < np {
            e += 1 + nd::pick(2);
        }
    }
    w.seal();
    w
}
fn patch_sound(n: u64, np: u64, bals: &[u64], xb: u32) {
    let w = patch_world(n, np, bals, xb, false);
    let r = w.read();
    if r.is_some() {
        plausible(&w, n, false);
        vcover!(w.patches.values().all(|p| p.validator_exits.len() as u64 == n), "exits of all validators are patched");
    } else {
        vcover!(true, "rejected");
    }
}
/// 2 validators; the first patch has an exit of validator 0, the second of both
fn patch_queues(xb: u32, accept: bool) {
    let mut w = patch_world(2, 0, &[64], xb, true);
    let e = w.f.epoch().as_u64() + nd::pick(2);
    let x = [nd::bits(xb), nd::bits(xb)];
    let second = if accept || nd::pick(2) == 0 { x[0] } else { nd::bits(xb) };
    let (mut p, mut q) = (StatePatch::new(), StatePatch::new());
    p.validator_exits.insert(0, ep(x[0]));
    q.validator_exits.insert(0, ep(second));
    q.validator_exits.insert(1, ep(x[1]));
    w.patches.insert(ep(e), p);
    w.patches.insert(ep(e + 1 + nd::pick(2)), q);
    w.seal();
    if accept {
        no_panic();
        plausible(&w, 2, true);
        vassert!(w.read().is_some(), "a plausible state patch is rejected");
        vcover!(x[1] < x[0], "a later patch has an earlier exit");
    } else if w.read().is_some() {
        plausible(&w, 2, false);
        vcover!(x[1] < x[0], "a later patch has an earlier exit");
    }
}
harness!(h_patch_accept_queues, { patch_queues(8, true) });
harness!(h_patch_accept_queues_12, { patch_queues(12, true) });
harness!(h_patch_sound_queues, { patch_queues(8, false) });
harness!(h_patch_sound_queues_12, { patch_queues(12, false) });
harness!(h_patch_accept_queues_32, { patch_queues(32, true) });
harness!(h_patch_sound_queues_32, { patch_queues(32, false) });
fn patch_accept(n: u64, np: u64, bals: &[u64], xb: u32) {
    no_panic();
    let w = patch_world(n, np, bals, xb, true);
    plausible(&w, n, true);
    vassert!(w.read().is_some(), "a plausible state patch is rejected");
    vcover!(w.patches.values().all(|p| p.validator_exits.len() as u64 == n), "exits of all validators are patched");
}
harness!(h_patch_sound_1_1, { patch_sound(1, 1, &[4, 64], 64) });
harness!(h_patch_sound_1_2, { patch_sound(1, 2, &[64], 64) });
harness!(h_patch_sound_2_1, { patch_sound(2, 1, &[64], 8) });
harness!(h_patch_sound_2_1_10, { patch_sound(2, 1, &[64], 10) });
harness!(h_patch_sound_2_2, { patch_sound(2, 2, &[64], 7) });
harness!(h_patch_sound_3_1, { patch_sound(3, 1, &[4], 10) });
harness!(h_patch_accept_1_2, { patch_accept(1, 2, &[64], 60) });
harness!(h_patch_accept_2_1, { patch_accept(2, 1, &[64], 10) });
harness!(h_patch_accept_2_2, { patch_accept(2, 2, &[64], 7) });
harness!(h_patch_accept_3_1, { patch_accept(3, 1, &[4], 10) });

/// patches decide exits and RANDAO mixes of their own epoch only
fn patch_apply() {
    let mut w = honest(1, 1);
    fill(&mut w, 1);
    // an active validator, not about to exit
    for (k, x) in [(2, 1 << 35), (4, 0), (5, 0), (6, FAR)] {
        w.vals.set(vfield(0, k), chunk(x));
    }
    let f = w.f.epoch().as_u64();
    let mut mixes = Vec::new();
    let mut e = f;
    for _ in 0..2 {
        e += nd::pick(2);
        let mut p = StatePatch::new();
        if nd::pick(2) == 1 {
            p.validator_exits.insert(0, ep(nd::u64()));
        }
        for _ in 0..nd::pick(2) {
            let (k, m) = (nd::u32(), nd::b32());
            p.randao_mixes.insert(k, m.into());
            mixes.retain(|(a, b, _)| !(*a == e && *b == k));
            mixes.push((e, k, m));
        }
        mixes.retain(|(a, b, _)| *a != e || p.randao_mixes.contains_key(b));
        w.patches.insert(ep(e), p);
    }
    w.seal();
    let from = w.state_epoch();
    if let Some(r) = w.read() {
        let q = nd::u64();
        let k = nd::u32();
        let want = mixes.iter().find(|(a, b, _)| *a == q && *b == k);
        let got = r.randao_mix(ep(q), k).unwrap();
        match want {
            Some((_, _, m)) => vassert!(got.is_some_and(|g| eqb(&g.0, m)), "a patched RANDAO mix is not returned for its epoch and index"),
            None => vassert!(got.is_none(), "a RANDAO mix is returned that was not patched for the epoch and index"),
        }
        vcover!(want.is_some(), "a patched mix");
        let mut v = val_of(&w, 0, 0).unwrap();
        registry(&w, &mut v, from, w.j.epoch().as_u64() - from + 1);
        same_active(&w, &r, &[v], q);
    }
}
harness!(h_patch_apply, { patch_apply() });

// ---- block slots -----------------------------------------------------------------------------
fn slots(n: usize, masks: bool) {
    let mut w = honest(0, 1);
    fill(&mut w, 0);
    w.seal();
    const SH: [&[u64]; 7] = [&[8], &[8, 11], &[16], &[9], &[4], &[7, 8], &[1]];
    for _ in 0..n {
        let k = nd::pick(if masks { 3 } else { SH.len() as u64 }) as usize;
        let mut p = Pr::new(SH[k], true);
        if masks {
            for m in p.mask.iter_mut() {
                *m = nd::bool();
            }
        }
        w.slots.push(p);
    }
    let roots: Vec<[u8; 32]> = w.slots.iter().map(|p| p.root()).collect();
    let first = |p: &Pr| p.mask.iter().position(|m| *m).map(|k| p.pos[k]);
    let fine = w.slots.iter().all(|p| nd::conc_bool(p.at(BLOCK_SLOT).is_some() && first(p) == Some(BLOCK_SLOT)));
    match w.read() {
        Some(r) => {
            for (p, root) in w.slots.iter().zip(&roots) {
                let got = r.slot_for_block(&(*root).into()).ok();
                match p.at(BLOCK_SLOT) {
                    Some(c) => vassert!(got == Some(low(&c)), "the slot of a block is not that of the block with this root"),
                    None => vassert!(false, "a block slot proof without the slot of the block is accepted"),
                }
            }
            let x = nd::b32();
            if let Ok(_) = r.slot_for_block(&x.into()) {
                let mut known = false;
                for root in &roots {
                    known = or(known, eqb(root, &x));
                }
                vassert!(known, "a slot is returned for a block without a proof");
            }
            vcover!(true, "accepted");
        }
        None => {
            vassert!(!fine, "a true block slot proof is rejected");
            vcover!(true, "rejected");
        }
    }
}
harness!(h_slots_1, { slots(1, true) });
harness!(h_slots_2, { slots(2, false) });
