// ABI encoding of states and journals.
use super::ffg::{cp, same, state, valid};
#[allow(unused_imports)]
use crate::vp::{and, eqb, harness, nd, no_panic, obs, vassert, vcover};
use crate::{Checkpoint, ConsensusState, Epoch, abi};

fn word(x: u64) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&x.to_be_bytes());
    w
}
fn put(o: &mut Vec<u8>, c: &Checkpoint) {
    o.extend_from_slice(&word(c.epoch().as_u64()));
    o.extend_from_slice(&c.root().0);
}
harness!(h_abi_state, {
    no_panic();
    let (j, f, s) = state();
    let e = s.abi_encode();
    let mut want = Vec::new();
    put(&mut want, &j);
    put(&mut want, &f);
    vassert!(e.len() == want.len() && eqb(&e, &want), "the encoded state is not (justified epoch, justified root, finalized epoch, finalized root)");
    vassert!(ConsensusState::abi_encoded_size() == want.len(), "the announced size is not the encoded size");
    match ConsensusState::abi_decode(&e) {
        Ok(t) => {
            vassert!(same(&t.current_justified_checkpoint(), &j) && same(&t.finalized_checkpoint(), &f), "decoding an encoded state changes it");
            vcover!(f.epoch().as_u64() > 0, "decoded");
        }
        Err(_) => vassert!(false, "an encoded valid state does not decode"),
    }
});
harness!(h_abi_decode, {
    no_panic();
    let (j, f) = (cp(), cp());
    let mut e = Vec::new();
    put(&mut e, &j);
    put(&mut e, &f);
    let len = if nd::conc_bool(nd::bool()) { 128 } else { nd::pick(128) as usize };
    match ConsensusState::abi_decode(&e[..len]) {
        Ok(t) => {
            vassert!(len == 128, "a truncated encoding is accepted");
            vassert!(valid(&j, &f), "an invalid state is accepted");
            vassert!(same(&t.current_justified_checkpoint(), &j) && same(&t.finalized_checkpoint(), &f), "the decoded state differs from the encoded fields");
            vcover!(true, "accepted");
        }
        Err(_) => {
            vassert!(len < 128 || !valid(&j, &f), "a valid state is rejected");
            vcover!(len == 128, "invalid state rejected");
        }
    }
});
harness!(h_abi_journal, {
    no_panic();
    let (j, f, s) = state();
    let (j2, f2, t) = state();
    let slot = nd::u64();
    let journal = abi::Journal::new(&s, &t, slot);
    let e = journal.encode();
    let mut want = Vec::new();
    for c in [&j, &f, &j2, &f2] {
        put(&mut want, c);
    }
    want.extend_from_slice(&word(slot));
    vassert!(e.len() == want.len() && eqb(&e, &want), "the journal is not (pre state, post state, finalized slot)");
    vassert!(journal.encoded_size() == e.len(), "the announced journal size is not the encoded size");
    vcover!(slot > 0, "journal encoded");
});
#[allow(dead_code)]
fn _u() -> Epoch { Epoch::new(0) }
