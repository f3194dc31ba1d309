// Harnesses over the real `ssz-multiproofs` sources (module of the shadow crate).
#[allow(unused_imports)]
use crate::vp::{and, eqb, harness, hash2, nd, no_panic, obs, vassert, vcover};
use crate::wire::proof;
use crate::{Error, Multiproof};

/// Reference reading of a descriptor: preorder walk of a binary tree (0 = inner node, 1 = leaf).
/// Returns the positions (generalized indices) of the leaves if the bits encode exactly one tree.
pub fn shape(d: &[bool]) -> Option<Vec<u128>> {
    let mut st = vec![1u128];
    let mut pos = Vec::new();
    for b in d {
        let g = st.pop()?;
        if *b {
            pos.push(g);
        } else {
            st.push(2 * g + 1);
            st.push(2 * g);
        }
    }
    if st.is_empty() { Some(pos) } else { None }
}
/// Reference Merkle root of a well-formed descriptor (right-to-left evaluation).
pub fn fold(d: &[bool], chunks: &[[u8; 32]], leaves: usize) -> [u8; 32] {
    let mut st: Vec<[u8; 32]> = Vec::new();
    let mut k = leaves;
    for b in d.iter().rev() {
        if *b {
            k -= 1;
            st.push(chunks[k]);
        } else {
            let l = st.pop().unwrap();
            let r = st.pop().unwrap();
            st.push(hash2(&l, &r));
        }
    }
    st.pop().unwrap()
}
fn chunks(n: usize) -> Vec<[u8; 32]> { (0..n).map(|_| nd::b32()).collect() }
fn flat(c: &[[u8; 32]]) -> Vec<u8> { c.iter().flatten().copied().collect() }
/// every descriptor of at most nb bits, decided bit by bit by the solver
fn any_desc(nb: usize) -> Vec<bool> {
    let n = nd::pick(nb as u64 + 1) as usize;
    (0..n).map(|_| nd::bool()).collect()
}
/// every well-formed descriptor of at most nb bits (nb odd)
fn any_tree(nb: usize) -> Vec<bool> {
    let d: Vec<bool> = any_desc(nb).into_iter().map(nd::conc_bool).collect();
    nd::assume(shape(&d).is_some());
    d
}

// Anything accepted is a well-formed tree and its true Merkle root.
fn root_sound(nb: usize) {
    let d = any_desc(nb);
    let nl = nb.div_ceil(2);
    let c = chunks(nl);
    let f = flat(&c);
    let len = nd::below(f.len() as u64 + 1) as usize; // any byte length, aligned or not
    let hint = nd::pick(3) * 7;
    let mp: Multiproof = proof(&f[..len], &[], &d, hint);
    let root = mp.calculate_root();
    obs(root.is_ok() as u64);
    if let Ok(root) = root {
        match shape(&d) {
            None => vassert!(false, "an ill-formed descriptor is accepted"),
            Some(pos) => {
                vassert!(pos.len() > 1, "a proof without any hashing is accepted");
                vassert!(pos.len() * 32 <= len, "a proof with missing chunks is accepted");
                vassert!(eqb(&root, &fold(&d, &c, pos.len())), "the accepted root is not the Merkle root of the proof");
                vcover!(pos.len() == nl, "largest tree accepted");
            }
        }
    }
}
harness!(h_root_sound_5, { root_sound(5) });
harness!(h_root_sound_7, { root_sound(7) });
harness!(h_root_sound_9, { root_sound(9) });
harness!(h_root_sound_11, { root_sound(11) });
harness!(h_root_sound_13, { root_sound(13) });
harness!(h_root_sound_15, { root_sound(15) });
harness!(h_root_sound_17, { root_sound(17) });
harness!(h_root_sound_19, { root_sound(19) });

// verify() accepts exactly the calculated root.
fn verify_exact(nb: usize) {
    let d = any_tree(nb);
    let n = shape(&d).unwrap().len();
    nd::assume(n > 1);
    let c = chunks(n);
    let f = flat(&c);
    let mp: Multiproof = proof(&f, &[], &d, nd::pick(3) * 7);
    let root = nd::b32();
    let want = eqb(&root, &fold(&d, &c, n));
    match mp.verify(&root) {
        Ok(()) => {
            vassert!(want, "verify accepts a root that is not the Merkle root");
            vcover!(true, "accepted");
        }
        Err(Error::RootMismatch) => {
            vassert!(!want, "verify rejects the true root");
            vcover!(true, "rejected");
        }
        Err(_) => vassert!(false, "verify fails on a well-formed proof"),
    }
}
harness!(h_verify_exact_5, { no_panic(); verify_exact(5) });
harness!(h_verify_exact_9, { no_panic(); verify_exact(9) });
harness!(h_verify_exact_11, { no_panic(); verify_exact(11) });
harness!(h_verify_exact_13, { no_panic(); verify_exact(13) });
harness!(h_verify_exact_15, { no_panic(); verify_exact(15) });
harness!(h_verify_exact_17, { no_panic(); verify_exact(17) });
harness!(h_verify_exact_19, { no_panic(); verify_exact(19) });

// nodes()/values() report every leaf at its true position, in order, filtered by the mask.
fn positions(nb: usize) {
    let d = any_tree(nb);
    let pos = shape(&d).unwrap();
    let n = pos.len();
    let c = chunks(n);
    let f = flat(&c);
    let mask: Vec<bool> = (0..n).map(|_| nd::bool()).collect();
    let mp: Multiproof = proof(&f, &mask, &d, 0);
    let mut k = 0;
    for (g, v) in mp.nodes() {
        vassert!(k < n, "more nodes than leaves");
        obs(g);
        vassert!(g as u128 == pos[k], "a node is reported at a wrong generalized index");
        vassert!(eqb(v, &c[k]), "a node is reported with a wrong value");
        k += 1;
    }
    vassert!(k == n, "a node is not reported");
    let mut k = 0;
    for (g, v) in mp.values() {
        while k < n && !mask[k] {
            k += 1;
        }
        vassert!(k < n, "a proof node is reported as a value");
        vassert!(g as u128 == pos[k], "a value is reported at a wrong generalized index");
        vassert!(eqb(v, &c[k]), "a value is reported with the content of another position");
        k += 1;
        vcover!(k == n, "last leaf is a value");
    }
    while k < n {
        vassert!(!mask[k], "a value is not reported");
        k += 1;
    }
}
harness!(h_positions_5, { no_panic(); positions(5) });
harness!(h_positions_7, { no_panic(); positions(7) });
harness!(h_positions_9, { no_panic(); positions(9) });
harness!(h_positions_11, { no_panic(); positions(11) });
harness!(h_positions_13, { no_panic(); positions(13) });
harness!(h_positions_15, { no_panic(); positions(15) });
harness!(h_positions_17, { no_panic(); positions(17) });

// get / next_assert_gindex return the value at the requested position or nothing.
fn lookup(nb: usize) {
    let d = any_tree(nb);
    let pos = shape(&d).unwrap();
    let n = pos.len();
    let c = chunks(n);
    let f = flat(&c);
    let mask: Vec<bool> = (0..n).map(|_| nd::conc_bool(nd::bool())).collect();
    let mp: Multiproof = proof(&f, &mask, &d, 0);
    let g = nd::u64();
    let mut want = None;
    for k in 0..n {
        if mask[k] && pos[k] == g as u128 {
            want = Some(k);
        }
    }
    match (mp.get(g), want) {
        (None, None) => {}
        (Some(v), Some(k)) => {
            vassert!(eqb(v, &c[k]), "get returns the content of another position");
            vcover!(k + 1 == n, "get of the last leaf");
        }
        (Some(_), None) => vassert!(false, "get returns a node that is not a value at this index"),
        (None, Some(_)) => vassert!(false, "get misses a value"),
    }
    // sequential consumption: requests r0, r1
    let mut it = mp.values();
    let vals: Vec<usize> = (0..n).filter(|k| mask[*k]).collect();
    for step in 0..2 {
        let r = nd::u64();
        match it.next_assert_gindex(r) {
            Ok(v) => {
                vassert!(step < vals.len(), "next_assert_gindex yields more values than the proof has");
                vassert!(pos[vals[step]] == r as u128, "next_assert_gindex returns a value of another position");
                vassert!(eqb(v, &c[vals[step]]), "next_assert_gindex returns the content of another position");
                vcover!(step == 1, "two values consumed");
            }
            Err(Error::MissingValue) => {
                vassert!(step >= vals.len(), "next_assert_gindex reports a missing value though one remains");
                return;
            }
            Err(Error::GIndexMismatch { expected, actual }) => {
                vassert!(step < vals.len(), "mismatch reported without a value");
                vassert!(and(expected == r, actual as u128 == pos[vals[step]]), "mismatch error carries wrong indices");
                vassert!(pos[vals[step]] != r as u128, "next_assert_gindex rejects the right position");
                return;
            }
            Err(_) => vassert!(false, "unexpected error"),
        }
    }
}
harness!(h_lookup_5, { no_panic(); lookup(5) });
harness!(h_lookup_7, { no_panic(); lookup(7) });
harness!(h_lookup_9, { no_panic(); lookup(9) });
harness!(h_lookup_11, { no_panic(); lookup(11) });
harness!(h_lookup_13, { no_panic(); lookup(13) });
harness!(h_lookup_15, { no_panic(); lookup(15) });

// Deep proofs: an accepted proof never reports a leaf at a position that is not its own, at any
// depth up to `max` (positions beyond 64 bits must not alias smaller ones).
fn deep(max: u64, tail: usize) {
    let depth = nd::pick(max + 1) as usize;
    let left = nd::conc_bool(nd::bool());
    let mut dirs: Vec<bool> = vec![left; depth];
    for _ in 0..tail {
        dirs.push(nd::conc_bool(nd::bool()));
    }
    // chain: at each level the walk goes left (sibling leaf after) or right (sibling leaf before)
    let mut d = Vec::new();
    let mut after = 0;
    for l in &dirs {
        d.push(false);
        if *l {
            after += 1;
        } else {
            d.push(true);
        }
    }
    d.push(true);
    d.extend(std::iter::repeat_n(true, after));
    let pos = shape(&d).unwrap();
    let n = pos.len();
    let f: Vec<u8> = (0..n).flat_map(|k| [k as u8 + 1; 32]).collect();
    let mask = vec![true; n];
    let mp: Multiproof = proof(&f, &mask, &d, 0);
    if mp.calculate_root().is_err() {
        return;
    }
    let q = nd::u64(); // the position an application asks for
    for (k, (g, v)) in mp.values().enumerate() {
        vassert!(v[0] as usize == k + 1, "values are reported out of order");
        vassert!(g as u128 == pos[k], "an accepted proof reports a leaf at a position that is not its own");
        vcover!(and(g == q, k + 1 == n), "last position reported");
    }
}
harness!(h_deep_68, { deep(68, 0) });
harness!(h_chain_62, { no_panic(); deep(62, 1) });
harness!(h_deep_66_2, { deep(66, 2) });
harness!(h_deep_130, { deep(130, 0) });
