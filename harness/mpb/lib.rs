// The proof builder: what it builds verifies and holds exactly what was asked for.
use crate::vp::{self, eqb, harness, nd, no_panic, vassert, vcover};
use crate::{Multiproof, MultiproofBuilder};
use alloy_primitives::B256;
use ssz_rs::prelude::*;

/// a complete tree
struct Tree {
    depth: u32,
    leaves: Vec<[u8; 32]>,
}
impl Tree {
    fn new(depth: u32) -> Tree { Tree { depth, leaves: (0..1 << depth).map(|_| nd::b32()).collect() } }
    fn at(&self, g: usize) -> [u8; 32] {
        let l = usize::BITS - 1 - g.leading_zeros();
        if l == self.depth { self.leaves[g - (1 << l)] } else { vp::hash2(&self.at(2 * g), &self.at(2 * g + 1)) }
    }
}
impl HashTreeRoot for Tree {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.at(1).into()) }
}
impl Prove for Tree {
    fn node(&self, g: usize) -> Node { self.at(g).into() }
}
/// any antichain below g, left to right
fn antichain(g: usize, depth: u32, out: &mut Vec<usize>) {
    match nd::pick(if depth == 0 { 2 } else { 3 }) {
        0 => (),
        1 => out.push(g),
        _ => {
            antichain(2 * g, depth - 1, out);
            antichain(2 * g + 1, depth - 1, out);
        }
    }
}
fn check(p: &Multiproof, root: &[u8; 32], want: &[(usize, [u8; 32])], node: &dyn Fn(usize) -> Option<[u8; 32]>) {
    vassert!(p.verify(root).is_ok(), "a built proof does not verify against the root of the object");
    let mut k = 0;
    for (g, c) in p.values() {
        if k < want.len() {
            vassert!(g == want[k].0 as u64, "a built proof has its values at other positions than requested");
            vassert!(eqb(c, &want[k].1), "a built proof has another value than the object");
        }
        k += 1;
    }
    vassert!(k == want.len(), "a built proof does not have exactly the requested values");
    for (g, c) in p.nodes() {
        if let Some(n) = node(g as usize) {
            vassert!(eqb(c, &n), "a built proof has a node that is not the object's");
        }
        vassert!(want.iter().any(|w| w.0 as u64 == g) || want.iter().any(|w| { let l = g.leading_zeros() - (w.0 as u64).leading_zeros().min(g.leading_zeros()); (w.0 as u64) >> l == g ^ 1 }), "a built proof has nodes that are not needed");
    }
    for (g, c) in want {
        vassert!(p.get(*g as u64).is_some_and(|x| eqb(x, c)), "a requested value is not found in the built proof");
    }
}
fn tree(depth: u32) {
    no_panic();
    let mut gs = Vec::new();
    antichain(1, depth, &mut gs);
    // a proof of the root alone has no tree to verify and is rejected by design
    nd::assume(!gs.is_empty() && gs[0] != 1);
    let t = Tree::new(depth);
    let want: Vec<(usize, [u8; 32])> = gs.iter().map(|g| (*g, t.at(*g))).collect();
    let mut b = MultiproofBuilder::new();
    // in any order, some twice
    match nd::pick(3) {
        0 => b = b.with_gindices(gs.iter().copied()),
        1 => {
            for g in gs.iter().rev() {
                b = b.with_gindex(*g);
            }
        }
        _ => {
            b = b.with_gindex(gs[gs.len() / 2]).with_gindices(gs.iter().copied());
        }
    }
    match b.build(&t) {
        Ok(p) => {
            check(&p, &t.at(1), &want, &|g| Some(t.at(g)));
            vcover!(gs.len() > 2, "three values");
        }
        Err(_) => vassert!(false, "a proof of existing positions cannot be built"),
    }
}
harness!(h_build_2, { tree(2) });
harness!(h_build_3, { tree(3) });

#[derive(SimpleSerialize, Default)]
struct Item {
    key: ByteVector<48>,
    a: u64,
    b: u64,
    c: B256,
    d: u64,
}
type Items = List<Item, { 1 << 40 }>;
/// paths into a list with a large limit, with the positions of the SSZ specification
fn paths(n: usize, full: bool) {
    no_panic();
    let mut l: Items = List::default();
    for _ in 0..n {
        let mut key = [0u8; 48];
        key[..32].copy_from_slice(&nd::b32());
        l.push(Item { key: ByteVector(key), a: nd::u64(), b: nd::u64(), c: nd::b32().into(), d: nd::u64() });
    }
    let mut b = MultiproofBuilder::new();
    let mut want: Vec<(usize, [u8; 32])> = Vec::new();
    let num = |x: u64| { let mut c = [0u8; 32]; c[..8].copy_from_slice(&x.to_le_bytes()); c };
    for i in 0..n {
        let base = ((2usize << 40) + i) * 8;
        let x = &l[i];
        let on = |k: usize| if full || k < 3 { nd::pick(2) == 1 } else { false };
        let mut hi = [0u8; 32];
        hi[..16].copy_from_slice(&x.key.0[32..]);
        let f: Vec<(Vec<PathElement>, usize, [u8; 32])> = vec![
            (vec![i.into(), "key".into(), 5.into()], base * 2, x.key.0[..32].try_into().unwrap()),
            (vec![i.into(), "key".into(), 47.into()], base * 2 + 1, hi),
            (vec![i.into(), "a".into()], base + 1, num(x.a)),
            (vec![i.into(), "c".into()], base + 3, x.c.0),
            (vec![i.into(), "d".into()], base + 4, num(x.d)),
        ];
        for (k, (p, g, c)) in f.iter().enumerate() {
            if on(k) {
                b = b.with_path::<Items>(p);
                want.push((*g, *c));
            }
        }
    }
    if nd::pick(2) == 1 {
        b = b.with_path::<Items>(&[PathElement::Length]);
        want.push((3, num(n as u64)));
    }
    nd::assume(!want.is_empty());
    let root = l.hash_tree_root().unwrap();
    match b.build(&l) {
        Ok(p) => {
            check(&p, &root.0, &want, &|_| None);
            vcover!(want.len() > 2, "three values");
        }
        Err(_) => vassert!(false, "a proof of existing positions cannot be built"),
    }
}
harness!(h_build_list_1, { paths(1, true) });
harness!(h_build_list_2, { paths(2, false) });
harness!(h_build_list_2_full, { paths(2, true) });
