//! Hash-consed bit-vector expressions with local simplification.
//! Constants up to 128 bits; wider values only ever appear as concatenations.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var, // k = variable number
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Concat,  // a high, b low
    Extract, // k = low bit
    ZExt,
    SExt,
    Ite, // a cond, b, c
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    // w: operand width
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Slt => return (sext(a, w) < sext(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}

pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Node, Id>,
    pub nvars: u32,
    hi: Vec<u128>, // upper bound of each node's (unsigned) value
}

impl Arena {
    pub fn new() -> Self {
        Arena { n: Vec::new(), map: HashMap::new(), nvars: 0, hi: Vec::new() }
    }
    fn put(&mut self, x: Node) -> Id {
        if let Some(&i) = self.map.get(&x) {
            return i;
        }
        let i = self.n.len() as Id;
        let b = self.bound(&x);
        self.hi.push(b);
        self.n.push(x);
        self.map.insert(x, i);
        i
    }
    fn bound(&self, x: &Node) -> u128 {
        if x.w > 128 {
            return u128::MAX;
        }
        let m = mask(x.w);
        let h = |i: Id| self.hi[i as usize];
        let ones = |v: u128| if v == 0 { 0 } else { u128::MAX >> v.leading_zeros() };
        m.min(match x.op {
            Op::Const => x.k,
            Op::ZExt => h(x.a),
            Op::Concat => (h(x.a) << self.w(x.b)) | mask(self.w(x.b)).min(ones(h(x.b))),
            Op::Extract => {
                if self.w(x.a) > 128 {
                    m
                } else {
                    h(x.a) >> x.k
                }
            }
            Op::Add => h(x.a).checked_add(h(x.b)).filter(|v| *v <= m).unwrap_or(m),
            Op::Mul => h(x.a).checked_mul(h(x.b)).filter(|v| *v <= m).unwrap_or(m),
            Op::And => h(x.a).min(h(x.b)),
            Op::Or | Op::Xor => ones(h(x.a).max(h(x.b))),
            Op::Ite => h(x.b).max(h(x.c)),
            Op::URem => match self.kval(x.b) {
                Some(k) if k > 0 => h(x.a).min(k - 1),
                _ => h(x.a),
            },
            Op::UDiv => match self.kval(x.b) {
                Some(k) if k > 0 => h(x.a) / k,
                _ => m, // division by zero gives all ones
            },
            Op::LShr => match self.kval(x.b) {
                Some(k) if k < 128 => h(x.a) >> k,
                _ => h(x.a),
            },
            _ => m,
        })
    }
    #[inline]
    pub fn w(&self, i: Id) -> u16 {
        self.n[i as usize].w
    }
    #[inline]
    pub fn kval(&self, i: Id) -> Option<u128> {
        let x = &self.n[i as usize];
        if x.op == Op::Const {
            Some(x.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, w: u16, k: u128) -> Id {
        if w > 128 {
            let hi = self.konst(w - 128, 0);
            let lo = self.konst(128, k);
            return self.put(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 });
        }
        self.put(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, w: u16) -> Id {
        let k = self.nvars as u128;
        self.nvars += 1;
        self.put(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k })
    }
    pub fn not(&mut self, a: Id) -> Id {
        let x = self.n[a as usize];
        match x.op {
            Op::Const => return self.konst(x.w, !x.k),
            Op::Not => return x.a,
            _ => {}
        }
        self.put(Node { op: Op::Not, w: x.w, a, b: 0, c: 0, k: 0 })
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (x, y) = (self.n[a as usize], self.n[b as usize]);
        let w = x.w + y.w;
        if x.op == Op::Const && y.op == Op::Const && w <= 128 {
            return self.konst(w, (x.k << y.w) | y.k);
        }
        if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && y.k + y.w as u128 == x.k {
            return self.extract(x.a, y.k as u16, w);
        }
        // (concat (extract h X) (X itself low part)) where y is a whole value of narrower width never happens
        if x.op == Op::Const && x.k == 0 && w <= 128 {
            return self.zext(b, w);
        }
        if x.op == Op::ZExt && w <= 128 {
            let m = self.concat(x.a, b);
            return self.zext(m, w);
        }
        if x.op == Op::Ite && y.op == Op::Ite && x.a == y.a && w <= 128 {
            let (t, e) = (self.concat(x.b, y.b), self.concat(x.c, y.c));
            return self.ite(x.a, t, e);
        }
        // right-assoc merge: concat(a, concat(b1,b2)) with a,b1 adjacent extracts
        if y.op == Op::Concat {
            let h = self.n[y.a as usize];
            if x.op == Op::Ite && h.op == Op::Ite && x.a == h.a && w <= 128 {
                let m = self.concat(a, y.a);
                return self.concat(m, y.b);
            }
            if x.op == Op::Extract && h.op == Op::Extract && x.a == h.a && h.k + h.w as u128 == x.k {
                let m = self.extract(x.a, h.k as u16, x.w + h.w);
                return self.concat(m, y.b);
            }
            if x.op == Op::Const && h.op == Op::Const && x.w + h.w <= 128 {
                let m = self.konst(x.w + h.w, (x.k << h.w) | h.k);
                return self.concat(m, y.b);
            }
        }
        self.put(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let x = self.n[a as usize];
        debug_assert!(lo + w <= x.w);
        if lo == 0 && w == x.w {
            return a;
        }
        match x.op {
            Op::Const => return self.konst(w, x.k >> lo),
            Op::Extract => return self.extract(x.a, x.k as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(x.b);
                if lo >= lw {
                    return self.extract(x.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(x.b, lo, w);
                }
                let l = self.extract(x.b, lo, lw - lo);
                let h = self.extract(x.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(x.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(x.a, lo, w);
                }
                let l = self.extract(x.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(x.a);
                if lo + w <= iw {
                    return self.extract(x.a, lo, w);
                }
                if lo < iw {
                    let l = self.extract(x.a, lo, iw - lo);
                    return self.sext(l, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                // push through bitwise ops
                let l = self.extract(x.a, lo, w);
                let r = self.extract(x.b, lo, w);
                return self.bin(x.op, l, r);
            }
            Op::Not => {
                let l = self.extract(x.a, lo, w);
                return self.not(l);
            }
            Op::Ite => {
                let (kb, kc) = (self.n[x.b as usize].op, self.n[x.c as usize].op);
                if kb == Op::Const || kc == Op::Const || w <= 8 {
                    let l = self.extract(x.b, lo, w);
                    let r = self.extract(x.c, lo, w);
                    return self.ite(x.a, l, r);
                }
            }
            // only where the operands get simpler: bytes of a sum must merge back when it is reloaded
            Op::Add | Op::Sub | Op::Mul if lo == 0 && [x.a, x.b].iter().all(|o| {
                let o = self.n[*o as usize];
                o.op == Op::Const || (matches!(o.op, Op::ZExt | Op::SExt) && self.w(o.a) <= w)
            }) => {
                let l = self.extract(x.a, 0, w);
                let r = self.extract(x.b, 0, w);
                return self.bin(x.op, l, r);
            }
            _ => {}
        }
        self.put(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let x = self.n[a as usize];
        if x.w == w {
            return a;
        }
        if w > 128 {
            let z = self.konst(w - x.w, 0);
            return self.concat(z, a);
        }
        match x.op {
            Op::Const => return self.konst(w, x.k),
            Op::ZExt => return self.zext(x.a, w),
            _ => {}
        }
        self.put(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let x = self.n[a as usize];
        if x.w == w {
            return a;
        }
        match x.op {
            Op::Const => return self.konst(w, sext(x.k, x.w) as u128),
            Op::SExt => return self.sext(x.a, w),
            Op::ZExt => return self.zext(x.a, w),
            _ => {}
        }
        self.put(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: Id, t: Id, e: Id) -> Id {
        if let Some(k) = self.kval(c) {
            return if k == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        let cn = self.n[c as usize];
        if cn.op == Op::Not {
            return self.ite(cn.a, e, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.kval(t), self.kval(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, e);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, t);
                }
                _ => {}
            }
        } else if let (Some(x), Some(y)) = (self.kval(t), self.kval(e)) {
            if w <= 128 {
                if x == 1 && y == 0 {
                    return self.zext(c, w);
                }
                if x == 0 && y == 1 {
                    let nc = self.not(c);
                    return self.zext(nc, w);
                }
            }
        }
        let tn = self.n[t as usize];
        if tn.op == Op::Ite && tn.a == c {
            return self.ite(c, tn.b, e);
        }
        let en = self.n[e as usize];
        if en.op == Op::Ite && en.a == c {
            return self.ite(c, t, en.c);
        }
        self.put(Node { op: Op::Ite, w, a: c, b: t, c: e, k: 0 })
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Eq, a, b)
    }
    pub fn and1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::And, a, b)
    }
    /// (base, k, no overflow) of base + k; the base of a constant is MAX
    fn offset(&self, a: Id) -> (Id, u128, bool) {
        let x = self.n[a as usize];
        match x.op {
            Op::Const => (u32::MAX, x.k, true),
            Op::Add => match self.kval(x.b) {
                Some(k) => (x.a, k, self.hi[x.a as usize].checked_add(k).is_some_and(|v| v <= mask(x.w))),
                None => (a, 0, true),
            },
            _ => (a, 0, true),
        }
    }
    fn plus(&mut self, w: u16, p: Id, k: u128) -> Id {
        let k = self.konst(w, k);
        if p == u32::MAX { k } else { self.bin(Op::Add, p, k) }
    }
    /// the largest value the expression may have
    pub fn hi(&self, a: Id) -> u128 { self.hi[a as usize] }
    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let (mut x, mut y) = (self.n[a as usize], self.n[b as usize]);
        debug_assert_eq!(x.w, y.w, "{:?}", op);
        let w = x.w;
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        if x.op == Op::Const && y.op == Op::Const {
            let k = fold(op, w, x.k, y.k);
            return self.konst(rw, k);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (x.op == Op::Const || (y.op != Op::Const && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut x, &mut y);
        }
        if w <= 128 && matches!(op, Op::Ult | Op::Eq | Op::Sub) && x.w > 1 {
            // p + k1 against q + k2
            let ((p, k1, f1), (q, k2, f2)) = (self.offset(a), self.offset(b));
            let fits = f1 && f2;
            if p == q && p != u32::MAX && (fits || op != Op::Ult) {
                return match op {
                    Op::Ult => self.konst(1, (k1 < k2) as u128),
                    Op::Eq => self.konst(1, (k1 == k2) as u128),
                    _ => self.konst(w, k1.wrapping_sub(k2)),
                };
            }
            if op == Op::Ult && x.op == Op::Add && (x.a == b || x.b == b) && self.hi[x.a as usize].checked_add(self.hi[x.b as usize]).is_some_and(|v| v <= mask(w)) {
                return self.konst(1, 0);
            }
            if fits && op == Op::Ult && (k1 > 0 || k2 > 0) && (p != u32::MAX || q != u32::MAX) {
                let k = k1.min(k2);
                if k > 0 || (p == u32::MAX) != (q == u32::MAX) {
                    // a constant side: its whole value is the offset
                    if p == u32::MAX && k1 < k2 {
                        return self.konst(1, 1);
                    }
                    if q == u32::MAX && k2 <= k1 {
                        return self.konst(1, 0);
                    }
                    if k > 0 {
                        let (l, r) = (self.plus(w, p, k1 - k), self.plus(w, q, k2 - k));
                        return self.bin(Op::Ult, l, r);
                    }
                }
            }
        }
        if w <= 128 {
            let (ha, hb) = (self.hi[a as usize], self.hi[b as usize]);
            match op {
                Op::Ult if y.op == Op::Const && ha < y.k => return self.konst(1, 1),
                Op::Ult if x.op == Op::Const && x.k >= hb => return self.konst(1, 0),
                Op::Eq if y.op == Op::Const && y.k > ha => return self.konst(1, 0),
                Op::UDiv | Op::URem if w > 8 && !y.k.is_power_of_two() => {
                    let need = (128 - ha.max(hb).leading_zeros() as u16).max(1);
                    if need < w {
                        let (p, q) = (self.extract(a, 0, need), self.extract(b, 0, need));
                        // a zero divisor must keep its meaning at full width
                        if self.kval(b).map_or(false, |k| k > 0) {
                            let r = self.bin(op, p, q);
                            return self.zext(r, w);
                        }
                    }
                }
                _ => {}
            }
        }
        if w > 128 {
            // split wide operations that are lane-wise
            match op {
                Op::Eq => {
                    let mut lo = 0;
                    let mut acc = self.konst(1, 1);
                    while lo < w {
                        let n = (w - lo).min(64);
                        let p = self.extract(a, lo, n);
                        let q = self.extract(b, lo, n);
                        let e = self.eq(p, q);
                        acc = self.and1(acc, e);
                        lo += n;
                    }
                    return acc;
                }
                Op::And | Op::Or | Op::Xor => {
                    let p = self.extract(a, 0, 128);
                    let q = self.extract(b, 0, 128);
                    let l = self.bin(op, p, q);
                    let p = self.extract(a, 128, w - 128);
                    let q = self.extract(b, 128, w - 128);
                    let h = self.bin(op, p, q);
                    return self.concat(h, l);
                }
                Op::LShr | Op::Shl => {
                    // constant shift amounts only
                    let s = self.extract(b, 0, 64);
                    if let Some(s) = self.kval(s) {
                        let s = s as u16;
                        if s == 0 {
                            return a;
                        }
                        if s >= w {
                            return self.konst(w, 0);
                        }
                        let z = self.konst(s, 0);
                        return if op == Op::LShr {
                            let h = self.extract(a, s, w - s);
                            self.concat(z, h)
                        } else {
                            let l = self.extract(a, 0, w - s);
                            self.concat(l, z)
                        };
                    }
                    panic!("wide symbolic shift");
                }
                Op::Ult => {
                    // compare high part then low part
                    let (ah, bh) = (self.extract(a, 128, w - 128), self.extract(b, 128, w - 128));
                    let (al, bl) = (self.extract(a, 0, 128), self.extract(b, 0, 128));
                    let e = self.eq(ah, bh);
                    let hl = self.bin(Op::Ult, ah, bh);
                    let ll = self.bin(Op::Ult, al, bl);
                    return self.ite(e, ll, hl);
                }
                _ => panic!("wide op {:?} w={}", op, w),
            }
        }
        let m = mask(w);
        let yk = if y.op == Op::Const { Some(y.k) } else { None };
        let xk = if x.op == Op::Const { Some(x.k) } else { None };
        match op {
            Op::Add => {
                if yk == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = yk {
                    if x.op == Op::Add {
                        if let Some(k2) = self.kval(x.b) {
                            let s = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, x.a, s);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = yk {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, nk);
                }
                // (p + k) - p
                if x.op == Op::Add && x.a == b {
                    return x.b;
                }
                if x.op == Op::Add && x.b == b {
                    return x.a;
                }
            }
            Op::Mul => match yk {
                Some(0) => return b,
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::Shl, a, s);
                }
                _ => {}
            },
            Op::UDiv => match yk {
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, s);
                }
                _ => {}
            },
            Op::URem => match yk {
                Some(1) => return self.konst(w, 0),
                Some(k) if k.is_power_of_two() => {
                    let s = self.konst(w, k - 1);
                    return self.bin(Op::And, a, s);
                }
                _ => {}
            },
            Op::Shl | Op::LShr => {
                if yk == Some(0) {
                    return a;
                }
                if xk == Some(0) {
                    return a;
                }
                if let Some(k) = yk {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let s = k as u16;
                    return if op == Op::Shl {
                        let l = self.extract(a, 0, w - s);
                        let z = self.konst(s, 0);
                        self.concat(l, z)
                    } else {
                        let h = self.extract(a, s, w - s);
                        self.zext(h, w)
                    };
                }
            }
            Op::AShr => {
                if let Some(k) = yk {
                    let s = (k.min(w as u128 - 1)) as u16;
                    let h = self.extract(a, s, w - s);
                    return self.sext(h, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = yk {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // low mask
                    if (k & (k + 1)) == 0 {
                        let n = k.count_ones() as u16;
                        let l = self.extract(a, 0, n);
                        return self.zext(l, w);
                    }
                    if x.op == Op::ZExt {
                        let iw = self.w(x.a);
                        let kk = self.konst(iw, k);
                        let l = self.bin(Op::And, x.a, kk);
                        return self.zext(l, w);
                    }
                }
                if x.op == Op::Not && x.a == b || y.op == Op::Not && y.a == a {
                    return self.konst(w, 0);
                }
                if x.op == Op::ZExt && y.op == Op::ZExt && self.w(x.a) == self.w(y.a) {
                    let l = self.bin(Op::And, x.a, y.a);
                    return self.zext(l, w);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = yk {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 && (x.op == Op::Not && x.a == b || y.op == Op::Not && y.a == a) {
                    return self.konst(w, 1);
                }
                if x.op == Op::ZExt && y.op == Op::ZExt && self.w(x.a) == self.w(y.a) {
                    let l = self.bin(Op::Or, x.a, y.a);
                    return self.zext(l, w);
                }
                // disjoint: zext(lo) | concat(hi, 0)
                for (p, q) in [(x, y), (y, x)] {
                    if p.op == Op::ZExt && q.op == Op::Concat {
                        let z = self.n[q.b as usize];
                        let iw = self.w(p.a);
                        if z.op == Op::Const && z.k == 0 && iw <= z.w {
                            let lo = self.zext(p.a, z.w);
                            return self.concat(q.a, lo);
                        }
                    }
                    // zext(concat(h,0)) | zext(lo)
                    if p.op == Op::ZExt && q.op == Op::ZExt {
                        let qq = self.n[q.a as usize];
                        if qq.op == Op::Concat {
                            let z = self.n[qq.b as usize];
                            let iw = self.w(p.a);
                            if z.op == Op::Const && z.k == 0 && iw <= z.w {
                                let lo = self.zext(p.a, z.w);
                                let c = self.concat(qq.a, lo);
                                return self.zext(c, w);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = yk {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                }
                if w == 1 {
                    if x.op == Op::Not {
                        let i = self.bin(Op::Xor, x.a, b);
                        return self.not(i);
                    }
                    if y.op == Op::Not {
                        let i = self.bin(Op::Xor, a, y.a);
                        return self.not(i);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(k) = yk {
                        return if k == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(k) = yk {
                    match x.op {
                        Op::ZExt => {
                            let iw = self.w(x.a);
                            if k >> iw != 0 {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.eq(x.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(x.b);
                            let hk = self.konst(w - lw, k >> lw);
                            let lk = self.konst(lw, k);
                            let e1 = self.eq(x.a, hk);
                            let e2 = self.eq(x.b, lk);
                            return self.and1(e1, e2);
                        }
                        Op::Add => {
                            if let Some(k2) = self.kval(x.b) {
                                let kk = self.konst(w, k.wrapping_sub(k2));
                                return self.eq(x.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.kval(x.b) {
                                let kk = self.konst(w, k ^ k2);
                                return self.eq(x.a, kk);
                            }
                            if k == 0 {
                                return self.eq(x.a, x.b);
                            }
                        }
                        Op::Not => {
                            let kk = self.konst(w, !k);
                            return self.eq(x.a, kk);
                        }
                        Op::Or if k == 0 => {
                            let z = self.konst(w, 0);
                            let e1 = self.eq(x.a, z);
                            let e2 = self.eq(x.b, z);
                            return self.and1(e1, e2);
                        }
                        Op::SExt => {
                            let iw = self.w(x.a);
                            if sext(k & mask(iw), iw) as u128 & m != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.eq(x.a, kk);
                        }
                        Op::Ite => {
                            let (tb, tc) = (self.kval(x.b), self.kval(x.c));
                            if tb.is_some() || tc.is_some() {
                                let l = self.eq(x.b, b);
                                let r = self.eq(x.c, b);
                                return self.ite(x.a, l, r);
                            }
                        }
                        _ => {}
                    }
                } else if x.op == Op::ZExt && y.op == Op::ZExt && self.w(x.a) == self.w(y.a) {
                    return self.eq(x.a, y.a);
                } else if x.op == Op::Concat && y.op == Op::Concat && self.w(x.b) == self.w(y.b) {
                    let e1 = self.eq(x.a, y.a);
                    let e2 = self.eq(x.b, y.b);
                    return self.and1(e1, e2);
                }
            }
            Op::Ult => {
                if a == b || yk == Some(0) || xk == Some(m) {
                    return self.konst(1, 0);
                }
                if yk == Some(1) {
                    let z = self.konst(w, 0);
                    return self.eq(a, z);
                }
                if xk == Some(0) {
                    let e = self.eq(b, a);
                    return self.not(e);
                }
                if yk == Some(m) {
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                if x.op == Op::ZExt {
                    let iw = self.w(x.a);
                    if let Some(k) = yk {
                        if k > mask(iw) {
                            return self.konst(1, 1);
                        }
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, x.a, kk);
                    }
                    if y.op == Op::ZExt && self.w(y.a) == iw {
                        return self.bin(Op::Ult, x.a, y.a);
                    }
                } else if y.op == Op::ZExt {
                    let iw = self.w(y.a);
                    if let Some(k) = xk {
                        if k >= mask(iw) {
                            return self.konst(1, 0);
                        }
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, kk, y.a);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.konst(1, 0);
                }
                let pos = |n: &Node| n.op == Op::ZExt || (n.op == Op::Const && n.k >> (w - 1) == 0);
                if pos(&x) && pos(&y) {
                    return self.bin(Op::Ult, a, b);
                }
                if pos(&x) && yk == Some(0) {
                    return self.konst(1, 0);
                }
            }
            _ => {}
        }
        self.put(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
}
