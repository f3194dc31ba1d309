//! Path-forking symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ir::{self, CastOp, Func, Inst, Module, Opd, Pred, Ty, C, I};
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(u128),
    S(Id),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<Id>, // empty, or one id per byte (0 = concrete; id 0 is reserved)
    pub ro: bool,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<V>,
    bb: u32,
    pc: u32,
    prev: u32,
    allocas: Vec<u64>,
    dst: u32,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct HashEnt {
    pub bytes: Vec<V>,
    pub digest: Vec<Id>, // 4 x 64-bit vars
    pub uid: u64,        // names message and digest variables
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Rc<BTreeMap<u64, Rc<Obj>>>,
    next: u64,
    path: Vec<Id>,
    known: HashMap<Id, u128>,
    model: Rc<Model>,
    nd: Vec<Id>,
    obs: Rc<Vec<V>>,
    nvar: u32,
    hashes: Vec<Rc<HashEnt>>,
    forks: u32,
    h: u64,
    instrs: u64,
    owned: bool,
}

enum Stop {
    Panic(String),
    Error(String),
    Conc(Id),
    Infeasible,
}
type R<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct AssertInfo {
    pub reached: u64,
    pub proved_by_solver: u64,
    pub proved_by_folding: u64,
    pub violated: u64,
}
#[derive(Clone)]
pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(u16, u128)>,
    pub hashes: Vec<(Vec<u8>, Vec<u8>)>,
    pub kind: &'static str,
    pub obs: Vec<u64>,
}
#[derive(Default)]
pub struct Report {
    pub done: u64,
    pub assumed: u64,
    pub panics: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, AssertInfo>,
    pub covers: BTreeMap<String, bool>,
    pub violations: Vec<Violation>,
    pub instrs: u64,
    pub forks: u64,
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_time: f64,
    pub solver_max: f64,
    pub frontier: u64,
    pub fsum: u64,
    pub cov: BTreeSet<(String, String, u32)>, // function, file, line
    pub cov_ids: HashSet<u32>,
    pub timeout: bool,
    pub sample: Vec<Violation>,
    pub panic_samples: BTreeMap<String, Violation>,
}

pub struct Ex {
    ar: Arena,
    sol: Solver,
    m: Module,
    fns: HashMap<String, Rc<Func>>,
    faddr: HashMap<String, u64>,
    fname: HashMap<u64, String>,
    gaddr: HashMap<String, u64>,
    statics: BTreeMap<u64, Rc<Obj>>,
    vars: HashMap<(u32, u16), Id>,
    pub rep: Report,
    work: Vec<State>,
    pub part: (u64, u64, u32),
    pub np: bool,
    slow: bool,
    deadline: Instant,
    max_instr: u64,
    t0: Id,
    t1: Id,
    pub trace: bool,
    nomodel: Rc<Model>,
}

/// Workers must agree on who owns a fork: a mark depends on the value, not on the order of discovery.
fn of_value(v: u128) -> u64 {
    (v as u64 ^ (v >> 64) as u64).wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 100
}

const FN_BASE: u64 = 0x10_0000;
const GL_BASE: u64 = 0x1000_0000;
const HEAP_BASE: u64 = 0x1_0000_0000;

impl Ex {
    pub fn new(src: &str, deadline: Instant, qtimeout_ms: u32, max_instr: u64) -> Self {
        let m = ir::parse_module(src);
        let mut ar = Arena::new();
        let zero = ar.konst(8, 0); // id 0 reserved: "concrete byte"
        assert_eq!(zero, 0);
        let t0 = ar.konst(1, 0);
        let t1 = ar.konst(1, 1);
        let mut e = Ex {
            nomodel: Rc::new(Model::from_vals(HashMap::new())),
            ar,
            sol: Solver::new(qtimeout_ms),
            m,
            fns: HashMap::new(),
            faddr: HashMap::new(),
            fname: HashMap::new(),
            gaddr: HashMap::new(),
            statics: BTreeMap::new(),
            vars: HashMap::new(),
            rep: Report::default(),
            work: Vec::new(),
            part: (0, 1, 0),
            np: false,
            slow: std::env::var_os("VSYM_SLOW").is_some(),
            deadline,
            max_instr,
            t0,
            t1,
            trace: false,
        };
        e.init_globals();
        e
    }
    fn fn_addr(&mut self, name: &str) -> u64 {
        if let Some(&a) = self.faddr.get(name) {
            return a;
        }
        let a = FN_BASE + 16 * (self.faddr.len() as u64 + 1);
        self.faddr.insert(name.to_string(), a);
        self.fname.insert(a, name.to_string());
        a
    }
    fn init_globals(&mut self) {
        let mut next = GL_BASE;
        let gl = std::mem::take(&mut self.m.globals);
        for g in &gl {
            let al = g.align.max(16);
            next = next.div_ceil(al) * al;
            self.gaddr.insert(g.name.clone(), next);
            next += g.ty.size().max(1) + 32;
        }
        for g in &gl {
            let sz = g.ty.size();
            let mut o = Obj { size: sz, data: vec![0; sz as usize], sym: vec![], ro: g.constant };
            if let Some(c) = &g.init {
                self.init_const(&mut o.data, &g.ty, c);
            }
            let a = self.gaddr[&g.name];
            self.statics.insert(a, Rc::new(o));
        }
    }
    fn init_const(&mut self, d: &mut [u8], ty: &Ty, c: &C) {
        match c {
            C::Zero | C::Undef | C::Null => {}
            C::Bytes(b) => d[..b.len()].copy_from_slice(b),
            C::Agg(l) => {
                for (k, (t, x)) in l.iter().enumerate() {
                    let (off, _) = ty.field_off(k as u64);
                    let n = t.size() as usize;
                    self.init_const(&mut d[off as usize..off as usize + n], t, x);
                }
            }
            C::Splat(t, x) => {
                if let Ty::Vec(n, _) | Ty::Arr(n, _) = ty {
                    let s = t.size() as usize;
                    for k in 0..*n as usize {
                        self.init_const(&mut d[k * s..(k + 1) * s], t, x);
                    }
                }
            }
            C::Wide(w) => {
                for (k, b) in d.iter_mut().enumerate() {
                    *b = (w[k / 8] >> (8 * (k % 8))) as u8;
                }
            }
            _ => {
                let v = self.kscalar(c);
                let n = d.len();
                for (k, b) in d.iter_mut().enumerate().take(n.min(16)) {
                    *b = (v >> (8 * k)) as u8;
                }
            }
        }
    }
    fn kscalar(&mut self, c: &C) -> u128 {
        match c {
            C::Int(v) => *v,
            C::Null | C::Zero | C::Undef => 0,
            C::Global(n) => {
                if let Some(a) = self.gaddr.get(n) {
                    return *a as u128;
                }
                if let Some(t) = self.m.aliases.get(n).cloned() {
                    return self.kscalar(&t);
                }
                self.fn_addr(n) as u128
            }
            C::Cast(x) => self.kscalar(x),
            C::Gep(t, b, ix) => {
                let mut a = self.kscalar(b) as u64;
                let mut cur = t.clone();
                for (k, i) in ix.iter().enumerate() {
                    let iv = self.kscalar(i) as u64;
                    if k == 0 {
                        a = a.wrapping_add(iv.wrapping_mul(cur.size()));
                    } else {
                        let (o, nt) = match &cur {
                            Ty::Struct(..) => cur.field_off(iv),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (iv.wrapping_mul(t.size()), &**t),
                            _ => panic!(),
                        };
                        a = a.wrapping_add(o);
                        let nt = nt.clone();
                        cur = nt;
                    }
                }
                a as u128
            }
            C::Bin(op, t, a, b) => {
                let (x, y) = (self.kscalar(a), self.kscalar(b));
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    _ => x ^ y,
                };
                r & mask(t.bits())
            }
            _ => panic!("kscalar {:?}", c),
        }
    }
    fn kval(&mut self, t: &Ty, c: &C) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(match c {
                C::Agg(l) => l.iter().map(|(t, c)| self.kval(t, c)).collect(),
                _ => f.iter().map(|t| self.kval(t, &C::Zero)).collect(),
            })),
            Ty::Arr(n, et) | Ty::Vec(n, et) => V::A(Rc::new(match c {
                C::Agg(l) => l.iter().map(|(t, c)| self.kval(t, c)).collect(),
                C::Bytes(b) => b.iter().map(|x| V::I(*x as u128)).collect(),
                C::Splat(t, x) => {
                    let v = self.kval(t, x);
                    vec![v; *n as usize]
                }
                _ => {
                    let z = self.kval(et, &C::Zero);
                    vec![z; *n as usize]
                }
            })),
            Ty::Int(w) if *w > 128 => {
                let mut id: Option<Id> = None;
                let mut lo = 0u16;
                while lo < *w {
                    let n = (*w - lo).min(64);
                    let k = match c {
                        C::Wide(l) => l.get(lo as usize / 64).copied().unwrap_or(0) as u128,
                        C::Int(v) => {
                            if lo < 128 {
                                *v >> lo
                            } else if (*v as i128) < 0 {
                                u128::MAX
                            } else {
                                0
                            }
                        }
                        _ => 0,
                    };
                    let p = self.ar.konst(n, k);
                    id = Some(match id {
                        None => p,
                        Some(x) => self.ar.concat(p, x),
                    });
                    lo += n;
                }
                V::S(id.unwrap())
            }
            Ty::Meta | Ty::Void | Ty::Label => V::I(0),
            _ => V::I(self.kscalar(c) & mask(t.bits())),
        }
    }
    fn func(&mut self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.fns.get(name) {
            return Some(f.clone());
        }
        let mut f = self.m.funcs.remove(name)?;
        ir::parse_func(&mut f, &self.m.types);
        // resolve scalar constants
        let mut blocks = std::mem::take(&mut f.blocks);
        for b in blocks.iter_mut() {
            for i in b.iter_mut() {
                self.resolve(i);
            }
        }
        f.blocks = blocks;
        let f = Rc::new(f);
        self.fns.insert(name.to_string(), f.clone());
        Some(f)
    }
    fn res(&mut self, o: &mut Opd) {
        if let Opd::K(t, c) = o {
            let wide = matches!(t, Ty::Int(w) if *w > 128);
            let scalar = matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Float(_));
            if scalar && !wide && !matches!(c, C::Bytes(_)) {
                let v = self.kscalar(&c.clone()) & mask(t.bits());
                *o = Opd::I(v);
            }
        }
    }
    fn resolve(&mut self, i: &mut Inst) {
        match &mut i.i {
            I::Alloca(_, _, Some((_, o))) => self.res(o),
            I::Load(_, p) => self.res(p),
            I::Store(_, v, p) => {
                self.res(v);
                self.res(p)
            }
            I::Gep(_, p, ix) => {
                self.res(p);
                for (_, o) in ix {
                    self.res(o)
                }
            }
            I::Icmp(_, _, a, b) | I::Bin(_, _, a, b) => {
                self.res(a);
                self.res(b)
            }
            I::Cast(_, _, a, _) | I::Freeze(_, a) => self.res(a),
            I::Select(_, c, _, a, b) => {
                self.res(c);
                self.res(a);
                self.res(b)
            }
            I::Phi(_, l) => {
                for (_, o) in l {
                    self.res(o)
                }
            }
            I::CondBr(c, ..) => self.res(c),
            I::Switch(_, o, ..) => self.res(o),
            I::Call { callee, args, .. } => {
                self.res(callee);
                for (_, o) in args {
                    self.res(o)
                }
            }
            I::Ret(Some((_, o))) => self.res(o),
            I::ExtractValue(_, o, _) => self.res(o),
            I::InsertValue(_, a, _, b, _) => {
                self.res(a);
                self.res(b)
            }
            I::CmpXchg(_, a, b, c) => {
                self.res(a);
                self.res(b);
                self.res(c)
            }
            I::AtomicRmw(_, _, a, b) => {
                self.res(a);
                self.res(b)
            }
            I::ExtractElement(_, a, b) => {
                self.res(a);
                self.res(b)
            }
            I::InsertElement(_, a, b, c) => {
                self.res(a);
                self.res(b);
                self.res(c)
            }
            I::Shuffle(_, a, b, _) => {
                self.res(a);
                self.res(b)
            }
            _ => {}
        }
    }

    // ---- values ----
    fn id(&mut self, v: &V, w: u16) -> Id {
        match v {
            V::I(k) => self.ar.konst(w, *k),
            V::S(i) => *i,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, i: Id) -> V {
        match self.ar.kval(i) {
            Some(k) => V::I(k),
            None => V::S(i),
        }
    }
    fn get(&mut self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::I(k) => V::I(*k),
            Opd::K(t, c) => {
                let (t, c) = (t.clone(), c.clone());
                self.kval(&t, &c)
            }
        }
    }
    fn bin(&mut self, op: Op, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            return V::I(fold(op, w, *x, *y));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.bin(op, x, y);
        self.val(r)
    }
    fn binv(&mut self, op: Op, t: &Ty, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y), Ty::Vec(_, et)) = (a, b, t) {
            let w = et.bits();
            let r = x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, w, p, q)).collect();
            return V::A(Rc::new(r));
        }
        self.bin(op, t.bits(), a, b)
    }
    fn cast(&mut self, op: CastOp, t: &Ty, v: &V, t2: &Ty) -> V {
        match (v, op) {
            (V::A(x), CastOp::Zext | CastOp::Sext | CastOp::Trunc) => {
                let (a, b) = match (t, t2) {
                    (Ty::Vec(_, a), Ty::Vec(_, b)) => ((**a).clone(), (**b).clone()),
                    _ => panic!(),
                };
                let r = x.iter().map(|e| self.cast(op, &a, e, &b)).collect();
                V::A(Rc::new(r))
            }
            (_, CastOp::Bit) => {
                let scal = |t: &Ty| matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Float(_));
                if scal(t) && scal(t2) || t == t2 {
                    return v.clone();
                }
                // through a bit string
                let bits = self.to_bits(t, v);
                self.from_bits(t2, bits)
            }
            (V::I(k), CastOp::Zext) => V::I(*k),
            (V::I(k), CastOp::Sext) => V::I(sext(*k, t.bits()) as u128 & mask(t2.bits())),
            (V::I(k), CastOp::Trunc) => V::I(*k & mask(t2.bits())),
            (V::S(i), _) => {
                let w2 = t2.bits();
                let r = match op {
                    CastOp::Zext => self.ar.zext(*i, w2),
                    CastOp::Sext => self.ar.sext(*i, w2),
                    _ => self.ar.extract(*i, 0, w2),
                };
                self.val(r)
            }
        }
    }
    fn to_bits(&mut self, t: &Ty, v: &V) -> Id {
        match (t, v) {
            (Ty::Vec(_, et), V::A(x)) => {
                let mut acc: Option<Id> = None;
                for e in x.iter() {
                    let p = self.to_bits(et, e);
                    acc = Some(match acc {
                        None => p,
                        Some(a) => self.ar.concat(p, a),
                    });
                }
                acc.unwrap()
            }
            _ => self.id(v, t.bits()),
        }
    }
    fn from_bits(&mut self, t: &Ty, i: Id) -> V {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut out = Vec::new();
                for k in 0..*n as u16 {
                    let x = self.ar.extract(i, k * w, w);
                    out.push(self.val(x));
                }
                V::A(Rc::new(out))
            }
            _ => self.val(i),
        }
    }
    fn icmp(&mut self, p: Pred, t: &Ty, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y), Ty::Vec(_, et)) = (a, b, t) {
            let r = x.iter().zip(y.iter()).map(|(q, r)| self.icmp(p, et, q, r)).collect();
            return V::A(Rc::new(r));
        }
        let w = t.bits();
        let one = V::I(1);
        let (op, l, r, neg) = match p {
            Pred::Eq => (Op::Eq, a, b, false),
            Pred::Ne => (Op::Eq, a, b, true),
            Pred::Ult => (Op::Ult, a, b, false),
            Pred::Uge => (Op::Ult, a, b, true),
            Pred::Ugt => (Op::Ult, b, a, false),
            Pred::Ule => (Op::Ult, b, a, true),
            Pred::Slt => (Op::Slt, a, b, false),
            Pred::Sge => (Op::Slt, a, b, true),
            Pred::Sgt => (Op::Slt, b, a, false),
            Pred::Sle => (Op::Slt, b, a, true),
        };
        let v = self.bin(op, w, l, r);
        if neg {
            self.bin(Op::Xor, 1, &v, &one)
        } else {
            v
        }
    }

    // ---- path ----
    fn konst_of(&mut self, st: &State, i: Id) -> Option<u128> {
        if let Some(k) = self.ar.kval(i) {
            return Some(k);
        }
        st.known.get(&i).copied()
    }
    fn add(&mut self, st: &mut State, c: Id) {
        // record what the constraint makes known
        if self.ar.kval(c) == Some(1) {
            return;
        }
        st.path.push(c);
        self.learn(st, c, 1);
    }
    fn learn(&mut self, st: &mut State, c: Id, v: u128) {
        st.known.insert(c, v);
        let n = self.ar.n[c as usize];
        match n.op {
            Op::Not => self.learn(st, n.a, v ^ 1),
            Op::And if n.w == 1 && v == 1 => {
                self.learn(st, n.a, 1);
                self.learn(st, n.b, 1);
            }
            Op::Or if n.w == 1 && v == 0 => {
                self.learn(st, n.a, 0);
                self.learn(st, n.b, 0);
            }
            Op::Eq if v == 1 => {
                if let Some(k) = self.ar.kval(n.b) {
                    self.learn_val(st, n.a, k);
                }
            }
            _ => {
                if n.w == 1 && v <= 1 {
                    let nc = self.ar.not(c);
                    st.known.insert(nc, v ^ 1);
                }
            }
        }
        let nc = self.ar.not(c);
        st.known.insert(nc, v ^ 1);
    }
    fn learn_val(&mut self, st: &mut State, i: Id, k: u128) {
        st.known.insert(i, k);
        let n = self.ar.n[i as usize];
        match n.op {
            Op::ZExt => {
                let w = self.ar.w(n.a);
                if n.w > 1 && w == 1 {
                    self.learn(st, n.a, k & 1);
                } else {
                    self.learn_val(st, n.a, k & mask(w));
                }
            }
            Op::Concat => {
                let lw = self.ar.w(n.b);
                self.learn_val(st, n.b, k & mask(lw));
                self.learn_val(st, n.a, k >> lw);
            }
            _ => {}
        }
    }
    /// simplify a value using what the path makes constant (shallow)
    fn simp(&mut self, st: &State, v: &V, w: u16) -> V {
        let _ = w;
        if let V::S(i) = v {
            if let Some(k) = self.subst(st, *i, 6) {
                return V::I(k);
            }
        }
        v.clone()
    }
    fn subst(&mut self, st: &State, i: Id, d: u32) -> Option<u128> {
        if let Some(k) = self.konst_of(st, i) {
            return Some(k);
        }
        if d == 0 {
            return None;
        }
        let n = self.ar.n[i as usize];
        if n.w > 128 {
            return None;
        }
        Some(match n.op {
            Op::Var | Op::Const => return None,
            Op::Not => !self.subst(st, n.a, d - 1)? & mask(n.w),
            Op::ZExt => self.subst(st, n.a, d - 1)?,
            Op::SExt => sext(self.subst(st, n.a, d - 1)?, self.ar.w(n.a)) as u128 & mask(n.w),
            Op::Extract => {
                if self.ar.w(n.a) > 128 {
                    return None;
                }
                (self.subst(st, n.a, d - 1)? >> n.k) & mask(n.w)
            }
            Op::Concat => (self.subst(st, n.a, d - 1)? << self.ar.w(n.b)) | self.subst(st, n.b, d - 1)?,
            Op::Ite => {
                if self.subst(st, n.a, d - 1)? == 1 {
                    self.subst(st, n.b, d - 1)?
                } else {
                    self.subst(st, n.c, d - 1)?
                }
            }
            op => {
                let w = self.ar.w(n.a);
                if w > 128 {
                    return None;
                }
                let a = self.subst(st, n.a, d - 1);
                let b = self.subst(st, n.b, d - 1);
                match (op, a, b) {
                    (Op::And | Op::Mul, Some(0), _) | (Op::And | Op::Mul, _, Some(0)) => 0,
                    (Op::Or, Some(x), _) if x == mask(w) => x,
                    (Op::Or, _, Some(x)) if x == mask(w) => x,
                    (_, Some(x), Some(y)) => fold(op, w, x, y),
                    _ => return None,
                }
            }
        })
    }
    /// Concrete value of v on this path, or request a fork.
    fn conc(&mut self, st: &State, v: &V) -> R<u128> {
        match v {
            V::I(k) => Ok(*k),
            V::S(i) => match self.subst(st, *i, 12) {
                Some(k) => Ok(k),
                None => Err(Stop::Conc(*i)),
            },
            V::A(_) => Err(Stop::Error("aggregate as address".into())),
        }
    }
    fn query(&mut self, st: &State, c: Id) -> (Res, Option<Rc<Model>>) {
        if let Some(k) = self.ar.kval(c) {
            return if k == 1 { (Res::Sat, Some(st.model.clone())) } else { (Res::Unsat, None) };
        }
        if st.model.eval(&self.ar, c) == 1 {
            self.sol.hits += 1;
            return (Res::Sat, Some(st.model.clone()));
        }
        let t = std::time::Instant::now();
        let r = self.sol.check(&self.ar, &st.path, c, &st.model, &st.hashes);
        if self.slow {
            let d = t.elapsed().as_secs_f64();
            if d > 0.01 {
                eprintln!("SLOW {d:.2} {:?} {} path {}", r.0, st.frames.iter().rev().take(2).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < "), st.path.len());
            }
        }
        if r.0 == Res::Unknown {
            *self.rep.errors.entry("solver returned unknown".into()).or_default() += 1;
        }
        if let (Res::Sat, Some(m)) = (&r.0, &r.1) {
            debug_assert!(m.eval(&self.ar, c) == 1);
            if m.eval(&self.ar, c) != 1 || st.path.iter().any(|p| m.eval(&self.ar, *p) != 1) {
                *self.rep.errors.entry("internal: model does not satisfy path".into()).or_default() += 1;
            }
        }
        r
    }
    fn fork_mark(&mut self, st: &mut State, side: u64) {
        st.h = (st.h ^ side.wrapping_add(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        st.h ^= st.h >> 29;
        st.forks += 1;
        self.rep.forks += (st.forks > self.part.2 || self.part.0 == 0) as u64;
    }
    /// false: this state belongs to another worker
    fn mine(&mut self, st: &State) -> bool {
        if st.forks == self.part.2 {
            // every worker must see the same frontier
            self.rep.frontier += 1;
            self.rep.fsum = self.rep.fsum.wrapping_add(st.h | 1);
            st.h % self.part.1 == self.part.0
        } else {
            true
        }
    }
    /// Branch on c (1-bit): returns the side to continue on; pushes the other if feasible.
    fn branch(&mut self, st: &mut State, c: Id, redo: &dyn Fn(&mut State, bool)) -> R<bool> {
        if let Some(k) = self.subst(st, c, 8) {
            return Ok(k == 1);
        }
        let side = st.model.eval(&self.ar, c) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        let (r, m) = self.query(st, other);
        match r {
            Res::Sat => {
                let mut o = st.clone();
                o.model = m.unwrap();
                self.add(&mut o, other);
                self.fork_mark(&mut o, !side as u64);
                redo(&mut o, !side);
                if self.mine(&o) {
                    self.work.push(o);
                }
                self.fork_mark(st, side as u64);
                self.add(st, mine);
                if !self.mine(st) {
                    st.owned = false;
                    return Err(Stop::Infeasible);
                }
            }
            Res::Unsat => {
                // implied; remember
                self.learn(st, mine, 1);
            }
            Res::Unknown => {
                return Err(Stop::Error("unknown at branch".into()));
            }
        }
        Ok(side)
    }

    // ---- memory ----
    fn find<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u64, &'a Rc<Obj>)> {
        if let Some((b, o)) = st.heap.range(..=addr).next_back() {
            if addr < *b + o.size || (addr == *b && o.size == 0) {
                return Some((*b, o));
            }
        }
        if addr < HEAP_BASE {
            if let Some((b, o)) = self.statics.range(..=addr).next_back() {
                if addr < *b + o.size || (addr == *b && o.size == 0) {
                    // overlay copy lives at the same base
                    return Some((*b, o));
                }
            }
        }
        None
    }
    fn alloc(&self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = st.next.div_ceil(al) * al;
        st.next = a + size.max(1) + 16;
        Rc::make_mut(&mut st.heap).insert(a, Rc::new(Obj { size, data: vec![0; size as usize], sym: vec![], ro: false }));
        a
    }
    fn read(&mut self, st: &State, addr: u64, n: u64) -> R<Id> {
        // returns an 8n-bit expression
        let (b, o) = match self.find(st, addr) {
            Some((b, o)) => (b, o.clone()),
            None => return Err(Stop::Error(format!("load from invalid address {addr:#x}"))),
        };
        let off = (addr - b) as usize;
        if off as u64 + n > o.size {
            return Err(Stop::Error(format!("load of {n} bytes out of bounds (object of {} bytes, offset {off})", o.size)));
        }
        let mut acc: Option<Id> = None;
        let mut k = 0usize;
        let n = n as usize;
        while k < n {
            let s = if o.sym.is_empty() { 0 } else { o.sym[off + k] };
            let p;
            if s == 0 {
                // run of concrete bytes (max 16)
                let mut v = 0u128;
                let mut c = 0;
                while k + c < n && c < 16 && (o.sym.is_empty() || o.sym[off + k + c] == 0) {
                    v |= (o.data[off + k + c] as u128) << (8 * c);
                    c += 1;
                }
                p = self.ar.konst(8 * c as u16, v);
                k += c;
            } else {
                // run of adjacent extracts
                let x = self.ar.n[s as usize];
                let mut c = 1;
                if x.op == Op::Extract {
                    while k + c < n && o.sym[off + k + c] != 0 {
                        let y = self.ar.n[o.sym[off + k + c] as usize];
                        if y.op == Op::Extract && y.a == x.a && y.k == x.k + 8 * c as u128 {
                            c += 1;
                        } else {
                            break;
                        }
                    }
                    p = self.ar.extract(x.a, x.k as u16, 8 * c as u16);
                } else {
                    p = s;
                }
                k += c;
            }
            acc = Some(match acc {
                None => p,
                Some(a) => self.ar.concat(p, a),
            });
        }
        Ok(acc.unwrap_or(0))
    }
    fn read_u(&mut self, st: &State, addr: u64, n: u64) -> R<V> {
        // fast path
        if n <= 16 {
            let (b, o) = match self.find(st, addr) {
                Some(x) => x,
                None => return Err(Stop::Error(format!("load from invalid address {addr:#x}"))),
            };
            let off = (addr - b) as usize;
            if off as u64 + n > o.size {
                return Err(Stop::Error(format!("load of {n} bytes out of bounds (object of {} bytes, offset {off})", o.size)));
            }
            if o.sym.is_empty() || o.sym[off..off + n as usize].iter().all(|s| *s == 0) {
                let mut v = 0u128;
                for k in (0..n as usize).rev() {
                    v = (v << 8) | o.data[off + k] as u128;
                }
                return Ok(V::I(v));
            }
        }
        let i = self.read(st, addr, n)?;
        Ok(self.val(i))
    }
    fn objmut<'a>(&'a self, st: &'a mut State, addr: u64, n: u64) -> R<(usize, &'a mut Obj)> {
        let base = {
            let hb = st.heap.range(..=addr).next_back().map(|(b, o)| (*b, o.size));
            match hb {
                Some((b, s)) if addr < b + s || (addr == b && s == 0) => b,
                _ => {
                    if addr < HEAP_BASE {
                        match self.statics.range(..=addr).next_back() {
                            Some((b, o)) if addr < *b + o.size => {
                                if o.ro {
                                    return Err(Stop::Error("store to constant".into()));
                                }
                                Rc::make_mut(&mut st.heap).insert(*b, o.clone());
                                *b
                            }
                            _ => return Err(Stop::Error(format!("store to invalid address {addr:#x}"))),
                        }
                    } else {
                        return Err(Stop::Error(format!("store to invalid address {addr:#x}")));
                    }
                }
            }
        };
        let o = Rc::make_mut(Rc::make_mut(&mut st.heap).get_mut(&base).unwrap());
        let off = (addr - base) as usize;
        if off as u64 + n > o.size {
            return Err(Stop::Error(format!("store of {n} bytes out of bounds (object of {} bytes, offset {off})", o.size)));
        }
        Ok((off, o))
    }
    fn write_u(&mut self, st: &mut State, addr: u64, n: u64, v: &V) -> R<()> {
        match v {
            V::I(k) => {
                let (off, o) = self.objmut(st, addr, n)?;
                for j in 0..n as usize {
                    o.data[off + j] = if j < 16 { (k >> (8 * j)) as u8 } else { 0 };
                }
                if !o.sym.is_empty() {
                    for j in 0..n as usize {
                        o.sym[off + j] = 0;
                    }
                }
            }
            V::S(i) => {
                let mut bytes = Vec::with_capacity(n as usize);
                let w = self.ar.w(*i);
                let mut id = *i;
                if w < 8 * n as u16 {
                    id = self.ar.zext(id, 8 * n as u16);
                }
                for j in 0..n {
                    bytes.push(self.ar.extract(id, 8 * j as u16, 8));
                }
                let ks: Vec<Option<u128>> = bytes.iter().map(|b| self.ar.kval(*b)).collect();
                let (off, o) = self.objmut(st, addr, n)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                for j in 0..n as usize {
                    match ks[j] {
                        Some(k) => {
                            o.sym[off + j] = 0;
                            o.data[off + j] = k as u8;
                        }
                        None => o.sym[off + j] = bytes[j],
                    }
                }
            }
            V::A(_) => return Err(Stop::Error("aggregate write".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, t: &Ty, addr: u64) -> R<V> {
        Ok(match t {
            Ty::Struct(f, _) => {
                let mut out = Vec::new();
                for k in 0..f.len() {
                    let (o, ft) = t.field_off(k as u64);
                    out.push(self.load(st, ft, addr + o)?);
                }
                V::A(Rc::new(out))
            }
            Ty::Arr(n, et) => {
                let mut out = Vec::new();
                for k in 0..*n {
                    out.push(self.load(st, et, addr + k * et.size())?);
                }
                V::A(Rc::new(out))
            }
            Ty::Vec(n, et) => {
                let w = et.bits();
                if w % 8 == 0 {
                    let mut out = Vec::new();
                    for k in 0..*n {
                        out.push(self.load(st, et, addr + k * (w as u64 / 8))?);
                    }
                    V::A(Rc::new(out))
                } else {
                    let i = self.read(st, addr, t.size())?;
                    let nb = *n as u16 * w;
                    let i = self.ar.extract(i, 0, nb);
                    self.from_bits(t, i)
                }
            }
            _ => {
                let w = t.bits();
                let nb = (w as u64).div_ceil(8);
                let v = self.read_u(st, addr, nb)?;
                if w as u64 != nb * 8 {
                    match v {
                        V::I(k) => V::I(k & mask(w)),
                        V::S(i) => {
                            let x = self.ar.extract(i, 0, w);
                            self.val(x)
                        }
                        x => x,
                    }
                } else {
                    v
                }
            }
        })
    }
    fn store(&mut self, st: &mut State, t: &Ty, addr: u64, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Struct(f, _), V::A(x)) => {
                for k in 0..f.len() {
                    let (o, ft) = t.field_off(k as u64);
                    let ft = ft.clone();
                    self.store(st, &ft, addr + o, &x[k])?;
                }
                Ok(())
            }
            (Ty::Arr(n, et), V::A(x)) => {
                for k in 0..*n {
                    self.store(st, et, addr + k * et.size(), &x[k as usize])?;
                }
                Ok(())
            }
            (Ty::Vec(n, et), V::A(x)) => {
                let w = et.bits();
                if w % 8 == 0 {
                    for k in 0..*n {
                        self.store(st, et, addr + k * (w as u64 / 8), &x[k as usize])?;
                    }
                    Ok(())
                } else {
                    let b = self.to_bits(t, v);
                    let vv = self.val(b);
                    self.write_u(st, addr, t.size(), &vv)
                }
            }
            _ => self.write_u(st, addr, (t.bits() as u64).div_ceil(8), v),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, o) = match self.find(st, src) {
            Some((b, o)) => (b, o.clone()),
            None => return Err(Stop::Error(format!("memcpy from invalid address {src:#x}"))),
        };
        let off = (src - b) as usize;
        if off as u64 + n > o.size {
            return Err(Stop::Error(format!("memcpy source out of bounds ({n} bytes at {off} of {})", o.size)));
        }
        let (d, p) = self.objmut(st, dst, n)?;
        let n = n as usize;
        p.data[d..d + n].copy_from_slice(&o.data[off..off + n]);
        let ssym = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0);
        if ssym {
            if p.sym.is_empty() {
                p.sym = vec![0; p.size as usize];
            }
            p.sym[d..d + n].copy_from_slice(&o.sym[off..off + n]);
        } else if !p.sym.is_empty() {
            p.sym[d..d + n].fill(0);
        }
        Ok(())
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> R<String> {
        let mut s = Vec::new();
        for k in 0..n {
            match self.read_u(st, p + k, 1)? {
                V::I(b) => s.push(b as u8),
                _ => s.push(b'?'),
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn byte(&mut self, st: &State, p: u64) -> R<V> {
        self.read_u(st, p, 1)
    }

    fn new_var(&mut self, st: &mut State, w: u16) -> Id {
        let n = st.nvar;
        st.nvar += 1;
        if let Some(i) = self.vars.get(&(n, w)) {
            return *i;
        }
        let i = self.ar.var(w);
        self.vars.insert((n, w), i);
        i
    }

    // ---- running ----
    pub fn run(&mut self, entry: &str) {
        let f = match self.func(entry) {
            Some(f) => f,
            None => {
                *self.rep.errors.entry(format!("no harness {entry}")).or_default() += 1;
                return;
            }
        };
        let fr = Frame { regs: vec![V::I(0); f.nregs as usize], f, bb: 0, pc: 0, prev: u32::MAX, allocas: vec![], dst: u32::MAX, normal: None };
        let st = State {
            frames: vec![fr],
            heap: Rc::new(BTreeMap::new()),
            next: HEAP_BASE,
            path: vec![],
            known: HashMap::new(),
            model: Rc::new(Model::default()),
            nd: vec![],
            obs: Rc::new(vec![]),
            nvar: 0,
            hashes: vec![],
            forks: 0,
            h: 0x1234_5678,
            instrs: 0,
            owned: true,
        };
        self.work.push(st);
        let mut n = 0u64;
        while let Some(mut st) = self.work.pop() {
            n += 1;
            if n % 16 == 0 && Instant::now() > self.deadline {
                self.rep.timeout = true;
                break;
            }
            let r = self.run_state(&mut st);
            let owned = st.owned && (st.forks >= self.part.2 || st.h % self.part.1 == self.part.0);
            self.rep.instrs += st.instrs;
            match r {
                Ok(()) => {
                    if owned {
                        self.rep.done += 1;
                        if self.rep.done.is_power_of_two() {
                            let s = self.mk_violation(&st, &st.model.clone(), "", "ok");
                            self.rep.sample.push(s);
                        }
                    }
                }
                Err(Stop::Infeasible) => {
                    if owned {
                        self.rep.assumed += 1
                    }
                }
                Err(Stop::Panic(m)) => {
                    if owned {
                        *self.rep.panics.entry(m.clone()).or_default() += 1;
                        if !self.rep.panic_samples.contains_key(&m) {
                            let v = self.mk_violation(&st, &st.model.clone(), &m, "panic");
                            self.rep.panic_samples.insert(m, v);
                        }
                    }
                }
                Err(Stop::Error(m)) => {
                    let bt: Vec<String> = st.frames.iter().rev().take(4).map(|f| f.f.name.clone()).collect();
                    *self.rep.errors.entry(format!("{m} in {}", bt.join(" < "))).or_default() += 1;
                }
                Err(Stop::Conc(_)) => unreachable!(),
            }
        }
        self.rep.queries = self.sol.queries;
        self.rep.cached = self.sol.cached;
        self.rep.sat = self.sol.sat;
        self.rep.unsat = self.sol.unsat;
        self.rep.unknown = self.sol.unknown;
        self.rep.solver_time = self.sol.time;
        self.rep.solver_max = self.sol.max;
        self.coverage();
    }
    fn run_state(&mut self, st: &mut State) -> R<()> {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick % 65536 == 0 && Instant::now() > self.deadline {
                self.rep.timeout = true;
                return Err(Stop::Error("time limit".into()));
            }
            st.instrs += 1;
            if st.instrs > self.max_instr {
                return Err(Stop::Error("instruction limit on a path".into()));
            }
            match self.step(st) {
                Ok(false) => {}
                Ok(true) => return Ok(()),
                Err(Stop::Conc(i)) => {
                    // fork over every feasible value of i, then re-execute the instruction
                    let w = self.ar.w(i);
                    if w > 128 {
                        return Err(Stop::Error("wide concretisation".into()));
                    }
                    let first = st.model.eval(&self.ar, i);
                    let mut seen = vec![(first, st.model.clone())];
                    let mut excl = st.clone();
                    loop {
                        let k = self.ar.konst(w, seen.last().unwrap().0);
                        let e = self.ar.eq(i, k);
                        let ne = self.ar.not(e);
                        let (r, m) = self.sol.check(&self.ar, &excl.path, ne, &excl.model, &st.hashes);
                        excl.path.push(ne);
                        match r {
                            Res::Unsat => break,
                            Res::Unknown => return Err(Stop::Error("unknown at concretisation".into())),
                            Res::Sat => {
                                let m = m.unwrap();
                                let v = m.eval(&self.ar, i);
                                seen.push((v, m));
                                if seen.len() > 4096 {
                                    return Err(Stop::Error("too many values in concretisation".into()));
                                }
                            }
                        }
                    }
                    if seen.len() == 1 {
                        self.learn_val(st, i, first);
                        continue;
                    }
                    for (v, m) in seen.iter().skip(1).rev() {
                        let mut o = st.clone();
                        o.model = m.clone();
                        let kk = self.ar.konst(w, *v);
                        let e = self.ar.eq(i, kk);
                        self.add(&mut o, e);
                        o.known.insert(i, *v);
                        self.fork_mark(&mut o, of_value(*v));
                        if self.mine(&o) {
                            self.work.push(o);
                        }
                    }
                    let kk = self.ar.konst(w, first);
                    let e = self.ar.eq(i, kk);
                    self.add(st, e);
                    st.known.insert(i, first);
                    self.fork_mark(st, of_value(first));
                    if !self.mine(st) {
                        st.owned = false;
                        return Err(Stop::Infeasible);
                    }
                }
                Err(e) => return Err(e),
            }
        }
    }
    fn goto(&mut self, st: &mut State, bb: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        fr.prev = fr.bb;
        fr.bb = bb;
        fr.pc = 0;
        // phis evaluate in parallel
        let f = fr.f.clone();
        let mut vals: Vec<(u32, V)> = Vec::new();
        let prev = fr.prev;
        let mut n = 0;
        for i in &f.blocks[bb as usize] {
            if let I::Phi(_, l) = &i.i {
                let o = match l.iter().find(|(b, _)| *b == prev) {
                    Some((_, o)) => o,
                    None => return Err(Stop::Error("phi without predecessor".into())),
                };
                let fr = st.frames.last().unwrap();
                let v = match o {
                    Opd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opd::I(k) => V::I(*k),
                    Opd::K(t, c) => {
                        let (t, c) = (t.clone(), c.clone());
                        self.kval(&t, &c)
                    }
                };
                vals.push((i.dst, v));
                n += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.pc = n;
        Ok(())
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn step(&mut self, st: &mut State) -> R<bool> {
        let f = st.frames.last().unwrap().f.clone();
        let (bb, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.bb, fr.pc)
        };
        let inst = &f.blocks[bb as usize][pc as usize];
        if inst.dbg != 0 {
            self.rep.cov_ids.insert(inst.dbg);
        }
        if self.trace {
            eprintln!("{}:{}:{} {:?}", f.name, bb, pc, inst.i);
        }
        macro_rules! g {
            ($o:expr) => {{
                match $o {
                    Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
                    Opd::I(k) => V::I(*k),
                    Opd::K(t, c) => {
                        let (t, c) = (t.clone(), c.clone());
                        self.kval(&t, &c)
                    }
                }
            }};
        }
        let _ = Self::get;
        match &inst.i {
            I::Alloca(sz, al, cnt) => {
                let n = match cnt {
                    Some((_, o)) => {
                        let v = g!(o);
                        self.conc(st, &v)? as u64
                    }
                    None => 1,
                };
                let a = self.alloc(st, sz * n, *al);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(a);
                self.set(st, inst.dst, V::I(a as u128));
            }
            I::Load(t, p) => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let v = self.load(st, t, a)?;
                self.set(st, inst.dst, v);
            }
            I::Store(t, v, p) => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let v = g!(v);
                self.store(st, t, a, &v)?;
            }
            I::Gep(t, p, ix) => {
                let mut a = g!(p);
                let mut cur: &Ty = t;
                for (k, (it, io)) in ix.iter().enumerate() {
                    let iv = g!(io);
                    let iw = it.bits();
                    let scale = if k == 0 {
                        cur.size()
                    } else {
                        match cur {
                            Ty::Struct(..) => {
                                let n = self.conc(st, &iv)? as u64;
                                let (o, nt) = cur.field_off(n);
                                a = self.bin(Op::Add, 64, &a, &V::I(o as u128));
                                cur = nt;
                                continue;
                            }
                            Ty::Arr(_, et) | Ty::Vec(_, et) => {
                                cur = et;
                                et.size()
                            }
                            _ => return Err(Stop::Error("gep".into())),
                        }
                    };
                    let iv = if iw < 64 { self.cast(CastOp::Sext, it, &iv, &Ty::Int(64)) } else { iv };
                    let off = self.bin(Op::Mul, 64, &iv, &V::I(scale as u128));
                    a = self.bin(Op::Add, 64, &a, &off);
                }
                self.set(st, inst.dst, a);
            }
            I::Icmp(p, t, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let v = self.icmp(*p, t, &x, &y);
                self.set(st, inst.dst, v);
            }
            I::Bin(op, t, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let v = if matches!(op, Op::Shl | Op::LShr | Op::AShr) && matches!(t, Ty::Int(w) if *w > 128) {
                    let y = self.simp(st, &y, t.bits());
                    self.binv(*op, t, &x, &y)
                } else {
                    self.binv(*op, t, &x, &y)
                };
                self.set(st, inst.dst, v);
            }
            I::Cast(op, t, a, t2) => {
                let x = g!(a);
                let v = self.cast(*op, t, &x, t2);
                self.set(st, inst.dst, v);
            }
            I::Freeze(_, a) => {
                let x = g!(a);
                self.set(st, inst.dst, x);
            }
            I::Select(ct, c, t, a, b) => {
                let c = g!(c);
                let (x, y) = (g!(a), g!(b));
                let v = self.select(st, ct, &c, t, &x, &y)?;
                self.set(st, inst.dst, v);
            }
            I::Phi(..) => return Err(Stop::Error("phi in sequence".into())),
            I::Br(l) => {
                self.goto(st, *l)?;
                return Ok(false);
            }
            I::CondBr(c, a, b) => {
                let c = g!(c);
                let side = match c {
                    V::I(k) => k == 1,
                    V::S(i) => {
                        let cond = i;
                        // the forked state re-executes the branch with the condition known
                        self.branch(st, cond, &|_, _| {})?
                    }
                    _ => return Err(Stop::Error("branch on aggregate".into())),
                };
                self.goto(st, if side { *a } else { *b })?;
                return Ok(false);
            }
            I::Switch(t, o, d, cs) => {
                let v = g!(o);
                let v = self.simp(st, &v, t.bits());
                match v {
                    V::I(k) => {
                        let l = cs.iter().find(|(c, _)| *c == k).map(|(_, l)| *l).unwrap_or(*d);
                        self.goto(st, l)?;
                    }
                    V::S(i) => {
                        let w = t.bits();
                        for (c, l) in cs {
                            let k = self.ar.konst(w, *c);
                            let e = self.ar.eq(i, k);
                            if self.branch(st, e, &|_, _| {})? {
                                self.goto(st, *l)?;
                                return Ok(false);
                            }
                        }
                        self.goto(st, *d)?;
                    }
                    _ => return Err(Stop::Error("switch".into())),
                }
                return Ok(false);
            }
            I::Ret(o) => {
                let v = match o {
                    Some((_, o)) => Some(g!(o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                let heap = Rc::make_mut(&mut st.heap);
                for a in &fr.allocas {
                    heap.remove(a);
                }
                if st.frames.is_empty() {
                    return Ok(true);
                }
                if let Some(v) = v {
                    self.set(st, fr.dst, v);
                }
                if let Some(n) = fr.normal {
                    self.goto(st, n)?;
                } else {
                    st.frames.last_mut().unwrap().pc += 1;
                }
                return Ok(false);
            }
            I::Unreachable => return Err(Stop::Error("unreachable executed".into())),
            I::ExtractValue(_, o, ix) => {
                let mut v = g!(o);
                for k in ix {
                    v = match &v {
                        V::A(x) => x[*k as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue".into())),
                    };
                }
                self.set(st, inst.dst, v);
            }
            I::InsertValue(_, a, _, b, ix) => {
                let v = g!(a);
                let e = g!(b);
                fn ins(v: &V, e: V, ix: &[u32]) -> V {
                    match v {
                        V::A(x) => {
                            let mut n = (**x).clone();
                            let k = ix[0] as usize;
                            n[k] = if ix.len() == 1 { e } else { ins(&n[k].clone(), e, &ix[1..]) };
                            V::A(Rc::new(n))
                        }
                        _ => e,
                    }
                }
                let r = ins(&v, e, ix);
                self.set(st, inst.dst, r);
            }
            I::CmpXchg(t, p, c, n) => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let (c, n) = (g!(c), g!(n));
                let old = self.load(st, t, a)?;
                let e = self.bin(Op::Eq, t.bits(), &old, &c);
                let nv = self.select(st, &Ty::Int(1), &e, t, &n, &old)?;
                self.store(st, t, a, &nv)?;
                self.set(st, inst.dst, V::A(Rc::new(vec![old, e])));
            }
            I::AtomicRmw(op, t, p, v) => {
                let pv = g!(p);
                let a = self.conc(st, &pv)? as u64;
                let v = g!(v);
                let old = self.load(st, t, a)?;
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binv(Op::Add, t, &old, &v),
                    "sub" => self.binv(Op::Sub, t, &old, &v),
                    "and" => self.binv(Op::And, t, &old, &v),
                    "or" => self.binv(Op::Or, t, &old, &v),
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, t, a, &nv)?;
                self.set(st, inst.dst, old);
            }
            I::ExtractElement(_, a, i) => {
                let v = g!(a);
                let i = g!(i);
                let k = self.conc(st, &i)? as usize;
                let r = match v {
                    V::A(x) => x[k].clone(),
                    _ => return Err(Stop::Error("extractelement".into())),
                };
                self.set(st, inst.dst, r);
            }
            I::InsertElement(_, a, e, i) => {
                let v = g!(a);
                let e = g!(e);
                let i = g!(i);
                let k = self.conc(st, &i)? as usize;
                let r = match v {
                    V::A(x) => {
                        let mut n = (*x).clone();
                        n[k] = e;
                        V::A(Rc::new(n))
                    }
                    _ => return Err(Stop::Error("insertelement".into())),
                };
                self.set(st, inst.dst, r);
            }
            I::Shuffle(_, a, b, m) => {
                let (x, y) = (g!(a), g!(b));
                let (x, y) = match (x, y) {
                    (V::A(x), V::A(y)) => (x, y),
                    _ => return Err(Stop::Error("shuffle".into())),
                };
                let n = x.len() as i64;
                let r = m.iter().map(|k| if *k < 0 { V::I(0) } else if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect();
                self.set(st, inst.dst, V::A(Rc::new(r)));
            }
            I::Nop => {}
            I::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction {s}"))),
            I::Call { ret, callee, args, normal, asm } => {
                if *asm {
                    let empty = matches!(callee, Opd::K(_, C::Bytes(b)) if b.is_empty());
                    if !empty {
                        return Err(Stop::Error("inline asm".into()));
                    }
                    // core::hint::black_box
                    if inst.dst != u32::MAX {
                        let v = args.first().map(|(_, o)| g!(o)).unwrap_or(V::I(0));
                        self.set(st, inst.dst, v);
                    }
                    st.frames.last_mut().unwrap().pc += 1;
                    return Ok(false);
                }
                let cv = g!(callee);
                let addr = self.conc(st, &cv)? as u64;
                let name = match self.fname.get(&addr) {
                    Some(n) => n.clone(),
                    None => return Err(Stop::Error(format!("call of non-function {addr:#x}"))),
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(g!(o));
                }
                if let Some(r) = self.intercept(st, &name, ret, args, &av)? {
                    self.set(st, inst.dst, r);
                    if let Some(n) = normal {
                        self.goto(st, *n)?;
                    } else {
                        st.frames.last_mut().unwrap().pc += 1;
                    }
                    return Ok(false);
                }
                let f = match self.func(&name) {
                    Some(f) => f,
                    None => return Err(Stop::Error(format!("call of external function {name}"))),
                };
                if st.frames.len() > 400 {
                    return Err(Stop::Error("call depth".into()));
                }
                let mut regs = vec![V::I(0); f.nregs as usize];
                for (p, a) in f.params.iter().zip(av) {
                    regs[*p as usize] = a;
                }
                st.frames.push(Frame { regs, f, bb: 0, pc: 0, prev: u32::MAX, allocas: vec![], dst: inst.dst, normal: *normal });
                return Ok(false);
            }
        }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(false)
    }
    fn select(&mut self, st: &State, ct: &Ty, c: &V, t: &Ty, a: &V, b: &V) -> R<V> {
        if let (V::A(cs), V::A(x), V::A(y), Ty::Vec(_, et)) = (c, a, b, t) {
            if let Ty::Vec(..) = ct {
                let mut out = Vec::new();
                for k in 0..x.len() {
                    out.push(self.select(st, &Ty::Int(1), &cs[k], et, &x[k], &y[k])?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        let c = self.simp(st, c, 1);
        match c {
            V::I(k) => Ok(if k == 1 { a.clone() } else { b.clone() }),
            V::S(ci) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut out = Vec::new();
                    for k in 0..x.len() {
                        let et = match t {
                            Ty::Struct(f, _) => f[k].clone(),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                            _ => return Err(Stop::Error("select".into())),
                        };
                        out.push(self.select(st, &Ty::Int(1), &V::S(ci), &et, &x[k], &y[k])?);
                    }
                    Ok(V::A(Rc::new(out)))
                }
                _ => {
                    let w = t.bits();
                    let (x, y) = (self.id(a, w), self.id(b, w));
                    let r = self.ar.ite(ci, x, y);
                    Ok(self.val(r))
                }
            },
            _ => Err(Stop::Error("select".into())),
        }
    }

    fn panic_loc(&mut self, st: &State, av: &[V]) -> String {
        for a in av.iter().rev() {
            if let V::I(p) = a {
                let p = *p as u64;
                if p >= GL_BASE && p < HEAP_BASE {
                    let ok = |e: &mut Self| -> R<String> {
                        let fp = e.read_u(st, p, 8)?;
                        let n = e.read_u(st, p + 8, 8)?;
                        let l = e.read_u(st, p + 16, 4)?;
                        if let (V::I(fp), V::I(n), V::I(l)) = (fp, n, l) {
                            if n > 0 && n < 400 && l > 0 {
                                let mut n = n as u64;
                                let mut s = e.cstr(st, fp as u64, n)?;
                                while s.ends_with('\0') {
                                    s.pop();
                                    n -= 1;
                                }
                                if s.ends_with(".rs") {
                                    return Ok(format!("{s}:{l}"));
                                }
                            }
                        }
                        Err(Stop::Infeasible)
                    };
                    if let Ok(s) = ok(self) {
                        return s;
                    }
                }
            }
        }
        "?".into()
    }
    fn inputs(&self, st: &State, m: &Model) -> Vec<(u16, u128)> {
        st.nd.iter().map(|i| (self.ar.w(*i), m.eval(&self.ar, *i))).collect()
    }
    fn mk_violation(&mut self, st: &State, m: &Model, msg: &str, kind: &'static str) -> Violation {
        let mut hashes = Vec::new();
        for h in &st.hashes {
            let msg: Vec<u8> = h
                .bytes
                .iter()
                .map(|v| match v {
                    V::I(k) => *k as u8,
                    V::S(i) => m.eval(&self.ar, *i) as u8,
                    _ => 0,
                })
                .collect();
            let mut d = Vec::new();
            for w in &h.digest {
                d.extend_from_slice(&(m.eval(&self.ar, *w) as u64).to_le_bytes());
            }
            hashes.push((msg, d));
        }
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                V::I(k) => *k as u64,
                V::S(i) => m.eval(&self.ar, *i) as u64,
                _ => 0,
            })
            .collect();
        Violation { msg: msg.to_string(), inputs: self.inputs(st, m), hashes, kind, obs }
    }
    fn cond_id(&mut self, v: &V, w: u16) -> Id {
        match v {
            V::I(k) => {
                if *k & mask(w) != 0 {
                    self.t1
                } else {
                    self.t0
                }
            }
            V::S(i) => {
                let w = self.ar.w(*i);
                if w == 1 {
                    return *i;
                }
                let z = self.ar.konst(w, 0);
                let e = self.ar.eq(*i, z);
                self.ar.not(e)
            }
            _ => panic!(),
        }
    }

    fn intercept(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(Ty, Opd)], av: &[V]) -> R<Option<V>> {
        let unit = Ok(Some(V::I(0)));
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, r, ret, args, av).map(Some);
        }
        if let Some(r) = name.strip_prefix("vsym_") {
            return self.vsym(st, r, args, av).map(Some);
        }
        match name {
            "malloc" | "calloc" => {
                let mut n = self.conc(st, &av[0])? as u64;
                if name == "calloc" {
                    n *= self.conc(st, &av[1])? as u64;
                }
                if n > 1 << 28 {
                    return Ok(Some(V::I(0)));
                }
                return Ok(Some(V::I(self.alloc(st, n, 16) as u128)));
            }
            "posix_memalign" => {
                let p = self.conc(st, &av[0])? as u64;
                let al = self.conc(st, &av[1])? as u64;
                let n = self.conc(st, &av[2])? as u64;
                let a = self.alloc(st, n, al);
                self.write_u(st, p, 8, &V::I(a as u128))?;
                return unit;
            }
            "realloc" => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                if n > 1 << 28 {
                    return Ok(Some(V::I(0)));
                }
                let a = self.alloc(st, n, 16);
                let old = match self.find(st, p) {
                    Some((b, o)) if b == p => o.size,
                    _ => return Err(Stop::Error("realloc".into())),
                };
                self.copy(st, a, p, old.min(n))?;
                Rc::make_mut(&mut st.heap).remove(&p);
                return Ok(Some(V::I(a as u128)));
            }
            "free" => {
                let p = self.conc(st, &av[0])? as u64;
                if p != 0 && Rc::make_mut(&mut st.heap).remove(&p).is_none() {
                    return Err(Stop::Error("free of invalid pointer".into()));
                }
                return unit;
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &av[2])? as u64;
                let a = self.conc(st, &av[0])? as u64;
                let b = self.conc(st, &av[1])? as u64;
                let mut eq = self.t1;
                let mut cmp = V::I(0); // for memcmp
                for k in (0..n).rev() {
                    let (x, y) = (self.byte(st, a + k)?, self.byte(st, b + k)?);
                    if name == "bcmp" {
                        let e = self.bin(Op::Eq, 8, &x, &y);
                        let e = self.id(&e, 1);
                        eq = self.ar.and1(eq, e);
                    } else {
                        let e = self.bin(Op::Eq, 8, &x, &y);
                        let l = self.bin(Op::Ult, 8, &x, &y);
                        let d = self.select(st, &Ty::Int(1), &l, &Ty::Int(32), &V::I(0xffff_ffff), &V::I(1))?;
                        cmp = self.select(st, &Ty::Int(1), &e, &Ty::Int(32), &cmp, &d)?;
                    }
                }
                if name == "bcmp" {
                    let ne = self.ar.not(eq);
                    let r = self.ar.zext(ne, 32);
                    return Ok(Some(self.val(r)));
                }
                return Ok(Some(cmp));
            }
            "strlen" => {
                let a = self.conc(st, &av[0])? as u64;
                let mut n = 0;
                loop {
                    match self.byte(st, a + n)? {
                        V::I(0) => break,
                        V::I(_) => n += 1,
                        _ => return Err(Stop::Error("strlen".into())),
                    }
                }
                return Ok(Some(V::I(n as u128)));
            }
            "getrandom" => {
                // hash-map seeds: any fixed value (bytes stay 0)
                return Ok(Some(av[1].clone()));
            }
            "write" | "writev" => return Ok(Some(V::I(0))),
            "__cxa_thread_atexit_impl" => return unit,
            "abort" | "_exit" | "exit" => return Err(Stop::Panic("abort".into())),
            _ => {}
        }
        if name.contains("6random11RandomState") && name.contains("11BuildHasher8hash_one") {
            // randomly seeded hashes: any function of the key will do, here a constant
            return Ok(Some(V::I(0)));
        }
        if name.contains("5alloc3fmt6format12format_inner") {
            // `format!`: log and error texts; the empty string {capacity, pointer, length}
            let p = self.conc(st, &av[0])? as u64;
            for (k, x) in [0u128, 1, 0].into_iter().enumerate() {
                self.store(st, &Ty::Int(64), p + 8 * k as u64, &V::I(x))?;
            }
            return unit;
        }
        if name.contains("9panicking") && !name.contains("panic_count") && !name.contains("catch_unwind")
            || name.contains("rust_begin_unwind")
            || name.contains("10rust_panic")
            || name.contains("rust_start_panic")
            || name.contains("13unwrap_failed")
            || name.contains("13expect_failed")
            || name.contains("7raw_vec12handle_error")
            || name.contains("17capacity_overflow")
            || name.contains("18handle_alloc_error")
            || name.contains("16slice_index_fail")
        {
            let l = self.panic_loc(st, av);
            return Err(Stop::Panic(l));
        }
        Ok(None)
    }
    fn intrinsic(&mut self, st: &mut State, r: &str, ret: &Ty, args: &[(Ty, Opd)], av: &[V]) -> R<V> {
        let base = r.split('.').next().unwrap_or("");
        let two = |s: &str| r.starts_with(s);
        // vector forms
        if let (Ty::Vec(_, et), true) = (ret, two("umax.") || two("umin.") || two("smax.") || two("smin.") || two("ctpop.") || two("bswap.") || two("uadd.sat") || two("usub.sat") || two("abs.")) {
            let n = match &av[0] {
                V::A(x) => x.len(),
                _ => return Err(Stop::Error("vector intrinsic".into())),
            };
            let mut out = Vec::new();
            for k in 0..n {
                let mut lane_args = Vec::new();
                let mut lane_av = Vec::new();
                for (a, v) in args.iter().zip(av) {
                    match v {
                        V::A(x) => {
                            lane_args.push(((**et).clone(), Opd::I(0)));
                            lane_av.push(x[k].clone());
                        }
                        _ => {
                            lane_args.push(a.clone());
                            lane_av.push(v.clone());
                        }
                    }
                }
                out.push(self.intrinsic(st, r, et, &lane_args, &lane_av)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        Ok(match base {
            "lifetime" | "dbg" | "assume" | "experimental" | "donothing" | "invariant" | "sideeffect" | "va_start" | "x86" | "prefetch" => {
                if base == "x86" && !two("x86.sse2.pause") {
                    return Err(Stop::Error(format!("intrinsic llvm.{r}")));
                }
                V::I(0)
            }
            "trap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "memcpy" | "memmove" => {
                let n = self.conc(st, &av[2])? as u64;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let d = self.conc(st, &av[0])? as u64;
                let s = self.conc(st, &av[1])? as u64;
                self.copy(st, d, s, n)?;
                V::I(0)
            }
            "memset" => {
                let n = self.conc(st, &av[2])? as u64;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let d = self.conc(st, &av[0])? as u64;
                match &av[1] {
                    V::I(b) => {
                        let b = *b as u8;
                        let (off, o) = self.objmut(st, d, n)?;
                        o.data[off..off + n as usize].fill(b);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n as usize].fill(0);
                        }
                    }
                    v => {
                        for k in 0..n {
                            self.write_u(st, d + k, 1, v)?;
                        }
                    }
                }
                V::I(0)
            }
            "threadlocal" => av[0].clone(),
            "expect" | "launder" | "strip" | "ssa" => av[0].clone(),
            "is" => V::I(0),       // is.constant
            "objectsize" => V::I(u64::MAX as u128),
            "umax" | "umin" | "smax" | "smin" => {
                let w = ret.bits();
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let c = self.bin(op, w, &av[0], &av[1]);
                let (x, y) = if base.ends_with("min") { (&av[0], &av[1]) } else { (&av[1], &av[0]) };
                self.select(st, &Ty::Int(1), &c, ret, x, y)?
            }
            "abs" => {
                let w = ret.bits();
                let c = self.bin(Op::Slt, w, &av[0], &V::I(0));
                let n = self.bin(Op::Sub, w, &V::I(0), &av[0]);
                self.select(st, &Ty::Int(1), &c, ret, &n, &av[0])?
            }
            "ucmp" | "scmp" => {
                let w = args[0].0.bits();
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let l = self.bin(op, w, &av[0], &av[1]);
                let e = self.bin(Op::Eq, w, &av[0], &av[1]);
                // fork early on three-way comparisons: keeps the results concrete
                let m1 = V::I(mask(ret.bits()));
                let t = self.select(st, &Ty::Int(1), &e, ret, &V::I(0), &V::I(1))?;
                self.select(st, &Ty::Int(1), &l, ret, &m1, &t)?
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let ovf = r.contains("with.overflow");
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let w = args[0].0.bits();
                let t = args[0].0.clone();
                let res = self.bin(op, w, &av[0], &av[1]);
                let o = match (op, signed) {
                    (Op::Add, false) => self.bin(Op::Ult, w, &res, &av[0]),
                    (Op::Sub, false) => self.bin(Op::Ult, w, &av[0], &av[1]),
                    (Op::Mul, false) if w <= 64 && [&av[0], &av[1]].iter().map(|v| match v {
                        V::I(k) => *k,
                        V::S(i) => self.ar.hi(*i),
                        _ => u128::MAX,
                    }).try_fold(1u128, |p, h| p.checked_mul(h)).is_some_and(|p| p <= mask(w)) => V::I(0),
                    _ => {
                        // widen
                        if w > 64 {
                            if let (V::I(x), V::I(y)) = (&av[0], &av[1]) {
                                V::I(if signed { 0 } else { x.checked_mul(*y).is_none() as u128 })
                            } else {
                                return Err(Stop::Error("wide overflow op".into()));
                            }
                        } else {
                            let c = if signed { CastOp::Sext } else { CastOp::Zext };
                            let wt = Ty::Int(2 * w);
                            let (x, y) = (self.cast(c, &t, &av[0], &wt), self.cast(c, &t, &av[1], &wt));
                            let p = self.bin(op, 2 * w, &x, &y);
                            let back = self.cast(c, &t, &res, &wt);
                            let e = self.bin(Op::Eq, 2 * w, &p, &back);
                            self.bin(Op::Xor, 1, &e, &V::I(1))
                        }
                    }
                };
                if ovf {
                    V::A(Rc::new(vec![res, o]))
                } else {
                    // saturating (unsigned only)
                    if signed {
                        return Err(Stop::Error("signed saturating".into()));
                    }
                    let sat = if op == Op::Add { V::I(mask(w)) } else { V::I(0) };
                    self.select(st, &Ty::Int(1), &o, ret, &sat, &res)?
                }
            }
            "fshl" | "fshr" => {
                let w = ret.bits();
                let s = self.simp(st, &av[2], w);
                let k = match s {
                    V::I(k) => k % w as u128,
                    v => self.conc(st, &v)? % w as u128,
                };
                let k = if base == "fshr" { (w as u128 - k) % w as u128 } else { k };
                if k == 0 {
                    return Ok(if base == "fshl" { av[0].clone() } else { av[1].clone() });
                }
                let h = self.bin(Op::Shl, w, &av[0], &V::I(k));
                let l = self.bin(Op::LShr, w, &av[1], &V::I(w as u128 - k));
                self.bin(Op::Or, w, &h, &l)
            }
            "ctpop" | "ctlz" | "cttz" | "bitreverse" => {
                let w = ret.bits();
                match &av[0] {
                    V::I(k) => {
                        let k = *k & mask(w);
                        V::I(match base {
                            "ctpop" => k.count_ones() as u128,
                            "ctlz" => (k.leading_zeros() as u128) - (128 - w as u128),
                            "cttz" => (k.trailing_zeros() as u128).min(w as u128),
                            _ => k.reverse_bits() >> (128 - w),
                        })
                    }
                    v => {
                        let i = self.id(v, w);
                        match base {
                            "ctpop" => {
                                let mut acc = self.ar.konst(w, 0);
                                for b in 0..w {
                                    let e = self.ar.extract(i, b, 1);
                                    let z = self.ar.zext(e, w);
                                    acc = self.ar.bin(Op::Add, acc, z);
                                }
                                self.val(acc)
                            }
                            "ctlz" | "cttz" => {
                                let mut acc = self.ar.konst(w, w as u128);
                                // last set bit examined wins
                                for n in 0..w {
                                    let b = if base == "ctlz" { n } else { w - 1 - n };
                                    let pos = if base == "ctlz" { w - 1 - b } else { b };
                                    let e = self.ar.extract(i, b, 1);
                                    let k = self.ar.konst(w, pos as u128);
                                    acc = self.ar.ite(e, k, acc);
                                }
                                self.val(acc)
                            }
                            _ => {
                                let mut acc: Option<Id> = None;
                                for b in 0..w {
                                    let e = self.ar.extract(i, b, 1);
                                    acc = Some(match acc {
                                        None => e,
                                        Some(a) => self.ar.concat(a, e),
                                    });
                                }
                                self.val(acc.unwrap())
                            }
                        }
                    }
                }
            }
            "bswap" => {
                let w = ret.bits();
                match &av[0] {
                    V::I(k) => V::I(k.swap_bytes() >> (128 - w)),
                    v => {
                        let i = self.id(v, w);
                        let mut acc: Option<Id> = None;
                        let mut b = 0;
                        while b < w {
                            let e = self.ar.extract(i, b, 8);
                            acc = Some(match acc {
                                None => e,
                                Some(a) => self.ar.concat(a, e),
                            });
                            b += 8;
                        }
                        self.val(acc.unwrap())
                    }
                }
            }
            "vector" if r.starts_with("vector.reduce.") => {
                let x = match &av[0] {
                    V::A(x) => x.clone(),
                    _ => return Err(Stop::Error("vector.reduce".into())),
                };
                let k = r.split('.').nth(2).unwrap_or("");
                let op = match k {
                    "add" => Op::Add,
                    "or" => Op::Or,
                    "and" => Op::And,
                    "xor" => Op::Xor,
                    _ => return Err(Stop::Error(format!("intrinsic llvm.{r}"))),
                };
                let w = ret.bits();
                let mut acc = x[0].clone();
                for e in x.iter().skip(1) {
                    acc = self.bin(op, w, &acc, e);
                }
                acc
            }
            _ => return Err(Stop::Error(format!("intrinsic llvm.{r}"))),
        })
    }
    fn vsym(&mut self, st: &mut State, r: &str, args: &[(Ty, Opd)], av: &[V]) -> R<V> {
        Ok(match r {
            "nd" => {
                let w = self.conc(st, &av[0])? as u16;
                let v = self.new_var(st, w);
                st.nd.push(v);
                let z = self.ar.zext(v, 64);
                V::S(z)
            }
            "assume" => {
                let c = self.cond_id(&av[0], args[0].0.bits());
                match self.subst(st, c, 8) {
                    Some(1) => return Ok(V::I(0)),
                    Some(_) => return Err(Stop::Infeasible),
                    None => {}
                }
                let (r, m) = self.query(st, c);
                match r {
                    Res::Sat => {
                        st.model = m.unwrap();
                        self.add(st, c);
                        V::I(0)
                    }
                    Res::Unsat => return Err(Stop::Infeasible),
                    Res::Unknown => return Err(Stop::Error("unknown at assume".into())),
                }
            }
            "assert" => {
                let p = self.conc(st, &av[1])? as u64;
                let n = self.conc(st, &av[2])? as u64;
                let msg = self.cstr(st, p, n)?;
                let c = self.cond_id(&av[0], args[0].0.bits());
                // prefixes shared by all workers are counted once
                let once = (st.forks >= self.part.2 || self.part.0 == 0) as u64;
                let e = self.rep.asserts.entry(msg.clone()).or_default();
                e.reached += once;
                if self.ar.kval(c) == Some(1) {
                    self.rep.asserts.get_mut(&msg).unwrap().proved_by_folding += once;
                    return Ok(V::I(0));
                }
                let nc = self.ar.not(c);
                let (r, m) = self.query(st, nc);
                match r {
                    Res::Unsat => {
                        let e = self.rep.asserts.get_mut(&msg).unwrap();
                        e.proved_by_solver += once;
                    }
                    Res::Sat => {
                        let m = m.unwrap();
                        let e = self.rep.asserts.get_mut(&msg).unwrap();
                        e.violated += 1;
                        if e.violated <= 4 {
                            let mut s2 = st.clone();
                            s2.path.push(nc);
                            let v = self.mk_violation(&s2, &m, &msg, "assert");
                            self.rep.violations.push(v);
                        }
                        // continue on the passing side if there is one
                        let (r, m) = self.query(st, c);
                        match r {
                            Res::Sat => {
                                st.model = m.unwrap();
                                self.add(st, c);
                            }
                            Res::Unsat => return Err(Stop::Infeasible),
                            Res::Unknown => return Err(Stop::Error("unknown at assert".into())),
                        }
                    }
                    Res::Unknown => return Err(Stop::Error("unknown at assert".into())),
                }
                V::I(0)
            }
            "cover" => {
                let p = self.conc(st, &av[1])? as u64;
                let n = self.conc(st, &av[2])? as u64;
                let msg = self.cstr(st, p, n)?;
                if self.rep.covers.get(&msg) != Some(&true) {
                    let c = self.cond_id(&av[0], args[0].0.bits());
                    let (r, _) = self.query(st, c);
                    self.rep.covers.insert(msg, r == Res::Sat);
                }
                V::I(0)
            }
            "conc" => {
                let k = self.conc(st, &av[0])?;
                V::I(k)
            }
            "and" => {
                // non-short-circuit conjunction of two booleans held in u64
                let a = self.cond_id(&av[0], 64);
                let b = self.cond_id(&av[1], 64);
                let c = self.ar.and1(a, b);
                let z = self.ar.zext(c, 64);
                self.val(z)
            }
            "eq" => {
                // bytewise equality without forking
                let a = self.conc(st, &av[0])? as u64;
                let b = self.conc(st, &av[1])? as u64;
                let n = self.conc(st, &av[2])? as u64;
                let mut eq = self.t1;
                for k in 0..n {
                    let (x, y) = (self.byte(st, a + k)?, self.byte(st, b + k)?);
                    let e = self.bin(Op::Eq, 8, &x, &y);
                    let e = self.id(&e, 1);
                    eq = self.ar.and1(eq, e);
                }
                let z = self.ar.zext(eq, 64);
                self.val(z)
            }
            "is_symbolic_run" => V::I(1),
            "hash" => {
                // ideal hash: equal messages <=> equal digests
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                let out = self.conc(st, &av[2])? as u64;
                let mut bytes = Vec::with_capacity(n as usize);
                for k in 0..n {
                    bytes.push(self.byte(st, p + k)?);
                }
                let digest = if let Some(h) = st.hashes.iter().find(|h| h.bytes == bytes) {
                    h.digest.clone()
                } else {
                    let d: Vec<Id> = (0..4).map(|_| self.new_var(st, 64)).collect();
                    let dv: Vec<u32> = d.iter().map(|i| self.ar.n[*i as usize].k as u32).collect();
                    for (i, v) in d.iter().zip(&dv) {
                        self.sol.mark_digest(*v, *i);
                    }
                    // model: the digest of an equal message, else an unused value
                    let mut m = match Rc::try_unwrap(std::mem::replace(&mut st.model, self.nomodel.clone())) {
                        Ok(m) => m,
                        Err(m) => Model::from_vals(m.vals.clone()),
                    };
                    let val = |m: &Model, ar: &Arena, b: &V| match b {
                        V::I(k) => *k as u8,
                        V::S(i) => m.eval(ar, *i) as u8,
                        _ => 0,
                    };
                    let dig = |m: &Model, ar: &Arena, h: &HashEnt| -> [u128; 4] { std::array::from_fn(|j| m.eval(ar, h.digest[j])) };
                    let msg: Vec<u8> = bytes.iter().map(|b| val(&m, &self.ar, b)).collect();
                    let same = st.hashes.iter().find(|h| h.bytes.len() == msg.len() && h.bytes.iter().zip(&msg).all(|(b, x)| val(&m, &self.ar, b) == *x));
                    let x = match same {
                        Some(h) => dig(&m, &self.ar, h),
                        None => {
                            let n = st.hashes.len() as u128;
                            let mut x: [u128; 4] = std::array::from_fn(|j| 0xD160_0000_0000_0000u128 + (n << 8) + j as u128 + ((n * 0x9E37_79B9) << 16));
                            while st.hashes.iter().any(|h| dig(&m, &self.ar, h) == x) {
                                x[0] += 1 << 4;
                            }
                            x
                        }
                    };
                    for (v, x) in dv.iter().zip(x) {
                        m.define(*v, x);
                    }
                    st.model = Rc::new(m);
                    let mut uid = std::collections::hash_map::DefaultHasher::new();
                    for b in &bytes {
                        match b {
                            V::I(k) => (0u8, *k as u64).hash(&mut uid),
                            V::S(i) => (1u8, *i as u64).hash(&mut uid),
                            _ => 2u8.hash(&mut uid),
                        }
                    }
                    d.hash(&mut uid);
                    st.hashes.push(Rc::new(HashEnt { bytes, digest: d.clone(), uid: uid.finish() }));
                    d
                };
                for (j, w) in digest.iter().enumerate() {
                    let v = self.val(*w);
                    self.write_u(st, out + 8 * j as u64, 8, &v)?;
                }
                V::I(0)
            }
            "panic_is_violation" => {
                self.np = true;
                V::I(0)
            }
            "obs" => {
                Rc::make_mut(&mut st.obs).push(av[0].clone());
                V::I(0)
            }
            "log" => {
                let p = self.conc(st, &av[0])? as u64;
                let n = self.conc(st, &av[1])? as u64;
                let s = self.cstr(st, p, n)?;
                eprintln!("LOG {s}");
                V::I(0)
            }
            _ => return Err(Stop::Error(format!("unknown vsym_{r}"))),
        })
    }

    // ---- coverage ----
    fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
        let p = s.find(k)?;
        let r = &s[p + k.len()..];
        let e = r.find([',', ')']).unwrap_or(r.len());
        Some(r[..e].trim())
    }
    fn coverage(&mut self) {
        let ids: Vec<u32> = self.rep.cov_ids.iter().copied().collect();
        let mut seen = HashSet::new();
        let mut stack = ids;
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            let Some(s) = self.m.meta.get(&i) else { continue };
            if !s.contains("DILocation") {
                continue;
            }
            let line: u32 = Self::field(s, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(x) = Self::field(s, "inlinedAt: !") {
                if let Ok(n) = x.parse() {
                    stack.push(n);
                }
            }
            let mut sc: u32 = match Self::field(s, "scope: !").and_then(|x| x.parse().ok()) {
                Some(x) => x,
                None => continue,
            };
            let mut guard = 0;
            while let Some(t) = self.m.meta.get(&sc) {
                guard += 1;
                if guard > 50 {
                    break;
                }
                if t.contains("DISubprogram") {
                    let name = t.find("name: \"").map(|p| {
                        let r = &t[p + 7..];
                        r[..r.find('"').unwrap_or(0)].to_string()
                    });
                    let file = Self::field(t, "file: !").and_then(|x| x.parse::<u32>().ok()).and_then(|f| self.m.meta.get(&f)).and_then(|f| {
                        f.find("filename: \"").map(|p| {
                            let r = &f[p + 11..];
                            r[..r.find('"').unwrap_or(0)].to_string()
                        })
                    });
                    if let (Some(n), Some(f)) = (name, file) {
                        self.rep.cov.insert((n, f, line));
                    }
                    break;
                }
                match Self::field(t, "scope: !").and_then(|x| x.parse().ok()) {
                    Some(x) => sc = x,
                    None => break,
                }
            }
        }
    }
}
