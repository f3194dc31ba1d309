//! z3 back end: an incremental solver whose assertion stack follows the current path.
use crate::exec::{HashEnt, V};
use crate::expr::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
    fn Z3_ast_vector_inc_ref(c: P, v: P);
    fn Z3_ast_vector_dec_ref(c: P, v: P);
    fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
    fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_const_interp(c: P, m: P, f: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

/// A satisfying assignment (variables not present are 0).
#[derive(Default)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    cache: RefCell<HashMap<Id, u128>>,
}
impl Model {
    pub fn from_vals(vals: HashMap<u32, u128>) -> Self {
        Model { vals, cache: RefCell::new(HashMap::new()) }
    }
    pub fn clear(&mut self) { self.cache.get_mut().clear() }
    /// Sets a variable no evaluated expression depends on.
    pub fn define(&mut self, v: u32, x: u128) { self.vals.insert(v, x); }
    /// Value of an expression of at most 128 bits.
    pub fn eval(&self, ar: &Arena, i: Id) -> u128 {
        let n = &ar.n[i as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(v) = self.cache.borrow().get(&i) {
            return *v;
        }
        let v = match n.op {
            Op::Not => !self.eval(ar, n.a) & mask(n.w),
            Op::Concat => (self.eval(ar, n.a) << ar.w(n.b)) | self.eval(ar, n.b),
            Op::Extract => {
                let iw = ar.w(n.a);
                if iw > 128 {
                    // wide source: only concat trees are wide
                    self.eval_wide(ar, n.a, n.k as u16, n.w)
                } else {
                    (self.eval(ar, n.a) >> n.k) & mask(n.w)
                }
            }
            Op::ZExt => self.eval(ar, n.a),
            Op::SExt => sext(self.eval(ar, n.a), ar.w(n.a)) as u128 & mask(n.w),
            Op::Ite => {
                if self.eval(ar, n.a) == 1 {
                    self.eval(ar, n.b)
                } else {
                    self.eval(ar, n.c)
                }
            }
            op => fold(op, ar.w(n.a), self.eval(ar, n.a), self.eval(ar, n.b)),
        };
        self.cache.borrow_mut().insert(i, v);
        v
    }
    fn eval_wide(&self, ar: &Arena, i: Id, lo: u16, w: u16) -> u128 {
        let n = &ar.n[i as usize];
        match n.op {
            Op::Concat => {
                let lw = ar.w(n.b);
                if lo >= lw {
                    self.eval_wide(ar, n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.eval_wide(ar, n.b, lo, w)
                } else {
                    let k = lw - lo;
                    (self.eval_wide(ar, n.a, 0, w - k) << k) | self.eval_wide(ar, n.b, lo, k)
                }
            }
            Op::Ite => {
                let s = if self.eval(ar, n.a) == 1 { n.b } else { n.c };
                self.eval_wide(ar, s, lo, w)
            }
            _ if n.w <= 128 => (self.eval(ar, i) >> lo) & mask(w),
            _ => panic!("eval_wide {:?}", n.op),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Lit {
    Path(Id),
    Hash(u64, u64),
}
enum Answer {
    Sat(Rc<Model>),
    Unsat(Vec<u64>),
}

pub struct Solver {
    c: P,
    s: P,
    timeout_ms: u32,
    zb: HashMap<Id, P>,
    zv: HashMap<Id, P>,
    vars: HashMap<u32, P>, // decls
    varsets: HashMap<Id, Rc<Vec<u32>>>,
    digests: HashMap<u32, Id>,
    pub rounds: u64,
    /// answers per slice: a model of it, or unsatisfiable given these pairs of hashes
    cache: HashMap<Vec<Id>, Answer>,
    /// per query: constraints and hashes it is unsatisfiable with
    cores: HashMap<Id, Vec<(Vec<Id>, Vec<u64>)>>,
    /// literals that switch on a constraint or a hash axiom in the incremental solver
    lits: HashMap<Lit, P>,
    names: HashMap<usize, Lit>,
    pub cached: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max: f64,
    pub hits: u64,
}

unsafe fn set_timeout(c: P, s: P, ms: u32, smt: bool) {
    let p = Z3_mk_params(c);
    Z3_params_inc_ref(c, p);
    let k = CString::new("timeout").unwrap();
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), ms);
    if smt {
        let k = CString::new("relevancy").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 2);
    }
    Z3_solver_set_params(c, s, p);
    Z3_params_dec_ref(c, p);
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            set_timeout(c, s, timeout_ms.min(300), true);
            Solver {
                c,
                s,
                timeout_ms,
                zb: HashMap::new(),
                zv: HashMap::new(),
                vars: HashMap::new(),
                varsets: HashMap::new(),
                digests: HashMap::new(),
                rounds: 0,
                cache: HashMap::new(),
                cores: HashMap::new(),
                lits: HashMap::new(),
                names: HashMap::new(),
                cached: 0,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max: 0.0,
                hits: 0,
            }
        }
    }
    fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            set_timeout(self.c, self.s, self.timeout_ms.min(300), true);
        }
        self.lits.clear();
        self.names.clear();
    }
    /// the literal of a constraint, given its term if it is a hash axiom
    fn lit(&mut self, ar: &Arena, l: Lit, term: Option<P>) -> P {
        if let Some(p) = self.lits.get(&l) {
            return *p;
        }
        let a = match (l, term) {
            (Lit::Path(i), _) => self.b(ar, i),
            (_, Some(a)) => a,
            _ => unreachable!(),
        };
        unsafe {
            let name = CString::new(match l {
                Lit::Path(i) => format!("p{i}"),
                Lit::Hash(x, y) => format!("h{x}_{y}"),
            })
            .unwrap();
            let c = self.c;
            let p = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bool_sort(c)));
            let n = self.keep(Z3_mk_not(c, p));
            let x = [n, a];
            let o = self.keep(Z3_mk_or(c, 2, x.as_ptr()));
            Z3_solver_assert(c, self.s, o);
            self.lits.insert(l, p);
            self.names.insert(p as usize, l);
            p
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn num(&self, w: u16, k: u128) -> P {
        unsafe {
            let ty = Z3_mk_bv_sort(self.c, w as c_uint);
            // reference counted: a result without a reference dies with the next call
            self.keep(if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, ty)
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), ty)
            })
        }
    }
    /// Boolean form of a 1-bit expression.
    fn b(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(&p) = self.zb.get(&i) {
            return p;
        }
        let n = ar.n[i as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => Z3_mk_not(c, self.b(ar, n.a)),
                Op::And | Op::Or => {
                    let x = [self.b(ar, n.a), self.b(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, x.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, x.as_ptr())
                    }
                }
                Op::Xor => {
                    let (x, y) = (self.b(ar, n.a), self.b(ar, n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.b(ar, n.a), self.b(ar, n.b), self.b(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let (x, y) = (self.b(ar, n.a), self.b(ar, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                _ => {
                    let v = self.v(ar, i);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        let r = self.keep(r);
        self.zb.insert(i, r);
        r
    }
    fn v(&mut self, ar: &Arena, i: Id) -> P {
        if let Some(&p) = self.zv.get(&i) {
            return p;
        }
        let n = ar.n[i as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    let ty = Z3_mk_bv_sort(c, n.w as c_uint);
                    let s = Z3_mk_int_symbol(c, n.k as c_int);
                    let d = Z3_mk_func_decl(c, s, 0, std::ptr::null(), ty);
                    let d = self.keep(d);
                    self.vars.insert(n.k as u32, d);
                    Z3_mk_const(c, s, ty)
                }
                _ if n.w == 1 && matches!(n.op, Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Slt) => {
                    let x = self.b(ar, i);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, x, o, z)
                }
                Op::Not => Z3_mk_bvnot(c, self.v(ar, n.a)),
                Op::Ite => {
                    let (x, y, z) = (self.b(ar, n.a), self.v(ar, n.b), self.v(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let x = self.v(ar, n.a);
                    Z3_mk_extract(c, (n.k as u32) + n.w as u32 - 1, n.k as c_uint, x)
                }
                Op::ZExt => {
                    let d = n.w - ar.w(n.a);
                    let x = self.v(ar, n.a);
                    Z3_mk_zero_ext(c, d as c_uint, x)
                }
                Op::SExt => {
                    let d = n.w - ar.w(n.a);
                    let x = self.v(ar, n.a);
                    Z3_mk_sign_ext(c, d as c_uint, x)
                }
                op => {
                    let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        let r = self.keep(r);
        self.zv.insert(i, r);
        r
    }
    /// Variables of an expression.
    fn vars_of(&mut self, ar: &Arena, i: Id) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&i) {
            return v.clone();
        }
        let mut seen = HashSet::new();
        let mut out = Vec::new();
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = &ar.n[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.k as u32),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => todo.extend([n.a, n.b]),
            }
        }
        out.sort_unstable();
        let r = Rc::new(out);
        self.varsets.insert(i, r.clone());
        r
    }
    unsafe fn overlay(&self, m: P, base: &Model, vars: &HashSet<u32>) -> HashMap<u32, u128> {
        let mut vals = base.vals.clone();
        for v in vars {
            if let Some(&d) = self.vars.get(v) {
                let x = Z3_model_get_const_interp(self.c, m, d);
                if !x.is_null() {
                    let s = Z3_get_numeral_string(self.c, x);
                    let s = std::ffi::CStr::from_ptr(s).to_str().unwrap();
                    let n: u128 = s.parse().unwrap();
                    vals.insert(*v, n);
                }
            }
        }
        vals
    }
    fn message(ar: &Arena, m: &Model, h: &HashEnt) -> Vec<u8> {
        h.bytes.iter().map(|b| match b {
            V::I(k) => *k as u8,
            V::S(i) => m.eval(ar, *i) as u8,
            _ => 0,
        }).collect()
    }
    fn digest(ar: &Arena, m: &Model, h: &HashEnt) -> [u128; 4] { std::array::from_fn(|j| m.eval(ar, h.digest[j])) }
    /// Pairs of hashes that a model treats inconsistently (equal messages <=> equal digests).
    fn conflicts(ar: &Arena, m: &Model, hashes: &[Rc<HashEnt>]) -> Vec<(usize, usize)> {
        let mut by_msg: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut by_dig: HashMap<[u128; 4], usize> = HashMap::new();
        let mut out = Vec::new();
        for (n, h) in hashes.iter().enumerate() {
            let (msg, dig) = (Self::message(ar, m, h), Self::digest(ar, m, h));
            let a = *by_msg.entry(msg).or_insert(n);
            let b = *by_dig.entry(dig).or_insert(n);
            if a != b {
                for k in [a, b] {
                    if k != n {
                        out.push((k, n));
                    }
                }
            }
        }
        out
    }
    /// Makes digests a function of their messages, in creation order: equal messages get equal
    /// digests, other digests stay as they are unless they collide.
    fn repair(&self, ar: &Arena, vals: HashMap<u32, u128>, base: &Model, hashes: &[Rc<HashEnt>]) -> Model {
        let mut m = Model::from_vals(vals);
        let mut seen: HashMap<Vec<u8>, [u128; 4]> = HashMap::new();
        let mut used: HashSet<[u128; 4]> = HashSet::new();
        for (n, h) in hashes.iter().enumerate() {
            let msg = Self::message(ar, &m, h);
            let var = |j: usize| ar.n[h.digest[j] as usize].k as u32;
            let get = |m: &HashMap<u32, u128>| -> [u128; 4] { std::array::from_fn(|j| m.get(&var(j)).copied().unwrap_or(0)) };
            let d = match seen.get(&msg) {
                Some(d) => *d,
                None => {
                    let mut d = get(&m.vals);
                    if used.contains(&d) {
                        d = get(&base.vals);
                    }
                    let mut x = 0u128;
                    while used.contains(&d) {
                        x += 1;
                        d[0] = 0xD161_0000_0000_0000u128 + ((n as u128) << 16) + x;
                    }
                    used.insert(d);
                    seen.insert(msg, d);
                    d
                }
            };
            if get(&m.vals) != d {
                for j in 0..4 {
                    m.vals.insert(var(j), d[j]);
                }
                m.clear();
            }
        }
        m
    }
    /// The axiom of two hashes: equal messages <=> equal digests.
    fn axiom(&mut self, ar: &Arena, x: &HashEnt, y: &HashEnt) -> P {
        unsafe {
            let c = self.c;
            let mut de = Vec::new();
            for j in 0..4 {
                let (a, b) = (self.v(ar, x.digest[j]), self.v(ar, y.digest[j]));
                de.push(self.keep(Z3_mk_eq(c, a, b)));
            }
            let de = self.keep(Z3_mk_and(c, 4, de.as_ptr()));
            let mut me = Vec::new();
            let mut differ = x.bytes.len() != y.bytes.len();
            for (a, b) in x.bytes.iter().zip(&y.bytes) {
                match (a, b) {
                    (V::I(a), V::I(b)) => differ |= *a as u8 != *b as u8,
                    (V::S(a), V::S(b)) if a == b => {}
                    _ => {
                        let mut t = |z: &V| match z {
                            V::S(i) => self.v(ar, *i),
                            V::I(k) => self.num(8, *k as u8 as u128),
                            _ => self.num(8, 0),
                        };
                        let (a, b) = (t(a), t(b));
                        me.push(self.keep(Z3_mk_eq(c, a, b)));
                    }
                }
            }
            if differ {
                self.keep(Z3_mk_not(c, de))
            } else {
                let me = self.keep(Z3_mk_and(c, me.len() as c_uint, me.as_ptr()));
                self.keep(Z3_mk_eq(c, me, de))
            }
        }
    }
    fn hash_vars(&mut self, ar: &Arena, h: &HashEnt) -> Vec<u32> {
        let mut o = Vec::new();
        for b in &h.bytes {
            if let V::S(i) = b {
                o.extend(self.vars_of(ar, *i).iter());
            }
        }
        for d in &h.digest {
            o.extend(self.vars_of(ar, *d).iter());
        }
        o
    }
    pub fn mark_digest(&mut self, var: u32, i: Id) {
        self.digests.insert(var, i);
    }
    /// Is path ∧ extra satisfiable? `base` satisfies path. Only the constraints connected to `extra`
    /// are given to the solver; a model is completed with `base` and checked against the whole path
    /// and the hash axioms; what it violates is added until nothing is left.
    pub fn check(&mut self, ar: &Arena, path: &[Id], extra: Id, base: &Model, hashes: &[Rc<HashEnt>]) -> (Res, Option<Rc<Model>>) {
        let t = Instant::now();
        if let Some(l) = self.cores.get(&extra) {
            let have: HashSet<Id> = path.iter().copied().collect();
            if l.iter().any(|(c, h)| c.iter().all(|i| have.contains(i)) && h.iter().all(|u| hashes.iter().any(|x| x.uid == *u))) {
                self.queries += 1;
                self.cached += 1;
                self.unsat += 1;
                return (Res::Unsat, None);
            }
        }
        let mut index: HashMap<u32, Vec<usize>> = HashMap::new();
        for (k, c) in path.iter().enumerate() {
            for v in self.vars_of(ar, *c).iter() {
                index.entry(*v).or_default().push(k);
            }
        }
        let mut on = vec![false; path.len()];
        let mut vars: HashSet<u32> = HashSet::new();
        let mut todo: Vec<u32> = self.vars_of(ar, extra).to_vec();
        let mut fresh: Vec<usize> = Vec::new();
        let grow = |on: &mut Vec<bool>, vars: &mut HashSet<u32>, todo: &mut Vec<u32>, fresh: &mut Vec<usize>, me: &mut Solver| {
            while let Some(v) = todo.pop() {
                if !vars.insert(v) {
                    continue;
                }
                if let Some(l) = index.get(&v) {
                    for k in l {
                        if !on[*k] {
                            on[*k] = true;
                            fresh.push(*k);
                            todo.extend(me.vars_of(ar, path[*k]).iter());
                        }
                    }
                }
            }
        };
        grow(&mut on, &mut vars, &mut todo, &mut fresh, self);
        self.queries += 1;
        let mut key: Vec<Id> = fresh.iter().map(|k| path[*k]).collect();
        key.sort_unstable();
        key.dedup();
        key.push(extra);
        let holds = |m: &Model| m.eval(ar, extra) == 1 && path.iter().all(|c| m.eval(ar, *c) == 1);
        let mut cached = None;
        match self.cache.get(&key) {
            Some(Answer::Unsat(used)) => {
                let have: HashSet<u64> = hashes.iter().map(|h| h.uid).collect();
                if used.iter().all(|u| have.contains(u)) {
                    cached = Some((Res::Unsat, None));
                }
            }
            Some(Answer::Sat(m)) => {
                let mut vals = base.vals.clone();
                for v in &vars {
                    match m.vals.get(v) {
                        Some(x) => vals.insert(*v, *x),
                        None => vals.remove(v),
                    };
                }
                let m = self.repair(ar, vals, base, hashes);
                if holds(&m) {
                    cached = Some((Res::Sat, Some(Rc::new(m))));
                }
            }
            None => {}
        }
        if let Some(r) = cached {
            self.cached += 1;
            match r.0 {
                Res::Sat => self.sat += 1,
                _ => self.unsat += 1,
            }
            return r;
        }
        let mut out = (Res::Unknown, None);
        let e = self.b(ar, extra);
        let mut axioms: Vec<P> = Vec::new();
        // constraints are only in the solver during their query: an accumulating one gets slower
        unsafe { Z3_solver_push(self.c, self.s) };
        self.lits.clear();
        self.names.clear();
        let mut assumed: Vec<P> = vec![self.lit(ar, Lit::Path(extra), None)];
        let mut core: Option<(Vec<Id>, Vec<u64>)> = None;
        let mut pairs: HashSet<(usize, usize)> = HashSet::new();
        let mut beyond = false; // constraints outside the slice were needed
        unsafe {
            let mut rounds = 0;
            loop {
                fresh.sort_unstable();
                for k in std::mem::take(&mut fresh) {
                    let a = self.lit(ar, Lit::Path(path[k]), None);
                    assumed.push(a);
                }
                let mut r = Z3_solver_check_assumptions(self.c, self.s, assumed.len() as c_uint, assumed.as_ptr());
                if r == -1 {
                    let v = Z3_solver_get_unsat_core(self.c, self.s);
                    Z3_ast_vector_inc_ref(self.c, v);
                    let (mut on, mut hs) = (Vec::new(), Vec::new());
                    for i in 0..Z3_ast_vector_size(self.c, v) {
                        match self.names.get(&(Z3_ast_vector_get(self.c, v, i) as usize)) {
                            Some(Lit::Path(i)) if *i == extra => {}
                            Some(Lit::Path(i)) => on.push(*i),
                            Some(Lit::Hash(x, y)) => hs.extend([*x, *y]),
                            None => unreachable!(),
                        }
                    }
                    Z3_ast_vector_dec_ref(self.c, v);
                    core = Some((on, hs));
                }
                let mut from = self.s;
                if r == 0 {
                    // hard for the incremental core: a fresh bit-vector solver with preprocessing
                    let l = CString::new("QF_BV").unwrap();
                    from = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                    Z3_solver_inc_ref(self.c, from);
                    set_timeout(self.c, from, self.timeout_ms, false);
                    for k in 0..path.len() {
                        if on[k] {
                            let a = self.b(ar, path[k]);
                            Z3_solver_assert(self.c, from, a);
                        }
                    }
                    for a in &axioms {
                        Z3_solver_assert(self.c, from, *a);
                    }
                    Z3_solver_assert(self.c, from, e);
                    r = Z3_solver_check(self.c, from);
                }
                let mut done = true;
                match r {
                    1 => {
                        let m = Z3_solver_get_model(self.c, from);
                        Z3_model_inc_ref(self.c, m);
                        let vals = self.overlay(m, base, &vars);
                        Z3_model_dec_ref(self.c, m);
                        rounds += 1;
                        let mut good = self.repair(ar, vals.clone(), base, hashes);
                        let mut ok = holds(&good);
                        if !ok && rounds == 1 {
                            // prefer a model that keeps the digests of `base`
                            let keep: Vec<u32> = vars.iter().filter(|v| self.digests.contains_key(v)).copied().collect();
                            let mut more = assumed.clone();
                            for v in keep {
                                let id = self.digests[&v];
                                let x = self.v(ar, id);
                                let k = self.num(ar.w(id), base.vals.get(&v).copied().unwrap_or(0));
                                more.push(self.keep(Z3_mk_eq(self.c, x, k)));
                            }
                            if Z3_solver_check_assumptions(self.c, self.s, more.len() as c_uint, more.as_ptr()) == 1 {
                                let z = Z3_solver_get_model(self.c, self.s);
                                Z3_model_inc_ref(self.c, z);
                                let vals = self.overlay(z, base, &vars);
                                Z3_model_dec_ref(self.c, z);
                                let n = self.repair(ar, vals, base, hashes);
                                if holds(&n) {
                                    good = n;
                                    ok = true;
                                }
                            }
                        }
                        if ok {
                            out = (Res::Sat, Some(Rc::new(good)));
                        } else {
                            // what the solver's own model violates
                            let raw = Model::from_vals(vals);
                            for k in 0..path.len() {
                                if !on[k] && raw.eval(ar, path[k]) != 1 {
                                    done = false;
                                    beyond = true;
                                    on[k] = true;
                                    fresh.push(k);
                                    todo.extend(self.vars_of(ar, path[k]).iter());
                                }
                            }
                            for (a, b) in Self::conflicts(ar, &raw, hashes) {
                                if pairs.insert((a, b)) {
                                    done = false;
                                    let q = self.axiom(ar, &hashes[a], &hashes[b]);
                                    axioms.push(q);
                                    let l = self.lit(ar, Lit::Hash(hashes[a].uid, hashes[b].uid), Some(q));
                                    assumed.push(l);
                                    todo.extend(self.hash_vars(ar, &hashes[a]));
                                    todo.extend(self.hash_vars(ar, &hashes[b]));
                                }
                            }
                            if done {
                                // nothing violated: the model stands as it is
                                out = (Res::Sat, Some(Rc::new(raw)));
                            } else {
                                self.rounds += 1;
                                grow(&mut on, &mut vars, &mut todo, &mut fresh, self);
                            }
                        }
                    }
                    -1 => out = (Res::Unsat, None),
                    _ => out = (Res::Unknown, None),
                }
                if from != self.s {
                    Z3_solver_dec_ref(self.c, from);
                }
                if done {
                    break;
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        if self.cache.len() > 300_000 {
            self.cache.clear();
        }
        match &out {
            (Res::Sat, Some(m)) => {
                self.cache.insert(key, Answer::Sat(m.clone()));
            }
            (Res::Unsat, _) if core.is_some() => {
                let l = self.cores.entry(extra).or_default();
                if l.len() < 64 {
                    l.push(core.unwrap());
                }
            }
            (Res::Unsat, _) if !beyond => {
                let mut used: Vec<u64> = pairs.iter().flat_map(|(a, b)| [hashes[*a].uid, hashes[*b].uid]).collect();
                used.sort_unstable();
                used.dedup();
                // axioms may have pulled constraints in through their variables
                let slice: HashSet<Id> = key.iter().copied().collect();
                if (0..path.len()).all(|k| !on[k] || slice.contains(&path[k])) {
                    self.cache.insert(key, Answer::Unsat(used));
                }
            }
            _ => {}
        }
        match out.0 {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max {
            self.max = dt;
        }
        out
    }
}
