//! Parser for the textual LLVM IR produced by rustc (subset used by Rust code).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Float(u16),
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in f {
                    if !packed {
                        let a = t.align();
                        al = al.max(a);
                        o = o.div_ceil(a) * a;
                    }
                    o += t.size();
                }
                o.div_ceil(al) * al
            }
            Ty::Float(w) => *w as u64 / 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Float(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    /// scalar bit width
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), t),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = o.div_ceil(a) * a;
                    }
                    if k as u64 == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field_off {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Wide(Vec<u64>),
    Null,
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, C)>),
    Splat(Ty, Box<C>),
    Global(String),
    Gep(Ty, Box<C>, Vec<C>),
    Cast(Box<C>),
    Bin(String, Ty, Box<C>, Box<C>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Ty, C),
    // Fast forms filled in by the executor
    I(u128),
}

pub type BinOp = crate::expr::Op;

#[derive(Clone, Debug, PartialEq, Copy)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(u64, u64, Option<(Ty, Opd)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Ty, Opd, Vec<(Ty, Opd)>),
    Icmp(Pred, Ty, Opd, Opd),
    Bin(BinOp, Ty, Opd, Opd),
    Cast(CastOp, Ty, Opd, Ty),
    Select(Ty, Opd, Ty, Opd, Opd),
    Phi(Ty, Vec<(u32, Opd)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Call { ret: Ty, callee: Opd, args: Vec<(Ty, Opd)>, normal: Option<u32>, asm: bool },
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Ty, Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    Freeze(Ty, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i64>),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX = none
    pub i: I,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub dbg: u32,
    pub text: Vec<String>,
    pub parsed: bool,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub align: u64,
    pub constant: bool,
}

#[derive(Default, Debug)]
pub struct Module {
    pub funcs: HashMap<String, Func>,
    pub globals: Vec<Global>,
    pub aliases: HashMap<String, C>,
    pub types: HashMap<String, Ty>,
    pub meta: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String), // word: keyword or identifier
    L(String), // %local
    G(String), // @global
    M(String), // !meta
    A(String), // #attr
    N(String), // number
    S(Vec<u8>),
    P(char),
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = Vec::new();
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' {
                    v.push(b'\\');
                    *i += 2;
                } else {
                    let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    *i += 3;
                }
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && ident(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                out.push(T::M(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                out.push(T::A(s[st..i].to_string()));
            }
            b'"' => out.push(T::S(quoted(&mut i))),
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                out.push(T::S(quoted(&mut i)));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+' || b[i] == b'-') {
                    i += 1;
                }
                out.push(T::N(s[st..i].to_string()));
            }
            _ if ident(c) => {
                let st = i;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                out.push(T::W(s[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct Ps<'m> {
    pub t: Vec<T>,
    pub p: usize,
    pub m: &'m HashMap<String, Ty>,
}

fn parse_num(s: &str) -> C {
    if let Some(h) = s.strip_prefix("0x") {
        return C::Int(u128::from_str_radix(h, 16).unwrap_or(0));
    }
    if s.starts_with('-') {
        if let Ok(v) = s.parse::<i128>() {
            return C::Int(v as u128);
        }
    } else if let Ok(v) = s.parse::<u128>() {
        return C::Int(v);
    }
    // wide decimal (two's complement, 512 bits)
    let neg = s.starts_with('-');
    let mut v = vec![0u64; 8];
    for d in s.trim_start_matches('-').bytes() {
        if !d.is_ascii_digit() {
            return C::Int(0); // float literal: unsupported, never used
        }
        let mut carry = (d - b'0') as u128;
        for x in v.iter_mut() {
            let y = *x as u128 * 10 + carry;
            *x = y as u64;
            carry = y >> 64;
        }
    }
    if neg {
        let mut c = 1u128;
        for x in v.iter_mut() {
            let y = (!*x) as u128 + c;
            *x = y as u64;
            c = y >> 64;
        }
    }
    C::Wide(v)
}

impl<'m> Ps<'m> {
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.p)
    }
    pub fn next(&mut self) -> T {
        let x = self.t[self.p].clone();
        self.p += 1;
        x
    }
    pub fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn exp(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {} at {:?} in {:?}", c, self.p, self.t);
        }
    }
    pub fn skip_parens(&mut self) {
        self.exp('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "metadata" | "token" | "label" | "fp128" | "x86_fp80")
            }
            Some(T::P('[')) | Some(T::P('<')) | Some(T::P('{')) => true,
            Some(T::L(_)) => true,
            _ => false,
        }
    }
    /// skip attribute words until something that is not an attribute
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::S(_)) => {
                    self.p += 1;
                    if self.eat_p('=') {
                        self.p += 1;
                    }
                }
                Some(T::A(_)) => self.p += 1,
                Some(T::W(w)) => {
                    if matches!(
                        w.as_str(),
                        "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "splat" | "asm" | "add" | "sub" | "xor" | "addrspacecast" | "to"
                    ) || self.at_type()
                    {
                        return;
                    }
                    let al = w == "align" || w == "addrspace";
                    self.p += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if al {
                        self.p += 1;
                    }
                }
                _ => return,
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::W(w) => match w.as_str() {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {w}"))),
                _ => panic!("type {w} in {:?}", self.t),
            },
            T::P('[') => {
                let n = self.num_u64();
                assert!(self.eat_w("x"));
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n, Box::new(t))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.exp('{');
                    let f = self.ty_list('}');
                    self.exp('>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num_u64();
                    assert!(self.eat_w("x"));
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            T::P('{') => Ty::Struct(self.ty_list('}'), false),
            T::L(n) => self.m.get(&n).cloned().unwrap_or_else(|| panic!("named type {n}")),
            x => panic!("type {:?} in {:?}", x, self.t),
        };
        t
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut f = Vec::new();
        while !self.eat_p(end) {
            f.push(self.ty());
            self.eat_p(',');
        }
        f
    }
    pub fn num_u64(&mut self) -> u64 {
        match self.next() {
            T::N(n) => n.parse().unwrap(),
            x => panic!("num {:?} in {:?}", x, self.t),
        }
    }
    /// constant of the given type
    pub fn konst(&mut self, ty: &Ty) -> C {
        match self.next() {
            T::N(n) => {
                if let Ty::Float(_) = ty {
                    return C::Undef;
                }
                parse_num(&n)
            }
            T::G(g) => C::Global(g),
            T::S(b) => C::Bytes(b),
            T::P('[') => C::Agg(self.klist(']')),
            T::P('{') => C::Agg(self.klist('}')),
            T::P('<') => {
                if self.eat_p('{') {
                    let l = self.klist('}');
                    self.exp('>');
                    C::Agg(l)
                } else {
                    C::Agg(self.klist('>'))
                }
            }
            T::W(w) => match w.as_str() {
                "true" => C::Int(1),
                "false" => C::Int(0),
                "null" => C::Null,
                "none" => C::Null,
                "undef" | "poison" => C::Undef,
                "zeroinitializer" => C::Zero,
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.exp(')');
                    C::Splat(t, Box::new(v))
                }
                "getelementptr" => {
                    while let Some(T::W(x)) = self.peek() {
                        let inr = x == "inrange";
                        self.p += 1;
                        if inr && self.is_p('(') {
                            self.skip_parens();
                        }
                    }
                    self.exp('(');
                    let t = self.ty();
                    self.exp(',');
                    let bt = self.ty();
                    let base = self.konst(&bt);
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        idx.push(self.konst(&it));
                    }
                    self.exp(')');
                    C::Gep(t, Box::new(base), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    assert!(self.eat_w("to"));
                    let _ = self.ty();
                    self.exp(')');
                    C::Cast(Box::new(v))
                }
                "add" | "sub" | "xor" | "mul" => {
                    while let Some(T::W(_)) = self.peek() {
                        self.p += 1;
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp(')');
                    C::Bin(w, t, Box::new(a), Box::new(b))
                }
                _ => panic!("const {w} in {:?}", self.t),
            },
            x => panic!("const {:?} in {:?}", x, self.t),
        }
    }
    fn klist(&mut self, end: char) -> Vec<(Ty, C)> {
        let mut v = Vec::new();
        while !self.eat_p(end) {
            let t = self.ty();
            let c = self.konst(&t);
            v.push((t, c));
            self.eat_p(',');
        }
        v
    }
}

struct FnParser {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnParser {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn opd(&mut self, ps: &mut Ps, ty: &Ty) -> Opd {
        if let Some(T::L(n)) = ps.peek() {
            let n = n.clone();
            ps.p += 1;
            return Opd::Reg(self.reg(&n));
        }
        Opd::K(ty.clone(), ps.konst(ty))
    }
    fn tyopd(&mut self, ps: &mut Ps) -> (Ty, Opd) {
        let t = ps.ty();
        let o = self.opd(ps, &t);
        (t, o)
    }
    fn label(&mut self, ps: &mut Ps) -> u32 {
        ps.eat_w("label");
        match ps.next() {
            T::L(n) => *self.labels.get(&n).unwrap_or_else(|| panic!("label {n}")),
            x => panic!("label {:?}", x),
        }
    }
    fn call(&mut self, ps: &mut Ps, invoke: bool) -> I {
        // after 'call'/'invoke'
        ps.skip_attrs(); // fast-math, cconv, ret attrs
        let mut ret = ps.ty();
        if ps.is_p('(') {
            ps.skip_parens(); // explicit function type
        }
        // e.g. "void (...)" handled; return type may itself be followed by attrs? no
        let mut asm = false;
        let callee = if ps.eat_w("asm") {
            asm = true;
            while let Some(T::W(_)) = ps.peek() {
                ps.p += 1;
            }
            let a = ps.next();
            ps.exp(',');
            ps.next();
            let text = if let T::S(b) = a { b } else { vec![] };
            if !text.is_empty() {
                ret = if text.is_empty() { ret } else { ret };
            }
            Opd::K(Ty::Ptr, C::Bytes(text))
        } else {
            self.opd(ps, &Ty::Ptr)
        };
        ps.exp('(');
        let mut args = Vec::new();
        while !ps.eat_p(')') {
            let t = ps.ty();
            if t == Ty::Meta {
                // metadata argument
                let mut d = 0;
                loop {
                    match ps.peek() {
                        Some(T::P(',')) if d == 0 => break,
                        Some(T::P(')')) if d == 0 => break,
                        Some(T::P('(')) | Some(T::P('{')) => d += 1,
                        Some(T::P(')')) | Some(T::P('}')) => d -= 1,
                        _ => {}
                    }
                    ps.p += 1;
                }
                args.push((Ty::Meta, Opd::I(0)));
            } else {
                ps.skip_attrs();
                let o = self.opd(ps, &t);
                args.push((t, o));
            }
            ps.eat_p(',');
        }
        let mut normal = None;
        if invoke {
            while !ps.is_w("to") {
                ps.p += 1;
            }
            ps.p += 1;
            normal = Some(self.label(ps));
        }
        I::Call { ret, callee, args, normal, asm }
    }
    fn inst(&mut self, ps: &mut Ps) -> (u32, I) {
        let mut dst = u32::MAX;
        if let (Some(T::L(n)), Some(T::P('='))) = (ps.t.first().cloned(), ps.t.get(1)) {
            dst = self.reg(&n);
            ps.p = 2;
        }
        let w = match ps.next() {
            T::W(w) => w,
            x => panic!("inst {:?} in {:?}", x, ps.t),
        };
        use crate::expr::Op;
        let flags = |ps: &mut Ps| {
            while let Some(T::W(x)) = ps.peek() {
                if matches!(x.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "volatile" | "atomic" | "weak" | "inalloca" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    ps.p += 1;
                } else {
                    break;
                }
            }
        };
        let i = match w.as_str() {
            "alloca" => {
                flags(ps);
                let t = ps.ty();
                let mut al = t.align();
                let mut cnt = None;
                while ps.eat_p(',') {
                    if ps.eat_w("align") {
                        al = ps.num_u64();
                    } else if ps.at_type() {
                        cnt = Some(self.tyopd(ps));
                    } else {
                        break;
                    }
                }
                I::Alloca(t.size(), al, cnt)
            }
            "load" => {
                flags(ps);
                let t = ps.ty();
                ps.exp(',');
                let (_, p) = self.tyopd(ps);
                I::Load(t, p)
            }
            "store" => {
                flags(ps);
                let (t, v) = self.tyopd(ps);
                ps.exp(',');
                let (_, p) = self.tyopd(ps);
                I::Store(t, v, p)
            }
            "getelementptr" => {
                flags(ps);
                if ps.eat_w("inrange") {
                    ps.skip_parens();
                }
                flags(ps);
                let t = ps.ty();
                ps.exp(',');
                let (pt, p) = self.tyopd(ps);
                let mut idx = Vec::new();
                while ps.eat_p(',') {
                    if !ps.at_type() {
                        break;
                    }
                    idx.push(self.tyopd(ps));
                }
                if pt != Ty::Ptr {
                    return (dst, I::Unsupported("vector gep".into()));
                }
                I::Gep(t, p, idx)
            }
            "icmp" => {
                flags(ps);
                let p = match ps.next() {
                    T::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("icmp {w}"),
                    },
                    _ => panic!(),
                };
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let b = self.opd(ps, &t);
                I::Icmp(p, t, a, b)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                flags(ps);
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let b = self.opd(ps, &t);
                let op = match w.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                I::Bin(op, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                flags(ps);
                let (t, a) = self.tyopd(ps);
                assert!(ps.eat_w("to"));
                let t2 = ps.ty();
                let op = match w.as_str() {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    "bitcast" => CastOp::Bit,
                    _ => CastOp::Zext, // pointers are 64-bit integers
                };
                if op == CastOp::Zext && matches!(w.as_str(), "ptrtoint" | "inttoptr" | "ptrtoaddr") {
                    let (a1, b1) = (t.bits(), t2.bits());
                    let o = if a1 == b1 { CastOp::Bit } else if a1 < b1 { CastOp::Zext } else { CastOp::Trunc };
                    return (dst, I::Cast(o, t, a, t2));
                }
                I::Cast(op, t, a, t2)
            }
            "select" => {
                flags(ps);
                let (ct, c) = self.tyopd(ps);
                ps.exp(',');
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let (_, b) = self.tyopd(ps);
                I::Select(ct, c, t, a, b)
            }
            "phi" => {
                flags(ps);
                let t = ps.ty();
                let mut v = Vec::new();
                loop {
                    ps.exp('[');
                    let o = self.opd(ps, &t);
                    ps.exp(',');
                    let l = self.label(ps);
                    ps.exp(']');
                    v.push((l, o));
                    if !(ps.is_p(',') && ps.t.get(ps.p + 1) == Some(&T::P('['))) {
                        break;
                    }
                    ps.p += 1;
                }
                I::Phi(t, v)
            }
            "br" => {
                if ps.is_w("label") {
                    I::Br(self.label(ps))
                } else {
                    let (_, c) = self.tyopd(ps);
                    ps.exp(',');
                    let a = self.label(ps);
                    ps.exp(',');
                    let b = self.label(ps);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(ps);
                ps.exp(',');
                let d = self.label(ps);
                ps.exp('[');
                let mut cs = Vec::new();
                while !ps.eat_p(']') {
                    let ct = ps.ty();
                    let c = match ps.konst(&ct) {
                        C::Int(v) => v & crate::expr::mask(ct.bits()),
                        C::Wide(_) => panic!("wide switch"),
                        _ => panic!("switch case"),
                    };
                    ps.exp(',');
                    let l = self.label(ps);
                    cs.push((c, l));
                }
                I::Switch(t, v, d, cs)
            }
            "tail" | "musttail" | "notail" => {
                assert!(ps.eat_w("call"));
                self.call(ps, false)
            }
            "call" => self.call(ps, false),
            "invoke" => self.call(ps, true),
            "ret" => {
                if ps.is_w("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.tyopd(ps)))
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (t, a) = self.tyopd(ps);
                let mut ix = Vec::new();
                while ps.eat_p(',') {
                    if let Some(T::N(n)) = ps.peek() {
                        ix.push(n.parse().unwrap());
                        ps.p += 1;
                    } else {
                        break;
                    }
                }
                I::ExtractValue(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let (t2, b) = self.tyopd(ps);
                let mut ix = Vec::new();
                while ps.eat_p(',') {
                    if let Some(T::N(n)) = ps.peek() {
                        ix.push(n.parse().unwrap());
                        ps.p += 1;
                    } else {
                        break;
                    }
                }
                I::InsertValue(t, a, t2, b, ix)
            }
            "freeze" => {
                let (t, a) = self.tyopd(ps);
                I::Freeze(t, a)
            }
            "cmpxchg" => {
                flags(ps);
                let (_, p) = self.tyopd(ps);
                ps.exp(',');
                let (t, c) = self.tyopd(ps);
                ps.exp(',');
                let (_, n) = self.tyopd(ps);
                I::CmpXchg(t, p, c, n)
            }
            "atomicrmw" => {
                flags(ps);
                let op = match ps.next() {
                    T::W(w) => w,
                    _ => panic!(),
                };
                let (_, p) = self.tyopd(ps);
                ps.exp(',');
                let (t, v) = self.tyopd(ps);
                I::AtomicRmw(op, t, p, v)
            }
            "extractelement" => {
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let (_, i) = self.tyopd(ps);
                I::ExtractElement(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let (_, e) = self.tyopd(ps);
                ps.exp(',');
                let (_, i) = self.tyopd(ps);
                I::InsertElement(t, a, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(ps);
                ps.exp(',');
                let (_, b) = self.tyopd(ps);
                ps.exp(',');
                let mt = ps.ty();
                let n = if let Ty::Vec(n, _) = mt { n } else { panic!() };
                let m = match ps.konst(&mt) {
                    C::Zero => vec![0; n as usize],
                    C::Undef => vec![-1; n as usize],
                    C::Splat(_, v) => match *v {
                        C::Int(k) => vec![k as i64; n as usize],
                        _ => panic!(),
                    },
                    C::Agg(l) => l
                        .iter()
                        .map(|(_, c)| match c {
                            C::Int(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!(),
                };
                I::Shuffle(t, a, b, m)
            }
            "fence" => I::Nop,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" => I::Unreachable,
            other => I::Unsupported(other.to_string()),
        };
        (dst, i)
    }
}

fn dbg_of(line: &str) -> u32 {
    if let Some(p) = line.rfind("!dbg !") {
        let r = &line[p + 6..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        return r[..e].parse().unwrap_or(0);
    }
    0
}

pub fn parse_func(f: &mut Func, types: &HashMap<String, Ty>) {
    // text[0] = define line; rest = body lines (joined where needed)
    let mut fp = FnParser { regs: HashMap::new(), labels: HashMap::new() };
    let head = lex(&f.text[0]);
    // parameter list: after @name (
    let mut p = 0;
    while !matches!(&head[p], T::G(_)) {
        p += 1;
    }
    let mut ps = Ps { t: head, p: p + 1, m: types };
    ps.exp('(');
    let mut unnamed = 0u32;
    while !ps.eat_p(')') {
        if ps.eat_p('.') {
            continue;
        }
        if let Some(T::W(w)) = ps.peek() {
            if w.starts_with("...") {
                ps.p += 1;
                continue;
            }
        }
        let _t = ps.ty();
        ps.skip_attrs();
        match ps.peek().cloned() {
            Some(T::L(n)) => {
                ps.p += 1;
                if n.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                let r = fp.reg(&n);
                f.params.push(r);
            }
            _ => {
                let n = unnamed.to_string();
                unnamed += 1;
                let r = fp.reg(&n);
                f.params.push(r);
            }
        }
        ps.eat_p(',');
    }
    // blocks
    let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
    for line in &f.text[1..] {
        let t = line.trim_end();
        if t.is_empty() {
            continue;
        }
        if !t.starts_with(' ') {
            // label
            let c = lex_label(t);
            blocks.push((c, Vec::new()));
            continue;
        }
        let tt = t.trim_start();
        if tt.starts_with("#dbg") || tt.starts_with(';') {
            continue;
        }
        if blocks.is_empty() {
            blocks.push((unnamed.to_string(), Vec::new()));
        }
        blocks.last_mut().unwrap().1.push(tt.to_string());
    }
    for (k, (n, _)) in blocks.iter().enumerate() {
        fp.labels.insert(n.clone(), k as u32);
    }
    for (_, lines) in &blocks {
        let mut out = Vec::new();
        for l in lines {
            let dbg = dbg_of(l);
            let mut ps = Ps { t: lex(l), p: 0, m: types };
            let (dst, i) = fp.inst(&mut ps);
            out.push(Inst { dst, i, dbg });
        }
        f.blocks.push(out);
    }
    f.nregs = fp.regs.len() as u32;
    f.parsed = true;
    f.text = Vec::new();
}

fn lex_label(t: &str) -> String {
    if let Some(r) = t.strip_prefix('"') {
        return r[..r.find('"').unwrap()].to_string();
    }
    t[..t.find(':').unwrap()].to_string()
}

pub fn parse_module(src: &str) -> Module {
    let mut m = Module::default();
    let mut lines = src.lines().peekable();
    let mut type_lines = Vec::new();
    let mut glob_lines: Vec<&str> = Vec::new();
    while let Some(l) = lines.next() {
        if l.starts_with("define ") {
            let mut text = vec![l.to_string()];
            let mut cur = String::new();
            for b in lines.by_ref() {
                if b == "}" {
                    break;
                }
                let bt = b.trim_start();
                // join multi-line instructions
                if !cur.is_empty() {
                    cur.push(' ');
                    cur.push_str(bt);
                    if cur.contains('[') && bt.starts_with(']') {
                        text.push(std::mem::take(&mut cur));
                    }
                    continue;
                }
                if bt.starts_with("switch ") && b.trim_end().ends_with('[') {
                    cur = b.to_string();
                    continue;
                }
                if bt.starts_with("to label ") || bt.starts_with("cleanup") || bt.starts_with("catch ") || bt.starts_with("filter ") {
                    let last = text.last_mut().unwrap();
                    last.push(' ');
                    last.push_str(bt);
                    continue;
                }
                text.push(b.to_string());
            }
            let at = l.find('@').unwrap();
            let name = match lex(&l[at..at + l[at..].find('(').unwrap()]).into_iter().next() {
                Some(T::G(n)) => n,
                _ => panic!("fn name"),
            };
            let dbg = dbg_of(l);
            m.funcs.insert(name.clone(), Func { name, params: vec![], nregs: 0, blocks: vec![], dbg, text, parsed: false });
        } else if l.starts_with('%') {
            type_lines.push(l);
        } else if l.starts_with('@') {
            glob_lines.push(l);
        } else if l.starts_with('!') {
            if let Some(e) = l.find(" = ") {
                if let Ok(n) = l[1..e].parse::<u32>() {
                    if l[e..].contains("DILocation") || l[e..].contains("DISubprogram") || l[e..].contains("DIFile") || l[e..].contains("DILexicalBlock") {
                        m.meta.insert(n, l[e + 3..].to_string());
                    }
                }
            }
        }
    }
    for l in type_lines {
        let t = lex(l);
        if let T::L(n) = &t[0] {
            let n = n.clone();
            let types = m.types.clone();
            if matches!(&t[3], T::W(w) if w == "opaque") {
                continue;
            }
            let mut ps = Ps { t, p: 3, m: &types };
            let ty = ps.ty();
            m.types.insert(n, ty);
        }
    }
    for l in glob_lines {
        let t = lex(l);
        let name = match &t[0] {
            T::G(n) => n.clone(),
            _ => panic!(),
        };
        let mut ps = Ps { t, p: 2, m: &m.types };
        let mut external = false;
        let mut constant = false;
        let mut alias = false;
        loop {
            match ps.peek() {
                Some(T::W(w)) => {
                    let w = w.clone();
                    ps.p += 1;
                    match w.as_str() {
                        "external" | "extern_weak" => external = true,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        _ => {
                            if ps.is_p('(') {
                                ps.skip_parens();
                            }
                        }
                    }
                }
                Some(_) => ps.p += 1,
                None => panic!("global {l}"),
            }
        }
        let ty = {
            let t = ps.ty();
            if ps.is_p('(') {
                ps.skip_parens();
            }
            t
        };
        if alias {
            ps.exp(',');
            let t2 = ps.ty();
            let c = ps.konst(&t2);
            m.aliases.insert(name, c);
            continue;
        }
        let init = if external { None } else { Some(ps.konst(&ty)) };
        let mut align = ty.align();
        while ps.p < ps.t.len() {
            if ps.eat_w("align") {
                align = ps.num_u64();
            } else {
                ps.p += 1;
            }
        }
        m.globals.push(Global { name, ty, init, align, constant });
    }
    m
}
