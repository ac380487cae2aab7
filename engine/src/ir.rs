//! Parser for textual LLVM IR (the subset rustc emits) into a flat, executable form.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
pub type Reg = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(bool, Vec<TyId>),
    Other,
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub offs: Vec<Rc<Vec<u64>>>,
}
pub fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let mut offs = vec![];
        let (s, a) = match &t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let p = b.next_power_of_two();
                (up(b, p.min(16)), p.min(16))
            }
            Ty::Ptr | Ty::Double => (8, 8),
            Ty::Float => (4, 4),
            Ty::Arr(n, e) => (n * self.size[*e as usize], self.align[*e as usize]),
            Ty::Vec(n, e) => {
                let b = match self.v[*e as usize] {
                    Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8,
                    _ => *n as u64 * self.size[*e as usize],
                };
                (b, b.next_power_of_two())
            }
            Ty::Struct(packed, es) => {
                let mut o = 0;
                let mut al = 1;
                for e in es {
                    let a = if *packed { 1 } else { self.align[*e as usize] };
                    al = al.max(a);
                    o = up(o, a);
                    offs.push(o);
                    o += self.size[*e as usize];
                }
                (up(o, al), al)
            }
        };
        let i = self.v.len() as TyId;
        self.v.push(t.clone());
        self.size.push(s);
        self.align.push(a);
        self.offs.push(Rc::new(offs));
        self.map.insert(t, i);
        i
    }
    pub fn int(&mut self, w: u32) -> TyId {
        self.get(Ty::Int(w))
    }
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(String),
    Str(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
    Gep(Box<Const>, i64),
    Cast(Box<Const>),
    Bin(String, Box<Const>, Box<Const>),
    Fp(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd {
    R(Reg),
    K(u64),
    X(u32), // index into the program's constant table
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cop {
    ZExt,
    SExt,
    Trunc,
    Bit,
    Nop,
    Fp,
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32, // block index, later pc
    pub copies: Vec<(Reg, Opd)>,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32), // index in Program.funcs
    Indirect(Opd),
}

#[derive(Debug)]
pub enum I {
    Bin(Bop, u32, Reg, Opd, Opd),
    VBin(Bop, u32, Reg, Opd, Opd),
    Cmp(Pred, u32, Reg, Opd, Opd),
    VCmp(Pred, u32, Reg, Opd, Opd),
    Select(Reg, Opd, Opd, Opd, u32),
    Cast(Cop, TyId, TyId, Reg, Opd),
    Load(TyId, Reg, Opd),
    Store(TyId, Opd, Opd),
    Gep(Reg, Opd, i64, Box<[(Opd, i64, u32)]>),
    Alloca(Reg, u64),
    AllocaDyn(Reg, u64, Opd),
    Call(Option<Reg>, Callee, Box<[Opd]>),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(Opd, u32, Box<[(u64, u32)]>, Box<[Edge]>), // cases -> edge index; edge 0 = default
    Ret(Option<Opd>),
    Unreachable,
    Extract(Reg, Opd, Box<[u32]>),
    Insert(Reg, Opd, Opd, Box<[u32]>),
    Rmw(u8, u32, Reg, Opd, Opd), // op: 0 xchg 1 add 2 sub 3 and 4 or 5 xor 6 umax 7 umin
    CmpXchg(u32, Reg, Opd, Opd, Opd),
    Freeze(Reg, Opd),
    ExtElem(Reg, Opd, Opd),
    InsElem(Reg, Opd, Opd, Opd, u32),
    Shuffle(Reg, Opd, Opd, Box<[i32]>, u32),
    Fp(FpOp, u32, u32, Reg, Opd, Opd), // operand width, result width; decided on concrete values
    Nop,
    Unsup(String),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FpOp {
    Neg,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    Ext,
    Trunc,
    Cmp(u8), // bits: 1 equal, 2 greater, 4 less, 8 unordered
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub code: Vec<I>,
    pub nregs: u32,
    pub nparams: u32,
    pub param_tys: Vec<TyId>,
    pub byval: Vec<u64>,
    pub derefs: Vec<u64>, // bytes known to be readable behind a parameter
    pub sret: u64,
    pub memo: bool,
    pub ret: TyId,
    pub frame_size: u64,
    pub allocas: Vec<(u64, u64)>,
    pub defined: bool,
    pub hook: u32, // index into the model table, 0 = none
}

pub struct Global {
    pub name: String,
    pub module: usize,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub external: bool,
    pub align: u64,
    pub tls: bool,
}

#[derive(Default)]
pub struct Program {
    pub types: Types,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fmap: Vec<HashMap<String, u32>>,
    pub gmap: Vec<HashMap<String, u32>>,
    pub aliases: Vec<HashMap<String, Const>>,
    pub consts: Vec<(TyId, Const, usize)>, // ty, const, module
    named: HashMap<String, TyId>,
    last_deref: u64,
    last_sret: u64,
    cur_allocas: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),  // word
    L(String),  // %local
    G(String),  // @global
    N(String),  // number
    S(Vec<u8>), // string
    M,          // metadata / attribute group ref
    P(char),
    Dots,
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => 255,
    }
}
fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 && hexv(s[i + 1]) < 16 && hexv(s[i + 2]) < 16 {
            o.push(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = String::from_utf8_lossy(&unesc(&b[st..i])).to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                o.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                o.push(T::S(unesc(&b[st..i])));
                i += 1;
            }
            b'!' | b'#' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && (idc(b[i])) {
                        i += 1;
                    }
                }
                o.push(T::M);
            }
            b'.' if b[i..].starts_with(b"...") => {
                o.push(T::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                    i += 1;
                }
                o.push(T::N(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                o.push(T::W(s[st..i].to_string()));
            }
            _ => {
                o.push(T::P(c as char));
                i += 1;
            }
        }
    }
    o
}

struct P<'a> {
    t: &'a [T],
    i: usize,
    m: usize,
    line: &'a str,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a T {
        self.i += 1;
        match self.t.get(self.i - 1) {
            Some(t) => t,
            None => panic!("unexpected end of line: {}", self.line),
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected '{}' at token {:?} in: {}", c, self.peek(), self.line)
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            T::W(s) => s.clone(),
            t => panic!("word expected, got {:?} in {}", t, self.line),
        }
    }
    fn local(&mut self) -> String {
        match self.next() {
            T::L(s) => s.clone(),
            t => panic!("local expected, got {:?} in {}", t, self.line),
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            T::N(s) => s.parse().unwrap_or_else(|_| panic!("num {} in {}", s, self.line)),
            t => panic!("num expected, got {:?} in {}", t, self.line),
        }
    }
    fn skip_parens(&mut self) {
        self.want('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
    }
}

fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "x86_fp80" | "opaque")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Program {
    fn ty(&mut self, p: &mut P) -> TyId {
        let t = match p.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if p.eat_w("addrspace") {
                        p.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                w if is_ty_word(w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                "label" | "metadata" | "token" | "opaque" | "half" | "x86_fp80" => Ty::Other,
                x => panic!("type {} in {}", x, p.line),
            },
            T::L(n) => return *self.named.get(n).unwrap_or_else(|| panic!("named type {} in {}", n, p.line)),
            T::P('[') => {
                let n = p.num() as u64;
                assert!(p.eat_w("x"));
                let e = self.ty(p);
                p.want(']');
                Ty::Arr(n, e)
            }
            T::P('<') => {
                if p.is_p('{') {
                    p.next();
                    let es = self.ty_list(p, '}');
                    p.want('>');
                    Ty::Struct(true, es)
                } else {
                    let n = p.num() as u32;
                    assert!(p.eat_w("x"));
                    let e = self.ty(p);
                    p.want('>');
                    Ty::Vec(n, e)
                }
            }
            T::P('{') => {
                let es = self.ty_list(p, '}');
                Ty::Struct(false, es)
            }
            t => panic!("type {:?} in {}", t, p.line),
        };
        self.types.get(t)
    }
    fn ty_list(&mut self, p: &mut P, close: char) -> Vec<TyId> {
        let mut v = vec![];
        if p.eat_p(close) {
            return v;
        }
        loop {
            v.push(self.ty(p));
            if p.eat_p(close) {
                return v;
            }
            p.want(',');
        }
    }

    fn gep_const(&mut self, bt: TyId, idx: &[i64]) -> i64 {
        let mut off = idx[0] * self.types.size[bt as usize] as i64;
        let mut t = bt;
        for &i in &idx[1..] {
            match self.types.v[t as usize].clone() {
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    off += i * self.types.size[e as usize] as i64;
                    t = e;
                }
                Ty::Struct(_, es) => {
                    off += self.types.offs[t as usize][i as usize] as i64;
                    t = es[i as usize];
                }
                _ => panic!("gep"),
            }
        }
        off
    }

    fn constant(&mut self, p: &mut P, ty: TyId) -> Const {
        let t = p.next().clone();
        match t {
            T::N(s) => {
                let ts = self.types.v[ty as usize].clone();
                match ts {
                    Ty::Double | Ty::Float => {
                        let bits = if let Some(h) = s.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap()
                        } else if s.ends_with("nan") {
                            if p.is_p('(') {
                                p.skip_parens();
                            }
                            f64::NAN.to_bits()
                        } else {
                            s.parse::<f64>().unwrap().to_bits()
                        };
                        let bits = if matches!(ts, Ty::Float) { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits };
                        Const::Fp(bits)
                    }
                    Ty::Int(w) => {
                        let v: u128 = if s.starts_with('-') {
                            s.parse::<i128>().unwrap() as u128
                        } else {
                            s.parse::<u128>().unwrap()
                        };
                        Const::Int(v & crate::expr::mask(w))
                    }
                    _ => panic!("num const of odd type in {}", p.line),
                }
            }
            T::W(w) => match w.as_str() {
                "null" => Const::Null,
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "c" => match p.next() {
                    T::S(s) => Const::Str(s.clone()),
                    _ => panic!("c-string"),
                },
                "splat" => {
                    p.want('(');
                    let et = self.ty(p);
                    let c = self.constant(p, et);
                    p.want(')');
                    let n = match self.types.v[ty as usize] {
                        Ty::Vec(n, _) => n as usize,
                        Ty::Arr(n, _) => n as usize,
                        _ => panic!("splat"),
                    };
                    Const::Agg(vec![(et, c); n])
                }
                "getelementptr" => {
                    while matches!(p.peek(), Some(T::W(w)) if !is_ty_word(w)) {
                        p.next();
                        if p.is_p('(') && !matches!(p.t.get(p.i + 1), Some(T::W(w)) if is_ty_word(w)) && false {
                            p.skip_parens();
                        }
                    }
                    // inrange(-16, 32) form
                    if p.is_p('(') {
                        if let Some(T::N(_)) = p.t.get(p.i + 1) {
                            p.skip_parens();
                        }
                    }
                    p.want('(');
                    let bt = self.ty(p);
                    p.want(',');
                    let pt = self.ty(p);
                    let base = self.constant(p, pt);
                    let mut idx = vec![];
                    while p.eat_p(',') {
                        let it = self.ty(p);
                        match self.constant(p, it) {
                            Const::Int(v) => {
                                let w = match self.types.v[it as usize] {
                                    Ty::Int(w) => w,
                                    _ => 64,
                                };
                                idx.push(crate::expr::sext(v, w) as i64)
                            }
                            Const::Zero => idx.push(0),
                            c => panic!("gep idx {:?} in {}", c, p.line),
                        }
                    }
                    p.want(')');
                    let off = self.gep_const(bt, &idx);
                    Const::Gep(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    p.want('(');
                    let ft = self.ty(p);
                    let c = self.constant(p, ft);
                    assert!(p.eat_w("to"));
                    self.ty(p);
                    p.want(')');
                    Const::Cast(Box::new(c))
                }
                "sub" | "add" | "xor" => {
                    while matches!(p.peek(), Some(T::W(_))) {
                        p.next();
                    }
                    p.want('(');
                    let t1 = self.ty(p);
                    let a = self.constant(p, t1);
                    p.want(',');
                    let t2 = self.ty(p);
                    let b = self.constant(p, t2);
                    p.want(')');
                    Const::Bin(w, Box::new(a), Box::new(b))
                }
                x => panic!("const word {} in {}", x, p.line),
            },
            T::G(n) => Const::Global(n),
            T::P('{') | T::P('[') => {
                let close = if t == T::P('{') { '}' } else { ']' };
                let mut v = vec![];
                if p.eat_p(close) {
                    return Const::Agg(v);
                }
                loop {
                    let et = self.ty(p);
                    let c = self.constant(p, et);
                    v.push((et, c));
                    if p.eat_p(close) {
                        return Const::Agg(v);
                    }
                    p.want(',');
                }
            }
            T::P('<') => {
                let st = p.eat_p('{');
                let mut v = vec![];
                loop {
                    if st && p.eat_p('}') {
                        p.want('>');
                        return Const::Agg(v);
                    }
                    let et = self.ty(p);
                    let c = self.constant(p, et);
                    v.push((et, c));
                    if st {
                        if p.eat_p('}') {
                            p.want('>');
                            return Const::Agg(v);
                        }
                    } else if p.eat_p('>') {
                        return Const::Agg(v);
                    }
                    p.want(',');
                }
            }
            t => panic!("const {:?} in {}", t, p.line),
        }
    }

    fn skip_attrs(&mut self, p: &mut P) -> Option<TyId> {
        // parameter / return attributes; returns the byval/sret pointee when present
        let mut r = None;
        loop {
            match p.peek() {
                Some(T::W(w)) => {
                    if is_ty_word(w) || matches!(w.as_str(), "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "c" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "asm") {
                        return r;
                    }
                    let w = w.clone();
                    p.next();
                    if w == "align" {
                        if p.is_p('(') {
                            p.skip_parens();
                        } else {
                            p.num();
                        }
                    } else if p.is_p('(') {
                        if w == "byval" {
                            let save = p.i;
                            p.next();
                            r = Some(self.ty(p));
                            p.i = save;
                        }
                        if w == "dereferenceable" {
                            let save = p.i;
                            p.next();
                            self.last_deref = p.num() as u64;
                            p.i = save;
                        }
                        if w == "sret" {
                            let save = p.i;
                            p.next();
                            let t = self.ty(p);
                            self.last_sret = self.types.size[t as usize];
                            p.i = save;
                        }
                        p.skip_parens();
                    }
                }
                Some(T::M) => {
                    p.next();
                }
                Some(T::S(_)) => {
                    p.next();
                    if p.eat_p('=') {
                        p.next();
                    }
                }
                _ => return r,
            }
        }
    }

    pub fn load(&mut self, path: &str) -> usize {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let m = self.fmap.len();
        self.fmap.push(HashMap::new());
        self.gmap.push(HashMap::new());
        self.aliases.push(HashMap::new());
        self.named.clear();
        let lines: Vec<&str> = text.lines().collect();
        // named types first
        for l in &lines {
            if l.starts_with('%') {
                let t = lex(l);
                let mut p = P { t: &t, i: 0, m, line: l };
                let n = p.local();
                p.want('=');
                assert_eq!(p.word(), "type");
                let ty = self.ty(&mut p);
                self.named.insert(n, ty);
            }
        }
        // declare functions and globals
        for l in &lines {
            if l.starts_with("define ") || l.starts_with("declare ") {
                self.proto(l, m);
            } else if l.starts_with('@') {
                self.global(l, m);
            }
        }
        let mut i = 0;
        while i < lines.len() {
            if lines[i].starts_with("define ") {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                self.function(&lines[st..i], m);
            }
            i += 1;
        }
        m
    }

    fn global(&mut self, l: &str, m: usize) {
        let t = lex(l);
        let mut p = P { t: &t, i: 0, m, line: l };
        let name = match p.next() {
            T::G(n) => n.clone(),
            _ => panic!("global name"),
        };
        if name.starts_with("llvm.") {
            return;
        }
        p.want('=');
        let mut external = false;
        let mut tls = false;
        loop {
            if p.is_w("global") || p.is_w("constant") {
                break;
            }
            if p.is_w("alias") {
                p.next();
                self.ty(&mut p);
                p.want(',');
                let t = self.ty(&mut p);
                let c = self.constant(&mut p, t);
                self.aliases[m].insert(name, c);
                return;
            }
            match p.next() {
                T::W(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if w == "thread_local" {
                        tls = true;
                    }
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
                _ => {}
            }
        }
        let constant = p.word() == "constant";
        let ty = self.ty(&mut p);
        let init = if external { None } else { Some(self.constant(&mut p, ty)) };
        let mut align = self.types.align[ty as usize];
        while p.i < t.len() {
            if p.eat_w("align") {
                align = p.num() as u64;
            } else {
                p.i += 1;
            }
        }
        let id = self.globals.len() as u32;
        self.gmap[m].insert(name.clone(), id);
        self.globals.push(Global { name, module: m, ty, init, constant, external, align, tls });
    }

    fn proto(&mut self, l: &str, m: usize) {
        let t = lex(l);
        let mut p = P { t: &t, i: 0, m, line: l };
        let defined = p.word() == "define";
        self.skip_attrs(&mut p);
        let ret = self.ty(&mut p);
        let name = match p.next() {
            T::G(n) => n.clone(),
            t => panic!("fn name {:?} in {}", t, l),
        };
        p.want('(');
        let mut tys = vec![];
        let mut byval = vec![];
        let mut derefs = vec![];
        self.last_sret = 0;
        if !p.eat_p(')') {
            loop {
                if let Some(T::Dots) = p.peek() {
                    p.next();
                } else {
                    let ty = self.ty(&mut p);
                    tys.push(ty);
                    self.last_deref = 0;
                    let bv = self.skip_attrs(&mut p);
                    derefs.push(self.last_deref);
                    byval.push(bv.map(|t| self.types.size[t as usize]).unwrap_or(0));
                    if let Some(T::L(_)) = p.peek() {
                        p.next();
                    }
                }
                if p.eat_p(')') {
                    break;
                }
                p.want(',');
            }
        }
        let id = self.funcs.len() as u32;
        self.fmap[m].insert(name.clone(), id);
        self.funcs.push(Func {
            name,
            module: m,
            code: vec![],
            nregs: 0,
            nparams: tys.len() as u32,
            param_tys: tys,
            byval,
            derefs,
            sret: self.last_sret,
            memo: false,
            ret,
            frame_size: 0,
            allocas: vec![],
            defined,
            hook: 0,
        });
    }

    fn function(&mut self, lines: &[&str], m: usize) {
        let l = lines[0];
        let t = lex(l);
        // parameter names
        let mut regs: HashMap<String, Reg> = HashMap::new();
        let mut p = P { t: &t, i: 0, m, line: l };
        p.word();
        self.skip_attrs(&mut p);
        self.ty(&mut p);
        let name = match p.next() {
            T::G(n) => n.clone(),
            _ => panic!(),
        };
        let fid = self.fmap[m][&name];
        p.want('(');
        let mut n = 0;
        if !p.eat_p(')') {
            loop {
                if let Some(T::Dots) = p.peek() {
                    p.next();
                } else {
                    self.ty(&mut p);
                    self.skip_attrs(&mut p);
                    let nm = match p.peek() {
                        Some(T::L(s)) => {
                            p.next();
                            s.clone()
                        }
                        _ => n.to_string(),
                    };
                    regs.insert(nm, n);
                    n += 1;
                }
                if p.eat_p(')') {
                    break;
                }
                p.want(',');
            }
        }
        let nparams = n;
        // join continuation lines of switch
        let mut stmts: Vec<String> = vec![];
        let mut blocks: Vec<(String, Vec<usize>)> = vec![];
        let mut i = 1;
        let mut unnamed_first = nparams.to_string();
        {
            // count of unnamed params decides the number of the entry block
            let c = regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
            unnamed_first = if c == 0 { "0".to_string() } else { c.to_string() };
        }
        while i < lines.len() {
            let l = lines[i];
            if l.is_empty() {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    l[1..1 + e].to_string()
                } else {
                    l.split(':').next().unwrap().to_string()
                };
                blocks.push((lab, vec![]));
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push((unnamed_first.clone(), vec![]));
            }
            let mut s = l.to_string();
            if l.trim_start().starts_with("switch") && !l.contains(']') {
                loop {
                    i += 1;
                    s.push(' ');
                    s.push_str(lines[i]);
                    if lines[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            if s.trim_start().starts_with("#dbg") {
                i += 1;
                continue;
            }
            blocks.last_mut().unwrap().1.push(stmts.len());
            stmts.push(s);
            i += 1;
        }
        let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let toks: Vec<Vec<T>> = stmts.iter().map(|s| lex(s)).collect();
        // assign registers
        for t in &toks {
            if let (Some(T::L(n)), Some(T::P('='))) = (t.get(0), t.get(1)) {
                let k = regs.len() as u32;
                regs.insert(n.clone(), k);
            }
        }
        let nregs = regs.len() as u32;
        // phis: block -> Vec<(dst, ty, Vec<(opd, pred)>)>
        let mut phis: Vec<Vec<(Reg, HashMap<u32, Opd>)>> = vec![];
        for (_, ss) in &blocks {
            let mut v = vec![];
            for &s in ss {
                let t = &toks[s];
                if t.len() > 2 && t[2] == T::W("phi".into()) {
                    let mut p = P { t, i: 0, m, line: &stmts[s] };
                    let d = regs[&p.local()];
                    p.want('=');
                    p.next();
                    while matches!(p.peek(), Some(T::W(w)) if !is_ty_word(w)) {
                        p.next();
                    }
                    let ty = self.ty(&mut p);
                    let mut mp = HashMap::new();
                    loop {
                        p.want('[');
                        let o = self.operand(&mut p, ty, &regs);
                        p.want(',');
                        let b = bidx[&p.local()];
                        p.want(']');
                        mp.insert(b, o);
                        if !p.eat_p(',') {
                            break;
                        }
                        if let Some(T::M) = p.peek() {
                            break;
                        }
                    }
                    v.push((d, mp));
                } else {
                    break;
                }
            }
            phis.push(v);
        }
        let mut code: Vec<I> = vec![];
        let mut starts = vec![0u32; blocks.len()];
        let mut frame = 0u64;
        for (bi, (_, ss)) in blocks.iter().enumerate() {
            starts[bi] = code.len() as u32;
            for &s in ss {
                let mut p = P { t: &toks[s], i: 0, m, line: &stmts[s] };
                let ins = self.instr(&mut p, &regs, &bidx, &phis, bi as u32, &mut frame);
                match ins {
                    I::Nop => {}
                    x => code.push(x),
                }
            }
        }
        // block index -> pc
        let fix = |e: &mut Edge| e.to = starts[e.to as usize];
        for c in code.iter_mut() {
            match c {
                I::Br(e) => fix(e),
                I::CondBr(_, a, b) => {
                    fix(a);
                    fix(b)
                }
                I::Switch(_, _, _, es) => es.iter_mut().for_each(fix),
                _ => {}
            }
        }
        let allocas = std::mem::take(&mut self.cur_allocas);
        let f = &mut self.funcs[fid as usize];
        f.code = code;
        f.nregs = nregs;
        f.frame_size = frame;
        f.allocas = allocas;
    }

    fn kopd(&mut self, c: Const, ty: TyId, m: usize) -> Opd {
        match (&c, &self.types.v[ty as usize]) {
            (Const::Int(v), Ty::Int(w)) if *w <= 64 => Opd::K(*v as u64),
            (Const::Null, _) => Opd::K(0),
            (Const::Undef, Ty::Int(w)) if *w <= 64 => Opd::K(0),
            (Const::Undef, Ty::Ptr) => Opd::K(0),
            (Const::Zero, Ty::Int(_)) | (Const::Zero, Ty::Ptr) => Opd::K(0),
            _ => {
                self.consts.push((ty, c, m));
                Opd::X(self.consts.len() as u32 - 1)
            }
        }
    }
    fn operand(&mut self, p: &mut P, ty: TyId, regs: &HashMap<String, Reg>) -> Opd {
        if let Some(T::L(n)) = p.peek() {
            p.next();
            return Opd::R(*regs.get(n).unwrap_or_else(|| panic!("reg {} in {}", n, p.line)));
        }
        let c = self.constant(p, ty);
        let m = p.m;
        self.kopd(c, ty, m)
    }
    fn tyop(&mut self, p: &mut P, regs: &HashMap<String, Reg>) -> (TyId, Opd) {
        let t = self.ty(p);
        self.skip_attrs(p);
        let o = self.operand(p, t, regs);
        (t, o)
    }
    fn iw(&self, t: TyId) -> u32 {
        match self.types.v[t as usize] {
            Ty::Int(w) => w,
            Ty::Ptr => 64,
            Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(_, e) => self.iw(e),
            _ => 0,
        }
    }
    fn is_vec(&self, t: TyId) -> bool {
        matches!(self.types.v[t as usize], Ty::Vec(..))
    }

    fn instr(&mut self, p: &mut P, regs: &HashMap<String, Reg>, bidx: &HashMap<String, u32>, phis: &[Vec<(Reg, HashMap<u32, Opd>)>], cur: u32, frame: &mut u64) -> I {
        let mut d: Option<Reg> = None;
        if let (Some(T::L(n)), Some(T::P('='))) = (p.t.get(0), p.t.get(1)) {
            d = Some(regs[n]);
            p.i = 2;
        }
        let op = p.word();
        let edge = |b: u32| Edge { to: b, copies: phis[b as usize].iter().map(|(d, mp)| (*d, mp[&cur])).collect() };
        let flags = |p: &mut P| {
            while matches!(p.peek(), Some(T::W(w)) if !is_ty_word(w)) {
                p.next();
                if p.is_p('(') {
                    p.skip_parens();
                }
            }
        };
        match op.as_str() {
            "phi" => I::Nop,
            "fence" => I::Nop,
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                let b = match op.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "urem" => Bop::URem,
                    "sdiv" => Bop::SDiv,
                    "srem" => Bop::SRem,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    "ashr" => Bop::AShr,
                    "fadd" => Bop::FAdd,
                    "fsub" => Bop::FSub,
                    "fmul" => Bop::FMul,
                    _ => Bop::FDiv,
                };
                flags(p);
                let t = self.ty(p);
                let a = self.operand(p, t, regs);
                p.want(',');
                let c = self.operand(p, t, regs);
                let w = self.iw(t);
                if self.is_vec(t) {
                    I::VBin(b, w, d.unwrap(), a, c)
                } else {
                    I::Bin(b, w, d.unwrap(), a, c)
                }
            }
            "icmp" => {
                while p.is_w("samesign") {
                    p.next();
                }
                let pr = match p.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                };
                let t = self.ty(p);
                let a = self.operand(p, t, regs);
                p.want(',');
                let c = self.operand(p, t, regs);
                let w = self.iw(t);
                if self.is_vec(t) {
                    I::VCmp(pr, w, d.unwrap(), a, c)
                } else {
                    I::Cmp(pr, w, d.unwrap(), a, c)
                }
            }
            "fneg" => {
                flags(p);
                let (t, a) = self.tyop(p, regs);
                if self.is_vec(t) {
                    return I::Unsup(op);
                }
                let w = self.iw(t);
                I::Fp(FpOp::Neg, w, w, d.unwrap(), a, a)
            }
            "fcmp" => {
                while ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"].iter().any(|w| p.is_w(w)) {
                    p.next();
                }
                let k = p.word();
                let m = match k.as_str() {
                    "false" => 0,
                    "true" => 15,
                    "ord" => 7,
                    "uno" => 8,
                    k => {
                        (match &k[1..] {
                            "eq" => 1,
                            "gt" => 2,
                            "ge" => 3,
                            "lt" => 4,
                            "le" => 5,
                            _ => 6,
                        }) | if k.starts_with('u') { 8 } else { 0 }
                    }
                };
                let t = self.ty(p);
                let a = self.operand(p, t, regs);
                p.want(',');
                let c = self.operand(p, t, regs);
                if self.is_vec(t) {
                    return I::Unsup(op);
                }
                I::Fp(FpOp::Cmp(m), self.iw(t), 1, d.unwrap(), a, c)
            }
            "select" => {
                flags(p);
                let (_, c) = self.tyop(p, regs);
                p.want(',');
                let (ta, a) = self.tyop(p, regs);
                p.want(',');
                let (_, b) = self.tyop(p, regs);
                let w = self.iw(ta);
                I::Select(d.unwrap(), c, a, b, w)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                flags(p);
                let (ft, a) = self.tyop(p, regs);
                assert!(p.eat_w("to"), "{}", p.line);
                let tt = self.ty(p);
                let k = match op.as_str() {
                    "zext" => Cop::ZExt,
                    "sext" => Cop::SExt,
                    "trunc" => Cop::Trunc,
                    "bitcast" => Cop::Bit,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (fw, tw) = (self.iw(ft), self.iw(tt));
                        if fw == tw {
                            Cop::Nop
                        } else if fw > tw {
                            Cop::Trunc
                        } else {
                            Cop::ZExt
                        }
                    }
                    _ => {
                        if self.is_vec(ft) {
                            return I::Unsup(op);
                        }
                        let k = match op.as_str() {
                            "uitofp" => FpOp::UiToFp,
                            "sitofp" => FpOp::SiToFp,
                            "fptoui" => FpOp::FpToUi,
                            "fptosi" => FpOp::FpToSi,
                            "fpext" => FpOp::Ext,
                            _ => FpOp::Trunc,
                        };
                        return I::Fp(k, self.iw(ft), self.iw(tt), d.unwrap(), a, a);
                    }
                };
                I::Cast(k, ft, tt, d.unwrap(), a)
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = self.ty(p);
                p.want(',');
                let (_, a) = self.tyop(p, regs);
                I::Load(t, d.unwrap(), a)
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (t, v) = self.tyop(p, regs);
                p.want(',');
                let (_, a) = self.tyop(p, regs);
                I::Store(t, v, a)
            }
            "getelementptr" => {
                flags(p);
                let bt = self.ty(p);
                p.want(',');
                let (_, base) = self.tyop(p, regs);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut t = bt;
                let mut first = true;
                while p.eat_p(',') {
                    if let Some(T::M) = p.peek() {
                        break;
                    }
                    let (it, o) = self.tyop(p, regs);
                    let w = self.iw(it);
                    let sc;
                    if first {
                        sc = self.types.size[bt as usize] as i64;
                        first = false;
                    } else {
                        match self.types.v[t as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                sc = self.types.size[e as usize] as i64;
                                t = e;
                            }
                            Ty::Struct(_, es) => {
                                let k = match o {
                                    Opd::K(k) => k as usize,
                                    _ => panic!(),
                                };
                                off += self.types.offs[t as usize][k] as i64;
                                t = es[k];
                                continue;
                            }
                            _ => panic!("gep type in {}", p.line),
                        }
                    }
                    match o {
                        Opd::K(k) => off = off.wrapping_add((crate::expr::sext(k as u128, w) as i64).wrapping_mul(sc)),
                        o => terms.push((o, sc, w)),
                    }
                }
                I::Gep(d.unwrap(), base, off, terms.into_boxed_slice())
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = self.ty(p);
                let mut size = self.types.size[t as usize];
                let mut al = self.types.align[t as usize];
                let mut dynn = None;
                while p.eat_p(',') {
                    if p.eat_w("align") {
                        al = p.num() as u64;
                    } else if let Some(T::M) = p.peek() {
                        break;
                    } else {
                        let (_, n) = self.tyop(p, regs);
                        match n {
                            Opd::K(k) => size *= k,
                            o => dynn = Some(o),
                        }
                    }
                }
                if let Some(o) = dynn {
                    return I::AllocaDyn(d.unwrap(), size, o);
                }
                *frame = up(*frame, al.max(8));
                let o = *frame;
                *frame += size.max(1);
                self.cur_allocas.push((o, size));
                I::Alloca(d.unwrap(), o)
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    p.next();
                }
                // fast-math flags, cconv, ret attrs
                self.skip_attrs(p);
                let _rt = self.ty(p);
                // function type for varargs
                if p.is_p('(') {
                    p.skip_parens();
                }
                if p.is_w("asm") {
                    // inline asm: black_box style (empty) is the identity on memory
                    return match d {
                        None => I::Nop,
                        Some(_) => I::Unsup(format!("asm: {}", p.line.trim())),
                    };
                }
                let callee = match p.next() {
                    T::G(n) => {
                        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.x86.sse2.pause") {
                            return I::Nop;
                        }
                        let mut n = n.clone();
                        while let Some(a) = self.aliases[p.m].get(&n) {
                            match a {
                                Const::Global(g) => n = g.clone(),
                                _ => panic!("alias"),
                            }
                        }
                        Callee::Direct(*self.fmap[p.m].get(&n).unwrap_or_else(|| panic!("callee {} in {}", n, p.line)))
                    }
                    T::L(n) => Callee::Indirect(Opd::R(regs[n])),
                    t => panic!("callee {:?} in {}", t, p.line),
                };
                p.want('(');
                let mut args = vec![];
                if !p.eat_p(')') {
                    loop {
                        let t = self.ty(p);
                        self.skip_attrs(p);
                        if self.types.v[t as usize] == Ty::Other {
                            // metadata argument
                            while !p.is_p(',') && !p.is_p(')') {
                                p.next();
                            }
                            args.push(Opd::K(0));
                        } else {
                            args.push(self.operand(p, t, regs));
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.want(',');
                    }
                }
                I::Call(d, callee, args.into_boxed_slice())
            }
            "br" => {
                if p.eat_w("label") {
                    let b = bidx[&p.local()];
                    return I::Br(edge(b));
                }
                let (_, c) = self.tyop(p, regs);
                p.want(',');
                assert!(p.eat_w("label"));
                let a = bidx[&p.local()];
                p.want(',');
                assert!(p.eat_w("label"));
                let b = bidx[&p.local()];
                I::CondBr(c, edge(a), edge(b))
            }
            "switch" => {
                let (t, v) = self.tyop(p, regs);
                let w = self.iw(t);
                p.want(',');
                assert!(p.eat_w("label"));
                let def = bidx[&p.local()];
                p.want('[');
                let mut edges = vec![edge(def)];
                let mut cases = vec![];
                let mut where_: HashMap<u32, u32> = HashMap::new();
                where_.insert(def, 0);
                while !p.eat_p(']') {
                    let ct = self.ty(p);
                    let k = match self.constant(p, ct) {
                        Const::Int(k) => k as u64,
                        _ => panic!(),
                    };
                    p.want(',');
                    assert!(p.eat_w("label"));
                    let b = bidx[&p.local()];
                    let ei = *where_.entry(b).or_insert_with(|| {
                        edges.push(edge(b));
                        edges.len() as u32 - 1
                    });
                    cases.push((k, ei));
                }
                cases.sort_unstable();
                I::Switch(v, w, cases.into_boxed_slice(), edges.into_boxed_slice())
            }
            "ret" => {
                if p.is_w("void") {
                    return I::Ret(None);
                }
                let (_, v) = self.tyop(p, regs);
                I::Ret(Some(v))
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tyop(p, regs);
                let mut idx = vec![];
                while p.eat_p(',') {
                    if let Some(T::M) = p.peek() {
                        break;
                    }
                    idx.push(p.num() as u32);
                }
                I::Extract(d.unwrap(), a, idx.into_boxed_slice())
            }
            "insertvalue" => {
                let (_, a) = self.tyop(p, regs);
                p.want(',');
                let (_, v) = self.tyop(p, regs);
                let mut idx = vec![];
                while p.eat_p(',') {
                    if let Some(T::M) = p.peek() {
                        break;
                    }
                    idx.push(p.num() as u32);
                }
                I::Insert(d.unwrap(), a, v, idx.into_boxed_slice())
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let k = match p.word().as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    x => panic!("atomicrmw {}", x),
                };
                let (_, ptr) = self.tyop(p, regs);
                p.want(',');
                let (t, v) = self.tyop(p, regs);
                let w = self.iw(t);
                I::Rmw(k, w, d.unwrap_or(u32::MAX), ptr, v)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, ptr) = self.tyop(p, regs);
                p.want(',');
                let (t, a) = self.tyop(p, regs);
                p.want(',');
                let (_, b) = self.tyop(p, regs);
                I::CmpXchg(self.iw(t), d.unwrap_or(u32::MAX), ptr, a, b)
            }
            "freeze" => {
                let (_, a) = self.tyop(p, regs);
                I::Freeze(d.unwrap(), a)
            }
            "extractelement" => {
                let (_, a) = self.tyop(p, regs);
                p.want(',');
                let (_, i) = self.tyop(p, regs);
                I::ExtElem(d.unwrap(), a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyop(p, regs);
                p.want(',');
                let (_, v) = self.tyop(p, regs);
                p.want(',');
                let (_, i) = self.tyop(p, regs);
                let n = match self.types.v[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                I::InsElem(d.unwrap(), a, v, i, n)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(p, regs);
                p.want(',');
                let (_, b) = self.tyop(p, regs);
                p.want(',');
                let mt = self.ty(p);
                let mc = self.constant(p, mt);
                let mn = match self.types.v[mt as usize] {
                    Ty::Vec(n, _) => n as usize,
                    _ => panic!(),
                };
                let n = match self.types.v[t as usize] {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                let mask: Vec<i32> = match mc {
                    Const::Zero => vec![0; mn],
                    Const::Undef => vec![-1; mn],
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(k) => *k as i32,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("mask"),
                };
                I::Shuffle(d.unwrap(), a, b, mask.into_boxed_slice(), n)
            }
            x => I::Unsup(x.to_string()),
        }
    }
}
