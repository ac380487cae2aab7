//! The symbolic executor: states, memory, instruction semantics, forking.
use crate::expr::*;
use crate::ir::*;
use crate::model::{self, Env, HR};
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    W(Box<u128>),
    A(Rc<Vec<V>>),
}

pub type Model = Rc<Vec<u8>>;

#[derive(Debug)]
pub enum Stop {
    /// both sides feasible; models for (true, false)
    Fork(E, Model, Model),
    /// path ends without a verdict about the property (assumption failed, ...)
    Dead(&'static str),
    /// the program did something undefined / unsupported
    Bug(String),
    Unsup(String),
    Done,
}
pub type R<T> = Result<T, Stop>;

pub const FN_OBJ: u64 = 1;
pub const STACK0: u64 = 0x100;
pub const STACK_MAX: u64 = 0x4000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<E>>>,
    pub ro: bool,
    pub heap: bool,
}
#[derive(Clone)]
struct Page {
    o: Vec<Option<Rc<Obj>>>,
    live: u32,
}
const PG: usize = 128;

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Option<Rc<Page>>>,
    pub next: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { pages: vec![], next: STACK_MAX }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Obj> {
        match self.pages.get(id as usize / PG) {
            Some(Some(p)) => p.o[id as usize % PG].as_deref(),
            _ => None,
        }
    }
    pub fn get_rc(&self, id: u64) -> Option<&Rc<Obj>> {
        match self.pages.get(id as usize / PG) {
            Some(Some(p)) => p.o[id as usize % PG].as_ref(),
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        match self.pages.get_mut(id as usize / PG) {
            Some(Some(p)) => Rc::make_mut(p).o[id as usize % PG].as_mut().map(Rc::make_mut),
            _ => None,
        }
    }
    pub fn put(&mut self, id: u64, o: Rc<Obj>) {
        let pi = id as usize / PG;
        if self.pages.len() <= pi {
            self.pages.resize(pi + 1, None);
        }
        if self.pages[pi].is_none() {
            self.pages[pi] = Some(Rc::new(Page { o: vec![None; PG], live: 0 }));
        }
        let p = Rc::make_mut(self.pages[pi].as_mut().unwrap());
        let s = &mut p.o[id as usize % PG];
        if s.is_none() {
            p.live += 1;
        }
        *s = Some(o);
    }
    pub fn del(&mut self, id: u64) {
        let pi = id as usize / PG;
        if let Some(Some(p)) = self.pages.get_mut(pi) {
            let p = Rc::make_mut(p);
            if p.o[id as usize % PG].take().is_some() {
                p.live -= 1;
                if p.live == 0 {
                    self.pages[pi] = None;
                }
            }
        }
    }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, heap }));
        id << 32
    }
}

impl Obj {
    #[inline]
    fn any_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|&e| e != 0),
        }
    }
    #[inline]
    fn set_conc(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + n] {
                *x = 0;
            }
        }
    }
    pub fn byte(&self, off: usize) -> E {
        if let Some(s) = &self.sym {
            if s[off] != 0 {
                return s[off];
            }
        }
        ctx(|c| c.k(self.data[off] as u128, 8))
    }
    pub fn set_byte(&mut self, off: usize, e: E) {
        match ctx(|c| c.cv(e)) {
            Some(v) => {
                self.data[off] = v as u8;
                if let Some(s) = &mut self.sym {
                    s[off] = 0;
                }
            }
            None => {
                let n = self.data.len();
                self.sym.get_or_insert_with(|| Box::new(vec![0; n]))[off] = e;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Marker {
    None,
    Try,
    App,
    Memo(Rc<MemoRec>),
}

/// a call whose result is being recorded
pub struct MemoRec {
    pub key: MemoKey,
    pub ret: u64,
    pub before: Mem,
    pub hashed: Rc<Hashed>,
    pub seed: u64,
    pub depth: u32,
    pub steps: u64,
}
impl PartialEq for MemoRec {
    fn eq(&self, _: &MemoRec) -> bool {
        true
    }
}
impl std::fmt::Debug for MemoRec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "memo")
    }
}
pub type MemoKey = (u32, u64, Vec<u8>);
pub struct MemoVal {
    /// result bytes, then the objects reachable from them
    pub objs: Vec<Rc<Obj>>,
    pub relocs: Vec<Vec<(u32, u32)>>,
    pub hashed: Vec<((u64, u64), Rc<HashMap<usize, Vec<Rc<Vec<u8>>>>>)>,
}
pub type Hashed = HashMap<(u64, u64), Rc<HashMap<usize, Vec<Rc<Vec<u8>>>>>>;

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub stack: u64,
    pub dynobjs: Vec<u64>,
    pub ret: Option<Reg>,
    pub marker: Marker,
}

#[derive(Clone, Default)]
pub struct Path {
    pub multi: Vec<(E, Rc<Vec<u32>>)>,
    pub in_multi: Vec<bool>,
    pub dom: Vec<Option<Rc<[u64; 4]>>>,
    pub known: HashMap<E, bool, Fx>,
    pub model: Model,
    pub depth: u32,
    /// assertions the finite-domain reasoning proved; confirmed by the solver at the end
    pub pending: Vec<E>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub path: Path,
    pub env: Env,
    pub steps: u64,
    pub id: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub kind: String,
    pub model: BTreeMap<String, u8>,
    pub notes: Vec<String>,
    pub stack: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct RunStats {
    pub paths: u64,
    pub dead: BTreeMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub assert_unsat: u64,
    pub assert_folded: u64,
    pub assert_unknown: u64,
    pub assert_table: u64,
    pub confirm: u64,
    pub quick: u64,
    pub reach: BTreeMap<String, u64>,
    pub unsup: BTreeMap<String, u64>,
    pub concretized: u64,
}

pub struct Ex {
    pub p: &'static Program,
    pub consts: Vec<V>,
    pub gaddr: Vec<u64>, // global index -> address
    pub fcov: Vec<u64>,  // calls per function
    pub hooks: Vec<model::HookFn>,
    pub solver: Solver,
    pub stats: RunStats,
    pub viols: Vec<Violation>,
    pub viol_keys: HashMap<String, u32>,
    pub max_steps: u64,
    pub deadline: Option<std::time::Instant>,
    pub args: Vec<String>,
    pub timed_out: bool,
    pub trace: bool,
    pub hot: HashMap<(u32, u32), u64>,
    pub max_viol: u32,
    pub prof: Vec<u64>,
    pub memo: HashMap<MemoKey, Option<Rc<MemoVal>>>,
}

pub fn k8(v: u8) -> E {
    ctx(|c| c.k(v as u128, 8))
}

impl V {
    #[inline]
    pub fn u(&self) -> Option<u128> {
        match self {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }
}
pub fn mkv(v: u128, w: u32) -> V {
    if w <= 64 {
        V::C(v as u64)
    } else {
        V::W(Box::new(v))
    }
}
pub fn fromexpr(e: E) -> V {
    ctx(|c| match c.cv(e) {
        Some(v) => mkv(v, c.w(e)),
        None => V::S(e),
    })
}
pub fn toexpr(v: &V, w: u32) -> E {
    match v {
        V::S(e) => {
            debug_assert_eq!(ctx(|c| c.w(*e)), w);
            *e
        }
        v => ctx(|c| c.k(v.u().expect("aggregate as scalar"), w)),
    }
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn bin_c(op: Bop, w: u32, x: u64, y: u64) -> Option<u64> {
    let r = match op {
        Bop::Add => x.wrapping_add(y),
        Bop::Sub => x.wrapping_sub(y),
        Bop::Mul => x.wrapping_mul(y),
        Bop::And => x & y,
        Bop::Or => x | y,
        Bop::Xor => x ^ y,
        Bop::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        Bop::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Bop::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
        Bop::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Bop::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Bop::SDiv => {
            if y == 0 {
                return None;
            }
            sx(x, w).wrapping_div(sx(y, w)) as u64
        }
        Bop::SRem => {
            if y == 0 {
                return None;
            }
            sx(x, w).wrapping_rem(sx(y, w)) as u64
        }
        _ => return None,
    };
    Some(r & m64(w))
}

fn eop(op: Bop) -> Op {
    match op {
        Bop::Add => Op::Add,
        Bop::Mul => Op::Mul,
        Bop::UDiv => Op::UDiv,
        Bop::URem => Op::URem,
        Bop::SDiv => Op::SDiv,
        Bop::SRem => Op::SRem,
        Bop::And => Op::And,
        Bop::Or => Op::Or,
        Bop::Xor => Op::Xor,
        Bop::Shl => Op::Shl,
        Bop::LShr => Op::LShr,
        Bop::AShr => Op::AShr,
        _ => panic!("eop"),
    }
}

pub fn bin_v(op: Bop, w: u32, a: &V, b: &V) -> R<V> {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            return match bin_c(op, w, *x, *y) {
                Some(r) => Ok(V::C(r)),
                None => match op {
                    Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv => {
                        if w == 64 {
                            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                            let r = match op {
                                Bop::FAdd => x + y,
                                Bop::FSub => x - y,
                                Bop::FMul => x * y,
                                _ => x / y,
                            };
                            Ok(V::C(r.to_bits()))
                        } else {
                            Err(Stop::Unsup("float".into()))
                        }
                    }
                    _ => Err(Stop::Bug("division by zero".into())),
                },
            };
        }
    }
    if matches!(op, Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv) {
        return Err(Stop::Unsup("symbolic float".into()));
    }
    if matches!(a, V::A(_)) || matches!(b, V::A(_)) {
        return Err(Stop::Unsup("aggregate operand".into()));
    }
    let x = toexpr(a, w);
    let y = toexpr(b, w);
    let e = ctx(|c| match op {
        Bop::Sub => c.sub(x, y),
        op => c.bin(eop(op), x, y),
    });
    Ok(fromexpr(e))
}

// floating point on concrete values; operands are made concrete first
fn fp(k: FpOp, w: u32, rw: u32, x: u64, y: u64) -> R<u64> {
    let val = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    if w > 64 || rw > 64 {
        return Err(Stop::Unsup("float width".into()));
    }
    let mask = |r: u64| if rw == 64 { r } else { r & ((1u64 << rw) - 1) };
    Ok(match k {
        FpOp::Neg => x ^ (1u64 << (w - 1)),
        FpOp::UiToFp if rw == 64 => (x as f64).to_bits(),
        FpOp::UiToFp => (x as f32).to_bits() as u64,
        FpOp::SiToFp if rw == 64 => (sx(x, w) as f64).to_bits(),
        FpOp::SiToFp => (sx(x, w) as f32).to_bits() as u64,
        FpOp::FpToUi => mask(val(x) as u64),
        FpOp::FpToSi => mask(val(x) as i64 as u64),
        FpOp::Ext => val(x).to_bits(),
        FpOp::Trunc => (f64::from_bits(x) as f32).to_bits() as u64,
        FpOp::Cmp(m) => {
            let b = match val(x).partial_cmp(&val(y)) {
                Some(std::cmp::Ordering::Equal) => 1,
                Some(std::cmp::Ordering::Greater) => 2,
                Some(std::cmp::Ordering::Less) => 4,
                None => 8,
            };
            (m & b != 0) as u64
        }
    })
}

pub fn cmp_v(p: Pred, w: u32, a: &V, b: &V) -> R<V> {
    if let (V::C(x), V::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => sx(x, w) < sx(y, w),
            Pred::Sle => sx(x, w) <= sx(y, w),
            Pred::Sgt => sx(x, w) > sx(y, w),
            Pred::Sge => sx(x, w) >= sx(y, w),
        };
        return Ok(V::C(r as u64));
    }
    if matches!(a, V::A(_)) || matches!(b, V::A(_)) {
        return Err(Stop::Unsup("aggregate compare".into()));
    }
    let x = toexpr(a, w);
    let y = toexpr(b, w);
    Ok(fromexpr(ctx(|c| match p {
        Pred::Eq => c.eq(x, y),
        Pred::Ne => {
            let e = c.eq(x, y);
            c.not(e)
        }
        Pred::Ult => c.ult(x, y),
        Pred::Ugt => c.ult(y, x),
        Pred::Ule => {
            let e = c.ult(y, x);
            c.not(e)
        }
        Pred::Uge => {
            let e = c.ult(x, y);
            c.not(e)
        }
        Pred::Slt => c.slt(x, y),
        Pred::Sgt => c.slt(y, x),
        Pred::Sle => {
            let e = c.slt(y, x);
            c.not(e)
        }
        Pred::Sge => {
            let e = c.slt(x, y);
            c.not(e)
        }
    })))
}

pub fn ite_v(c: E, a: &V, b: &V, w: Option<u32>) -> R<V> {
    match (a, b) {
        (V::A(x), V::A(y)) => {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(ite_v(c, p, q, None)?);
            }
            Ok(V::A(Rc::new(r)))
        }
        (V::C(x), V::C(y)) if x == y => Ok(V::C(*x)),
        _ => {
            let w = match (a, b, w) {
                (_, _, Some(w)) => w,
                (V::S(e), _, _) | (_, V::S(e), _) => ctx(|c| c.w(*e)),
                _ => return Err(Stop::Unsup("select width".into())),
            };
            let x = toexpr(a, w);
            let y = toexpr(b, w);
            Ok(fromexpr(ctx(|k| k.ite(c, x, y))))
        }
    }
}

pub fn zero_of(p: &Program, t: TyId) -> V {
    match &p.types.v[t as usize] {
        Ty::Int(w) if *w > 64 => V::W(Box::new(0)),
        Ty::Arr(n, e) => V::A(Rc::new(vec![zero_of(p, *e); *n as usize])),
        Ty::Vec(n, e) => V::A(Rc::new(vec![zero_of(p, *e); *n as usize])),
        Ty::Struct(_, es) => V::A(Rc::new(es.iter().map(|e| zero_of(p, *e)).collect())),
        _ => V::C(0),
    }
}

impl Ex {
    pub fn new(p: &'static Program, hooks: Vec<model::HookFn>) -> Ex {
        Ex {
            p,
            consts: vec![],
            gaddr: vec![],
            fcov: vec![0; p.funcs.len()],
            hooks,
            solver: Solver::new(),
            stats: RunStats::default(),
            viols: vec![],
            viol_keys: HashMap::new(),
            max_steps: 2_000_000_000,
            deadline: None,
            args: vec![],
            timed_out: false,
            trace: false,
            hot: HashMap::new(),
            max_viol: 3,
            prof: vec![],
            memo: HashMap::new(),
        }
    }

    // ---------- initialisation ----------
    fn const_v(&self, t: TyId, c: &Const, m: usize) -> V {
        let ty = &self.p.types.v[t as usize];
        match c {
            Const::Int(v) => match ty {
                Ty::Int(w) => mkv(*v, *w),
                _ => V::C(*v as u64),
            },
            Const::Null => V::C(0),
            Const::Fp(b) => V::C(*b),
            Const::Undef | Const::Zero => zero_of(self.p, t),
            Const::Global(_) | Const::Gep(..) | Const::Cast(_) | Const::Bin(..) => V::C(self.const_addr(c, m)),
            Const::Str(s) => V::A(Rc::new(s.iter().map(|b| V::C(*b as u64)).collect())),
            Const::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.const_v(*t, c, m)).collect())),
        }
    }
    fn const_addr(&self, c: &Const, m: usize) -> u64 {
        match c {
            Const::Global(n) => {
                if let Some(a) = self.p.aliases[m].get(n) {
                    return self.const_addr(a, m);
                }
                if let Some(&g) = self.p.gmap[m].get(n) {
                    return self.gaddr[g as usize];
                }
                if let Some(&f) = self.p.fmap[m].get(n) {
                    let fu = &self.p.funcs[f as usize];
                    if !fu.defined && fu.hook == 0 {
                        return 0; // unresolved (weak) symbol
                    }
                    return (FN_OBJ << 32) + (f as u64) * 16;
                }
                0
            }
            Const::Gep(b, o) => self.const_addr(b, m).wrapping_add(*o as u64),
            Const::Cast(b) => self.const_addr(b, m),
            Const::Int(v) => *v as u64,
            Const::Null | Const::Zero | Const::Undef => 0,
            Const::Bin(op, a, b) => {
                let (x, y) = (self.const_addr(a, m), self.const_addr(b, m));
                match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    _ => x ^ y,
                }
            }
            c => panic!("const addr {:?}", c),
        }
    }
    fn const_bytes(&self, t: TyId, c: &Const, m: usize, out: &mut [u8]) {
        match c {
            Const::Undef | Const::Zero | Const::Null => {}
            Const::Str(s) => out[..s.len()].copy_from_slice(s),
            Const::Agg(v) => match &self.p.types.v[t as usize] {
                Ty::Struct(..) => {
                    let offs = self.p.types.offs[t as usize].clone();
                    for (i, (et, c)) in v.iter().enumerate() {
                        let o = offs[i] as usize;
                        let s = self.p.types.size[*et as usize] as usize;
                        self.const_bytes(*et, c, m, &mut out[o..o + s]);
                    }
                }
                _ => {
                    let mut o = 0;
                    for (et, c) in v {
                        let s = self.p.types.size[*et as usize] as usize;
                        self.const_bytes(*et, c, m, &mut out[o..o + s]);
                        o += s;
                    }
                }
            },
            c => {
                let v = match self.const_v(t, c, m) {
                    V::C(x) => x as u128,
                    V::W(x) => *x,
                    _ => panic!("const bytes"),
                };
                let n = out.len().min(16);
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    pub fn init(&mut self, env: Env) -> State {
        let mut mem = Mem::new();
        // a dummy object so that function addresses are not readable but valid to compare
        self.gaddr = vec![0; self.p.globals.len()];
        for (i, g) in self.p.globals.iter().enumerate() {
            if g.external {
                continue;
            }
            let size = self.p.types.size[g.ty as usize];
            self.gaddr[i] = mem.alloc(size, false);
        }
        for i in 0..self.p.globals.len() {
            self.reset_global(&mut mem, i);
        }
        self.consts = self.p.consts.iter().map(|(t, c, m)| self.const_v(*t, c, *m)).collect();
        State { frames: vec![], mem, path: Path::default(), env, steps: 0, id: 0 }
    }
    pub fn reset_global(&self, mem: &mut Mem, i: usize) {
        let g = &self.p.globals[i];
        if g.external {
            return;
        }
        let size = self.p.types.size[g.ty as usize] as usize;
        let mut data = vec![0u8; size];
        if let Some(c) = &g.init {
            self.const_bytes(g.ty, c, g.module, &mut data);
        }
        mem.put(self.gaddr[i] >> 32, Rc::new(Obj { data, sym: None, ro: g.constant, heap: false }));
    }
    pub fn reset_module(&self, st: &mut State, m: usize) {
        for i in 0..self.p.globals.len() {
            if self.p.globals[i].module == m && !self.p.globals[i].constant {
                self.reset_global(&mut st.mem, i);
            }
        }
    }

    // ---------- path conditions ----------
    fn dom(&self, st: &State, v: u32) -> [u64; 4] {
        match st.path.dom.get(v as usize) {
            Some(Some(d)) => **d,
            _ => [u64::MAX; 4],
        }
    }
    fn in_multi(&self, st: &State, v: u32) -> bool {
        st.path.in_multi.get(v as usize).copied().unwrap_or(false)
    }
    fn quick(&mut self, st: &State, e: E, fuel: &mut u32) -> Option<bool> {
        if let Some(&b) = st.path.known.get(&e) {
            return Some(b);
        }
        if *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        let (n, sup) = ctx(|c| (c.n(e), c.sup[e as usize]));
        if n.op == Op::Const {
            return Some(n.val == 1);
        }
        if let Sup::One(v) = sup {
            let t = ctx(|c| c.table(e));
            let d = self.dom(st, v);
            let mut any = false;
            let mut all = true;
            for i in 0..4 {
                if t[i] & d[i] != 0 {
                    any = true;
                }
                if !t[i] & d[i] != 0 {
                    all = false;
                }
            }
            if !any {
                return Some(false);
            }
            if all {
                return Some(true);
            }
            return None;
        }
        match n.op {
            Op::And => {
                let a = self.quick(st, n.a, fuel);
                if a == Some(false) {
                    return a;
                }
                let b = self.quick(st, n.b, fuel);
                if b == Some(false) {
                    return b;
                }
                if a == Some(true) && b == Some(true) {
                    return a;
                }
                None
            }
            Op::Or => {
                let a = self.quick(st, n.a, fuel);
                if a == Some(true) {
                    return a;
                }
                let b = self.quick(st, n.b, fuel);
                if b == Some(true) {
                    return b;
                }
                if a == Some(false) && b == Some(false) {
                    return a;
                }
                None
            }
            Op::Xor if ctx(|c| c.cv(n.b)) == Some(1) => self.quick(st, n.a, fuel).map(|b| !b),
            Op::Ite => match self.quick(st, n.a, fuel) {
                Some(true) => self.quick(st, n.b, fuel),
                Some(false) => self.quick(st, n.c, fuel),
                None => None,
            },
            Op::Eq => {
                // two byte-sized single-variable values with disjoint ranges
                let (sa, sb, w) = ctx(|c| (c.sup[n.a as usize], c.sup[n.b as usize], c.w(n.a)));
                if let (Sup::One(va), Sup::One(vb)) = (sa, sb) {
                    if w == 8 && ctx(|c| c.n(n.a).op == Op::Var && c.n(n.b).op == Op::Var) {
                        let (da, db) = (self.dom(st, va), self.dom(st, vb));
                        if (0..4).all(|i| da[i] & db[i] == 0) {
                            return Some(false);
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn mval(m: &Model, v: u32) -> u8 {
        m.get(v as usize).copied().unwrap_or(0)
    }
    fn model_sat(&self, m: &Model, e: E) -> bool {
        ctx(|c| c.eval(e, &|v| Ex::mval(m, v)) == 1)
    }
    fn dom_expr(&self, st: &State, v: u32) -> Option<E> {
        let d = match st.path.dom.get(v as usize) {
            Some(Some(d)) => **d,
            _ => return None,
        };
        Some(set_expr(v, &d))
    }
    /// everything on the path that can influence `vars`
    pub fn slice(&self, st: &State, vars: &[u32]) -> Vec<E> {
        let mut vs: std::collections::BTreeSet<u32> = vars.iter().cloned().collect();
        let mut used = vec![false; st.path.multi.len()];
        loop {
            let mut ch = false;
            for (i, (_, v)) in st.path.multi.iter().enumerate() {
                if !used[i] && v.iter().any(|x| vs.contains(x)) {
                    used[i] = true;
                    ch = true;
                    vs.extend(v.iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = vec![];
        for (i, (e, _)) in st.path.multi.iter().enumerate() {
            if used[i] {
                out.push(*e);
            }
        }
        for v in vs {
            if let Some(e) = self.dom_expr(st, v) {
                out.push(e);
            }
        }
        out
    }
    pub fn all_constraints(&self, st: &State) -> Vec<E> {
        let mut out: Vec<E> = st.path.multi.iter().map(|x| x.0).collect();
        for v in 0..st.path.dom.len() {
            if let Some(e) = self.dom_expr(st, v as u32) {
                out.push(e);
            }
        }
        out
    }
    /// a model of path && c, or None when infeasible
    pub fn feasible(&mut self, st: &State, c: E) -> R<Option<Model>> {
        if self.model_sat(&st.path.model, c) {
            return Ok(Some(st.path.model.clone()));
        }
        let sup = ctx(|x| x.sup[c as usize]);
        if let Sup::One(v) = sup {
            let t = ctx(|x| x.table(c));
            let d = self.dom(st, v);
            let inter = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
            if inter == [0; 4] {
                self.stats.quick += 1;
                return Ok(None);
            }
            if !self.in_multi(st, v) {
                self.stats.quick += 1;
                let mut m = (*st.path.model).clone();
                if m.len() <= v as usize {
                    m.resize(v as usize + 1, 0);
                }
                m[v as usize] = pick(&inter);
                return Ok(Some(Rc::new(m)));
            }
        }
        let vars = ctx(|x| x.vars(c));
        let mut q = self.slice(st, &vars);
        q.push(c);
        match self.solver.check(&q) {
            Verdict::Sat(a) => {
                let mut m = (*st.path.model).clone();
                for (v, b) in a {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = b;
                }
                Ok(Some(Rc::new(m)))
            }
            Verdict::Unsat => Ok(None),
            Verdict::Unknown => Err(Stop::Unsup("solver gave up on a branch".into())),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E, val: bool, m: Model) {
        st.path.known.insert(c, val);
        let e = if val { c } else { ctx(|x| x.not(c)) };
        self.add(st, e);
        st.path.model = m;
        debug_assert!(self.model_sat(&st.path.model, e));
    }
    fn add(&mut self, st: &mut State, e: E) {
        let (n, sup) = ctx(|c| (c.n(e), c.sup[e as usize]));
        match sup {
            Sup::None => return,
            Sup::One(v) => {
                let t = ctx(|c| c.table(e));
                let d = self.dom(st, v);
                let r = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
                if st.path.dom.len() <= v as usize {
                    st.path.dom.resize(v as usize + 1, None);
                }
                st.path.dom[v as usize] = Some(Rc::new(r));
            }
            Sup::Many => {
                if n.op == Op::And {
                    self.add(st, n.a);
                    self.add(st, n.b);
                    return;
                }
                if n.op == Op::Xor && ctx(|c| c.cv(n.b)) == Some(1) {
                    let m = ctx(|c| c.n(n.a));
                    if m.op == Op::Or {
                        let a = ctx(|c| c.not(m.a));
                        let b = ctx(|c| c.not(m.b));
                        self.add(st, a);
                        self.add(st, b);
                        return;
                    }
                }
                st.path.known.insert(e, true);
                let vars = ctx(|c| c.vars(e));
                for &v in vars.iter() {
                    if st.path.in_multi.len() <= v as usize {
                        st.path.in_multi.resize(v as usize + 1, false);
                    }
                    st.path.in_multi[v as usize] = true;
                }
                st.path.multi.push((e, vars));
            }
        }
    }
    /// The expression with what is already decided on this path put in.
    fn refine(&mut self, st: &State, e: E, memo: &mut HashMap<E, E, Fx>, fuel: &mut u32) -> E {
        let (n, sup) = ctx(|c| (c.n(e), c.sup[e as usize]));
        if sup == Sup::None || n.op == Op::Var {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        if *fuel == 0 {
            return e;
        }
        *fuel -= 1;
        if n.w == 1 {
            let mut qf = 50;
            if let Some(b) = self.quick(st, e, &mut qf) {
                let r = ctx(|c| c.k(b as u128, 1));
                memo.insert(e, r);
                return r;
            }
        }
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Ite => {
                let k = self.refine(st, n.a, memo, fuel);
                match ctx(|c| c.cv(k)) {
                    Some(1) => self.refine(st, n.b, memo, fuel),
                    Some(_) => self.refine(st, n.c, memo, fuel),
                    None => {
                        let a = self.refine(st, n.b, memo, fuel);
                        let b = self.refine(st, n.c, memo, fuel);
                        ctx(|c| c.ite(k, a, b))
                    }
                }
            }
            Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.refine(st, n.a, memo, fuel);
                if a == n.a {
                    e
                } else {
                    ctx(|c| match n.op {
                        Op::ZExt => c.zext(a, n.w),
                        Op::SExt => c.sext(a, n.w),
                        _ => c.extract(a, n.val as u32, n.w),
                    })
                }
            }
            op => {
                let a = self.refine(st, n.a, memo, fuel);
                let b = self.refine(st, n.b, memo, fuel);
                if a == n.a && b == n.b {
                    e
                } else {
                    ctx(|c| match op {
                        Op::Eq => c.eq(a, b),
                        Op::Ult => c.ult(a, b),
                        Op::Slt => c.slt(a, b),
                        Op::Concat => c.concat(a, b),
                        _ => c.bin(op, a, b),
                    })
                }
            }
        };
        memo.insert(e, r);
        r
    }
    fn refined(&mut self, st: &State, e: E) -> E {
        let mut memo = HashMap::default();
        let mut fuel = 2000;
        self.refine(st, e, &mut memo, &mut fuel)
    }
    /// Truth of a condition on this path; forks when both outcomes are feasible.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = ctx(|x| x.cv(c)) {
            return Ok(v == 1);
        }
        if let Some(&b) = st.path.known.get(&c) {
            return Ok(b);
        }
        let mut fuel = 4000;
        if let Some(b) = self.quick(st, c, &mut fuel) {
            self.stats.quick += 1;
            st.path.known.insert(c, b);
            return Ok(b);
        }
        let orig = c;
        let c = self.refined(st, c);
        if c != orig {
            if let Some(v) = ctx(|x| x.cv(c)) {
                self.stats.quick += 1;
                st.path.known.insert(orig, v == 1);
                return Ok(v == 1);
            }
            let mut fuel = 4000;
            if let Some(b) = self.quick(st, c, &mut fuel) {
                self.stats.quick += 1;
                st.path.known.insert(orig, b);
                return Ok(b);
            }
        }
        let nc = ctx(|x| x.not(c));
        let t = self.feasible(st, c)?;
        let f = self.feasible(st, nc)?;
        match (t, f) {
            (Some(a), Some(b)) => {
                if st.frames.len() > 0 && self.trace {
                    let f = st.frames.last().unwrap();
                    *self.hot.entry((f.func, f.pc)).or_insert(0) += 1;
                }
                Err(Stop::Fork(c, a, b))
            }
            (Some(_), None) => {
                st.path.known.insert(c, true);
                Ok(true)
            }
            (None, Some(_)) => {
                st.path.known.insert(c, false);
                Ok(false)
            }
            (None, None) => Err(Stop::Bug("path condition became unsatisfiable".into())),
        }
    }
    pub fn decide_v(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::S(e) => self.decide(st, *e),
            _ => Err(Stop::Bug("branch on aggregate".into())),
        }
    }
    /// Fix a symbolic value to a constant on this path (forking over all feasible values).
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        let e = if ctx(|c| c.cv(e)).is_some() { e } else { self.refined(st, e) };
        loop {
            if let Some(v) = ctx(|c| c.cv(e)) {
                return Ok(v);
            }
            let m = st.path.model.clone();
            let v = ctx(|c| c.eval(e, &|v| Ex::mval(&m, v)));
            let q = ctx(|c| {
                let k = c.k(v, c.w(e));
                c.eq(e, k)
            });
            self.stats.concretized += 1;
            if self.decide(st, q)? {
                return Ok(v);
            }
            // the model satisfies q, so reaching here means q was decided false earlier on this
            // path while the model still satisfies it: impossible
            return Err(Stop::Bug("concretize".into()));
        }
    }
    pub fn conc_v(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => Ok(self.concretize(st, *e)? as u64),
            _ => Err(Stop::Unsup("wide value where a word is needed".into())),
        }
    }

    // ---------- memory ----------
    fn bad(&self, st: &State, what: &str, addr: u64, n: usize) -> Stop {
        Stop::Bug(format!("invalid memory {} of {} bytes at {:#x}{}", what, n, addr, match st.mem.get(addr >> 32) {
            Some(o) => format!(" (object of {} bytes{})", o.data.len(), if std::env::var("KSYM_DEBUG").is_ok() { format!(" {:?} pc {}", String::from_utf8_lossy(&o.data[..o.data.len().min(600)]), st.frames.last().map_or(0, |f| f.pc)) } else { String::new() }),
            None => " (no object)".to_string(),
        }))
    }
    #[inline]
    pub fn load_n(&mut self, st: &State, addr: u64, n: usize) -> R<V> {
        let o = match st.mem.get(addr >> 32) {
            Some(o) => o,
            None => return Err(self.bad(st, "read", addr, n)),
        };
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.data.len() {
            return Err(self.bad(st, "read", addr, n));
        }
        if !o.any_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::C(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(V::W(Box::new(u128::from_le_bytes(b))));
        }
        let mut e = o.byte(off);
        for i in 1..n {
            let h = o.byte(off + i);
            e = ctx(|c| c.concat(h, e));
        }
        Ok(fromexpr(e))
    }
    pub fn load_ty(&mut self, st: &State, t: TyId, addr: u64) -> R<V> {
        match &self.p.types.v[t as usize] {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                let v = self.load_n(st, addr, n)?;
                if *w as usize == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    V::C(x) => V::C(x & m64(*w)),
                    V::S(e) => fromexpr(ctx(|c| c.extract(e, 0, *w))),
                    V::W(x) => V::W(Box::new(*x & mask(*w))),
                    v => v,
                })
            }
            Ty::Ptr | Ty::Double => self.load_n(st, addr, 8),
            Ty::Float => self.load_n(st, addr, 4),
            Ty::Vec(n, e) if self.width(*e) % 8 != 0 => {
                // sub-byte elements are bit-packed
                let w = self.width(*e);
                let nb = ((*n * w + 7) / 8) as usize;
                let v = self.load_n(st, addr, nb)?;
                let x = toexpr(&v, nb as u32 * 8);
                let r = (0..*n).map(|i| fromexpr(ctx(|c| c.extract(x, i * w, w)))).collect();
                Ok(V::A(Rc::new(r)))
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let n = match &self.p.types.v[t as usize] {
                    Ty::Arr(n, _) => *n as usize,
                    Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let s = self.p.types.size[*e as usize];
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.load_ty(st, *e, addr + i as u64 * s)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(_, es) => {
                let offs = self.p.types.offs[t as usize].clone();
                let mut v = Vec::with_capacity(es.len());
                for (i, e) in es.iter().enumerate() {
                    v.push(self.load_ty(st, *e, addr + offs[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => Err(Stop::Unsup(format!("load of {:?}", t))),
        }
    }
    #[inline]
    pub fn store_n(&mut self, st: &mut State, addr: u64, n: usize, v: &V) -> R<()> {
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(addr >> 32) {
            Some(o) if off + n <= o.data.len() && !o.ro => {}
            _ => return Err(self.bad(st, "write", addr, n)),
        }
        let o = st.mem.get_mut(addr >> 32).unwrap();
        match v {
            V::C(x) => {
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                } else {
                    o.data[off..off + n].copy_from_slice(&(*x as u128).to_le_bytes()[..n]);
                }
                o.set_conc(off, n);
            }
            V::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                o.set_conc(off, n);
            }
            V::S(e) => {
                let e = ctx(|c| {
                    let w = c.w(*e);
                    if w < n as u32 * 8 {
                        c.zext(*e, n as u32 * 8)
                    } else {
                        *e
                    }
                });
                for i in 0..n {
                    let b = ctx(|c| c.extract(e, i as u32 * 8, 8));
                    o.set_byte(off + i, b);
                }
            }
            V::A(_) => return Err(Stop::Unsup("aggregate store".into())),
        }
        Ok(())
    }
    pub fn store_ty(&mut self, st: &mut State, t: TyId, addr: u64, v: &V) -> R<()> {
        match &self.p.types.v[t as usize] {
            Ty::Int(w) => self.store_n(st, addr, ((*w + 7) / 8) as usize, v),
            Ty::Ptr | Ty::Double => self.store_n(st, addr, 8, v),
            Ty::Float => self.store_n(st, addr, 4, v),
            Ty::Vec(n, e) if self.width(*e) % 8 != 0 => {
                let w = self.width(*e);
                let nb = (*n * w + 7) / 8;
                if let V::A(x) = v {
                    let mut acc = toexpr(&x[0], w);
                    for y in &x[1..] {
                        let h = toexpr(y, w);
                        acc = ctx(|c| c.concat(h, acc));
                    }
                    let acc = ctx(|c| c.zext(acc, nb * 8));
                    self.store_n(st, addr, nb as usize, &fromexpr(acc))?;
                }
                Ok(())
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let s = self.p.types.size[*e as usize];
                if let V::A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, *e, addr + i as u64 * s, y)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(_, es) => {
                let offs = self.p.types.offs[t as usize].clone();
                if let V::A(x) = v {
                    for (i, e) in es.iter().enumerate() {
                        self.store_ty(st, *e, addr + offs[i], &x[i])?;
                    }
                }
                Ok(())
            }
            t => Err(Stop::Unsup(format!("store of {:?}", t))),
        }
    }
    pub fn read_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(addr >> 32) {
            Some(o) if off + n <= o.data.len() => Ok((off..off + n).map(|i| o.byte(i)).collect()),
            _ => Err(self.bad(st, "read", addr, n)),
        }
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[E]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        match st.mem.get(addr >> 32) {
            Some(o) if off + b.len() <= o.data.len() && !o.ro => {}
            _ => return Err(self.bad(st, "write", addr, b.len())),
        }
        let o = st.mem.get_mut(addr >> 32).unwrap();
        for (i, &e) in b.iter().enumerate() {
            o.set_byte(off + i, e);
        }
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let so = (s & 0xffff_ffff) as usize;
        let dof = (d & 0xffff_ffff) as usize;
        let (data, sym) = match st.mem.get(s >> 32) {
            Some(o) if so + n <= o.data.len() => (o.data[so..so + n].to_vec(), if o.any_sym(so, n) { o.sym.as_ref().map(|x| x[so..so + n].to_vec()) } else { None }),
            _ => return Err(self.bad(st, "read", s, n)),
        };
        match st.mem.get(d >> 32) {
            Some(o) if dof + n <= o.data.len() && !o.ro => {}
            _ => return Err(self.bad(st, "write", d, n)),
        }
        let o = st.mem.get_mut(d >> 32).unwrap();
        o.data[dof..dof + n].copy_from_slice(&data);
        match sym {
            None => o.set_conc(dof, n),
            Some(s) => {
                let l = o.data.len();
                o.sym.get_or_insert_with(|| Box::new(vec![0; l]))[dof..dof + n].copy_from_slice(&s);
            }
        }
        Ok(())
    }
    /// read through a symbolic address: a table lookup when one byte decides it, otherwise fork
    fn load_sym(&mut self, st: &mut State, t: TyId, a: E) -> R<V> {
        let sup = ctx(|c| c.sup[a as usize]);
        let w = match &self.p.types.v[t as usize] {
            Ty::Int(w) => Some(*w),
            _ => None,
        };
        if let (Sup::One(v), Some(w)) = (sup, w) {
            let d = self.dom(st, v);
            let mut groups: Vec<(V, [u64; 4], u32)> = vec![];
            let mut idx: HashMap<(bool, u128), usize> = HashMap::new();
            let mut ok = true;
            for x in 0..256usize {
                if d[x / 64] >> (x % 64) & 1 == 0 {
                    continue;
                }
                let ad = ctx(|c| c.eval(a, &|_| x as u8)) as u64;
                let val = match self.load_ty(st, t, ad) {
                    Ok(v) => v,
                    Err(_) => {
                        ok = false;
                        break;
                    }
                };
                let key = match &val {
                    V::S(e) => (true, *e as u128),
                    v => (false, v.u().unwrap()),
                };
                let gi = *idx.entry(key).or_insert_with(|| {
                    groups.push((val, [0; 4], 0));
                    groups.len() - 1
                });
                groups[gi].1[x / 64] |= 1 << (x % 64);
                groups[gi].2 += 1;
            }
            if ok && !groups.is_empty() {
                groups.sort_by(|a, b| b.2.cmp(&a.2));
                let mut r = toexpr(&groups[0].0, w);
                for g in &groups[1..] {
                    let c = set_expr(v, &g.1);
                    let x = toexpr(&g.0, w);
                    r = ctx(|k| k.ite(c, x, r));
                }
                return Ok(fromexpr(r));
            }
        }
        let ad = self.concretize(st, a)? as u64;
        self.load_ty(st, t, ad)
    }

    // ---------- calls ----------
    pub fn push_call(&mut self, st: &mut State, f: u32, args: Vec<V>, ret: Option<Reg>, marker: Marker) -> R<()> {
        let fu = &self.p.funcs[f as usize];
        self.fcov[f as usize] += 1;
        if st.frames.len() > 3000 {
            return Err(Stop::Bug("stack overflow".into()));
        }
        let mut regs = args;
        regs.resize(fu.nregs.max(fu.nparams) as usize, V::C(0));
        let stack = if fu.frame_size > 0 {
            let id = STACK0 + st.frames.len() as u64;
            st.mem.put(id, Rc::new(Obj { data: vec![0xAA; fu.frame_size as usize], sym: None, ro: false, heap: false }));
            id << 32
        } else {
            0
        };
        let mut dynobjs = vec![];
        for (i, &bv) in fu.byval.iter().enumerate() {
            if bv > 0 {
                let a = st.mem.alloc(bv, false);
                let s = match &regs[i] {
                    V::C(x) => *x,
                    _ => return Err(Stop::Unsup("symbolic byval".into())),
                };
                self.copy(st, a, s, bv as usize)?;
                regs[i] = V::C(a);
                dynobjs.push(a >> 32);
            }
        }
        st.frames.push(Frame { func: f, pc: 0, regs, stack, dynobjs, ret, marker });
        Ok(())
    }
    /// Calls of the token table loader with arguments seen before return a copy of what the first
    /// execution returned. Anything unusual (symbolic arguments, a fork during the call, writes to
    /// existing objects) makes the call execute normally.
    fn memo_call(&mut self, st: &mut State, f: u32, a: &[V]) -> R<Option<Marker>> {
        let fu = &self.p.funcs[f as usize];
        if fu.sret == 0 || st.env.hash_arb || a.is_empty() {
            return Ok(Some(Marker::None));
        }
        let ret = match &a[0] {
            V::C(x) => *x,
            _ => return Ok(Some(Marker::None)),
        };
        // canonical contents of what the arguments point to
        let mut key: Vec<u8> = vec![];
        let mut todo: VecDeque<(u64, usize)> = VecDeque::new();
        for (i, v) in a.iter().enumerate().skip(1).take(fu.nparams as usize - 1) {
            match v {
                V::C(x) if fu.derefs[i] > 0 => todo.push_back((*x, fu.derefs[i] as usize)),
                V::C(x) if (*x >> 32) >= STACK0 && (*x >> 32) < STACK0 + st.frames.len() as u64 => {
                    let at = *x as u32 as u64;
                    let al = &self.p.funcs[st.frames[((*x >> 32) - STACK0) as usize].func as usize].allocas;
                    match al.iter().find(|(o, n)| *o <= at && at < o + n) {
                        Some((o, n)) => todo.push_back((*x, (o + n - at) as usize)),
                        None => return Ok(Some(Marker::None)),
                    }
                }
                V::C(x) if st.mem.get(x >> 32).is_none() => key.extend(x.to_le_bytes()),
                _ => return Ok(Some(Marker::None)),
            }
        }
        while let Some((p, n)) = todo.pop_front() {
            let o = match st.mem.get(p >> 32) {
                Some(o) => o,
                None => return Ok(Some(Marker::None)),
            };
            let off = p as u32 as usize;
            if off > o.data.len() {
                return Ok(Some(Marker::None));
            }
            let n = n.min(o.data.len() - off);
            if key.len() + n > 4096 || o.any_sym(off, n) {
                return Ok(Some(Marker::None));
            }
            key.extend((n as u64).to_le_bytes());
            let mut i = 0;
            while i < n {
                if i + 8 <= n {
                    let w = u64::from_le_bytes(o.data[off + i..off + i + 8].try_into().unwrap());
                    if let Some(t) = st.mem.get(w >> 32) {
                        if (w as u32 as usize) < t.data.len() {
                            todo.push_back((w, t.data.len()));
                            key.extend([0xFF; 8]);
                            i += 8;
                            continue;
                        }
                    }
                }
                key.push(o.data[off + i]);
                i += 1;
            }
        }
        let key = (f, st.env.seed, key);
        match self.memo.get(&key) {
            Some(None) => Ok(Some(Marker::None)),
            Some(Some(v)) => {
                let v = v.clone();
                self.fcov[f as usize] += 1;
                let base = st.mem.next;
                for (i, o) in v.objs.iter().enumerate() {
                    let mut o2 = if v.relocs[i].is_empty() { o.clone() } else { Rc::new((**o).clone()) };
                    if !v.relocs[i].is_empty() {
                        let d = &mut Rc::make_mut(&mut o2).data;
                        for &(at, t) in &v.relocs[i] {
                            let hi = (base + t as u64 - 1) as u32;
                            d[at as usize + 4..at as usize + 8].copy_from_slice(&hi.to_le_bytes());
                        }
                    }
                    if i == 0 {
                        for (k, b) in o2.data.iter().enumerate() {
                            self.store_n(st, ret + k as u64, 1, &V::C(*b as u64))?;
                        }
                    } else {
                        st.mem.put(base + i as u64 - 1, o2);
                    }
                }
                st.mem.next = base + v.objs.len() as u64 - 1;
                if !v.hashed.is_empty() {
                    let h = Rc::make_mut(&mut st.env.hashed);
                    for (k, m) in &v.hashed {
                        match h.get_mut(k) {
                            None => {
                                h.insert(*k, m.clone());
                            }
                            Some(x) if Rc::ptr_eq(x, m) => {}
                            Some(x) => {
                                let x = Rc::make_mut(x);
                                for (l, s) in m.iter() {
                                    let e = x.entry(*l).or_default();
                                    let have: std::collections::HashSet<Vec<u8>> = e.iter().map(|y| (**y).clone()).collect();
                                    for y in s {
                                        if !have.contains(&**y) {
                                            e.push(y.clone());
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(None)
            }
            None => Ok(Some(Marker::Memo(Rc::new(MemoRec { key, ret, before: st.mem.clone(), hashed: st.env.hashed.clone(), seed: st.env.seed, depth: st.path.depth, steps: st.steps })))),
        }
    }
    fn memo_done(&mut self, st: &State, r: &MemoRec) {
        if self.memo.contains_key(&r.key) {
            return;
        }
        let v = self.memo_make(st, r);
        if self.trace {
            eprintln!("memo {} {}", self.p.funcs[r.key.0 as usize].name, v.is_some());
        }
        self.memo.insert(r.key.clone(), v.map(Rc::new));
    }
    fn memo_make(&self, st: &State, r: &MemoRec) -> Option<MemoVal> {
        if st.path.depth != r.depth || st.env.seed != r.seed || st.env.hash_arb {
            return None;
        }
        let n0 = r.before.next;
        // nothing that existed before may have changed, except the result and thread-local hash keys
        let mut okw: Vec<u64> = vec![r.ret >> 32];
        for (i, g) in self.p.globals.iter().enumerate() {
            if g.tls || g.name.contains("4hash6random") {
                okw.push(self.gaddr[i] >> 32);
            }
        }
        for pi in 0..=(n0 as usize / PG) {
            let (a, b) = (r.before.pages.get(pi).and_then(|x| x.as_ref()), st.mem.pages.get(pi).and_then(|x| x.as_ref()));
            match (a, b) {
                (None, None) => continue,
                (Some(a), Some(b)) if Rc::ptr_eq(a, b) => continue,
                _ => {}
            }
            for k in 0..PG {
                let id = (pi * PG + k) as u64;
                if id >= n0 || (id < STACK_MAX && id >= STACK0 && st.mem.get(id).is_none()) || okw.contains(&id) {
                    continue;
                }
                let (x, y) = (a.and_then(|p| p.o[k].as_ref()), b.and_then(|p| p.o[k].as_ref()));
                let same = match (x, y) {
                    (None, None) => true,
                    (Some(x), Some(y)) => Rc::ptr_eq(x, y) || (x.data == y.data && x.sym.is_none() && y.sym.is_none()),
                    (None, Some(_)) => id < STACK_MAX,
                    _ => false,
                };
                if !same {
                    if self.trace {
                        eprintln!("memo: object {:#x} changed", id);
                    }
                    return None;
                }
            }
        }
        let fu = &self.p.funcs[r.key.0 as usize];
        let n = fu.sret as usize;
        let ro = st.mem.get(r.ret >> 32)?;
        let off = r.ret as u32 as usize;
        if n == 0 || off + n > ro.data.len() || ro.any_sym(off, n) {
            return None;
        }
        let mut objs = vec![Rc::new(Obj { data: ro.data[off..off + n].to_vec(), sym: None, ro: false, heap: false })];
        let mut relocs = vec![];
        let mut ids: HashMap<u64, u32> = HashMap::new();
        let mut i = 0;
        while i < objs.len() {
            let o = objs[i].clone();
            if o.sym.as_ref().map_or(false, |s| s.iter().any(|&e| e != 0)) {
                return None;
            }
            let mut rl = vec![];
            let mut k = 0;
            while k + 8 <= o.data.len() {
                let w = u64::from_le_bytes(o.data[k..k + 8].try_into().unwrap());
                let id = w >> 32;
                if id >= n0 && id < st.mem.next {
                    if let Some(t) = st.mem.get_rc(id) {
                        if w as u32 as usize <= t.data.len() {
                            let j = *ids.entry(id).or_insert_with(|| {
                                objs.push(t.clone());
                                objs.len() as u32 - 1
                            });
                            rl.push((k as u32, j));
                            k += 8;
                            continue;
                        }
                    }
                }
                // a stack object must not escape
                k += 8;
            }
            relocs.push(rl);
            i += 1;
        }
        let mut hashed = vec![];
        for (k, m) in st.env.hashed.iter() {
            if !r.hashed.get(k).map_or(false, |x| Rc::ptr_eq(x, m)) {
                hashed.push((*k, m.clone()));
            }
        }
        Some(MemoVal { objs, relocs, hashed })
    }
    pub fn pop_frame(&mut self, st: &mut State) -> Frame {
        let f = st.frames.pop().unwrap();
        if f.stack != 0 {
            st.mem.del(f.stack >> 32);
        }
        for &d in &f.dynobjs {
            st.mem.del(d);
        }
        f
    }
    pub fn set_ret(&mut self, st: &mut State, r: Option<Reg>, v: V) {
        if let (Some(r), Some(f)) = (r, st.frames.last_mut()) {
            f.regs[r as usize] = v;
        }
    }
    pub fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| self.p.funcs[f.func as usize].name.clone()).collect()
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: String, m: &Model) {
        let key = format!("{}|{}", kind, msg);
        let n = self.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > self.max_viol {
            return;
        }
        let mut mm = BTreeMap::new();
        ctx(|c| {
            for (v, n) in c.var_names.iter().enumerate() {
                mm.insert(n.clone(), Ex::mval(m, v as u32));
            }
        });
        let stack = self.stack_names(st);
        self.viols.push(Violation { msg, kind: kind.to_string(), model: mm, notes: st.env.notes.clone(), stack });
    }
    /// the property assertion: discharged by the solver, or refuted with a model
    /// One solver query over the assertions of this path that were decided by domain reasoning.
    pub fn confirm(&mut self, st: &mut State) -> R<()> {
        let p = std::mem::take(&mut st.path.pending);
        if p.is_empty() {
            return Ok(());
        }
        let mut bad = ctx(|c| c.k(0, 1));
        let mut uniq = p.clone();
        uniq.sort();
        uniq.dedup();
        for e in uniq {
            bad = ctx(|c| {
                let n = c.not(e);
                c.bin(Op::Or, bad, n)
            });
        }
        let vars = ctx(|c| c.vars(bad));
        let mut q = self.slice(st, &vars);
        q.push(bad);
        self.stats.confirm += 1;
        match self.solver.check(&q) {
            Verdict::Unsat => Ok(()),
            Verdict::Sat(_) => Err(Stop::Unsup("engine: the solver contradicts the domain reasoning".into())),
            Verdict::Unknown => {
                self.stats.assert_unknown += 1;
                Err(Stop::Unsup("solver gave up on an assertion".into()))
            }
        }
    }
    pub fn assert_prop(&mut self, st: &mut State, c: &V, msg: &str) -> R<()> {
        self.stats.asserts += 1;
        let e = match c {
            V::C(x) => {
                if *x & 1 == 1 {
                    self.stats.assert_folded += 1;
                    return Ok(());
                }
                // a concretely false assertion: the path itself is the counterexample; have the
                // solver confirm that the path is satisfiable
                let q = self.all_constraints(st);
                self.stats.assert_queries += 1;
                match self.solver.check(&q) {
                    Verdict::Sat(m) => {
                        let mut mm = (*st.path.model).clone();
                        for (v, b) in m {
                            if mm.len() <= v as usize {
                                mm.resize(v as usize + 1, 0);
                            }
                            mm[v as usize] = b;
                        }
                        self.violation(st, "assert", msg.to_string(), &Rc::new(mm));
                    }
                    Verdict::Unsat => return Err(Stop::Bug("engine: infeasible path reached an assertion".into())),
                    Verdict::Unknown => {
                        self.stats.assert_unknown += 1;
                    }
                }
                return Err(Stop::Dead("assertion violated"));
            }
            V::S(e) => ctx(|c| if c.w(*e) == 1 { *e } else { c.extract(*e, 0, 1) }),
            _ => return Err(Stop::Bug("assert operand".into())),
        };
        let orig = e;
        let e = if ctx(|c| c.cv(e)).is_some() { e } else { self.refined(st, e) };
        if let Some(v) = ctx(|c| c.cv(e)) {
            if v == 1 && e != orig {
                st.path.pending.push(orig);
                self.stats.assert_table += 1;
                return Ok(());
            }
            return self.assert_prop(st, &V::C(v as u64), msg);
        }
        let ne = ctx(|c| c.not(e));
        let vars = ctx(|c| c.vars(ne));
        let mut q = self.slice(st, &vars);
        q.push(ne);
        self.stats.assert_queries += 1;
        match self.solver.check(&q) {
            Verdict::Unsat => {
                self.stats.assert_unsat += 1;
                st.path.known.insert(e, true);
                Ok(())
            }
            Verdict::Unknown => {
                self.stats.assert_unknown += 1;
                Err(Stop::Unsup("solver gave up on an assertion".into()))
            }
            Verdict::Sat(m) => {
                let mut mm = (*st.path.model).clone();
                for (v, b) in m {
                    if mm.len() <= v as usize {
                        mm.resize(v as usize + 1, 0);
                    }
                    mm[v as usize] = b;
                }
                self.violation(st, "assert", msg.to_string(), &Rc::new(mm));
                match self.feasible(st, e)? {
                    Some(m) => {
                        self.assume(st, e, true, m);
                        Ok(())
                    }
                    None => Err(Stop::Dead("assertion violated")),
                }
            }
        }
    }

    #[inline]
    fn opd<'b>(&'b self, regs: &'b [V], o: Opd) -> V {
        match o {
            Opd::R(r) => regs[r as usize].clone(),
            Opd::K(k) => V::C(k),
            Opd::X(x) => self.consts[x as usize].clone(),
        }
    }

    fn take_edge(&self, f: &mut Frame, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.opd(&f.regs, e.copies[0].1);
                f.regs[e.copies[0].0 as usize] = v;
            }
            2 => {
                let v = self.opd(&f.regs, e.copies[0].1);
                let u = self.opd(&f.regs, e.copies[1].1);
                f.regs[e.copies[0].0 as usize] = v;
                f.regs[e.copies[1].0 as usize] = u;
            }
            _ => {
                let vs: Vec<V> = e.copies.iter().map(|c| self.opd(&f.regs, c.1)).collect();
                for (c, v) in e.copies.iter().zip(vs) {
                    f.regs[c.0 as usize] = v;
                }
            }
        }
        f.pc = e.to;
    }

    /// run until something interesting happens
    pub fn run(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0x3fff == 1 {
                if st.steps > self.max_steps {
                    return Stop::Dead("step limit");
                }
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        self.timed_out = true;
                        return Stop::Dead("time limit");
                    }
                }
            }
            match self.run_frame(st) {
                Ok(()) => {
                    if st.frames.is_empty() {
                        if let Err(s) = self.confirm(st) {
                            return s;
                        }
                        return Stop::Done;
                    }
                }
                Err(s) => return s,
            }
        }
    }

    fn run_frame(&mut self, st: &mut State) -> R<()> {
        let p = self.p;
        let fi = st.frames.len() - 1;
        let func = &p.funcs[st.frames[fi].func as usize];
        let fid = st.frames[fi].func;
        let code: &'static [I] = unsafe { std::mem::transmute::<&[I], &'static [I]>(&func.code[..]) };
        let mut steps = 0u64;
        macro_rules! fr {
            () => {
                st.frames[fi]
            };
        }
        macro_rules! o {
            ($x:expr) => {
                self.opd(&st.frames[fi].regs, $x)
            };
        }
        macro_rules! fin {
            ($r:expr) => {{
                st.steps += steps;
                self.stats.steps += steps;
                if !self.prof.is_empty() {
                    self.prof[fid as usize] += steps;
                }
                return $r;
            }};
        }
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(s) => fin!(Err(s)),
                }
            };
        }
        loop {
            steps += 1;
            if steps & 0xfffff == 0 {
                if st.steps + steps > self.max_steps {
                    fin!(Err(Stop::Dead("step limit")));
                }
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        self.timed_out = true;
                        fin!(Err(Stop::Dead("time limit")));
                    }
                }
            }
            let pc = fr!().pc as usize;
            match &code[pc] {
                I::Bin(op, w, d, a, b) => {
                    let f = &mut st.frames[fi];
                    let (x, y) = (self.opd(&f.regs, *a), self.opd(&f.regs, *b));
                    let (x, y) = if matches!(op, Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv) && *w <= 64 {
                        (V::C(tri!(self.conc_v(st, &x))), V::C(tri!(self.conc_v(st, &y))))
                    } else {
                        (x, y)
                    };
                    let r = tri!(bin_v(*op, *w, &x, &y));
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::Cmp(pr, w, d, a, b) => {
                    let (x, y) = (o!(*a), o!(*b));
                    let r = tri!(cmp_v(*pr, *w, &x, &y));
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::CondBr(c, a, b) => {
                    let v = o!(*c);
                    let t = match v {
                        V::C(x) => x & 1 == 1,
                        v => tri!(self.decide_v(st, &v)),
                    };
                    let f = &mut st.frames[fi];
                    self.take_edge(f, if t { a } else { b });
                }
                I::Br(e) => {
                    let f = &mut st.frames[fi];
                    self.take_edge(f, e);
                }
                I::Load(t, d, a) => {
                    let v = match o!(*a) {
                        V::C(ad) => tri!(self.load_ty(st, *t, ad)),
                        V::S(e) => tri!(self.load_sym(st, *t, e)),
                        _ => fin!(Err(Stop::Bug("load address".into()))),
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = v;
                    f.pc += 1;
                }
                I::Store(t, v, a) => {
                    let x = o!(*v);
                    let ad = match o!(*a) {
                        V::C(ad) => ad,
                        V::S(e) => tri!(self.concretize(st, e)) as u64,
                        _ => fin!(Err(Stop::Bug("store address".into()))),
                    };
                    tri!(self.store_ty(st, *t, ad, &x));
                    fr!().pc += 1;
                }
                I::Gep(d, base, off, terms) => {
                    let b = o!(*base);
                    let r = if terms.is_empty() {
                        match b {
                            V::C(x) => V::C(x.wrapping_add(*off as u64)),
                            b => tri!(bin_v(Bop::Add, 64, &b, &V::C(*off as u64))),
                        }
                    } else {
                        let mut acc = match b {
                            V::C(x) => V::C(x.wrapping_add(*off as u64)),
                            b => tri!(bin_v(Bop::Add, 64, &b, &V::C(*off as u64))),
                        };
                        for (o_, sc, w) in terms.iter() {
                            let i = o!(*o_);
                            acc = match (&acc, &i) {
                                (V::C(x), V::C(y)) => V::C(x.wrapping_add((sx(*y, *w)).wrapping_mul(*sc) as u64)),
                                _ => {
                                    let ie = toexpr(&i, *w);
                                    let e = ctx(|c| {
                                        let x = c.sext(ie, 64);
                                        let k = c.k(*sc as u64 as u128, 64);
                                        c.bin(Op::Mul, x, k)
                                    });
                                    tri!(bin_v(Bop::Add, 64, &acc, &fromexpr(e)))
                                }
                            };
                        }
                        acc
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::Cast(k, ft, tt, d, a) => {
                    let v = o!(*a);
                    let r = match k {
                        Cop::Nop => v,
                        Cop::ZExt | Cop::SExt | Cop::Trunc => {
                            let fw = self.width(*ft);
                            let tw = self.width(*tt);
                            if let V::A(es) = &v {
                                let mut r = vec![];
                                for e in es.iter() {
                                    r.push(cast1(*k, fw, tw, e));
                                }
                                V::A(Rc::new(r))
                            } else {
                                cast1(*k, fw, tw, &v)
                            }
                        }
                        Cop::Bit => tri!(self.bitcast(*ft, *tt, v)),
                        Cop::Fp => fin!(Err(Stop::Unsup("float cast".into()))),
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::Select(d, c, a, b, w) => {
                    let cv = o!(*c);
                    let r = match &cv {
                        V::C(x) => {
                            if *x & 1 == 1 {
                                o!(*a)
                            } else {
                                o!(*b)
                            }
                        }
                        V::S(e) => {
                            let (x, y) = (o!(*a), o!(*b));
                            match (&x, &y) {
                                (V::C(p), V::C(q)) if p == q => x,
                                _ => match ite_v(*e, &x, &y, if *w > 0 { Some(*w) } else { None }) {
                                    Ok(v) => v,
                                    Err(_) => {
                                        if tri!(self.decide(st, *e)) {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                },
                            }
                        }
                        V::A(cs) => {
                            let (x, y) = (o!(*a), o!(*b));
                            match (&x, &y) {
                                (V::A(x), V::A(y)) => {
                                    let mut r = vec![];
                                    for i in 0..cs.len() {
                                        r.push(match &cs[i] {
                                            V::C(k) => {
                                                if *k & 1 == 1 {
                                                    x[i].clone()
                                                } else {
                                                    y[i].clone()
                                                }
                                            }
                                            V::S(e) => tri!(ite_v(*e, &x[i], &y[i], Some(*w))),
                                            _ => fin!(Err(Stop::Unsup("vector select".into()))),
                                        });
                                    }
                                    V::A(Rc::new(r))
                                }
                                _ => fin!(Err(Stop::Unsup("vector select".into()))),
                            }
                        }
                        _ => fin!(Err(Stop::Unsup("select".into()))),
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::Alloca(d, off) => {
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = V::C(f.stack + off);
                    f.pc += 1;
                }
                I::AllocaDyn(d, size, n) => {
                    let n = o!(*n);
                    let n = tri!(self.conc_v(st, &n));
                    let a = st.mem.alloc(size * n, false);
                    let f = &mut st.frames[fi];
                    f.dynobjs.push(a >> 32);
                    f.regs[*d as usize] = V::C(a);
                    f.pc += 1;
                }
                I::Switch(v, w, cases, edges) => {
                    let x = o!(*v);
                    let e = match x {
                        V::C(x) => match cases.binary_search_by_key(&x, |c| c.0) {
                            Ok(i) => cases[i].1,
                            Err(_) => 0,
                        },
                        V::S(e) => {
                            let mut taken = 0;
                            let w = *w;
                            for ei in 1..edges.len() as u32 {
                                let c = ctx(|c| {
                                    let mut acc = c.k(0, 1);
                                    for (k, t) in cases.iter() {
                                        if *t == ei {
                                            let kk = c.k(*k as u128, w);
                                            let q = c.eq(e, kk);
                                            acc = c.bin(Op::Or, acc, q);
                                        }
                                    }
                                    acc
                                });
                                if tri!(self.decide(st, c)) {
                                    taken = ei;
                                    break;
                                }
                            }
                            taken
                        }
                        _ => fin!(Err(Stop::Unsup("switch operand".into()))),
                    };
                    let f = &mut st.frames[fi];
                    self.take_edge(f, &edges[e as usize]);
                }
                I::Call(d, callee, args) => {
                    let target = match callee {
                        Callee::Direct(f) => *f,
                        Callee::Indirect(x) => {
                            let v = o!(*x);
                            let a = tri!(self.conc_v(st, &v));
                            let idx = a.wrapping_sub(FN_OBJ << 32);
                            if idx % 16 != 0 || idx / 16 >= p.funcs.len() as u64 {
                                fin!(Err(Stop::Bug(format!("call of invalid address {:#x}", a))));
                            }
                            (idx / 16) as u32
                        }
                    };
                    let tf = &p.funcs[target as usize];
                    let mut av: Vec<V> = Vec::with_capacity((tf.nregs as usize).max(args.len()));
                    for a in args.iter() {
                        av.push(o!(*a));
                    }
                    if tf.hook != 0 {
                        let h = self.hooks[tf.hook as usize];
                        match tri!(h(self, st, target, av, *d)) {
                            HR::Val(v) => {
                                let f = &mut st.frames[fi];
                                if let Some(d) = d {
                                    f.regs[*d as usize] = v;
                                }
                                f.pc += 1;
                            }
                            HR::Void => {
                                fr!().pc += 1;
                            }
                            HR::Jump => {
                                fin!(Ok(()));
                            }
                            HR::Default(av) => {
                                tri!(self.push_call(st, target, av, *d, Marker::None));
                                st.frames[fi].pc += 1;
                                fin!(Ok(()));
                            }
                        }
                    } else {
                        if !tf.defined {
                            fin!(Err(Stop::Unsup(format!("external function {}", tf.name))));
                        }
                        let mut mk = Marker::None;
                        if tf.memo {
                            match tri!(self.memo_call(st, target, &av)) {
                                None => {
                                    fr!().pc += 1;
                                    fin!(Ok(()));
                                }
                                Some(m) => mk = m,
                            }
                        }
                        tri!(self.push_call(st, target, av, *d, mk));
                        st.frames[fi].pc += 1;
                        fin!(Ok(()));
                    }
                }
                I::Ret(v) => {
                    let rv = v.map(|x| o!(x));
                    let f = self.pop_frame(st);
                    if let Marker::Memo(r) = &f.marker {
                        self.memo_done(st, r);
                    }
                    match f.marker {
                        Marker::None | Marker::Memo(_) => {
                            if let Some(rv) = rv {
                                self.set_ret(st, f.ret, rv);
                            }
                        }
                        Marker::Try => self.set_ret(st, f.ret, V::C(0)),
                        Marker::App => {
                            let code = match rv {
                                Some(V::C(x)) => x & 0xff,
                                _ => 0,
                            };
                            st.env.app_done(code as i32);
                            self.set_ret(st, f.ret, V::C(code));
                        }
                    }
                    fin!(Ok(()));
                }
                I::Unreachable => {
                    fin!(Err(Stop::Bug(format!("reached unreachable in {}", func.name))))
                }
                I::Extract(d, a, idx) => {
                    let v = o!(*a);
                    let mut cur = &v;
                    for &i in idx.iter() {
                        match cur {
                            V::A(x) => cur = &x[i as usize],
                            _ => fin!(Err(Stop::Bug("extractvalue".into()))),
                        }
                    }
                    let r = cur.clone();
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::Insert(d, a, v, idx) => {
                    let mut agg = o!(*a);
                    let x = o!(*v);
                    fn ins(a: &mut V, i: &[u32], x: V) -> bool {
                        match a {
                            V::A(r) => {
                                let s = &mut Rc::make_mut(r)[i[0] as usize];
                                if i.len() == 1 {
                                    *s = x;
                                    true
                                } else {
                                    ins(s, &i[1..], x)
                                }
                            }
                            _ => false,
                        }
                    }
                    if !ins(&mut agg, idx, x) {
                        fin!(Err(Stop::Bug("insertvalue".into())));
                    }
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = agg;
                    f.pc += 1;
                }
                I::Rmw(op, w, d, ptr, v) => {
                    let pv = o!(*ptr);
                    let ad = tri!(self.conc_v(st, &pv));
                    let x = o!(*v);
                    let n = ((*w + 7) / 8) as usize;
                    let old = tri!(self.load_n(st, ad, n));
                    let new = match op {
                        0 => x,
                        1 => tri!(bin_v(Bop::Add, *w, &old, &x)),
                        2 => tri!(bin_v(Bop::Sub, *w, &old, &x)),
                        3 => tri!(bin_v(Bop::And, *w, &old, &x)),
                        4 => tri!(bin_v(Bop::Or, *w, &old, &x)),
                        5 => tri!(bin_v(Bop::Xor, *w, &old, &x)),
                        _ => {
                            let (a, b) = match (old.u(), x.u()) {
                                (Some(a), Some(b)) => (a, b),
                                _ => fin!(Err(Stop::Unsup("rmw".into()))),
                            };
                            V::C(if *op == 6 { a.max(b) } else { a.min(b) } as u64)
                        }
                    };
                    tri!(self.store_n(st, ad, n, &new));
                    let f = &mut st.frames[fi];
                    if *d != u32::MAX {
                        f.regs[*d as usize] = old;
                    }
                    f.pc += 1;
                }
                I::CmpXchg(w, d, ptr, a, b) => {
                    let pv = o!(*ptr);
                    let ad = tri!(self.conc_v(st, &pv));
                    let n = ((*w + 7) / 8) as usize;
                    let old = tri!(self.load_n(st, ad, n));
                    let want = o!(*a);
                    let c = tri!(cmp_v(Pred::Eq, *w, &old, &want));
                    let ok = tri!(self.decide_v(st, &c));
                    if ok {
                        let nv = o!(*b);
                        tri!(self.store_n(st, ad, n, &nv));
                    }
                    let f = &mut st.frames[fi];
                    if *d != u32::MAX {
                        f.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)]));
                    }
                    f.pc += 1;
                }
                I::Freeze(d, a) => {
                    let v = o!(*a);
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = v;
                    f.pc += 1;
                }
                I::VBin(op, w, d, a, b) => {
                    let r = match (o!(*a), o!(*b)) {
                        (V::A(x), V::A(y)) => {
                            let mut r = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                r.push(tri!(bin_v(*op, *w, p, q)));
                            }
                            V::A(Rc::new(r))
                        }
                        _ => fin!(Err(Stop::Bug("vector op".into()))),
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::VCmp(pr, w, d, a, b) => {
                    let r = match (o!(*a), o!(*b)) {
                        (V::A(x), V::A(y)) => {
                            let mut r = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                r.push(tri!(cmp_v(*pr, *w, p, q)));
                            }
                            V::A(Rc::new(r))
                        }
                        _ => fin!(Err(Stop::Bug("vector op".into()))),
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::ExtElem(d, a, i) => {
                    let iv = o!(*i);
                    let i = tri!(self.conc_v(st, &iv)) as usize;
                    let r = match o!(*a) {
                        V::A(x) => x[i].clone(),
                        _ => fin!(Err(Stop::Bug("extractelement".into()))),
                    };
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = r;
                    f.pc += 1;
                }
                I::InsElem(d, a, v, i, n) => {
                    let iv = o!(*i);
                    let i = tri!(self.conc_v(st, &iv)) as usize;
                    let x = o!(*v);
                    let mut r = match o!(*a) {
                        V::A(x) => x,
                        _ => Rc::new(vec![V::C(0); *n as usize]),
                    };
                    Rc::make_mut(&mut r)[i] = x;
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = V::A(r);
                    f.pc += 1;
                }
                I::Shuffle(d, a, b, m, n) => {
                    let (x, y) = (o!(*a), o!(*b));
                    let mut r = vec![];
                    for &i in m.iter() {
                        let pick = |v: &V, i: usize| match v {
                            V::A(x) => x[i].clone(),
                            _ => V::C(0),
                        };
                        r.push(if i < 0 {
                            V::C(0)
                        } else if (i as u32) < *n {
                            pick(&x, i as usize)
                        } else {
                            pick(&y, i as usize - *n as usize)
                        });
                    }
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = V::A(Rc::new(r));
                    f.pc += 1;
                }
                I::Fp(k, w, rw, d, a, b) => {
                    let (a, b) = (o!(*a), o!(*b));
                    let x = tri!(self.conc_v(st, &a));
                    let y = tri!(self.conc_v(st, &b));
                    let r = tri!(fp(*k, *w, *rw, x, y));
                    let f = &mut st.frames[fi];
                    f.regs[*d as usize] = V::C(r);
                    f.pc += 1;
                }
                I::Nop => fr!().pc += 1,
                I::Unsup(s) => fin!(Err(Stop::Unsup(format!("instruction {} in {}", s, func.name)))),
            }
        }
    }
    pub fn width(&self, t: TyId) -> u32 {
        match &self.p.types.v[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(_, e) => self.width(*e),
            _ => 0,
        }
    }
    fn bitcast(&mut self, ft: TyId, tt: TyId, v: V) -> R<V> {
        if ft == tt {
            return Ok(v);
        }
        let p = self.p;
        // flatten to (width, value), low element first
        let (fw, fes): (u32, Vec<V>) = match (&p.types.v[ft as usize], v) {
            (Ty::Vec(_, e), V::A(x)) => (self.width(*e), x.to_vec()),
            (_, v) => (self.width(ft), vec![v]),
        };
        let (tw, tn) = match &p.types.v[tt as usize] {
            Ty::Vec(n, e) => (self.width(*e), *n),
            _ => (self.width(tt), 1),
        };
        let total = fw * fes.len() as u32;
        if total > 128 {
            return Err(Stop::Unsup("bitcast > 128 bits".into()));
        }
        let all: Vec<V> = if fes.iter().all(|x| x.u().is_some()) {
            let mut acc = 0u128;
            for (i, x) in fes.iter().enumerate() {
                acc |= (x.u().unwrap() & mask(fw)) << (i as u32 * fw);
            }
            (0..tn).map(|i| mkv((acc >> (i * tw)) & mask(tw), tw)).collect()
        } else {
            let mut e = toexpr(&fes[0], fw);
            for x in &fes[1..] {
                let h = toexpr(x, fw);
                e = ctx(|c| c.concat(h, e));
            }
            (0..tn).map(|i| fromexpr(ctx(|c| c.extract(e, i * tw, tw)))).collect()
        };
        Ok(match &p.types.v[tt as usize] {
            Ty::Vec(..) => V::A(Rc::new(all)),
            _ => all.into_iter().next().unwrap(),
        })
    }
}

fn cast1(k: Cop, fw: u32, tw: u32, v: &V) -> V {
    match v {
        V::C(x) if tw <= 64 => V::C(match k {
            Cop::ZExt => *x,
            Cop::SExt => sx(*x, fw) as u64 & m64(tw),
            _ => *x & m64(tw),
        }),
        V::S(e) => fromexpr(ctx(|c| match k {
            Cop::ZExt => c.zext(*e, tw),
            Cop::SExt => c.sext(*e, tw),
            _ => c.extract(*e, 0, tw),
        })),
        v => {
            let x = v.u().unwrap();
            mkv(
                match k {
                    Cop::ZExt => x,
                    Cop::SExt => sext(x, fw) as u128 & mask(tw),
                    _ => x & mask(tw),
                },
                tw,
            )
        }
    }
}

pub fn pick(s: &[u64; 4]) -> u8 {
    // prefer letters, then printable characters
    for r in [65..91usize, 48..58, 97..123, 32..127, 0..256] {
        for v in r {
            if s[v / 64] >> (v % 64) & 1 == 1 {
                return v as u8;
            }
        }
    }
    0
}

/// "variable v lies in the set" as a disjunction of intervals
pub fn set_expr(v: u32, s: &[u64; 4]) -> E {
    let has = |x: usize| s[x / 64] >> (x % 64) & 1 == 1;
    ctx(|c| {
        let name = c.var_names[v as usize].clone();
        let (_, x) = c.var(&name);
        let mut acc = c.k(0, 1);
        let mut i = 0;
        while i < 256 {
            if has(i) {
                let st = i;
                while i < 256 && has(i) {
                    i += 1;
                }
                let en = i - 1;
                let t = if st == en {
                    let k = c.k(st as u128, 8);
                    c.eq(x, k)
                } else {
                    let mut t = c.k(1, 1);
                    if st > 0 {
                        let k = c.k(st as u128, 8);
                        let l = c.ult(x, k);
                        t = c.not(l);
                    }
                    if en < 255 {
                        let k = c.k(en as u128 + 1, 8);
                        let u = c.ult(x, k);
                        t = c.bin(Op::And, t, u);
                    }
                    t
                };
                acc = c.bin(Op::Or, acc, t);
            } else {
                i += 1;
            }
        }
        acc
    })
}
