//! Hash-consed bit-vector expressions (width 1..=128) with aggressive local simplification.
//! All symbolic inputs are 8-bit variables.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract, // val = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub val: u128,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sup {
    None,
    One(u32),
    Many,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    map: HashMap<Node, E, Fx>,
    pub var_names: Vec<String>,
    var_ids: HashMap<String, u32>,
    varsets: HashMap<E, Rc<Vec<u32>>, Fx>,
    tables: HashMap<E, Rc<[u64; 4]>, Fx>,
    eqc: HashMap<(E, u128), E, Fx>,
    vecs: HashMap<E, Rc<Vec<u128>>, Fx>,
    // evaluation memo
    memo: Vec<u128>,
    stamp: Vec<u32>,
    epoch: u32,
}

#[derive(Clone, Default)]
pub struct Fx;
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new()); }

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Ctx {
    fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            sup: vec![],
            map: HashMap::with_hasher(Fx),
            var_names: vec![],
            var_ids: HashMap::new(),
            varsets: HashMap::with_hasher(Fx),
            tables: HashMap::with_hasher(Fx),
            vecs: HashMap::with_hasher(Fx),
            eqc: HashMap::with_hasher(Fx),
            memo: vec![],
            stamp: vec![],
            epoch: 0,
        };
        // index 0 is a dummy so that 0 can mean "concrete"
        c.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, val: 0 });
        c.sup.push(Sup::None);
        c
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let s = match n.op {
            Op::Const => Sup::None,
            Op::Var => Sup::One(n.val as u32),
            _ => {
                let mut s = Sup::None;
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s = match (s, self.sup[x as usize]) {
                            (Sup::None, t) => t,
                            (t, Sup::None) => t,
                            (Sup::One(a), Sup::One(b)) if a == b => Sup::One(a),
                            _ => Sup::Many,
                        }
                    }
                }
                s
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, e);
        e
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, val: v & mask(w) })
    }
    pub fn var(&mut self, name: &str) -> (u32, E) {
        let id = match self.var_ids.get(name) {
            Some(&i) => i,
            None => {
                let i = self.var_names.len() as u32;
                self.var_names.push(name.to_string());
                self.var_ids.insert(name.to_string(), i);
                i
            }
        };
        (id, self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, val: id as u128 }))
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.val)
        } else {
            None
        }
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, val: u128) -> E {
        self.mk(Node { op, w, a, b, c, val })
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.k(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.k(mask(w), w);
        self.bin(Op::Mul, a, m)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.k(0, w);
        }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }

    /// split into (node, coeff)
    fn lin_term(&self, e: E) -> (E, u128) {
        let n = self.n(e);
        if n.op == Op::Mul {
            if let Some(k) = self.cv(n.b) {
                return (n.a, k);
            }
        }
        (e, 1)
    }
    fn flatten_add(&self, e: E, out: &mut Vec<(E, u128)>, k: &mut u128) {
        let mut cur = e;
        loop {
            let n = self.n(cur);
            match n.op {
                Op::Add => {
                    self.flatten_add(n.b, out, k);
                    cur = n.a;
                }
                Op::Const => {
                    *k = k.wrapping_add(n.val);
                    return;
                }
                _ => {
                    out.push(self.lin_term(cur));
                    return;
                }
            }
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(fold(op, x, y, w), w);
        }
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if ka == Some(0) {
                    return b;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                let mut t = vec![];
                let mut k = 0u128;
                self.flatten_add(a, &mut t, &mut k);
                self.flatten_add(b, &mut t, &mut k);
                k &= mask(w);
                if t.len() > 2000 {
                    return self.raw(Op::Add, w, a, b, 0, 0);
                }
                t.sort_unstable_by_key(|x| x.0);
                let mut m: Vec<(E, u128)> = vec![];
                for (e, c) in t {
                    match m.last_mut() {
                        Some(l) if l.0 == e => l.1 = l.1.wrapping_add(c) & mask(w),
                        _ => m.push((e, c & mask(w))),
                    }
                }
                m.retain(|x| x.1 != 0);
                let mut acc: Option<E> = None;
                for (e, c) in m {
                    let term = if c == 1 {
                        e
                    } else {
                        let kc = self.k(c, w);
                        self.raw(Op::Mul, w, e, kc, 0, 0)
                    };
                    acc = Some(match acc {
                        None => term,
                        Some(x) => self.raw(Op::Add, w, x, term, 0, 0),
                    });
                }
                match acc {
                    None => self.k(k, w),
                    Some(x) if k == 0 => x,
                    Some(x) => {
                        let kk = self.k(k, w);
                        self.raw(Op::Add, w, x, kk, 0, 0)
                    }
                }
            }
            Op::Mul => {
                if ka.is_some() {
                    return self.bin(Op::Mul, b, a);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Mul {
                        if let Some(k2) = self.cv(n.b) {
                            let kk = self.k(k.wrapping_mul(k2), w);
                            return self.bin(Op::Mul, n.a, kk);
                        }
                    }
                    if n.op == Op::Add {
                        let x = self.bin(Op::Mul, n.a, b);
                        let y = self.bin(Op::Mul, n.b, b);
                        return self.bin(Op::Add, x, y);
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(Op::Mul, w, a, b, 0, 0)
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if ka.is_some() {
                    return self.bin(Op::And, b, a);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if (k & (k + 1)) == 0 {
                        let bits = k.trailing_ones();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    // contiguous mask shifted
                    let tz = k.trailing_zeros();
                    let kk = k >> tz;
                    if (kk & (kk + 1)) == 0 {
                        let bits = kk.trailing_ones();
                        let x = self.extract(a, tz, bits);
                        let z = self.k(0, tz);
                        let c = self.concat(x, z);
                        return self.zext(c, w);
                    }
                    let n = self.n(a);
                    if n.op == Op::And {
                        if let Some(k2) = self.cv(n.b) {
                            let kk = self.k(k & k2, w);
                            return self.bin(Op::And, n.a, kk);
                        }
                    }
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let hk = self.k(k >> lw, w - lw);
                        let lk = self.k(k, lw);
                        let h = self.bin(Op::And, n.a, hk);
                        let l = self.bin(Op::And, n.b, lk);
                        return self.concat(h, l);
                    }
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let ik = self.k(k, iw);
                        let x = self.bin(Op::And, n.a, ik);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.k(0, 1);
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(Op::And, w, a, b, 0, 0)
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if ka.is_some() {
                    return self.bin(Op::Or, b, a);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return b;
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.k(1, 1);
                    }
                }
                // disjoint concat: low part of one is zero and the other is small
                if w > 1 {
                    if let Some(r) = self.or_disjoint(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_disjoint(b, a, w) {
                        return r;
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(Op::Or, w, a, b, 0, 0)
            }
            Op::Xor => {
                if a == b {
                    return self.k(0, w);
                }
                if ka.is_some() {
                    return self.bin(Op::Xor, b, a);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(k2) = self.cv(n.b) {
                            let kk = self.k(k ^ k2, w);
                            return self.bin(Op::Xor, n.a, kk);
                        }
                    }
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let hk = self.k(k >> lw, w - lw);
                        let lk = self.k(k, lw);
                        let h = self.bin(Op::Xor, n.a, hk);
                        let l = self.bin(Op::Xor, n.b, lk);
                        return self.concat(h, l);
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                self.raw(Op::Xor, w, a, b, 0, 0)
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.k(0, k as u32);
                    return self.concat(x, z);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.k(0, w);
                    }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.k(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if let Some(r) = self.narrow2(op, a, k, w) {
                        return r;
                    }
                }
                self.raw(op, w, a, b, 0, 0)
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let m = self.k(k - 1, w);
                        return self.bin(Op::And, a, m);
                    }
                    if let Some(r) = self.narrow2(op, a, k, w) {
                        return r;
                    }
                }
                self.raw(op, w, a, b, 0, 0)
            }
            _ => self.raw(op, w, a, b, 0, 0),
        }
    }
    fn narrow2(&mut self, op: Op, a: E, k: u128, w: u32) -> Option<E> {
        let n = self.n(a);
        if n.op == Op::ZExt {
            let iw = self.w(n.a);
            if k <= mask(iw) {
                let kk = self.k(k, iw);
                let x = self.bin(op, n.a, kk);
                return Some(self.zext(x, w));
            } else if op == Op::UDiv {
                return Some(self.k(0, w));
            } else {
                return Some(a);
            }
        }
        None
    }
    fn or_disjoint(&mut self, hi: E, lo: E, w: u32) -> Option<E> {
        // hi = [zext] concat(x, 0_k), lo = zext(y) with w(y) <= k  (or const fitting)
        let nh = self.n(hi);
        let (core, cw) = if nh.op == Op::ZExt { (nh.a, self.w(nh.a)) } else { (hi, w) };
        let nc = self.n(core);
        if nc.op != Op::Concat {
            return None;
        }
        // collect trailing zero const
        let kz = self.cv(nc.b)?;
        if kz != 0 {
            return None;
        }
        let lw = self.w(nc.b);
        let nl = self.n(lo);
        let y = match nl.op {
            Op::ZExt if self.w(nl.a) <= lw => self.zext(nl.a, lw),
            Op::Const if nl.val <= mask(lw) => self.k(nl.val, lw),
            _ => return None,
        };
        let c = self.concat(nc.a, y);
        debug_assert_eq!(self.w(c), cw);
        Some(self.zext(c, w))
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.k(k, w);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.raw(Op::ZExt, w, n.a, 0, 0, 0);
        }
        if n.op == Op::Concat && self.cv(n.a) == Some(0) {
            return self.zext(n.b, w);
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.k(sext(k, aw) as u128, w);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.raw(Op::ZExt, w, n.a, 0, 0, 0);
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.k(k >> lo, w);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => self.extract(n.a, lo + n.val as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.k(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(n.a, iw - 1, 1);
                    self.sext(x, w)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Mul if lo == 0 => {
                if n.op == Op::Add {
                    // avoid deep recursion / quadratic behaviour on long sums
                    let mut t = vec![];
                    let mut k = 0u128;
                    self.flatten_add(a, &mut t, &mut k);
                    if t.len() > 2 {
                        let mut m: Vec<(E, u128)> = vec![];
                        for (e, c) in t {
                            let x = self.extract(e, 0, w);
                            if let Some(kk) = self.cv(x) {
                                k = k.wrapping_add(kk.wrapping_mul(c));
                            } else {
                                let kc = self.k(c, w);
                                let y = self.bin(Op::Mul, x, kc);
                                let mut k2 = 0;
                                self.flatten_add(y, &mut m, &mut k2);
                                k = k.wrapping_add(k2);
                            }
                        }
                        return self.sum(m, k, w);
                    }
                }
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                // push only when it is going to simplify (constants at leaves)
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.raw(Op::Extract, w, a, 0, 0, lo as u128)
                }
            }
            _ => self.raw(Op::Extract, w, a, 0, 0, lo as u128),
        }
    }
    fn sum(&mut self, mut t: Vec<(E, u128)>, k: u128, w: u32) -> E {
        t.sort_unstable_by_key(|x| x.0);
        let mut m: Vec<(E, u128)> = vec![];
        for (e, c) in t {
            match m.last_mut() {
                Some(l) if l.0 == e => l.1 = l.1.wrapping_add(c) & mask(w),
                _ => m.push((e, c & mask(w))),
            }
        }
        m.retain(|x| x.1 != 0);
        let k = k & mask(w);
        let mut acc: Option<E> = None;
        for (e, c) in m {
            let term = if c == 1 {
                e
            } else {
                let kc = self.k(c, w);
                self.raw(Op::Mul, w, e, kc, 0, 0)
            };
            acc = Some(match acc {
                None => term,
                Some(x) => self.raw(Op::Add, w, x, term, 0, 0),
            });
        }
        match acc {
            None => self.k(k, w),
            Some(x) if k == 0 => x,
            Some(x) => {
                let kk = self.k(k, w);
                self.raw(Op::Add, w, x, kk, 0, 0)
            }
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        if hw == 0 {
            return lo;
        }
        if lw == 0 {
            return hi;
        }
        let w = hw + lw;
        match (self.cv(hi), self.cv(lo)) {
            (Some(a), Some(b)) => return self.k((a << lw) | b, w),
            (Some(0), _) => return self.zext(lo, w),
            _ => {}
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.val as u32 == nl.val as u32 + lw {
            return self.extract(nh.a, nl.val as u32, w);
        }
        // the low part of a sum is no extract of it but a smaller sum
        if nh.op == Op::Extract && nh.val as u32 >= lw {
            let at = nh.val as u32 - lw;
            if self.extract(nh.a, at, lw) == lo {
                return self.extract(nh.a, at, w);
            }
        }
        // lo may be the complete low part: extract(x, lw..) ++ x[0..lw] handled above; hi = extract, lo = concat(extract, r)
        if nl.op == Op::Concat {
            let h2 = self.n(nl.a);
            if nh.op == Op::Extract && h2.op == Op::Extract && nh.a == h2.a && nh.val as u32 == h2.val as u32 + h2.w {
                let h = self.extract(nh.a, h2.val as u32, nh.w + h2.w);
                return self.concat(h, nl.b);
            }
            if let (Some(a), Some(b)) = (self.cv(hi), self.cv(nl.a)) {
                let bw = self.w(nl.a);
                let k = self.k((a << bw) | b, hw + bw);
                return self.concat(k, nl.b);
            }
        }
        // right-assoc normal form
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        // sext of same: extract(sext)...
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.k((x == y) as u128, 1),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(k)) => return self.eq_const(a, k),
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.eq(na.a, nb.a);
            let l = self.eq(na.b, nb.b);
            return self.bin(Op::And, h, l);
        }
        if w == 1 {
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        if (na.op == Op::Add || nb.op == Op::Add) && w <= 64 {
            // x + k1 == x + k2  -> decide by difference when it is constant
            let d = self.sub(a, b);
            if let Some(k) = self.cv(d) {
                return self.k((k == 0) as u128, 1);
            }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    fn eq_const(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let k = k & mask(w);
        if w == 1 {
            return if k == 1 { a } else { self.not(a) };
        }
        let n = self.n(a);
        match n.op {
            Op::Const => return self.k((n.val == k) as u128, 1),
            Op::ZExt => {
                let iw = self.w(n.a);
                if k > mask(iw) {
                    return self.k(0, 1);
                }
                return self.eq_const(n.a, k);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if (sext(k & mask(iw), iw) as u128) & mask(w) != k {
                    return self.k(0, 1);
                }
                return self.eq_const(n.a, k & mask(iw));
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.eq_const(n.a, k >> lw);
                if self.cv(h) == Some(0) {
                    return h;
                }
                let l = self.eq_const(n.b, k & mask(lw));
                return self.bin(Op::And, h, l);
            }
            Op::Xor => {
                if let Some(k2) = self.cv(n.b) {
                    return self.eq_const(n.a, k ^ k2);
                }
            }
            Op::Add => {
                if let Some(k2) = self.cv(n.b) {
                    return self.eq_const(n.a, k.wrapping_sub(k2) & mask(w));
                }
            }
            Op::Ite => {
                if let Some(&r) = self.eqc.get(&(a, k)) {
                    return r;
                }
                // collect the chain iteratively
                let mut chain = vec![];
                let mut cur = a;
                loop {
                    let m = self.n(cur);
                    if m.op == Op::Ite && self.cv(m.b).is_some() {
                        chain.push((m.a, self.cv(m.b).unwrap()));
                        cur = m.c;
                    } else {
                        break;
                    }
                }
                let m = self.n(cur);
                let mut r = if m.op == Op::Ite {
                    if self.cv(m.c).is_some() || cur != a {
                        let t = self.eq_const(m.b, k);
                        let f = self.eq_const(m.c, k);
                        self.ite(m.a, t, f)
                    } else {
                        let kk = self.k(k, w);
                        self.raw(Op::Eq, 1, cur, kk, 0, 0)
                    }
                } else {
                    self.eq_const(cur, k)
                };
                for (c, v) in chain.into_iter().rev() {
                    r = if v == k {
                        self.bin(Op::Or, c, r)
                    } else {
                        let nc = self.not(c);
                        self.bin(Op::And, nc, r)
                    };
                }
                self.eqc.insert((a, k), r);
                return r;
            }
            _ => {}
        }
        let kk = self.k(k, w);
        self.raw(Op::Eq, 1, a, kk, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        let (ka, kb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k((x < y) as u128, 1);
        }
        if kb == Some(0) || ka == Some(mask(w)) {
            return self.k(0, 1);
        }
        if kb == Some(1) {
            return self.eq_const(a, 0);
        }
        if ka == Some(0) {
            let e = self.eq_const(b, 0);
            return self.not(e);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(k) = kb {
                if k > mask(iw) {
                    return self.k(1, 1);
                }
                let kk = self.k(k, iw);
                return self.ult(na.a, kk);
            }
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                return self.ult(na.a, nb.a);
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if let Some(k) = ka {
                if k >= mask(iw) {
                    return self.k(0, 1);
                }
                let kk = self.k(k, iw);
                return self.ult(kk, nb.a);
            }
        }
        if w == 1 {
            let na = self.not(a);
            return self.bin(Op::And, na, b);
        }
        // push through ite with constant branches
        if na.op == Op::Ite && kb.is_some() && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
            let t = self.ult(na.b, b);
            let f = self.ult(na.c, b);
            return self.ite(na.a, t, f);
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.k(0, 1);
        }
        let w = self.w(a);
        let (ka, kb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let nonneg = |c: &Ctx, n: &Node, k: Option<u128>| match k {
            Some(v) => sext(v, w) >= 0,
            None => n.op == Op::ZExt || (n.op == Op::Concat && matches!(c.cv(n.a), Some(v) if c.w(n.a)>0 && sext(v, c.w(n.a))>=0)),
        };
        let (pa, pb) = (nonneg(self, &na, ka), nonneg(self, &nb, kb));
        if pa && pb {
            return self.ult(a, b);
        }
        if kb == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if ka == Some(mask(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        if pa {
            if let Some(k) = kb {
                if sext(k, w) < 0 {
                    return self.k(0, 1);
                }
            }
        }
        if pb {
            if let Some(k) = ka {
                if sext(k, w) < 0 {
                    return self.k(1, 1);
                }
            }
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        // negated condition
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    // ---------- evaluation ----------
    pub fn begin_eval(&mut self) {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, 0);
            self.stamp.resize(self.nodes.len() + 1024, 0);
        }
    }
    pub fn eval_in(&mut self, e: E, f: &dyn Fn(u32) -> u8) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.val,
            Op::Var => return f(n.val as u32) as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.epoch {
            return self.memo[e as usize];
        }
        let w = n.w;
        let r = match n.op {
            Op::Ite => {
                if self.eval_in(n.a, f) == 1 {
                    self.eval_in(n.b, f)
                } else {
                    self.eval_in(n.c, f)
                }
            }
            Op::ZExt => self.eval_in(n.a, f),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.eval_in(n.a, f), iw) as u128 & mask(w)
            }
            Op::Extract => (self.eval_in(n.a, f) >> n.val as u32) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_in(n.a, f) << lw) | self.eval_in(n.b, f)
            }
            Op::Eq => (self.eval_in(n.a, f) == self.eval_in(n.b, f)) as u128,
            Op::Ult => (self.eval_in(n.a, f) < self.eval_in(n.b, f)) as u128,
            Op::Slt => {
                let iw = self.w(n.a);
                (sext(self.eval_in(n.a, f), iw) < sext(self.eval_in(n.b, f), iw)) as u128
            }
            Op::And if w == 1 => {
                if self.eval_in(n.b, f) == 0 {
                    0
                } else {
                    self.eval_in(n.a, f)
                }
            }
            Op::Or if w == 1 => {
                if self.eval_in(n.b, f) == 1 {
                    1
                } else {
                    self.eval_in(n.a, f)
                }
            }
            op => {
                let x = self.eval_in(n.a, f);
                let y = self.eval_in(n.b, f);
                fold(op, x, y, w)
            }
        };
        self.memo[e as usize] = r;
        self.stamp[e as usize] = self.epoch;
        r
    }
    pub fn eval(&mut self, e: E, f: &dyn Fn(u32) -> u8) -> u128 {
        self.begin_eval();
        self.eval_in(e, f)
    }
    /// truth table of a boolean expression over one 8-bit variable
    pub fn table(&mut self, e: E) -> Rc<[u64; 4]> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        // post-order of the nodes whose values are not known yet
        self.begin_eval();
        let mut order: Vec<E> = vec![];
        let mut st: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if done {
                self.memo[x as usize] = order.len() as u128;
                order.push(x);
                continue;
            }
            let n = self.nodes[x as usize];
            if self.stamp[x as usize] == self.epoch || n.op == Op::Const || n.op == Op::Var {
                continue;
            }
            self.stamp[x as usize] = self.epoch;
            if self.vecs.contains_key(&x) {
                self.memo[x as usize] = u128::MAX;
                continue;
            }
            st.push((x, true));
            for y in [n.a, n.b, n.c] {
                if y != 0 {
                    st.push((y, false));
                }
            }
        }
        let mut vals: Vec<Rc<Vec<u128>>> = Vec::with_capacity(order.len());
        let zero = Rc::new(vec![]);
        for (i, &x) in order.iter().enumerate() {
            let n = self.nodes[x as usize];
            let mut arg: [(u8, u128, Rc<Vec<u128>>); 3] = [(0, 0, zero.clone()), (0, 0, zero.clone()), (0, 0, zero.clone())];
            for (k, y) in [n.a, n.b, n.c].into_iter().enumerate() {
                if y == 0 {
                    continue;
                }
                let m = self.nodes[y as usize];
                arg[k] = match m.op {
                    Op::Const => (0, m.val, zero.clone()),
                    Op::Var => (1, 0, zero.clone()),
                    _ => {
                        let j = self.memo[y as usize];
                        (2, 0, if j == u128::MAX { self.vecs[&y].clone() } else { vals[j as usize].clone() })
                    }
                };
            }
            let get = |k: usize, v: usize| match arg[k].0 {
                0 => arg[k].1,
                1 => v as u128,
                _ => arg[k].2[v],
            };
            let w = n.w;
            let mut out = vec![0u128; 256];
            let iw = if n.a != 0 { self.w(n.a) } else { 0 };
            let lw = if n.b != 0 { self.w(n.b) } else { 0 };
            for (v, o) in out.iter_mut().enumerate() {
                *o = match n.op {
                    Op::Ite => {
                        if get(0, v) == 1 {
                            get(1, v)
                        } else {
                            get(2, v)
                        }
                    }
                    Op::ZExt => get(0, v),
                    Op::SExt => sext(get(0, v), iw) as u128 & mask(w),
                    Op::Extract => (get(0, v) >> n.val as u32) & mask(w),
                    Op::Concat => (get(0, v) << lw) | get(1, v),
                    Op::Eq => (get(0, v) == get(1, v)) as u128,
                    Op::Ult => (get(0, v) < get(1, v)) as u128,
                    Op::Slt => (sext(get(0, v), iw) < sext(get(1, v), iw)) as u128,
                    op => fold(op, get(0, v), get(1, v), w),
                };
            }
            let out = Rc::new(out);
            if i % 32 == 31 {
                self.vecs.insert(x, out.clone());
            }
            vals.push(out);
        }
        let mut t = [0u64; 4];
        let en = self.nodes[e as usize];
        for v in 0..256usize {
            let b = match en.op {
                Op::Const => en.val,
                Op::Var => v as u128,
                _ => match vals.last() {
                    Some(x) => x[v],
                    None => self.vecs[&e][v],
                },
            };
            if b == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        let r = Rc::new(t);
        self.tables.insert(e, r.clone());
        r
    }
    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        let r = match self.sup[e as usize] {
            Sup::None => Rc::new(vec![]),
            Sup::One(v) => Rc::new(vec![v]),
            Sup::Many => {
                // iterative DFS to keep the native stack shallow
                let mut seen: std::collections::HashSet<E, Fx> = std::collections::HashSet::with_hasher(Fx);
                let mut out = std::collections::BTreeSet::new();
                let mut st = vec![e];
                while let Some(x) = st.pop() {
                    if !seen.insert(x) {
                        continue;
                    }
                    match self.sup[x as usize] {
                        Sup::None => {}
                        Sup::One(v) => {
                            out.insert(v);
                        }
                        Sup::Many => {
                            let n = self.n(x);
                            for y in [n.a, n.b, n.c] {
                                if y != 0 {
                                    st.push(y);
                                }
                            }
                        }
                    }
                }
                Rc::new(out.into_iter().collect())
            }
        };
        self.varsets.insert(e, r.clone());
        r
    }
}

pub fn fold(op: Op, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                m
            } else {
                sext(x, w).wrapping_div(sext(y, w)) as u128
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                sext(x, w).wrapping_rem(sext(y, w)) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => (sext(x, w) >> (y.min(w as u128 - 1))) as u128,
        _ => panic!("fold {:?}", op),
    };
    r & m
}

pub fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
