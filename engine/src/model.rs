//! Models of everything outside the program: allocator, libc, file system, compiler intrinsics,
//! and the harness interface (sym_*).
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub enum HR {
    Val(V),
    Void,
    Jump,
    Default(Vec<V>),
}
pub type HookFn = fn(&mut Ex, &mut State, u32, Vec<V>, Option<Reg>) -> R<HR>;

type Name = Rc<Vec<E>>;
#[derive(Clone)]
pub enum Node_ {
    File(Rc<Vec<E>>),
    Dir(Vec<(Name, u32)>),
    Link(Rc<Vec<E>>),
}
#[derive(Clone)]
pub struct Inode {
    pub node: Node_,
    pub mode: u32,
}
#[derive(Clone)]
pub struct Fd {
    pub ino: u32, // 0 = std stream
    pub pos: usize,
    pub flags: u64,
    pub std: u8,
}
#[derive(Clone)]
pub struct DirIt {
    pub ents: Rc<Vec<(Name, u32)>>,
    pub pos: usize,
    pub buf: u64,
}
#[derive(Clone, Default)]
pub struct Env {
    pub notes: Vec<String>,
    pub inodes: Vec<Option<Rc<Inode>>>,
    pub fds: BTreeMap<i32, Fd>,
    pub dirs: BTreeMap<u64, DirIt>,
    pub stdin: Rc<Vec<E>>,
    pub stdin_pos: usize,
    pub stdout: Rc<Vec<E>>,
    pub stderr: Rc<Vec<E>>,
    pub app_args: Vec<Rc<Vec<E>>>,
    pub in_app: bool,
    pub errno: u64,
    pub vcount: HashMap<String, u32>,
    pub hashed: Rc<Hashed>,
    pub symhashed: Rc<Vec<((u64, u64), Rc<Vec<E>>, u64)>>,
    pub seed: u64,
    pub hash_arb: bool,
    pub fault_kind: u32,
    pub fault_at: i64,
    pub ops: i64,
    pub rops: i64,
    pub fault_hit: bool,
    pub cwd: u32,
}

impl Env {
    pub fn new() -> Env {
        let mut e = Env::default();
        // 0 unused, 1 root, 2 /w
        e.inodes.push(None);
        e.inodes.push(Some(Rc::new(Inode { node: Node_::Dir(vec![]), mode: 0o755 })));
        e.inodes.push(Some(Rc::new(Inode { node: Node_::Dir(vec![]), mode: 0o755 })));
        let w = Rc::new(vec![k8(b'w')]);
        if let Node_::Dir(d) = &mut Rc::make_mut(e.inodes[1].as_mut().unwrap()).node {
            d.push((w, 2));
        }
        e.cwd = 2;
        e.seed = 0x1234_5678_9abc_def0;
        e.fault_at = -1;
        for i in 0..3 {
            e.fds.insert(i, Fd { ino: 0, pos: 0, flags: 2, std: i as u8 });
        }
        e
    }
    pub fn app_done(&mut self, code: i32) {
        self.in_app = false;
        self.fds.retain(|_, f| f.ino == 0);
        self.dirs.clear();
        for i in 0..3 {
            self.fds.entry(i).or_insert(Fd { ino: 0, pos: 0, flags: 2, std: i as u8 });
        }
        self.notes.push(format!("app exit {}", code));
    }
    fn dir(&self, i: u32) -> Option<&Vec<(Name, u32)>> {
        match self.inodes[i as usize].as_deref() {
            Some(Inode { node: Node_::Dir(d), .. }) => Some(d),
            _ => None,
        }
    }
    fn dir_mut(&mut self, i: u32) -> &mut Vec<(Name, u32)> {
        match &mut Rc::make_mut(self.inodes[i as usize].as_mut().unwrap()).node {
            Node_::Dir(d) => d,
            _ => panic!(),
        }
    }
    fn file(&self, i: u32) -> Option<&Rc<Vec<E>>> {
        match self.inodes[i as usize].as_deref() {
            Some(Inode { node: Node_::File(d), .. }) => Some(d),
            _ => None,
        }
    }
    fn file_mut(&mut self, i: u32) -> &mut Vec<E> {
        match &mut Rc::make_mut(self.inodes[i as usize].as_mut().unwrap()).node {
            Node_::File(d) => Rc::make_mut(d),
            _ => panic!(),
        }
    }
    fn set_mode(&mut self, i: u32, mode: u32) {
        Rc::make_mut(self.inodes[i as usize].as_mut().unwrap()).mode = mode;
    }
    fn new_inode(&mut self, n: Node_) -> u32 {
        self.inodes.push(Some(Rc::new(Inode { node: n, mode: 0o644 })));
        self.inodes.len() as u32 - 1
    }
}

pub fn show(b: &[E]) -> String {
    ctx(|c| {
        b.iter()
            .map(|&e| match c.cv(e) {
                Some(v) if (32..127).contains(&v) => (v as u8 as char).to_string(),
                Some(v) => format!("\\x{:02x}", v),
                None => "?".to_string(),
            })
            .collect()
    })
}

fn v0(x: u64) -> R<HR> {
    Ok(HR::Val(V::C(x)))
}
fn neg1() -> R<HR> {
    Ok(HR::Val(V::C(u64::MAX)))
}
fn i32v(x: i32) -> R<HR> {
    Ok(HR::Val(V::C(x as u32 as u64)))
}
fn ssize(x: i64) -> R<HR> {
    Ok(HR::Val(V::C(x as u64)))
}
fn set_errno(ex: &mut Ex, st: &mut State, e: i32) -> R<()> {
    let a = errno_addr(st);
    ex.store_n(st, a, 4, &V::C(e as u64))
}
fn errno_addr(st: &mut State) -> u64 {
    if st.env.errno == 0 {
        st.env.errno = st.mem.alloc(4, false);
    }
    st.env.errno
}
fn fail32(ex: &mut Ex, st: &mut State, e: i32) -> R<HR> {
    set_errno(ex, st, e)?;
    i32v(-1)
}
fn fail64(ex: &mut Ex, st: &mut State, e: i32) -> R<HR> {
    set_errno(ex, st, e)?;
    neg1()
}

macro_rules! conc {
    ($ex:expr,$st:expr,$v:expr) => {{
        let v = $v.clone();
        $ex.conc_v($st, &v)?
    }};
}

fn cstr(ex: &mut Ex, st: &mut State, a: u64) -> R<Vec<E>> {
    let mut out = vec![];
    let z = k8(0);
    loop {
        let b = ex.read_bytes(st, a + out.len() as u64, 1)?[0];
        let q = ctx(|c| c.eq(b, z));
        if ex.decide(st, q)? {
            return Ok(out);
        }
        out.push(b);
    }
}

fn bytes_eq(a: &[E], b: &[E]) -> E {
    ctx(|c| {
        let mut acc = c.k(1, 1);
        if a.len() != b.len() {
            return c.k(0, 1);
        }
        for i in 0..a.len() {
            let q = c.eq(a[i], b[i]);
            acc = c.bin(Op::And, acc, q);
        }
        acc
    })
}

// ---------------------------------------------------------------- paths
/// (parent dir, last component, inode if it exists)
struct Res {
    parent: u32,
    name: Vec<E>,
    ino: Option<u32>,
    /// the directories (and the file) passed through, without links
    stack: Vec<(u32, Vec<E>)>,
}
fn lookup(ex: &mut Ex, st: &mut State, dir: u32, name: &[E]) -> R<Option<u32>> {
    let ents: Vec<(Name, u32)> = match st.env.dir(dir) {
        Some(d) => d.clone(),
        None => return Ok(None),
    };
    for (n, i) in ents {
        if n.len() == name.len() {
            let q = bytes_eq(&n, name);
            if ex.decide(st, q)? {
                return Ok(Some(i));
            }
        }
    }
    Ok(None)
}
fn is_bytes(ex: &mut Ex, st: &mut State, n: &[E], s: &[u8]) -> R<bool> {
    let k: Vec<E> = s.iter().map(|&b| k8(b)).collect();
    let q = bytes_eq(n, &k);
    ex.decide(st, q)
}
/// components of a path; is it absolute, does it end with a slash?
fn split_path(ex: &mut Ex, st: &mut State, path: &[E]) -> R<(Vec<Vec<E>>, bool, bool)> {
    let slash = k8(b'/');
    let mut comps: Vec<Vec<E>> = vec![vec![]];
    let mut absolute = false;
    for (i, &b) in path.iter().enumerate() {
        let q = ctx(|c| c.eq(b, slash));
        if ex.decide(st, q)? {
            if i == 0 {
                absolute = true;
            }
            comps.push(vec![]);
        } else {
            comps.last_mut().unwrap().push(b);
        }
    }
    let trailing = comps.last().unwrap().is_empty();
    Ok((comps.into_iter().filter(|c| !c.is_empty()).collect(), absolute, trailing))
}
/// errno on failure; follows symbolic links
fn resolve(ex: &mut Ex, st: &mut State, path: &[E]) -> R<Result<Res, i32>> {
    resolve2(ex, st, path, true)
}
fn resolve2(ex: &mut Ex, st: &mut State, path: &[E], follow: bool) -> R<Result<Res, i32>> {
    if path.is_empty() {
        return Ok(Err(2));
    }
    if path.len() > 4095 {
        return Ok(Err(36));
    }
    let (comps, absolute, mut trailing) = split_path(ex, st, path)?;
    let root = (1u32, vec![]);
    let mut stack: Vec<(u32, Vec<E>)> = if absolute || st.env.cwd == 1 { vec![root.clone()] } else { vec![root.clone(), (st.env.cwd, vec![k8(b'w')])] };
    let mut last: Option<(u32, Vec<E>, Option<u32>)> = None;
    let mut todo: Vec<Vec<E>> = comps.into_iter().rev().collect();
    let mut links = 0;
    while let Some(c) = todo.pop() {
        let end = todo.is_empty();
        if c.len() > 255 {
            return Ok(Err(36));
        }
        let cur = stack.last().unwrap().0;
        if st.env.dir(cur).is_none() {
            return Ok(Err(20));
        }
        if is_bytes(ex, st, &c, b".")? {
            last = None;
            continue;
        }
        if is_bytes(ex, st, &c, b"..")? {
            if stack.len() > 1 {
                stack.pop();
            }
            last = None;
            continue;
        }
        let f = lookup(ex, st, cur, &c)?;
        if let Some(x) = f {
            let to = match st.env.inodes[x as usize].as_deref() {
                Some(Inode { node: Node_::Link(t), .. }) => Some(t.clone()),
                _ => None,
            };
            if let Some(t) = to.filter(|_| !end || follow || trailing) {
                links += 1;
                if links > 40 {
                    return Ok(Err(40));
                }
                let (cs, abs, tr) = split_path(ex, st, &t)?;
                if end {
                    trailing |= tr;
                }
                if abs {
                    stack = vec![root.clone()];
                }
                last = None;
                todo.extend(cs.into_iter().rev());
                continue;
            }
        }
        if end {
            last = Some((cur, c.clone(), f));
        }
        match f {
            Some(x) => stack.push((x, c)),
            None => {
                if end {
                    if trailing {
                        // a trailing slash on something that does not exist
                        return Ok(Ok(Res { parent: cur, name: c, ino: None, stack }));
                    }
                } else {
                    return Ok(Err(2));
                }
            }
        }
    }
    if let Some((p, nm, f)) = last {
        if trailing {
            if let Some(x) = f {
                if st.env.dir(x).is_none() {
                    return Ok(Err(20));
                }
            }
        }
        return Ok(Ok(Res { parent: p, name: nm, ino: f, stack }));
    }
    let cur = stack.last().unwrap().0;
    Ok(Ok(Res { parent: 0, name: vec![], ino: Some(cur), stack }))
}
/// removes a directory entry
fn drop_entry(ex: &mut Ex, st: &mut State, dir: u32, name: &[E]) -> R<()> {
    let ents: Vec<(Name, u32)> = st.env.dir(dir).unwrap().clone();
    for (k, (n, _)) in ents.iter().enumerate() {
        let q = bytes_eq(n, name);
        if ex.decide(st, q)? {
            st.env.dir_mut(dir).remove(k);
            break;
        }
    }
    Ok(())
}

/// counts a mutating file-system call; Some(errno) when the armed fault fires here
fn fs_op(st: &mut State, what: &str) -> Option<i32> {
    if !st.env.in_app {
        return None;
    }
    let k = st.env.ops;
    st.env.ops += 1;
    if (st.env.fault_kind == 1 || st.env.fault_kind == 2) && k == st.env.fault_at {
        st.env.fault_hit = true;
        st.env.notes.push(format!("fault at op {} ({})", k, what));
        if st.env.fault_kind == 1 {
            return Some(28); // ENOSPC
        }
        return Some(-1); // crash
    }
    None
}
/// counts a reading file-system call (kind 3), a write to standard output (kind 4) or a read of
/// standard input (kind 5); does the armed fault fire here?
fn rd_op(st: &mut State, kind: u32, what: &str) -> bool {
    if !st.env.in_app || st.env.fault_kind != kind {
        return false;
    }
    let k = st.env.rops;
    st.env.rops += 1;
    if k == st.env.fault_at {
        st.env.fault_hit = true;
        st.env.notes.push(format!("fault at {} {}", what, k));
        return true;
    }
    false
}
macro_rules! fault {
    ($ex:expr,$st:expr,$what:expr,$f:ident) => {
        if let Some(e) = fs_op($st, $what) {
            if e > 0 {
                return $f($ex, $st, e);
            }
            return app_exit($ex, $st, 137);
        }
    };
}

fn h_open(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let flags = conc!(ex, st, a[1]);
    let path = cstr(ex, st, p)?;
    let acc = flags & 3;
    let creat = flags & 0o100 != 0;
    let excl = flags & 0o200 != 0;
    let r = match resolve2(ex, st, &path, !(creat && excl))? {
        Ok(r) => r,
        Err(e) => return fail32(ex, st, e),
    };
    let trunc = flags & 0o1000 != 0;
    if acc != 0 || creat || trunc {
        fault!(ex, st, "open", fail32);
    } else if rd_op(st, 3, "open") {
        return fail32(ex, st, 13);
    }
    let ino = match r.ino {
        Some(i) => {
            if creat && excl {
                return fail32(ex, st, 17);
            }
            if st.env.dir(i).is_some() && acc != 0 {
                return fail32(ex, st, 21);
            }
            if trunc && st.env.file(i).is_some() {
                st.env.file_mut(i).clear();
                if st.env.in_app {
                    st.env.notes.push(format!("truncate {}", show(&path)));
                }
            }
            i
        }
        None => {
            if !creat {
                return fail32(ex, st, 2);
            }
            let i = st.env.new_inode(Node_::File(Rc::new(vec![])));
            if let Some(V::C(m)) = a.get(2) {
                st.env.set_mode(i, *m as u32 & 0o777 & !0o022);
            }
            st.env.dir_mut(r.parent).push((Rc::new(r.name), i));
            if st.env.in_app {
                st.env.notes.push(format!("create {}", show(&path)));
            }
            i
        }
    };
    let mut fd = 3;
    while st.env.fds.contains_key(&fd) {
        fd += 1;
    }
    st.env.fds.insert(fd, Fd { ino, pos: 0, flags, std: 255 });
    i32v(fd)
}
fn h_close(_ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    if let V::C(x) = a[0] {
        st.env.fds.remove(&(x as i32));
    }
    v0(0)
}
fn h_read(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let fd = conc!(ex, st, a[0]) as i32;
    let buf = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]) as usize;
    let f = match st.env.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail64(ex, st, 9),
    };
    if f.ino == 0 {
        if f.std != 0 {
            return fail64(ex, st, 9);
        }
        if rd_op(st, 5, "read of standard input") {
            return fail64(ex, st, 5);
        }
        // a terminal or pipe delivers at most one line at a time
        let s = st.env.stdin.clone();
        let p = st.env.stdin_pos;
        let m = n.min(s.len() - p);
        ex.write_bytes(st, buf, &s[p..p + m])?;
        st.env.stdin_pos += m;
        return ssize(m as i64);
    }
    let data = match st.env.file(f.ino) {
        Some(d) => d.clone(),
        None => return fail64(ex, st, 21),
    };
    if rd_op(st, 3, "read") {
        return fail64(ex, st, 5);
    }
    let s = f.pos.min(data.len());
    let m = n.min(data.len() - s);
    ex.write_bytes(st, buf, &data[s..s + m])?;
    st.env.fds.get_mut(&fd).unwrap().pos = s + m;
    ssize(m as i64)
}
fn h_write(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let fd = conc!(ex, st, a[0]) as i32;
    let buf = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]) as usize;
    let f = match st.env.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail64(ex, st, 9),
    };
    let mut data = ex.read_bytes(st, buf, n)?;
    if f.ino == 0 {
        if f.std == 1 && rd_op(st, 4, "write to standard output") {
            return fail64(ex, st, 28);
        }
        let t = if f.std == 1 { &mut st.env.stdout } else { &mut st.env.stderr };
        Rc::make_mut(t).extend(data);
        return ssize(n as i64);
    }
    if f.flags & 3 == 0 {
        return fail64(ex, st, 9);
    }
    let mut crash = false;
    if let Some(e) = fs_op(st, "write") {
        if e > 0 {
            return fail64(ex, st, e);
        }
        // die in the middle of the write
        data.truncate(n / 2);
        crash = true;
    }
    let pos = if f.flags & 0o2000 != 0 { st.env.file(f.ino).unwrap().len() } else { f.pos };
    let file = st.env.file_mut(f.ino);
    let z = k8(0);
    if file.len() < pos {
        file.resize(pos, z);
    }
    for (i, &b) in data.iter().enumerate() {
        if pos + i < file.len() {
            file[pos + i] = b;
        } else {
            file.push(b);
        }
    }
    let l = data.len();
    st.env.fds.get_mut(&fd).unwrap().pos = pos + l;
    if crash {
        return app_exit(ex, st, 137);
    }
    ssize(n as i64)
}
fn h_lseek(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let fd = conc!(ex, st, a[0]) as i32;
    let off = conc!(ex, st, a[1]) as i64;
    let wh = conc!(ex, st, a[2]);
    let f = match st.env.fds.get(&fd) {
        Some(f) => f.clone(),
        None => return fail64(ex, st, 9),
    };
    if f.ino == 0 {
        return fail64(ex, st, 29);
    }
    let len = st.env.file(f.ino).map(|d| d.len()).unwrap_or(0) as i64;
    let np = match wh {
        0 => off,
        1 => f.pos as i64 + off,
        _ => len + off,
    };
    if np < 0 {
        return fail64(ex, st, 22);
    }
    st.env.fds.get_mut(&fd).unwrap().pos = np as usize;
    ssize(np)
}
fn put_stat(ex: &mut Ex, st: &mut State, ino: u32, buf: u64) -> R<()> {
    let (mode, size) = match st.env.inodes[ino as usize].as_deref() {
        Some(Inode { node: Node_::File(d), mode }) => (0o100000 | mode, d.len()),
        Some(Inode { node: Node_::Dir(_), mode }) => (0o040000 | mode, 4096),
        Some(Inode { node: Node_::Link(t), .. }) => (0o120777, t.len()),
        None => (0o020000 | 0o600, 0),
    };
    for i in 0..18 {
        ex.store_n(st, buf + i * 8, 8, &V::C(0))?;
    }
    ex.store_n(st, buf, 8, &V::C(1))?;
    ex.store_n(st, buf + 8, 8, &V::C(ino as u64))?;
    ex.store_n(st, buf + 16, 8, &V::C(1))?;
    ex.store_n(st, buf + 24, 4, &V::C(mode as u64))?;
    ex.store_n(st, buf + 48, 8, &V::C(size as u64))?;
    ex.store_n(st, buf + 56, 8, &V::C(4096))?;
    Ok(())
}
fn h_stat(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let buf = conc!(ex, st, a[1]);
    let path = cstr(ex, st, p)?;
    let follow = !ex.p.funcs[f as usize].name.contains("lstat");
    match resolve2(ex, st, &path, follow)? {
        Ok(Res { ino: Some(i), .. }) => {
            put_stat(ex, st, i, buf)?;
            i32v(0)
        }
        Ok(_) => fail32(ex, st, 2),
        Err(e) => fail32(ex, st, e),
    }
}
fn h_fstat(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let fd = conc!(ex, st, a[0]) as i32;
    let buf = conc!(ex, st, a[1]);
    match st.env.fds.get(&fd).map(|f| f.ino) {
        Some(i) => {
            put_stat(ex, st, i, buf)?;
            i32v(0)
        }
        None => fail32(ex, st, 9),
    }
}
fn h_access(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let path = cstr(ex, st, p)?;
    match resolve(ex, st, &path)? {
        Ok(Res { ino: Some(_), .. }) => i32v(0),
        Ok(_) => fail32(ex, st, 2),
        Err(e) => fail32(ex, st, e),
    }
}
fn h_unlink(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let path = cstr(ex, st, p)?;
    match resolve2(ex, st, &path, false)? {
        Ok(Res { ino: Some(i), parent, name, .. }) => {
            if st.env.dir(i).is_some() {
                return fail32(ex, st, 21);
            }
            fault!(ex, st, "unlink", fail32);
            drop_entry(ex, st, parent, &name)?;
            st.env.notes.push(format!("unlink {}", show(&path)));
            i32v(0)
        }
        Ok(_) => fail32(ex, st, 2),
        Err(e) => fail32(ex, st, e),
    }
}
fn h_rmdir(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let path = cstr(ex, st, p)?;
    match resolve2(ex, st, &path, false)? {
        Ok(Res { ino: Some(i), parent, .. }) if parent != 0 => {
            match st.env.dir(i) {
                None => return fail32(ex, st, 20),
                Some(d) if !d.is_empty() => return fail32(ex, st, 39),
                _ => {}
            }
            fault!(ex, st, "rmdir", fail32);
            st.env.dir_mut(parent).retain(|x| x.1 != i);
            i32v(0)
        }
        Ok(_) => fail32(ex, st, 2),
        Err(e) => fail32(ex, st, e),
    }
}
fn h_rename(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let q = conc!(ex, st, a[1]);
    let p = cstr(ex, st, p)?;
    let q = cstr(ex, st, q)?;
    let rp = match resolve2(ex, st, &p, false)? {
        Ok(r) => r,
        Err(e) => return fail32(ex, st, e),
    };
    let rq = match resolve2(ex, st, &q, false)? {
        Ok(r) => r,
        Err(e) => return fail32(ex, st, e),
    };
    let i = match rp.ino {
        Some(i) => i,
        None => return fail32(ex, st, 2),
    };
    if rq.ino == Some(i) {
        return i32v(0);
    }
    if let Some(j) = rq.ino {
        match (st.env.dir(i).is_some(), st.env.dir(j)) {
            (false, Some(_)) => return fail32(ex, st, 21),
            (true, None) => return fail32(ex, st, 20),
            (true, Some(d)) if !d.is_empty() => return fail32(ex, st, 39),
            _ => {}
        }
    }
    if rp.parent == 0 || rq.parent == 0 {
        return fail32(ex, st, 16);
    }
    fault!(ex, st, "rename", fail32);
    if rq.ino.is_some() {
        drop_entry(ex, st, rq.parent, &rq.name)?;
    }
    drop_entry(ex, st, rp.parent, &rp.name)?;
    st.env.dir_mut(rq.parent).push((Rc::new(rq.name), i));
    st.env.notes.push(format!("rename {} -> {}", show(&p), show(&q)));
    i32v(0)
}
fn h_mkdir(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let path = cstr(ex, st, p)?;
    match resolve2(ex, st, &path, false)? {
        Ok(Res { ino: Some(_), .. }) => fail32(ex, st, 17),
        Ok(r) => {
            fault!(ex, st, "mkdir", fail32);
            let i = st.env.new_inode(Node_::Dir(vec![]));
            st.env.dir_mut(r.parent).push((Rc::new(r.name), i));
            i32v(0)
        }
        Err(e) => fail32(ex, st, e),
    }
}
fn h_ftruncate(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let fd = conc!(ex, st, a[0]) as i32;
    let n = conc!(ex, st, a[1]) as usize;
    match st.env.fds.get(&fd).map(|f| f.ino) {
        Some(i) if i > 0 => {
            fault!(ex, st, "ftruncate", fail32);
            let z = k8(0);
            st.env.file_mut(i).resize(n, z);
            i32v(0)
        }
        _ => fail32(ex, st, 22),
    }
}
fn h_opendir(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let path = cstr(ex, st, p)?;
    if rd_op(st, 3, "opendir") {
        set_errno(ex, st, 13)?;
        return v0(0);
    }
    let e = match resolve(ex, st, &path)? {
        Ok(Res { ino: Some(i), .. }) => match st.env.dir(i) {
            Some(d) => {
                let d = d.clone();
                let buf = st.mem.alloc(19 + 256, true);
                st.env.dirs.insert(buf, DirIt { ents: Rc::new(d), pos: 0, buf });
                return v0(buf);
            }
            None => 20,
        },
        Ok(_) => 2,
        Err(e) => e,
    };
    set_errno(ex, st, e)?;
    v0(0)
}
fn h_readdir(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let d = conc!(ex, st, a[0]);
    let it = st.env.dirs.get(&d).cloned().ok_or(Stop::Bug("readdir on closed dir".into()))?;
    if rd_op(st, 3, "readdir") {
        set_errno(ex, st, 5)?;
        return v0(0);
    }
    let (name, ino): (Vec<E>, u32) = if it.pos < 2 {
        (vec![k8(b'.'); it.pos + 1], 1)
    } else if it.pos - 2 < it.ents.len() {
        let e = &it.ents[it.pos - 2];
        ((*e.0).clone(), e.1)
    } else {
        return v0(0);
    };
    let ty = match st.env.inodes[ino as usize].as_deref() {
        Some(Inode { node: Node_::Dir(_), .. }) => 4u64,
        Some(Inode { node: Node_::Link(_), .. }) => 10,
        _ => 8,
    };
    ex.store_n(st, it.buf, 8, &V::C(ino as u64))?;
    ex.store_n(st, it.buf + 16, 2, &V::C(24 + name.len() as u64))?;
    ex.store_n(st, it.buf + 18, 1, &V::C(ty))?;
    let mut n = name;
    n.push(k8(0));
    ex.write_bytes(st, it.buf + 19, &n)?;
    st.env.dirs.get_mut(&d).unwrap().pos += 1;
    v0(it.buf)
}
fn h_closedir(_ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    if let V::C(d) = a[0] {
        st.env.dirs.remove(&d);
        st.mem.del(d >> 32);
    }
    v0(0)
}
fn h_getcwd(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let b = conc!(ex, st, a[0]);
    let s: Vec<E> = b"/w\0".iter().map(|&x| k8(x)).collect();
    ex.write_bytes(st, b, &s)?;
    v0(b)
}
fn h_realpath(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let path = cstr(ex, st, p)?;
    if rd_op(st, 3, "realpath") {
        set_errno(ex, st, 12)?;
        return v0(0);
    }
    let r = match resolve(ex, st, &path)? {
        Ok(Res { ino: Some(_), stack, .. }) => stack,
        Ok(_) => {
            set_errno(ex, st, 2)?;
            return v0(0);
        }
        Err(e) => {
            set_errno(ex, st, e)?;
            return v0(0);
        }
    };
    let mut out = vec![];
    for (_, n) in &r[1..] {
        out.push(k8(b'/'));
        out.extend(n);
    }
    if out.is_empty() {
        out.push(k8(b'/'));
    }
    out.push(k8(0));
    let b = st.mem.alloc(out.len() as u64, true);
    ex.write_bytes(st, b, &out)?;
    v0(b)
}
fn h_chmod(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let m = conc!(ex, st, a[1]) as u32 & 0o7777;
    let i = if ex.p.funcs[f as usize].name.contains("fchmod") {
        let fd = conc!(ex, st, a[0]) as i32;
        match st.env.fds.get(&fd).map(|f| f.ino) {
            Some(i) if i > 0 => i,
            _ => return fail32(ex, st, 9),
        }
    } else {
        let p = conc!(ex, st, a[0]);
        let path = cstr(ex, st, p)?;
        match resolve(ex, st, &path)? {
            Ok(Res { ino: Some(i), .. }) => i,
            Ok(_) => return fail32(ex, st, 2),
            Err(e) => return fail32(ex, st, e),
        }
    };
    fault!(ex, st, "chmod", fail32);
    st.env.set_mode(i, m);
    i32v(0)
}
/// symlink(target, path) and link(old, new)
fn h_link(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let name = ex.p.funcs[f as usize].name.clone();
    let k = if name.contains("linkat") { (1, 3) } else { (0, 1) };
    let p = conc!(ex, st, a[k.0]);
    let q = conc!(ex, st, a[k.1]);
    let p = cstr(ex, st, p)?;
    let q = cstr(ex, st, q)?;
    let r = match resolve2(ex, st, &q, false)? {
        Ok(Res { ino: Some(_), .. }) => return fail32(ex, st, 17),
        Ok(r) => r,
        Err(e) => return fail32(ex, st, e),
    };
    let i = if name.contains("symlink") {
        fault!(ex, st, "symlink", fail32);
        st.env.new_inode(Node_::Link(Rc::new(p)))
    } else {
        match resolve2(ex, st, &p, false)? {
            Ok(Res { ino: Some(i), .. }) => {
                if st.env.dir(i).is_some() {
                    return fail32(ex, st, 1);
                }
                fault!(ex, st, "link", fail32);
                i
            }
            Ok(_) => return fail32(ex, st, 2),
            Err(e) => return fail32(ex, st, e),
        }
    };
    st.env.dir_mut(r.parent).push((Rc::new(r.name), i));
    i32v(0)
}
fn h_readlink(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let b = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]) as usize;
    let path = cstr(ex, st, p)?;
    let i = match resolve2(ex, st, &path, false)? {
        Ok(Res { ino: Some(i), .. }) => i,
        Ok(_) => return fail64(ex, st, 2),
        Err(e) => return fail64(ex, st, e),
    };
    let t = match st.env.inodes[i as usize].as_deref() {
        Some(Inode { node: Node_::Link(t), .. }) => t.clone(),
        _ => return fail64(ex, st, 22),
    };
    let m = t.len().min(n);
    ex.write_bytes(st, b, &t[..m])?;
    ssize(m as i64)
}
fn h_einval(ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    fail64(ex, st, 22)
}

// ---------------------------------------------------------------- allocator and small libc
fn h_malloc(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = conc!(ex, st, a[0]);
    if n > 1 << 28 {
        return v0(0);
    }
    v0(st.mem.alloc(n, true))
}
fn h_calloc(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = conc!(ex, st, a[0]);
    let m = conc!(ex, st, a[1]);
    if n.saturating_mul(m) > 1 << 28 {
        return v0(0);
    }
    v0(st.mem.alloc(n * m, true))
}
fn h_memalign(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let n = conc!(ex, st, a[2]);
    if n > 1 << 28 {
        return i32v(12);
    }
    let q = st.mem.alloc(n, true);
    ex.store_n(st, p, 8, &V::C(q))?;
    i32v(0)
}
fn h_realloc(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let n = conc!(ex, st, a[1]);
    if n > 1 << 28 {
        return v0(0);
    }
    if p == 0 {
        return v0(st.mem.alloc(n, true));
    }
    let o = match st.mem.get(p >> 32) {
        Some(o) if o.heap && p & 0xffff_ffff == 0 => o.data.len() as u64,
        _ => return Err(Stop::Bug("realloc of an invalid pointer".into())),
    };
    let q = st.mem.alloc(n, true);
    ex.copy(st, q, p, o.min(n) as usize)?;
    st.mem.del(p >> 32);
    v0(q)
}
fn h_free(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    if p == 0 {
        return Ok(HR::Void);
    }
    match st.mem.get(p >> 32) {
        Some(o) if o.heap && p & 0xffff_ffff == 0 => {}
        _ => return Err(Stop::Bug("free of an invalid pointer".into())),
    }
    st.mem.del(p >> 32);
    Ok(HR::Void)
}
fn h_memcmp(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let q = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]) as usize;
    let x = ex.read_bytes(st, p, n)?;
    let y = ex.read_bytes(st, q, n)?;
    let only_eq = ex.p.funcs[f as usize].name == "bcmp";
    let r = ctx(|c| {
        let mut acc = c.k(0, 32);
        let one = c.k(1, 32);
        let m1 = c.k(0xffff_ffff, 32);
        if only_eq {
            let mut eq = c.k(1, 1);
            for i in 0..n {
                let q = c.eq(x[i], y[i]);
                eq = c.bin(Op::And, eq, q);
            }
            let z = c.k(0, 32);
            return c.ite(eq, z, one);
        }
        for i in (0..n).rev() {
            let e = c.eq(x[i], y[i]);
            if c.cv(e) == Some(1) {
                continue;
            }
            let l = c.ult(x[i], y[i]);
            let s = c.ite(l, m1, one);
            acc = c.ite(e, acc, s);
        }
        acc
    });
    Ok(HR::Val(fromexpr(r)))
}
fn h_strlen(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let s = cstr(ex, st, p)?;
    v0(s.len() as u64)
}
fn find_byte(ex: &mut Ex, st: &mut State, p: u64, n: usize, needle: E, rev: bool) -> R<Option<usize>> {
    // in chunks: most searches end early in a long range
    let mut done = 0;
    while done < n {
        let m = (n - done).min(64);
        let from = if rev { n - done - m } else { done };
        let b = ex.read_bytes(st, p + from as u64, m)?;
        for j in 0..m {
            let i = if rev { m - 1 - j } else { j };
            let q = ctx(|c| c.eq(b[i], needle));
            if ex.decide(st, q)? {
                return Ok(Some(from + i));
            }
        }
        done += m;
    }
    Ok(None)
}
fn iovecs(ex: &mut Ex, st: &mut State, p: u64, n: u64) -> R<Vec<(u64, u64)>> {
    let mut r = vec![];
    for i in 0..n {
        let b = ex.load_n(st, p + i * 16, 8)?;
        let l = ex.load_n(st, p + i * 16 + 8, 8)?;
        r.push((ex.conc_v(st, &b)?, ex.conc_v(st, &l)?));
    }
    Ok(r)
}
fn h_writev(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, r: Option<Reg>) -> R<HR> {
    // a short write of the first part that is not empty
    let p = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]);
    let v = iovecs(ex, st, p, n)?;
    let (b, l) = v.into_iter().find(|x| x.1 > 0).unwrap_or((p, 0));
    h_write(ex, st, f, vec![a[0].clone(), V::C(b), V::C(l)], r)
}
fn h_readv(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]);
    let v = iovecs(ex, st, p, n)?;
    let (b, l) = v.into_iter().find(|x| x.1 > 0).unwrap_or((p, 0));
    h_read(ex, st, f, vec![a[0].clone(), V::C(b), V::C(l)], r)
}
fn h_prw(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, r: Option<Reg>) -> R<HR> {
    let fd = conc!(ex, st, a[0]) as i32;
    let off = conc!(ex, st, a[3]) as usize;
    let old = match st.env.fds.get_mut(&fd) {
        Some(f) if f.ino != 0 => std::mem::replace(&mut f.pos, off),
        _ => return fail64(ex, st, 29),
    };
    let write = ex.p.funcs[f as usize].name.starts_with("pw");
    let x = if write { h_write(ex, st, f, a, r) } else { h_read(ex, st, f, a, r) };
    if let Some(f) = st.env.fds.get_mut(&fd) {
        f.pos = old;
    }
    x
}
fn h_clock(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    // time stands still
    let p = conc!(ex, st, a[1]);
    ex.store_n(st, p, 8, &V::C(1_700_000_000))?;
    ex.store_n(st, p + 8, 8, &V::C(0))?;
    i32v(0)
}
fn h_notty(ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    fail32(ex, st, 25)
}
fn h_cmemchr(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let needle = {
        let w = toexpr(&a[1], 32);
        ctx(|c| c.extract(w, 0, 8))
    };
    let n = conc!(ex, st, a[2]) as usize;
    let rev = ex.p.funcs[f as usize].name.contains("memrchr");
    v0(match find_byte(ex, st, p, n, needle, rev)? {
        Some(i) => p + i as u64,
        None => 0,
    })
}
fn h_memchr(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let needle = toexpr(&a[0], 8);
    let p = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]) as usize;
    let rev = ex.p.funcs[f as usize].name.contains("memrchr");
    let r = find_byte(ex, st, p, n, needle, rev)?;
    Ok(HR::Val(V::A(Rc::new(match r {
        Some(i) => vec![V::C(1), V::C(i as u64)],
        None => vec![V::C(0), V::C(0)],
    }))))
}
fn h_memchr_raw(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let needle = toexpr(&a[0], 8);
    let p = conc!(ex, st, a[1]);
    let q = conc!(ex, st, a[2]);
    let r = find_byte(ex, st, p, (q - p) as usize, needle, false)?;
    Ok(HR::Val(V::A(Rc::new(match r {
        Some(i) => vec![V::C(1), V::C(p + i as u64)],
        None => vec![V::C(0), V::C(0)],
    }))))
}
fn h_zero(_ex: &mut Ex, _st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    v0(0)
}
fn h_one(_ex: &mut Ex, _st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    v0(1)
}
fn h_errno(_ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    v0(errno_addr(st))
}
fn h_enosys(ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    fail64(ex, st, 38)
}
fn h_sysconf(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = conc!(ex, st, a[0]);
    ssize(if n == 30 { 4096 } else { -1 })
}
fn h_sigaction(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let o = conc!(ex, st, a[2]);
    if o != 0 {
        ex.store_n(st, o, 8, &V::C(1))?;
    }
    i32v(0)
}
fn h_strerror(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let e = conc!(ex, st, a[0]);
    let b = conc!(ex, st, a[1]);
    let s: Vec<E> = format!("error {}\0", e).bytes().map(k8).collect();
    ex.write_bytes(st, b, &s)?;
    i32v(0)
}
fn h_getrandom(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let k = if ex.p.funcs[f as usize].name == "syscall" {
        let n = conc!(ex, st, a[0]);
        if n != 318 {
            return fail64(ex, st, 38);
        }
        1
    } else {
        0
    };
    let b = conc!(ex, st, a[k]);
    let n = conc!(ex, st, a[k + 1]);
    for i in 0..n {
        st.env.seed = st.env.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let v = st.env.seed >> 33;
        ex.store_n(st, b + i, 1, &V::C(v & 0xff))?;
    }
    ssize(n as i64)
}
fn h_random_keys(_ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let s = st.env.seed;
    Ok(HR::Val(V::A(Rc::new(vec![V::C(s), V::C(s.rotate_left(17) ^ 0x5555)]))))
}

fn app_exit(ex: &mut Ex, st: &mut State, code: i32) -> R<HR> {
    while let Some(f) = st.frames.last() {
        let m = f.marker.clone();
        let r = f.ret;
        ex.pop_frame(st);
        if m == Marker::App {
            st.env.app_done(code);
            ex.set_ret(st, r, V::C(code as u32 as u64));
            return Ok(HR::Jump);
        }
    }
    Err(Stop::Dead("exit"))
}
fn h_exit(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let c = conc!(ex, st, a[0]);
    if st.env.in_app {
        app_exit(ex, st, (c & 0xff) as i32)
    } else {
        Err(Stop::Bug(format!("process exit {} outside the application", c)))
    }
}
fn location(ex: &mut Ex, st: &State, v: Option<&V>) -> String {
    if let Some(V::C(p)) = v {
        if let (Ok(V::C(f)), Ok(V::C(n)), Ok(V::C(l))) = (ex.load_n(st, *p, 8), ex.load_n(st, *p + 8, 8), ex.load_n(st, *p + 16, 4)) {
            if n < 500 {
                if let Ok(b) = ex.read_bytes(st, f, n as usize) {
                    return format!("{}:{}", show(&b).trim_end_matches("\\x00"), l);
                }
            }
        }
    }
    "?".into()
}
fn h_panic(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let mut loc = String::from("?");
    for v in a.iter().rev() {
        let l = location(ex, st, Some(v));
        if l.contains(".rs:") {
            loc = l;
            break;
        }
    }
    do_panic(ex, st, &format!("panic at {}", loc))
}
fn h_abort(ex: &mut Ex, st: &mut State, f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = ex.p.funcs[f as usize].name.clone();
    do_panic(ex, st, &format!("abort ({})", n))
}
fn do_panic(ex: &mut Ex, st: &mut State, msg: &str) -> R<HR> {
    // shorten toolchain paths
    let msg = match msg.find("library/") {
        Some(i) if msg.contains("rustc") => format!("panic at {}", &msg[i..]),
        _ => msg.to_string(),
    };
    let trace: Vec<String> = ex.stack_names(st).into_iter().filter(|n| n.contains("8ti_tools")).take(3).collect();
    st.env.notes.push(format!("{} [{}]", msg, trace.iter().map(|s| short(s)).collect::<Vec<_>>().join(" < ")));
    if !st.frames.iter().any(|f| matches!(f.marker, Marker::Try | Marker::App)) {
        return Err(Stop::Bug(msg));
    }
    loop {
        let m = st.frames.last().unwrap().marker.clone();
        let r = st.frames.last().unwrap().ret;
        ex.pop_frame(st);
        match m {
            Marker::None | Marker::Memo(_) => {}
            Marker::Try => {
                ex.set_ret(st, r, V::C(1));
                return Ok(HR::Jump);
            }
            Marker::App => {
                let e: Vec<E> = format!("thread 'main' panicked: {}\n", msg).bytes().map(k8).collect();
                Rc::make_mut(&mut st.env.stderr).extend(e);
                st.env.app_done(101);
                ex.set_ret(st, r, V::C(101));
                return Ok(HR::Jump);
            }
        }
    }
}
/// a readable form of a v0-mangled path: the length-prefixed identifiers
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            if l >= 2 && i + l <= b.len() {
                let mut t = &n[i..i + l];
                if t.starts_with('_') {
                    t = &n[i + 1..(i + 1 + l).min(n.len())];
                }
                if t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && t.bytes().next().map_or(false, |c| !c.is_ascii_digit()) {
                    out.push(t.to_string());
                    i += l;
                    continue;
                }
            }
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && i > 0 && (b[i - 1] == b'C' || b[i - 1] == b'M' || b[i - 1] == b'X') {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

// ---------------------------------------------------------------- hashing
fn h_hash_one(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let name = ex.p.funcs[f as usize].name.clone();
    let (p, n) = if name.contains("hash_oneReE") && a.len() == 3 {
        (conc!(ex, st, a[1]), conc!(ex, st, a[2]))
    } else if (name.contains("6string6StringE") || name.contains("hash_oneRRNt")) && a.len() == 2 && name.matches("6string6String").count() >= 1 {
        let mut s = conc!(ex, st, a[1]);
        if name.contains("hash_oneRRNt") {
            let v = ex.load_n(st, s, 8)?;
            s = conc!(ex, st, v);
        }
        let c = ex.load_n(st, s, 8)?;
        let c = conc!(ex, st, c);
        let p = ex.load_n(st, s + 8, 8)?;
        let p = conc!(ex, st, p);
        let n = ex.load_n(st, s + 16, 8)?;
        let n = conc!(ex, st, n);
        if n > c {
            return Err(Stop::Unsup("unexpected String layout".into()));
        }
        (p, n)
    } else {
        return Ok(HR::Default(a));
    };
    let kp = conc!(ex, st, a[0]);
    let k0 = ex.load_n(st, kp, 8)?;
    let k0 = conc!(ex, st, k0);
    let k1 = ex.load_n(st, kp + 8, 8)?;
    let k1 = conc!(ex, st, k1);
    let key = ex.read_bytes(st, p, n as usize)?;
    let conc: Option<Vec<u8>> = ctx(|c| key.iter().map(|&e| c.cv(e).map(|v| v as u8)).collect());
    let h = |b: &[u8]| {
        let mut h = k0 ^ 0xcbf29ce484222325;
        for &x in b {
            h = (h ^ x as u64).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h ^= k1;
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
        h ^ (h >> 32)
    };
    // keys that were hashed symbolically before must get the same value again
    let sh = st.env.symhashed.clone();
    for (kk, e, v) in sh.iter() {
        if *kk == (k0, k1) && e.len() == key.len() {
            let q = bytes_eq(e, &key);
            if ex.decide(st, q)? {
                return v0(*v);
            }
        }
    }
    match conc {
        Some(b) => {
            if st.env.hash_arb {
                // an arbitrary hash function on few keys: low bits chosen per key
                let nm = format!("hash_{:x}_{}", k0 & 0xffff, String::from_utf8_lossy(&b));
                let e = ctx(|c| c.var(&nm).1);
                let lim = k8(4);
                let q = ctx(|c| c.ult(e, lim));
                if !ex.decide(st, q)? {
                    return Err(Stop::Dead("hash out of range"));
                }
                let low = ex.concretize(st, e)? as u64;
                let m = Rc::make_mut(&mut st.env.hashed);
                let l = Rc::make_mut(m.entry((k0, k1)).or_default()).entry(b.len()).or_default();
                if !l.iter().any(|x| **x == b) {
                    l.push(Rc::new(b.clone()));
                }
                return v0((h(&b) & !0xff) | low);
            }
            let hv = h(&b);
            let known = st.env.hashed.get(&(k0, k1)).and_then(|m| m.get(&b.len())).map_or(false, |l| l.last().map_or(false, |x| **x == b));
            if !known {
                let m = Rc::make_mut(&mut st.env.hashed);
                let l = Rc::make_mut(m.entry((k0, k1)).or_default()).entry(b.len()).or_default();
                l.push(Rc::new(b));
            }
            v0(hv)
        }
        None => {
            let cands: Vec<Rc<Vec<u8>>> = st.env.hashed.get(&(k0, k1)).and_then(|m| m.get(&key.len())).cloned().unwrap_or_default();
            // cheap filter on the values the bytes can take
            for b in cands {
                let kb: Vec<E> = b.iter().map(|&x| k8(x)).collect();
                let q = bytes_eq(&key, &kb);
                if ex.decide(st, q)? {
                    return v0(h(&b));
                }
            }
            let v = 0xA5A5_0000_0000_0000u64 ^ (st.env.symhashed.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
            Rc::make_mut(&mut st.env.symhashed).push(((k0, k1), Rc::new(key), v));
            v0(v)
        }
    }
}

// ---------------------------------------------------------------- LLVM intrinsics
fn wid(ex: &Ex, f: u32) -> u32 {
    ex.width(ex.p.funcs[f as usize].param_tys[0])
}
fn map2(w: u32, a: &V, b: &V, g: &mut dyn FnMut(E, E) -> E) -> R<V> {
    match (a, b) {
        (V::A(x), V::A(y)) => {
            let mut r = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                r.push(map2(w, p, q, g)?);
            }
            Ok(V::A(Rc::new(r)))
        }
        _ => Ok(fromexpr(g(toexpr(a, w), toexpr(b, w)))),
    }
}
fn map1(w: u32, a: &V, g: &mut dyn FnMut(E) -> E) -> R<V> {
    match a {
        V::A(x) => {
            let mut r = vec![];
            for p in x.iter() {
                r.push(map1(w, p, g)?);
            }
            Ok(V::A(Rc::new(r)))
        }
        _ => Ok(fromexpr(g(toexpr(a, w)))),
    }
}
fn h_memcpy(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let d = conc!(ex, st, a[0]);
    let s = conc!(ex, st, a[1]);
    let n = conc!(ex, st, a[2]);
    ex.copy(st, d, s, n as usize)?;
    Ok(HR::Val(V::C(d)))
}
fn h_memset(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let d = conc!(ex, st, a[0]);
    let n = conc!(ex, st, a[2]) as usize;
    if n == 0 {
        return Ok(HR::Val(V::C(d)));
    }
    let off = (d & 0xffff_ffff) as usize;
    match (&a[1], st.mem.get(d >> 32)) {
        (V::C(b), Some(o)) if off + n <= o.data.len() && !o.ro && o.sym.is_none() => {
            let o = st.mem.get_mut(d >> 32).unwrap();
            o.data[off..off + n].fill(*b as u8);
        }
        _ => {
            let e = match &a[1] {
                V::C(b) => k8(*b as u8),
                v => toexpr(v, 8),
            };
            ex.write_bytes(st, d, &vec![e; n])?;
        }
    }
    Ok(HR::Val(V::C(d)))
}
fn h_minmax(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let n = ex.p.funcs[f as usize].name.clone();
    let r = map2(w, &a[0], &a[1], &mut |x, y| {
        ctx(|c| {
            let l = if n.starts_with("llvm.u") { c.ult(x, y) } else { c.slt(x, y) };
            if n[6..9].eq("max") {
                c.ite(l, y, x)
            } else {
                c.ite(l, x, y)
            }
        })
    })?;
    Ok(HR::Val(r))
}
fn h_abs(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let r = map1(w, &a[0], &mut |x| {
        ctx(|c| {
            let z = c.k(0, w);
            let l = c.slt(x, z);
            let n = c.neg(x);
            c.ite(l, n, x)
        })
    })?;
    Ok(HR::Val(r))
}
fn h_fabs(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let x = ex.conc_v(st, &a[0])?;
    Ok(HR::Val(V::C(x & !(1 << 63))))
}
fn h_cmp3(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let rw = ex.width(ex.p.funcs[f as usize].ret);
    let u = ex.p.funcs[f as usize].name.starts_with("llvm.u");
    let r = map2(w, &a[0], &a[1], &mut |x, y| {
        ctx(|c| {
            let (l, g) = if u { (c.ult(x, y), c.ult(y, x)) } else { (c.slt(x, y), c.slt(y, x)) };
            let m = c.k(mask(rw), rw);
            let o = c.k(1, rw);
            let z = c.k(0, rw);
            let t = c.ite(g, o, z);
            c.ite(l, m, t)
        })
    })?;
    Ok(HR::Val(r))
}
fn h_sat(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let n = ex.p.funcs[f as usize].name.clone();
    let signed = n.starts_with("llvm.s");
    let add = n[6..].starts_with("add");
    let r = map2(w, &a[0], &a[1], &mut |x, y| {
        ctx(|c| {
            if !signed {
                if add {
                    let s = c.bin(Op::Add, x, y);
                    let o = c.ult(s, x);
                    let m = c.k(mask(w), w);
                    c.ite(o, m, s)
                } else {
                    let l = c.ult(x, y);
                    let z = c.k(0, w);
                    let s = c.sub(x, y);
                    c.ite(l, z, s)
                }
            } else {
                let (xe, ye) = (c.sext(x, w + 1), c.sext(y, w + 1));
                let s = if add { c.bin(Op::Add, xe, ye) } else { c.sub(xe, ye) };
                let mx = c.k(mask(w - 1), w + 1);
                let mn = c.k(mask(w + 1) & !mask(w - 1), w + 1);
                let hi = c.slt(mx, s);
                let lo = c.slt(s, mn);
                let t = c.ite(lo, mn, s);
                let t = c.ite(hi, mx, t);
                c.extract(t, 0, w)
            }
        })
    })?;
    Ok(HR::Val(r))
}
fn h_ovf(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let n = ex.p.funcs[f as usize].name.clone();
    let signed = n.starts_with("llvm.s");
    let op = &n[6..9];
    if w <= 64 {
        if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
            let (r, o);
            if signed {
                let (x, y) = (sext(*x as u128, w), sext(*y as u128, w));
                let t = match op {
                    "add" => x + y,
                    "sub" => x - y,
                    _ => x * y,
                };
                r = t as u128 & mask(w);
                o = sext(r, w) != t;
            } else {
                let (x, y) = (*x as u128, *y as u128);
                let t = match op {
                    "add" => x + y,
                    "sub" => x.wrapping_sub(y),
                    _ => x * y,
                };
                r = t & mask(w);
                o = if op == "sub" { x < y } else { r != t };
            }
            return Ok(HR::Val(V::A(Rc::new(vec![V::C(r as u64), V::C(o as u64)]))));
        }
    }
    let (x, y) = (toexpr(&a[0], w), toexpr(&a[1], w));
    let (r, o) = ctx(|c| {
        let w2 = if op == "mul" { w * 2 } else { w + 1 };
        if w2 > 128 {
            // 64x64 multiplication of wide values: not needed for the code under test
        }
        let (xe, ye) = if signed { (c.sext(x, w2), c.sext(y, w2)) } else { (c.zext(x, w2), c.zext(y, w2)) };
        let s = match op {
            "add" => c.bin(Op::Add, xe, ye),
            "sub" => c.sub(xe, ye),
            _ => c.bin(Op::Mul, xe, ye),
        };
        let r = c.extract(s, 0, w);
        let b = if signed { c.sext(r, w2) } else { c.zext(r, w2) };
        let e = c.eq(b, s);
        (r, c.not(e))
    });
    Ok(HR::Val(V::A(Rc::new(vec![fromexpr(r), fromexpr(o)]))))
}
fn bits_of(c: &mut Ctx, x: E, w: u32) -> Vec<E> {
    (0..w).map(|i| c.extract(x, i, 1)).collect()
}
fn h_bits(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let n = ex.p.funcs[f as usize].name.clone();
    let k = n[5..].split('.').next().unwrap().to_string();
    let r = map1(w, &a[0], &mut |x| {
        ctx(|c| {
            if let Some(v) = c.cv(x) {
                let r = match k.as_str() {
                    "ctpop" => v.count_ones() as u128,
                    "cttz" => (v.trailing_zeros().min(w)) as u128,
                    "ctlz" => (v.leading_zeros() - (128 - w)) as u128,
                    "bswap" => v.swap_bytes() >> (128 - w),
                    _ => v.reverse_bits() >> (128 - w),
                };
                return c.k(r, w);
            }
            let b = bits_of(c, x, w);
            match k.as_str() {
                "ctpop" => {
                    let mut s = c.k(0, w);
                    for e in b {
                        let z = c.zext(e, w);
                        s = c.bin(Op::Add, s, z);
                    }
                    s
                }
                "cttz" | "ctlz" => {
                    let mut acc = c.k(w as u128, w);
                    let it: Vec<(usize, E)> = if k == "cttz" { b.into_iter().enumerate().rev().collect() } else { b.into_iter().enumerate().collect() };
                    for (i, e) in it {
                        let v = if k == "cttz" { i as u128 } else { (w as usize - 1 - i) as u128 };
                        let kk = c.k(v, w);
                        acc = c.ite(e, kk, acc);
                    }
                    acc
                }
                "bswap" => {
                    let mut e = c.extract(x, w - 8, 8);
                    let mut i = w - 8;
                    while i > 0 {
                        i -= 8;
                        let h = c.extract(x, i, 8);
                        e = c.concat(h, e);
                    }
                    e
                }
                _ => {
                    let mut e = b[w as usize - 1];
                    for i in (0..w as usize - 1).rev() {
                        e = c.concat(b[i], e);
                    }
                    e
                }
            }
        })
    })?;
    Ok(HR::Val(r))
}
fn h_fsh(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let left = ex.p.funcs[f as usize].name.starts_with("llvm.fshl");
    let sh = match a[2].u() {
        Some(s) => (s % w as u128) as u32,
        None => return Err(Stop::Unsup("symbolic funnel shift".into())),
    };
    let (h, l) = (toexpr(&a[0], w), toexpr(&a[1], w));
    let r = ctx(|c| {
        let s = if left { sh } else { (w - sh) % w };
        if s == 0 {
            return if left { h } else { l };
        }
        let x = c.extract(h, 0, w - s);
        let y = c.extract(l, w - s, s);
        c.concat(x, y)
    });
    Ok(HR::Val(fromexpr(r)))
}
fn h_reduce(ex: &mut Ex, _st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let w = wid(ex, f);
    let n = ex.p.funcs[f as usize].name.clone();
    let k = n["llvm.vector.reduce.".len()..].split('.').next().unwrap().to_string();
    let v = match &a[0] {
        V::A(x) => x.clone(),
        _ => return Err(Stop::Unsup("reduce".into())),
    };
    let mut acc = toexpr(&v[0], w);
    for x in &v[1..] {
        let y = toexpr(x, w);
        acc = ctx(|c| match k.as_str() {
            "or" => c.bin(Op::Or, acc, y),
            "and" => c.bin(Op::And, acc, y),
            "xor" => c.bin(Op::Xor, acc, y),
            "add" => c.bin(Op::Add, acc, y),
            "mul" => c.bin(Op::Mul, acc, y),
            "umax" => {
                let l = c.ult(acc, y);
                c.ite(l, y, acc)
            }
            _ => {
                let l = c.ult(acc, y);
                c.ite(l, acc, y)
            }
        });
    }
    Ok(HR::Val(fromexpr(acc)))
}
fn h_first(_ex: &mut Ex, _st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    Ok(HR::Val(a[0].clone()))
}
fn h_void(_ex: &mut Ex, _st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    Ok(HR::Void)
}
fn h_trap(_ex: &mut Ex, _st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    Err(Stop::Bug("trap".into()))
}

// ---------------------------------------------------------------- harness interface
fn text(ex: &mut Ex, st: &mut State, p: &V, n: &V) -> R<String> {
    let p = conc!(ex, st, p);
    let n = conc!(ex, st, n);
    Ok(show(&ex.read_bytes(st, p, n as usize)?))
}
fn h_sym_bytes(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let n = conc!(ex, st, a[1]);
    let nm = text(ex, st, &a[2], &a[3])?;
    for i in 0..n {
        let e = ctx(|c| c.var(&format!("{}[{}]", nm, i)).1);
        ex.write_bytes(st, p + i, &[e])?;
    }
    Ok(HR::Void)
}
fn cond1(v: &V) -> V {
    match v {
        V::S(e) => {
            let q = ctx(|c| {
                let w = c.w(*e);
                if w == 1 {
                    *e
                } else {
                    let z = c.k(0, w);
                    let q = c.eq(*e, z);
                    c.not(q)
                }
            });
            fromexpr(q)
        }
        V::C(x) => V::C((*x != 0) as u64),
        v => v.clone(),
    }
}
fn h_sym_assume(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let c = cond1(&a[0]);
    match &c {
        V::C(1) => Ok(HR::Void),
        V::C(_) => Err(Stop::Dead("assumption")),
        V::S(e) => match ex.feasible(st, *e)? {
            Some(m) => {
                ex.assume(st, *e, true, m);
                Ok(HR::Void)
            }
            None => Err(Stop::Dead("assumption")),
        },
        _ => Err(Stop::Bug("assume".into())),
    }
}
fn h_sym_assert(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let m = text(ex, st, &a[1], &a[2])?;
    let c = cond1(&a[0]);
    ex.assert_prop(st, &c, &m)?;
    Ok(HR::Void)
}
fn h_sym_reach(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let m = text(ex, st, &a[0], &a[1])?;
    let n = ex.stats.reach.entry(m.clone()).or_insert(0);
    *n += 1;
    if *n == 1 {
        let mm = Rc::new((*st.path.model).clone());
        ex.violation(st, "witness", m, &mm);
    }
    Ok(HR::Void)
}
fn h_sym_note(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let m = text(ex, st, &a[0], &a[1])?;
    st.env.notes.push(m);
    Ok(HR::Void)
}
fn h_sym_choose(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = conc!(ex, st, a[0]);
    let nm = text(ex, st, &a[1], &a[2])?;
    let e = ctx(|c| c.var(&format!("{}[0]", nm)).1);
    if n < 256 {
        let k = k8(n as u8);
        let q = ctx(|c| c.ult(e, k));
        // restrict, without forking
        match ex.feasible(st, q)? {
            Some(m) => ex.assume(st, q, true, m),
            None => return Err(Stop::Dead("assumption")),
        }
    }
    let v = ex.concretize(st, e)? as u64;
    if n <= 256 {
        return v0(v);
    }
    // more than a byte: the high part is a variable of its own
    let h = ctx(|c| c.var(&format!("{}[1]", nm)).1);
    let k = k8(((n - 1 - v) / 256) as u8);
    let q = ctx(|c| {
        let x = c.ult(k, h);
        c.not(x)
    });
    match ex.feasible(st, q)? {
        Some(m) => ex.assume(st, q, true, m),
        None => return Err(Stop::Dead("assumption")),
    }
    let hi = ex.concretize(st, h)? as u64;
    v0(hi * 256 + v)
}
fn h_sym_concretize(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let v = conc!(ex, st, a[0]);
    v0(v)
}
fn h_sym_ite(_ex: &mut Ex, _st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let c = cond1(&a[0]);
    Ok(HR::Val(match &c {
        V::C(0) => a[2].clone(),
        V::C(_) => a[1].clone(),
        V::S(e) => ite_v(*e, &a[1], &a[2], Some(64))?,
        _ => return Err(Stop::Bug("ite".into())),
    }))
}
fn h_sym_param(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = text(ex, st, &a[0], &a[1])?;
    for x in &ex.args {
        if let Some((k, v)) = x.split_once('=') {
            if k == n {
                return v0(v.parse::<i64>().expect("param") as u64);
            }
        }
    }
    Ok(HR::Val(a[2].clone()))
}
fn h_sym_try(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, r: Option<Reg>) -> R<HR> {
    let f = conc!(ex, st, a[0]);
    let idx = f.wrapping_sub(FN_OBJ << 32) / 16;
    if idx >= ex.p.funcs.len() as u64 {
        return Err(Stop::Bug("sym_try target".into()));
    }
    st.frames.last_mut().unwrap().pc += 1;
    ex.push_call(st, idx as u32, vec![a[1].clone()], r, Marker::Try)?;
    Ok(HR::Jump)
}
fn h_app_arg(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let n = conc!(ex, st, a[1]);
    let b = ex.read_bytes(st, p, n as usize)?;
    st.env.app_args.push(Rc::new(b));
    Ok(HR::Void)
}
fn h_app_stdin(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let n = conc!(ex, st, a[1]);
    let b = ex.read_bytes(st, p, n as usize)?;
    st.env.stdin = Rc::new(b);
    st.env.stdin_pos = 0;
    Ok(HR::Void)
}
fn h_app_run(ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, r: Option<Reg>) -> R<HR> {
    if ex.p.fmap.len() < 2 {
        return Err(Stop::Unsup("no application module".into()));
    }
    let main = *ex.p.fmap[1].get("main").ok_or(Stop::Unsup("no main".into()))?;
    ex.reset_module(st, 1);
    let args = std::mem::take(&mut st.env.app_args);
    let mut argv: Vec<Vec<E>> = vec![b"ti-tools".iter().map(|&b| k8(b)).collect()];
    argv.extend(args.iter().map(|x| (**x).clone()));
    let av = st.mem.alloc(8 * (argv.len() as u64 + 1), true);
    for (i, a) in argv.iter().enumerate() {
        let p = st.mem.alloc(a.len() as u64 + 1, true);
        ex.write_bytes(st, p, a)?;
        ex.store_n(st, av + 8 * i as u64, 8, &V::C(p))?;
    }
    st.env.notes.push(format!("run {}", argv.iter().map(|a| show(a)).collect::<Vec<_>>().join(" ")));
    st.env.in_app = true;
    st.env.stdout = Rc::new(vec![]);
    st.env.stderr = Rc::new(vec![]);
    st.env.stdin_pos = 0;
    st.env.ops = 0;
    st.env.rops = 0;
    st.env.fault_hit = false;
    st.frames.last_mut().unwrap().pc += 1;
    ex.push_call(st, main, vec![V::C(argv.len() as u64), V::C(av)], r, Marker::App)?;
    Ok(HR::Jump)
}
fn h_app_out_len(ex: &mut Ex, st: &mut State, f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let n = &ex.p.funcs[f as usize].name;
    v0(if n.contains("stdout") { st.env.stdout.len() } else { st.env.stderr.len() } as u64)
}
fn h_app_out(ex: &mut Ex, st: &mut State, f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let p = conc!(ex, st, a[0]);
    let b = if ex.p.funcs[f as usize].name.contains("stdout") { st.env.stdout.clone() } else { st.env.stderr.clone() };
    ex.write_bytes(st, p, &b)?;
    Ok(HR::Void)
}
fn h_sym_fault(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    st.env.fault_kind = conc!(ex, st, a[0]) as u32;
    st.env.fault_at = conc!(ex, st, a[1]) as i64;
    Ok(HR::Void)
}
fn h_sym_fault_hit(_ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    v0(st.env.fault_hit as u64)
}
fn h_sym_app_ops(_ex: &mut Ex, st: &mut State, _f: u32, _a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    v0(st.env.ops as u64)
}
fn h_sym_hash_seed(ex: &mut Ex, st: &mut State, _f: u32, a: Vec<V>, _r: Option<Reg>) -> R<HR> {
    let k = conc!(ex, st, a[0]);
    st.env.hash_arb = k == 0xffff;
    st.env.seed = k.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def0;
    Ok(HR::Void)
}

/// names without crate disambiguators
pub fn norm(n: &str) -> String {
    let b = n.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j > i + 6 {
                o.push('C');
                i = j + 1;
                continue;
            }
        }
        o.push(b[i] as char);
        i += 1;
    }
    o
}

fn find_hook(name: &str) -> Option<HookFn> {
    if let Some(x) = name.strip_prefix("llvm.") {
        let h: HookFn = if x.starts_with("memcpy") || x.starts_with("memmove") {
            h_memcpy
        } else if x.starts_with("memset") {
            h_memset
        } else if x.starts_with("umax") || x.starts_with("umin") || x.starts_with("smax") || x.starts_with("smin") {
            h_minmax
        } else if x.starts_with("abs") {
            h_abs
        } else if x == "fabs.f64" {
            h_fabs
        } else if x.starts_with("ucmp") || x.starts_with("scmp") {
            h_cmp3
        } else if x.contains(".sat") {
            h_sat
        } else if x.contains(".with.overflow") {
            h_ovf
        } else if ["ctpop", "cttz", "ctlz", "bswap", "bitreverse"].iter().any(|p| x.starts_with(p)) {
            h_bits
        } else if x.starts_with("fsh") {
            h_fsh
        } else if x.starts_with("vector.reduce") {
            h_reduce
        } else if x.starts_with("threadlocal.address") || x.starts_with("expect") || x.starts_with("ptrmask") {
            h_first
        } else if x.starts_with("trap") {
            h_trap
        } else if ["lifetime", "assume", "experimental", "dbg", "x86.sse2.pause", "prefetch", "invariant"].iter().any(|p| x.starts_with(p)) {
            h_void
        } else {
            return None;
        };
        return Some(h);
    }
    let n = norm(name);
    if n.starts_with("_R") {
        let h: HookFn = if n.contains("BuildHasher8hash_one") {
            h_hash_one
        } else if n.contains("4core5slice6memchr6memchr") || n.contains("4core5slice6memchr14memchr_aligned") || n.contains("4core5slice6memchr7memrchr") {
            h_memchr
        } else if n.contains("6memchr10memchr_raw6detect") {
            h_memchr_raw
        } else if n.contains("19hashmap_random_keys") {
            h_random_keys
        } else if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("9panicking11begin_panic") && n.starts_with("_RINv") || n.contains("17rust_begin_unwind") || n.contains("20rust_panic_with_hook") {
            h_panic
        } else if (n.contains("3ptr9drop_glue") || n.contains("13drop_in_place")) && (n.contains("6tokens11Translation") || n.contains("6tokens3Map") || n.contains("6tokens9TokenData") || n.contains("7content7Content")) {
            // releasing the token table has no observable effect; not executed to save time
            h_void
        } else if n.contains("_12___rust_abort") {
            h_abort
        } else {
            return None;
        };
        return Some(h);
    }
    let h: HookFn = match name {
        "open64" | "open" => h_open,
        "close" => h_close,
        "read" => h_read,
        "write" => h_write,
        "lseek64" | "lseek" => h_lseek,
        "writev" => h_writev,
        "readv" => h_readv,
        "pread64" | "pread" | "pwrite64" | "pwrite" => h_prw,
        "clock_gettime" => h_clock,
        "ioctl" => h_notty,
        "memchr" | "memrchr" => h_cmemchr,
        "getuid" | "geteuid" | "getgid" | "getegid" | "nanosleep" | "clock_nanosleep" | "sched_yield" => h_zero,
        "stat64" | "lstat64" | "stat" | "lstat" => h_stat,
        "fstat64" | "fstat" => h_fstat,
        "access" => h_access,
        "unlink" => h_unlink,
        "rmdir" => h_rmdir,
        "rename" => h_rename,
        "mkdir" => h_mkdir,
        "ftruncate64" | "ftruncate" => h_ftruncate,
        "opendir" => h_opendir,
        "readdir64" | "readdir" => h_readdir,
        "closedir" => h_closedir,
        "dirfd" => h_zero,
        "getcwd" => h_getcwd,
        "realpath" => h_realpath,
        "readlink" => h_readlink,
        "symlink" | "link" | "linkat" => h_link,
        "chmod" | "fchmod" => h_chmod,
        "fsync" | "fdatasync" | "isatty" => h_zero,
        "malloc" => h_malloc,
        "calloc" => h_calloc,
        "posix_memalign" => h_memalign,
        "realloc" => h_realloc,
        "free" => h_free,
        "bcmp" | "memcmp" => h_memcmp,
        "memcpy" | "memmove" => h_memcpy,
        "memset" => h_memset,
        "strlen" => h_strlen,
        "__errno_location" => h_errno,
        "__xpg_strerror_r" => h_strerror,
        "syscall" | "getrandom" => h_getrandom,
        "sysconf" => h_sysconf,
        "sigaction" => h_sigaction,
        "copy_file_range" | "sendfile64" | "splice" => h_enosys,
        "poll" | "fcntl" | "signal" | "sigaltstack" | "getenv" | "getauxval" | "mprotect" | "munmap" | "pause" | "pthread_attr_destroy" | "dup" | "umask" => h_zero,
        "pthread_self" | "gettid" | "getpid" | "pthread_getattr_np" => h_one,
        "exit" | "_exit" => h_exit,
        "abort" => h_abort,
        "sym_bytes" => h_sym_bytes,
        "sym_assume" => h_sym_assume,
        "sym_assert" => h_sym_assert,
        "sym_reach" => h_sym_reach,
        "sym_note" => h_sym_note,
        "sym_choose" => h_sym_choose,
        "sym_concretize" => h_sym_concretize,
        "sym_ite" => h_sym_ite,
        "sym_param" => h_sym_param,
        "sym_try" => h_sym_try,
        "sym_app_arg" => h_app_arg,
        "sym_app_stdin" => h_app_stdin,
        "sym_app_run" => h_app_run,
        "sym_app_stdout_len" | "sym_app_stderr_len" => h_app_out_len,
        "sym_app_stdout" | "sym_app_stderr" => h_app_out,
        "sym_fault" => h_sym_fault,
        "sym_fault_hit" => h_sym_fault_hit,
        "sym_app_ops" => h_sym_app_ops,
        "sym_hash_seed" => h_sym_hash_seed,
        _ => return None,
    };
    Some(h)
}

/// Attach the models to the program's functions (before execution starts).
pub fn install(p: &mut Program) -> Vec<HookFn> {
    let mut hooks: Vec<HookFn> = vec![h_trap];
    for f in p.funcs.iter_mut() {
        f.memo = f.defined && memoizable(&f.name);
        if let Some(h) = find_hook(&f.name) {
            if f.defined && !f.name.starts_with("_R") && !f.name.starts_with("mem") && f.name != "bcmp" && f.name != "strlen" {
                continue;
            }
            f.hook = hooks.len() as u32;
            hooks.push(h);
        }
    }
    hooks
}
fn memoizable(name: &str) -> bool {
    name.starts_with("_RNv") && (name.ends_with("6tokens11load_tokens") || name.ends_with("6tokens22load_token_definitions"))
}
/// Function definitions that must survive inlining so that the models apply.
pub fn must_stay(name: &str) -> bool {
    name.starts_with("_R") && (find_hook(name).is_some() || memoizable(name))
}
