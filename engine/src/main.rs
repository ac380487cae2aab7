//! ksym: bounded symbolic execution of LLVM IR with an SMT solver as the judge.
#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod model;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    module: String,
    app: Option<String>,
    entry: String,
    args: Vec<String>,
    jobs: usize,
    time: f64,
    out: String,
    max_steps: u64,
    frontier: usize,
    trace: bool,
    dump: Option<String>,
    max_viol: u32,
    max_paths: u64,
}

/// Shared between the worker processes: the next frontier item, the number of running workers and
/// the number of result files handed out.
struct Shared {
    next: AtomicUsize,
    active: AtomicUsize,
    files: AtomicUsize,
}

/// A worker process: when there is room for one more, it hands half of its pending states to a
/// forked child.
struct Pool {
    sh: &'static Shared,
    jobs: usize,
    base: String,
    out: String,
    last: Instant,
    kids: Vec<(i32, String)>,
    dump: Option<String>,
}
impl Pool {
    /// true in the child
    fn split(&mut self, ex: &mut Ex, work: &mut VecDeque<State>) -> bool {
        let n = self.sh.active.load(SeqCst);
        if n >= self.jobs || self.sh.active.compare_exchange(n, n + 1, SeqCst, SeqCst).is_err() {
            return false;
        }
        let f = format!("{}.s{}", self.base, self.sh.files.fetch_add(1, SeqCst));
        let _ = std::fs::remove_file(&f);
        let pid = unsafe { fork() };
        if pid == 0 {
            self.reset(ex, f);
            let keep: VecDeque<State> = work.drain(..).enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
            *work = keep;
            return true;
        }
        if pid < 0 {
            self.sh.active.fetch_sub(1, SeqCst);
        } else {
            let keep: VecDeque<State> = work.drain(..).enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
            *work = keep;
            self.kids.push((pid, f));
        }
        self.last = Instant::now();
        false
    }
    /// a fresh worker in a forked process: solver contexts are not shared across fork()
    fn reset(&mut self, ex: &mut Ex, f: String) {
        self.out = f;
        self.kids.clear();
        self.last = Instant::now();
        ex.stats = RunStats::default();
        ex.viols.clear();
        ex.hot.clear();
        let mut s = solver::Solver::new();
        s.dump = self.dump.clone();
        std::mem::forget(std::mem::replace(&mut ex.solver, s));
    }
    fn finish(&mut self, ex: &Ex) -> ! {
        self.sh.active.fetch_sub(1, SeqCst);
        let mut r = collect(ex);
        gather(&mut r, std::mem::take(&mut self.kids));
        let _ = std::fs::write(&self.out, ser(&r));
        unsafe { _exit(0) };
    }
}

/// wait for worker processes and add up what they report
fn gather(res: &mut Res, kids: Vec<(i32, String)>) {
    for (pid, f) in kids {
        let mut stt = 0;
        unsafe { waitpid(pid, &mut stt, 0) };
        let s = std::fs::read_to_string(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        if !merge(res, &s) {
            *res.maps.entry("unsup".into()).or_default().entry(format!("worker died (status {})", stt)).or_insert(0) += 1;
        }
    }
}

/// drive one state set to completion, depth first
fn explore(ex: &mut Ex, mut work: VecDeque<State>, bfs_until: usize, max_paths: u64, mut pool: Option<&mut Pool>) -> VecDeque<State> {
    let debug = std::env::var("KSYM_DEBUG").is_ok();
    let mut base = 0;
    let began = Instant::now();
    while let Some(mut st) = if bfs_until > 0 { work.pop_front() } else { work.pop_back() } {
        if ex.timed_out || (max_paths > 0 && ex.stats.paths >= max_paths) {
            ex.timed_out = true;
            break;
        }
        if let Some(p) = pool.as_mut() {
            if !work.is_empty() && p.last.elapsed().as_millis() > 250 {
                work.push_back(st);
                if p.split(ex, &mut work) {
                    // the child explores its half and nothing else
                    base = 1;
                }
                match work.pop_back() {
                    Some(x) => st = x,
                    None => continue,
                }
            }
        }
        match ex.run(&mut st) {
            Stop::Fork(c, mt, mf) => {
                ex.stats.forks += 1;
                let mut a = st.clone();
                ex.assume(&mut a, c, true, mt);
                a.path.depth += 1;
                ex.assume(&mut st, c, false, mf);
                st.path.depth += 1;
                if bfs_until > 0 {
                    work.push_back(a);
                    work.push_back(st);
                    if work.len() >= bfs_until || began.elapsed().as_millis() > 400 {
                        return work;
                    }
                } else {
                    work.push_back(st);
                    work.push_back(a);
                }
            }
            Stop::Done => ex.stats.paths += 1,
            Stop::Dead(w) => {
                ex.stats.paths += 1;
                *ex.stats.dead.entry(w.to_string()).or_insert(0) += 1;
            }
            Stop::Bug(m) => {
                ex.stats.paths += 1;
                let model = st.path.model.clone();
                if debug {
                    eprintln!("BUG {} at {:?}", m, ex.stack_names(&st).iter().map(|s| model::short(s)).collect::<Vec<_>>());
                }
                ex.violation(&st, "crash", m, &model);
            }
            Stop::Unsup(m) => {
                ex.stats.paths += 1;
                if debug {
                    eprintln!("UNSUP {} at {:?}", m, ex.stack_names(&st).iter().map(|s| model::short(s)).collect::<Vec<_>>());
                }
                *ex.stats.unsup.entry(m).or_insert(0) += 1;
            }
        }
    }
    if base == 1 {
        if let Some(p) = pool {
            p.finish(ex);
        }
    }
    work
}

#[derive(Default)]
struct Res {
    nums: BTreeMap<String, f64>,
    maps: BTreeMap<String, BTreeMap<String, u64>>,
    cov: BTreeSet<usize>,
    viols: Vec<String>,
    hot: BTreeMap<String, u64>,
}

fn collect(ex: &Ex) -> Res {
    let mut r = Res::default();
    let s = &ex.stats;
    for (k, v) in [
        ("paths", s.paths),
        ("forks", s.forks),
        ("steps", s.steps),
        ("asserts", s.asserts),
        ("assert_queries", s.assert_queries),
        ("assert_unsat", s.assert_unsat),
        ("assert_folded", s.assert_folded),
        ("assert_table", s.assert_table),
        ("confirm", s.confirm),
        ("assert_unknown", s.assert_unknown),
        ("table_decisions", s.quick),
        ("concretized", s.concretized),
        ("queries", ex.solver.st.queries),
        ("queries_cached", ex.solver.st.cached),
        ("sat", ex.solver.st.sat),
        ("unsat", ex.solver.st.unsat),
        ("unknown", ex.solver.st.unknown),
        ("timed_out", ex.timed_out as u64),
    ] {
        r.nums.insert(k.into(), v as f64);
    }
    r.nums.insert("solver_s".into(), ex.solver.st.time_s);
    r.nums.insert("solver_max_s".into(), ex.solver.st.max_s);
    r.maps.insert("dead".into(), s.dead.clone());
    r.maps.insert("reach".into(), s.reach.clone());
    r.maps.insert("unsup".into(), s.unsup.clone());
    for (i, &c) in ex.fcov.iter().enumerate() {
        if c > 0 {
            r.cov.insert(i);
        }
    }
    for v in &ex.viols {
        let m: Vec<String> = v.model.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
        let n: Vec<String> = v.notes.iter().map(|x| esc(x)).collect();
        let st: Vec<String> = v.stack.iter().take(12).map(|x| esc(&model::short(x))).collect();
        r.viols.push(format!("{{\"msg\":{},\"kind\":{},\"model\":{{{}}},\"notes\":[{}],\"stack\":[{}]}}", esc(&v.msg), esc(&v.kind), m.join(","), n.join(","), st.join(",")));
    }
    for (&(f, pc), &n) in &ex.hot {
        *r.hot.entry(format!("{}@{}", model::short(&ex.p.funcs[f as usize].name), pc)).or_insert(0) += n;
    }
    r
}
// a line-based exchange format between worker and parent
fn ser(r: &Res) -> String {
    let mut o = String::new();
    for (k, v) in &r.nums {
        o += &format!("N\t{}\t{}\n", k, v);
    }
    for (m, x) in &r.maps {
        for (k, v) in x {
            o += &format!("M\t{}\t{}\t{}\n", m, k.replace(['\t', '\n'], " "), v);
        }
    }
    for c in &r.cov {
        o += &format!("C\t{}\n", c);
    }
    for v in &r.viols {
        o += &format!("V\t{}\n", v);
    }
    for (k, v) in &r.hot {
        o += &format!("H\t{}\t{}\n", k, v);
    }
    o += "END\n";
    o
}
fn merge(r: &mut Res, s: &str) -> bool {
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "N" => {
                let v: f64 = f[2].parse().unwrap();
                let e = r.nums.entry(f[1].into()).or_insert(0.0);
                if f[1] == "solver_max_s" {
                    *e = e.max(v);
                } else {
                    *e += v;
                }
            }
            "M" => *r.maps.entry(f[1].into()).or_default().entry(f[2].into()).or_insert(0) += f[3].parse::<u64>().unwrap(),
            "C" => {
                r.cov.insert(f[1].parse().unwrap());
            }
            "V" => r.viols.push(l[2..].to_string()),
            "H" => *r.hot.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "END" => return true,
            _ => {}
        }
    }
    false
}

fn run(o: Opts) -> i32 {
    let t0 = Instant::now();
    let mut prog = ir::Program::default();
    prog.load(&o.module);
    if let Some(a) = &o.app {
        prog.load(a);
    }
    let hooks = model::install(&mut prog);
    let p: &'static ir::Program = Box::leak(Box::new(prog));
    let t_load = t0.elapsed().as_secs_f64();
    let mut ex = Ex::new(p, hooks);
    ex.args = o.args.clone();
    ex.max_steps = o.max_steps;
    ex.trace = o.trace;
    ex.max_viol = o.max_viol;
    ex.solver.dump = o.dump.clone();
    if o.trace {
        ex.prof = vec![0; p.funcs.len()];
    }
    ex.deadline = Some(t0 + Duration::from_secs_f64(o.time));
    let mut st = ex.init(model::Env::new());
    let entry = match p.fmap[0].get(&o.entry) {
        Some(&f) if p.funcs[f as usize].defined => f,
        _ => {
            eprintln!("no entry {}", o.entry);
            return 2;
        }
    };
    if ex.push_call(&mut st, entry, vec![], None, Marker::None).is_err() {
        return 2;
    }
    let mut work = VecDeque::new();
    work.push_back(st);
    let front = if o.jobs <= 1 { 0 } else { o.frontier };
    let mut res;
    if front == 0 {
        explore(&mut ex, work, 0, o.max_paths, None);
        res = collect(&ex);
    } else {
        // Solver contexts must not be shared across fork(): the frontier is built in a child-free
        // parent, whose context is leaked in the children (they create their own).
        let work = explore(&mut ex, work, front, o.max_paths, None);
        res = collect(&ex);
        if !work.is_empty() && !ex.timed_out {
            let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
            sh.active.store(o.jobs, SeqCst);
            let work: Vec<State> = work.into_iter().collect();
            let mut pids = vec![];
            for w in 0..o.jobs {
                let f = format!("{}.w{}", o.out, w);
                let _ = std::fs::remove_file(&f);
                let pid = unsafe { fork() };
                if pid == 0 {
                    let mut pool = Pool { sh, jobs: o.jobs, base: o.out.clone(), out: String::new(), last: Instant::now(), kids: vec![], dump: o.dump.clone() };
                    pool.reset(&mut ex, f);
                    loop {
                        let i = sh.next.fetch_add(1, SeqCst);
                        if i >= work.len() || ex.timed_out {
                            break;
                        }
                        let mut q = VecDeque::new();
                        q.push_back(work[i].clone());
                        explore(&mut ex, q, 0, if o.max_paths > 0 { o.max_paths / o.jobs as u64 } else { 0 }, Some(&mut pool));
                    }
                    pool.finish(&ex);
                }
                pids.push((pid, f));
            }
            gather(&mut res, pids);
        }
    }
    let total = t0.elapsed().as_secs_f64();
    let mut j = String::from("{\n");
    j += &format!("\"entry\":{},\n\"load_s\":{:.3},\n\"wall_s\":{:.3},\n", esc(&o.entry), t_load, total);
    for (k, v) in &res.nums {
        j += &format!("{}:{},\n", esc(k), v);
    }
    for (m, x) in &res.maps {
        j += &format!("{}:{{{}}},\n", esc(m), x.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    }
    let fns: BTreeSet<String> = res.cov.iter().map(|&i| &p.funcs[i]).filter(|f| f.defined).map(|f| f.name.clone()).collect();
    j += &format!("\"functions_total\":{},\n", fns.len());
    let mine: BTreeSet<String> = fns.iter().filter(|n| n.contains("8ti_tools")).map(|n| model::short(n)).collect();
    j += &format!("\"functions\":[{}],\n", mine.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","));
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let vs: Vec<String> = res
        .viols
        .iter()
        .filter(|v| {
            let k = v.split(",\"model\"").next().unwrap().to_string();
            let n = seen.entry(k).or_insert(0);
            *n += 1;
            *n <= if v.contains("\"kind\":\"witness\"") { 1 } else { o.max_viol }
        })
        .cloned()
        .collect();
    let (ws, vs): (Vec<String>, Vec<String>) = vs.into_iter().partition(|v| v.contains("\"kind\":\"witness\""));
    j += &format!("\"witnesses\":[{}],\n", ws.join(",\n"));
    j += &format!("\"violations\":[{}]\n}}\n", vs.join(",\n"));
    std::fs::write(&o.out, &j).unwrap();
    if o.trace {
        let mut h: Vec<_> = res.hot.iter().collect();
        h.sort_by(|a, b| b.1.cmp(a.1));
        for (k, v) in h.iter().take(25) {
            eprintln!("fork {:8} {}", v, k);
        }
        let mut pr: Vec<(u64, usize)> = ex.prof.iter().cloned().enumerate().map(|(i, n)| (n, i)).collect();
        pr.sort();
        for (n, i) in pr.iter().rev().take(25) {
            if *n > 0 {
                eprintln!("steps {:10} {}", n, model::short(&p.funcs[*i].name));
            }
        }
    }
    let nv = vs.len();
    println!(
        "{}: paths {} steps {} queries {} solver {:.1}s wall {:.1}s asserts {} violations {} unsup {:?} dead {:?} timed_out {} reach {:?}",
        o.entry,
        res.nums["paths"],
        res.nums["steps"],
        res.nums["queries"],
        res.nums["solver_s"],
        total,
        res.nums["asserts"],
        nv,
        res.maps["unsup"],
        res.maps["dead"],
        res.nums["timed_out"],
        res.maps["reach"]
    );
    std::io::stdout().flush().unwrap();
    0
}

/// mark the functions that have models as not inlinable
fn prep(inp: &str, out: &str) {
    let t = std::fs::read_to_string(inp).unwrap();
    let mut o = String::with_capacity(t.len());
    for l in t.lines() {
        if l.starts_with("define ") {
            let name = l.split('@').nth(1).unwrap_or("").split('(').next().unwrap_or("");
            if model::must_stay(name.trim_matches('"')) {
                // replace the attribute group by noinline
                let mut words: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
                let mut done = false;
                for w in words.iter_mut().rev() {
                    if w.starts_with('#') && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                        *w = "noinline".into();
                        done = true;
                        break;
                    }
                }
                if !done {
                    let i = words.len() - 1;
                    words.insert(i, "noinline".into());
                }
                // an external function keeps its parameters
                o += &words.join(" ").replacen("define internal ", "define ", 1);
                o.push('\n');
                continue;
            }
        }
        o += l;
        o.push('\n');
    }
    std::fs::write(out, o).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 4 && a[1] == "prep" {
        prep(&a[2], &a[3]);
        return;
    }
    let mut o = Opts {
        module: String::new(),
        app: None,
        entry: String::new(),
        args: vec![],
        jobs: 1,
        time: 600.0,
        out: "/dev/null".into(),
        max_steps: 4_000_000_000,
        frontier: 128,
        trace: false,
        dump: None,
        max_viol: 3,
        max_paths: 0,
    };
    let mut i = 1;
    while i < a.len() {
        let key = a[i].clone();
        let mut nx = || {
            i += 1;
            a[i].clone()
        };
        match key.as_str() {
            "run" => {}
            "--module" => o.module = nx(),
            "--app" => o.app = Some(nx()),
            "--entry" => o.entry = nx(),
            "--arg" => {
                let v = nx();
                o.args.push(v)
            }
            "--jobs" => o.jobs = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--out" => o.out = nx(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--frontier" => o.frontier = nx().parse().unwrap(),
            "--trace" => o.trace = true,
            "--dump" => o.dump = Some(nx()),
            "--max-viol" => o.max_viol = nx().parse().unwrap(),
            "--max-paths" => o.max_paths = nx().parse().unwrap(),
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(o)).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
