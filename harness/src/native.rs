//! Replay: the interface of sym.rs over one concrete assignment and the real binary.
//! Exit codes: 10 a check failed, 20 the assignment violates an assumption, 101 panic.
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

struct Model(HashMap<String, u8>, HashMap<String, u64>);
static MODEL: Mutex<Option<Model>> = Mutex::new(None);
#[derive(Default)]
struct App {
    args: Vec<Vec<u8>>,
    stdin: Vec<u8>,
    out: Vec<u8>,
    err: Vec<u8>,
    fault: (u32, i64),
    hit: bool,
    ops: u64,
}
static APP: Mutex<Option<App>> = Mutex::new(None);

fn txt(p: *const u8, l: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).to_string() }
}
fn val(k: &str) -> u8 {
    let mut g = MODEL.lock().unwrap();
    let m = g.get_or_insert_with(|| {
        let mut m = Model(HashMap::new(), HashMap::new());
        for l in std::fs::read_to_string(std::env::var("SYM_MODEL").unwrap()).unwrap().lines() {
            if let Some((k, v)) = l.rsplit_once('=') {
                match k.strip_prefix("param ") {
                    Some(k) => drop(m.1.insert(k.into(), v.parse::<i64>().unwrap() as u64)),
                    None => drop(m.0.insert(k.into(), v.parse().unwrap())),
                }
            }
        }
        m
    });
    *m.0.get(k).unwrap_or(&0)
}
pub unsafe fn sym_bytes(p: *mut u8, n: usize, name: *const u8, l: usize) {
    let nm = txt(name, l);
    for i in 0..n {
        *p.add(i) = val(&format!("{}[{}]", nm, i));
    }
}
pub unsafe fn sym_assume(c: u32) {
    if c == 0 {
        println!("ASSUME");
        std::process::exit(20);
    }
}
pub unsafe fn sym_assert(c: u32, m: *const u8, l: usize) {
    if c == 0 {
        println!("FAILED {}", txt(m, l));
        std::process::exit(10);
    }
}
pub unsafe fn sym_reach(m: *const u8, l: usize) {
    println!("REACH {}", txt(m, l));
}
pub unsafe fn sym_choose(n: u64, name: *const u8, l: usize) -> u64 {
    let mut v = val(&format!("{}[0]", txt(name, l))) as u64;
    if n > 256 {
        v += 256 * val(&format!("{}[1]", txt(name, l))) as u64;
    }
    sym_assume((v < n) as u32);
    v
}
pub unsafe fn sym_concretize(v: u64) -> u64 {
    v
}
pub unsafe fn sym_ite(c: u32, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
pub unsafe fn sym_param(name: *const u8, l: usize, default: u64) -> u64 {
    val("");
    *MODEL.lock().unwrap().as_ref().unwrap().1.get(&txt(name, l)).unwrap_or(&default)
}
fn with<T>(f: impl FnOnce(&mut App) -> T) -> T {
    f(APP.lock().unwrap().get_or_insert_with(|| App { fault: (0, -1), ..App::default() }))
}
pub unsafe fn sym_app_arg(p: *const u8, n: usize) {
    let a = std::slice::from_raw_parts(p, n).to_vec();
    with(|x| x.args.push(a));
}
pub unsafe fn sym_app_stdin(p: *const u8, n: usize) {
    let a = std::slice::from_raw_parts(p, n).to_vec();
    with(|x| x.stdin = a);
}
pub unsafe fn sym_app_run() -> i32 {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::process::ExitStatusExt;
    with(|x| {
        let mut c = std::process::Command::new(std::env::var("SYM_APP").unwrap());
        for a in x.args.drain(..) {
            c.arg(std::ffi::OsStr::from_bytes(&a));
        }
        let log = std::env::var("SYM_LOG").unwrap();
        let _ = std::fs::remove_file(&log);
        c.env("LD_PRELOAD", std::env::var("SYM_SHIM").unwrap())
            .env("SHIM_KIND", x.fault.0.to_string())
            .env("SHIM_AT", x.fault.1.to_string())
            .env("SHIM_LOG", &log)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped());
        let mut ch = c.spawn().expect("start the application");
        let mut si = ch.stdin.take().unwrap();
        let inp = x.stdin.clone();
        let t = std::thread::spawn(move || {
            let _ = si.write_all(&inp);
        });
        let o = ch.wait_with_output().unwrap();
        let _ = t.join();
        x.out = o.stdout;
        x.err = o.stderr;
        let l = std::fs::read_to_string(&log).unwrap_or_default();
        x.ops = l.lines().count() as u64;
        x.hit = l.contains('!');
        o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0))
    })
}
pub unsafe fn sym_app_stdout_len() -> usize {
    with(|x| x.out.len())
}
pub unsafe fn sym_app_stderr_len() -> usize {
    with(|x| x.err.len())
}
pub unsafe fn sym_app_stdout(p: *mut u8) {
    with(|x| std::ptr::copy(x.out.as_ptr(), p, x.out.len()))
}
pub unsafe fn sym_app_stderr(p: *mut u8) {
    with(|x| std::ptr::copy(x.err.as_ptr(), p, x.err.len()))
}
pub unsafe fn sym_fault(kind: u32, at: i64) {
    with(|x| x.fault = (kind, at))
}
pub unsafe fn sym_fault_hit() -> u32 {
    with(|x| x.hit as u32)
}
pub unsafe fn sym_app_ops() -> u64 {
    with(|x| x.ops)
}
/// the real hash keys are random; the driver replays such cases many times
pub unsafe fn sym_hash_seed(_k: u64) {}
