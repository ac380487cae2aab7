//! Interface between the harnesses and the checker. Under ksym these are symbolic; under the
//! `native` feature they replay one concrete assignment against the real build.
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

#[cfg(not(feature = "native"))]
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, l: usize);
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, m: *const u8, l: usize);
    fn sym_reach(m: *const u8, l: usize);
    fn sym_choose(n: u64, name: *const u8, l: usize) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_ite(c: u32, a: u64, b: u64) -> u64;
    fn sym_param(name: *const u8, l: usize, default: u64) -> u64;
    fn sym_try(f: extern "C" fn(*mut u8), d: *mut u8) -> u32;
    fn sym_app_arg(p: *const u8, n: usize);
    fn sym_app_stdin(p: *const u8, n: usize);
    fn sym_app_run() -> i32;
    fn sym_app_stdout_len() -> usize;
    fn sym_app_stderr_len() -> usize;
    fn sym_app_stdout(p: *mut u8);
    fn sym_app_stderr(p: *mut u8);
    fn sym_fault(kind: u32, at: i64);
    fn sym_fault_hit() -> u32;
    fn sym_app_ops() -> u64;
    fn sym_hash_seed(k: u64);
}

#[cfg(feature = "native")]
use crate::native::*;

/// `n` arbitrary bytes
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    v
}
pub fn byte(name: &str) -> u8 {
    let mut v = [0u8; 1];
    unsafe { sym_bytes(v.as_mut_ptr(), 1, name.as_ptr(), name.len()) };
    v[0]
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
pub fn check(c: bool, m: &str) {
    unsafe { sym_assert(c as u32, m.as_ptr(), m.len()) }
}
/// vacuity witness: this point was reached on a feasible path
pub fn reach(m: &str) {
    unsafe { sym_reach(m.as_ptr(), m.len()) }
}
/// an arbitrary value below n (explored exhaustively)
pub fn choose(n: usize, name: &str) -> usize {
    unsafe { sym_choose(n as u64, name.as_ptr(), name.len()) as usize }
}
pub fn conc(v: usize) -> usize {
    unsafe { sym_concretize(v as u64) as usize }
}
/// a decided condition: later code is not merged across it
pub fn br(c: bool) -> bool {
    unsafe { sym_concretize(c as u64) != 0 }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sym_ite(c as u32, a, b) }
}
pub fn param(name: &str, default: usize) -> usize {
    unsafe { sym_param(name.as_ptr(), name.len(), default as u64) as usize }
}
extern "C" fn tramp<F: FnMut()>(d: *mut u8) {
    unsafe { (*(d as *mut F))() }
}
/// true when `f` returned, false when it panicked
#[cfg(feature = "native")]
pub fn survives<F: FnMut()>(f: F) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}
/// true when `f` returned, false when it panicked
#[cfg(not(feature = "native"))]
pub fn survives<F: FnMut()>(mut f: F) -> bool {
    unsafe { sym_try(tramp::<F>, &mut f as *mut F as *mut u8) == 0 }
}
/// byte-wise equality as one formula (no case split)
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub struct Out {
    pub code: i32,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl Out {
    /// ended by a panic, an abort or a signal
    pub fn crashed(&self) -> bool {
        self.code == 101 || self.code >= 128
    }
}
/// the real binary, run with arbitrary arguments and standard input in the scratch directory
pub fn app(args: &[&[u8]], stdin: &[u8]) -> Out {
    unsafe {
        for a in args {
            sym_app_arg(a.as_ptr(), a.len());
        }
        sym_app_stdin(stdin.as_ptr(), stdin.len());
        let code = sym_app_run();
        let mut stdout = vec![0; sym_app_stdout_len()];
        sym_app_stdout(stdout.as_mut_ptr());
        let mut stderr = vec![0; sym_app_stderr_len()];
        sym_app_stderr(stderr.as_mut_ptr());
        Out { code, stdout, stderr }
    }
}
/// 1: the k-th modifying file operation of the application fails; 2: the process dies there
pub fn fault(kind: u32, at: i64) {
    unsafe { sym_fault(kind, at) }
}
pub fn fault_hit() -> bool {
    unsafe { sym_fault_hit() != 0 }
}
/// which hash function the next maps use
pub fn hash_seed(k: u64) {
    unsafe { sym_hash_seed(k) }
}
/// modifying file operations of the last application run
pub fn ops() -> usize {
    unsafe { sym_app_ops() as usize }
}
