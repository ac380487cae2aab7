//! Shared pieces of the harnesses: reference file layout and reference values, written from the
//! file format documentation and independent of the code under test.
use crate::sym::*;
use ti_tools::calculator::program::Program;
use ti_tools::calculator::DisplayMode;

pub const HEADER: usize = 55;
pub const META: usize = 19;
pub const SIG: usize = 0;
pub const EXTRA: usize = 8;
pub const PRODUCT: usize = 10;
pub const COMMENT: usize = 11;
pub const TOTAL: usize = 53;
pub const FLAG: usize = 55;
pub const LEN1: usize = 57;
pub const TYPE: usize = 59;
pub const NAME: usize = 60;
pub const VERSION: usize = 68;
pub const DEST: usize = 69;
pub const LEN2: usize = 70;
pub const LEN3: usize = 72;
pub const BODY: usize = 74;

/// sum of all bytes, low 16 bits, low byte first
pub fn sum(b: &[u8]) -> [u8; 2] {
    let mut s = 0u16;
    for x in b {
        s = s.wrapping_add(*x as u16);
    }
    [s as u8, (s >> 8) as u8]
}
/// a file with consistent lengths and checksum
pub fn file8xp(sig: &[u8; 8], product: u8, comment: &[u8], ftype: u8, name: &[u8], version: u8, dest: u8, body: &[u8]) -> Vec<u8> {
    let mut f = sig.to_vec();
    f.extend([0x1A, 0x0A, product]);
    f.extend(comment);
    f.resize(TOTAL, 0);
    f.extend(((body.len() + META) as u16).to_le_bytes());
    f.extend([0x0D, 0]);
    f.extend(((body.len() + 2) as u16).to_le_bytes());
    f.push(ftype);
    f.extend(name);
    f.resize(VERSION, 0);
    f.push(version);
    f.push(dest);
    f.extend(((body.len() + 2) as u16).to_le_bytes());
    f.extend((body.len() as u16).to_le_bytes());
    f.extend(body);
    let s = sum(&f[HEADER..]);
    f.extend(s);
    f
}
/// a file in the older 82p/83p layout: no version, destination and second copies
pub fn file82p(sig: &[u8; 8], product: u8, comment: &[u8], ftype: u8, name: &[u8], body: &[u8]) -> Vec<u8> {
    let mut f = sig.to_vec();
    f.extend([0x1A, 0x0A, product]);
    f.extend(comment);
    f.resize(TOTAL, 0);
    f.extend(((body.len() + 17) as u16).to_le_bytes());
    f.extend([0x0B, 0]);
    f.extend(((body.len() + 2) as u16).to_le_bytes());
    f.push(ftype);
    f.extend(name);
    f.resize(VERSION, 0);
    f.extend(((body.len() + 2) as u16).to_le_bytes());
    f.extend((body.len() as u16).to_le_bytes());
    f.extend(body);
    let s = sum(&f[HEADER..]);
    f.extend(s);
    f
}
/// a small valid TI-84 Plus program: Disp "HI", newline, 1->A
pub fn base() -> Vec<u8> {
    file8xp(b"**TI83F*", 0x0A, b"Base comment", 0x05, b"BASE", 0, 0, &[0xDE, 0x2A, b'H', b'I', 0x2A, 0x3F, 0x31, 0x04, b'A'])
}
/// put the right checksum at the end
pub fn seal(f: &mut [u8]) {
    let n = f.len();
    let s = sum(&f[HEADER..n - 2]);
    f[n - 2] = s[0];
    f[n - 1] = s[1];
}
pub fn put(name: &str, b: &[u8]) {
    std::fs::write(name, b).unwrap();
}
pub fn get(name: &str) -> Vec<u8> {
    std::fs::read(name).unwrap()
}
pub fn exists(name: &str) -> bool {
    std::fs::metadata(name).is_ok()
}
pub fn load(name: &str) -> Option<Program> {
    load_as(name, DisplayMode::Accessible)
}
pub fn load_as(name: &str, m: DisplayMode) -> Option<Program> {
    Program::load_from_8xp(name.into(), m).ok()
}
/// names of the directory entries
pub fn list(dir: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    v.sort();
    v
}
pub fn all(n: usize, mut f: impl FnMut(usize) -> bool) -> bool {
    let mut r = true;
    for i in 0..n {
        r &= f(i);
    }
    r
}
/// is `s` the text of the bytes, one character per byte, without NULs?
pub fn text_is(s: &str, b: &[u8]) -> bool {
    let s = s.as_bytes();
    let mut j = 0;
    let mut ok = true;
    for &x in b {
        if br(x == 0) {
            continue;
        }
        if br(x < 0x80) {
            if j >= s.len() {
                return false;
            }
            ok &= s[j] == x;
            j += 1;
        } else {
            if j + 1 >= s.len() {
                return false;
            }
            ok &= (s[j] == 0xC0 | x >> 6) & (s[j + 1] == 0x80 | x & 0x3F);
            j += 2;
        }
    }
    ok && j == s.len()
}
