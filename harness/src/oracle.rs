//! Reference tokens and reference encoding, over the published sheet.
use crate::sheet::*;
use std::cmp::Ordering;

/// the generation of every model the tool lists
pub const MODELS: &[(&str, u32)] = &[
    ("TI-82", 10),
    ("TI-83", 20),
    ("TI-82ST", 20),
    ("TI-82ST.fr", 20),
    ("TI-76.fr", 20),
    ("TI-83+", 30),
    ("TI-83+SE", 30),
    ("TI-83+.fr", 30),
    ("TI-82+", 30),
    ("TI-84+", 40),
    ("TI-84+SE", 40),
    ("TI-83+.fr:USB", 40),
    ("TI-84P.fr", 40),
    ("TI-84+PSE", 40),
    ("TI-82A", 45),
    ("TI-84+T", 45),
    ("TI-84+CSE", 50),
    ("TI-84+CE", 60),
    ("TI-84+CET", 60),
    ("TI-83PCE", 60),
    ("TI-83PCEEP", 60),
    ("TI-84+CEPY", 60),
    ("TI-84+CETPE", 60),
    ("TI-82AEP", 60),
    ("latest", 9999999),
];
/// signature, product id and language of a model
pub fn details(i: usize) -> (&'static str, u8, &'static str) {
    let sig = match i {
        0 => "**TI82**",
        1..=4 => "**TI83**",
        _ => "**TI83F*",
    };
    let product = match i {
        0..=4 => 0,
        5..=8 => 4,
        9..=13 => 0x0A,
        14 => 0x0B,
        15 => 0x1B,
        16 => 0x0F,
        17..=22 => 0x13,
        _ => 0,
    };
    let lang = match i {
        3 | 4 | 7 | 8 | 11 | 12 | 14 | 19 | 20 | 23 => "fr",
        _ => "en",
    };
    (sig, product, lang)
}
/// an OS version; None: the newest
pub type Os<'a> = (u32, Option<&'a [u32]>);
fn le(a: (u32, &[u32]), b: Os) -> bool {
    match a.0.cmp(&b.0) {
        Ordering::Less => true,
        Ordering::Greater => false,
        _ => match b.1 {
            None => true,
            Some(v) => a.1 <= v,
        },
    }
}
fn ge(a: (u32, &[u32]), b: Os) -> bool {
    match a.0.cmp(&b.0) {
        Ordering::Less => false,
        Ordering::Greater => true,
        _ => match b.1 {
            None => false,
            Some(v) => a.1 >= v,
        },
    }
}
/// the tokens of an OS, by key
pub fn table(os: Os) -> Vec<&'static E> {
    let mut v: Vec<&'static E> = vec![];
    for e in SHEET {
        if le(e.since, os) && e.until.map_or(true, |u| ge(u, os)) {
            if v.last().map_or(false, |l| l.key == e.key) {
                v.pop();
            }
            v.push(e);
        }
    }
    v
}
pub fn find<'a>(t: &[&'a E], key: &[u8]) -> Option<&'a E> {
    t.binary_search_by(|e| e.key.cmp(key)).ok().map(|i| t[i])
}
/// text of a body (concrete bytes)
pub fn decode(t: &[&E], b: &[u8], mode: usize) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        if let Some(e) = find(t, &b[i..i + 1]) {
            s.push_str(e.text[mode]);
            i += 1;
        } else if i + 1 < b.len() {
            s.push_str(find(t, &b[i..i + 2])?.text[mode]);
            i += 2;
        } else {
            return None;
        }
    }
    Some(s)
}
/// the longest or shortest token a text starts with; of equal texts the lowest key
pub fn pick<'a>(t: &[&'a E], s: &[u8], mode: usize, longest: bool) -> Option<&'a E> {
    let mut best: Option<&E> = None;
    for e in t {
        let x = e.text[mode].as_bytes();
        if s.len() >= x.len() && &s[..x.len()] == x {
            let n = best.map(|b| b.text[mode].len());
            if n.map_or(true, |n| if longest { x.len() > n } else { x.len() < n }) {
                best = Some(e);
            }
        }
    }
    best
}
/// body of a text. how: 0 smart as pinned by the existing fixtures, 1 max, 2 min, 3 smart as
/// documented (code after a closing quote is encoded longest)
pub fn encode(t: &[&E], text: &str, mode: usize, how: usize) -> Option<Vec<u8>> {
    let text = text.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ");
    let mut out = vec![];
    for (i, line) in text.replace("\r\n", "\n").split('\n').enumerate() {
        if i > 0 {
            out.push(0x3F);
        }
        let mut s = line.as_bytes();
        let mut literal = false;
        let mut open = false;
        while !s.is_empty() {
            let longest = match how {
                1 => true,
                2 => false,
                _ => !literal,
            };
            let e = pick(t, s, mode, longest)?;
            out.extend(e.key);
            let x = e.text[mode];
            s = &s[x.len()..];
            if e.key == [0x5F] || e.key == [0xEB] {
                literal = true;
            } else if e.key == [0x2A] {
                open = !open;
                literal = if how == 3 { open } else { true };
            } else if e.key == [0x04] || !x.bytes().all(|b| b.is_ascii_alphabetic()) {
                literal = false;
                open = false;
            }
        }
    }
    Some(out)
}
