//! C02, C03, C04, C05, C06, C08: files that are read, edited and written again.
use crate::sym::*;
use crate::util::*;
use ti_tools::calculator::program::Program;
use ti_tools::calculator::DisplayMode;

pub fn mode(i: usize) -> DisplayMode {
    match i {
        0 => DisplayMode::Pretty,
        1 => DisplayMode::Accessible,
        _ => DisplayMode::TiAscii,
    }
}
/// the model a product id and signature stand for
pub fn model_of(product: u8, sig: &[u8]) -> Option<&'static str> {
    match product {
        0 => Some(if same(sig, b"**TI83**") {
            "TI-83"
        } else if same(sig, b"**TI83F*") {
            "latest"
        } else {
            "TI-82"
        }),
        0x04 => Some("TI-83+"),
        0x0A => Some("TI-84+"),
        0x0B => Some("TI-82A"),
        0x0F => Some("TI-84+CSE"),
        0x13 => Some("TI-84+CE"),
        0x1B => Some("TI-84+T"),
        _ => None,
    }
}
pub fn valid_type(b: u8) -> bool {
    (b == 5) | (b == 6) | (b == 0x17) | (b == 0x24)
}
pub fn type_name(b: u8) -> &'static str {
    match b {
        5 => "Program",
        6 => "Locked Program",
        0x17 => "Group",
        _ => "Flash Application",
    }
}
pub fn dest_name(b: u8) -> &'static str {
    if b == 0 {
        "RAM"
    } else {
        "Archive"
    }
}
/// the base file with one part of it arbitrary
pub fn window(w: usize) -> Vec<u8> {
    let mut f = base();
    fn set(f: &mut [u8], at: usize, n: usize, name: &str) {
        let b = bytes(n, name);
        f[at..at + n].copy_from_slice(&b);
    }
    match w {
        0 => set(&mut f, SIG, 11, "signature"),
        1 => {
            let k = choose(param("cpos", 39), "comment_at");
            set(&mut f, COMMENT + k, param("cwin", 4), "comment")
        }
        2 => set(&mut f, NAME, 8, "name"),
        3 => {
            set(&mut f, TOTAL, 2, "total");
            set(&mut f, FLAG, 5, "flag_len_type");
            set(&mut f, VERSION, 6, "version_dest_len");
            set(&mut f, BODY + 9, 2, "checksum");
        }
        _ => {
            // three bytes of the body, after a one- or two-byte token
            let k = choose(3, "body_at");
            set(&mut f, BODY + 3 * k, param("bwin", 2), "body");
        }
    }
    f
}
entries! {
    /// C05: the loaded fields are those of the file
    fn h_fields() {
        let w = param("window", 0);
        let f = window(w);
        put("a.8xp", &f);
        let p = load_as("a.8xp", mode(choose(3, "mode")));
        let model = model_of(f[PRODUCT], &f[..8]);
        let t = f[TYPE];
        let d = f[DEST];
        let good = model.is_some() && valid_type(t) && (d == 0 || d == 0x80);
        check(p.is_some() == good, "loads exactly when type, destination and product id are known");
        if let Some(p) = p {
            reach("loaded");
            // the signature is text as well: a NUL in it is kept
            let mut sig = String::new();
            for i in 0..8 {
                sig.push(f[i] as char);
            }
            check(same(p.header.signature.as_bytes(), sig.as_bytes()), "signature");
            check(p.header.product_id == f[PRODUCT] && same(&p.header.signature_extra, &f[8..10]), "product id");
            check(p.model.model.to_string() == model.unwrap(), "model");
            check(text_is(&p.header.comment, &f[COMMENT..TOTAL]), "comment");
            check(text_is(&p.metadata.name, &f[NAME..VERSION]), "name");
            let le = |i: usize| f[i] as u16 | (f[i + 1] as u16) << 8;
            check(p.header.metadata_and_body_length == le(TOTAL), "total length");
            check(p.metadata.flag == f[FLAG] && p.metadata.unknown_byte == f[FLAG + 1], "flag");
            check(p.metadata.body_and_checksum_length == le(LEN1) && p.metadata.body_and_checksum_length_copy == le(LEN2) && p.metadata.body_length == le(LEN3), "lengths");
            check(p.metadata.version == f[VERSION], "version");
            check(p.metadata.file_type.to_string() == type_name(t) && p.metadata.file_type.to_byte() == t, "file type");
            check(p.metadata.destination.to_string() == dest_name(d) && p.metadata.destination.to_byte() == d, "destination");
            check(p.checksum.value == le(f.len() - 2), "checksum");
            check(same(&p.header.bytes, &f[..55]) && same(&p.metadata.bytes, &f[55..74]) && same(&p.body.bytes, &f[74..f.len() - 2]), "raw bytes");
            std::mem::forget(p)
        } else {
            reach("rejected");
        }
    }
    /// C03: load and save
    fn h_resave() {
        let w = param("window", 0);
        let mut f = window(w);
        if w == 3 {
            let n = f.len();
            assume(f[TOTAL] == 28 && f[TOTAL + 1] == 0 && f[LEN1] == 11 && f[LEN1 + 1] == 0 && f[LEN2] == 11 && f[LEN2 + 1] == 0 && f[LEN3] == 9 && f[LEN3 + 1] == 0);
            let _ = n;
        }
        seal(&mut f);
        put("a.8xp", &f);
        let p = load_as("a.8xp", mode(choose(3, "mode")));
        if let Some(p) = p {
            reach("loaded");
            check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
            let g = get("b.8xp");
            check(same(&f, &g), "the saved file is the loaded file");
            std::mem::forget(p)
        }
    }
    /// C04: calculator files of every small length, all bytes arbitrary
    fn h_short() {
        let ext = ["8xp", "82p", "83p"][choose(3, "ext")];
        let name = format!("a.{}", ext);
        let least = if ext == "8xp" { 76 } else { 74 };
        let n = choose(least, "len");
        let f = bytes(n, "file");
        put(&name, &f);
        let mut r = false;
        let alive = survives(|| {
            let p = load(&name);
            r = p.is_some();
            std::mem::forget(p)
        });
        check(alive, "loading does not crash");
        check(!r, "a truncated file is rejected");
        reach("done");
    }
    /// C04: paths that are not text
    fn h_any_path() {
        use std::os::unix::ffi::OsStringExt;
        let f = base();
        put("a.8xp", &f);
        std::fs::create_dir("d").unwrap();
        put("d/k", b"k");
        let b = bytes(2, "name");
        assume(all(2, |i| (b[i] != 0) & (b[i] != b'/')));
        let ext: &[u8] = [&b".8xp"[..], b".83p", b".txt", b".json", b"", b"."][choose(6, "ext")];
        let name: Vec<u8> = match choose(3, "where") {
            0 => [&b"n"[..], &b, ext].concat(),
            1 => [&b"n"[..], &b, b"/x", ext].concat(),
            _ => [&b"n.x"[..], &b, &ext[ext.len().min(1)..]].concat(),
        };
        let path = std::path::PathBuf::from(std::ffi::OsString::from_vec(name));
        let op = choose(4, "op");
        let mut ok = true;
        let alive = survives(|| {
            ok = match op {
                0 => Program::load_from_8xp(path.clone(), mode(1)).map(std::mem::forget).is_ok(),
                1 => Program::load_from_txt(path.clone(), &ti_tools::calculator::EncodeMode::Max).map(std::mem::forget).is_ok(),
                2 => Program::load_from_json(path.clone()).map(std::mem::forget).is_ok(),
                _ => {
                    let p = load("a.8xp").unwrap();
                    let r = p.save_to(&path).is_ok();
                    std::mem::forget(p);
                    r
                }
            };
        });
        check(alive, "no crash");
        if op < 3 {
            check(!ok, "a file that does not exist is no program");
        } else {
            check(list(".").len() == 2 + ok as usize, "saving writes one file or none");
        }
        reach(if ok { "works" } else { "error" });
    }
    /// C04: arbitrary variable header, body of n bytes and checksum
    fn h_any_meta() {
        let ext = ["8xp", "82p", "83p"][choose(3, "ext")];
        let name = format!("a.{}", ext);
        let mut f = base();
        f.truncate(HEADER);
        f.extend(bytes(if ext == "8xp" { 5 } else { 17 }, "meta"));
        if ext == "8xp" {
            f.extend(b"NAME\0\0\0\0");
            f.extend(bytes(6, "meta2"));
        } else {
            // the name is covered elsewhere
            f.truncate(60);
            f.extend(b"NAME\0\0\0\0");
            f.extend(bytes(4, "meta3"));
        }
        let n = choose(param("max", 2) + 1, "bodylen");
        f.extend(bytes(n, "body"));
        f.extend(bytes(2, "sum"));
        let mut m = 1;
        if n >= 2 {
            assume(f[TYPE] == 5 && (ext != "8xp" || f[DEST] == 0));
        } else {
            m = choose(3, "mode");
        }
        put(&name, &f);
        let mut r = false;
        let mut save = true;
        let alive = survives(|| {
            if let Some(p) = load_as(&name, mode(m)) {
                r = true;
                for e in ["o.8xp", "o.82p", "o.83p", "o.txt"] {
                    save &= p.save_to(&e.into()).is_ok();
                }
                let _ = p.to_string();
                std::mem::forget(p)
            }
        });
        check(alive, "loading and saving does not crash");
        if r {
            reach("loaded");
            check(save, "saving works")
        } else {
            reach("rejected")
        }
    }
    /// C04: text files of n arbitrary bytes
    fn h_any_txt() {
        let n = choose(param("max", 3) + 1, "len");
        put("a.txt", &bytes(n, "text"));
        let alive = survives(|| {
            let p = Program::load_from_txt("a.txt".into(), &ti_tools::calculator::EncodeMode::Smart).ok();
            std::mem::forget(p)
        });
        check(alive, "loading does not crash");
        reach("done");
    }
    /// C04: a text program with one of its lines replaced by arbitrary bytes
    fn h_any_line() {
        let k = choose(8, "line");
        let n = choose(param("max", 2) + 1, "len");
        let b = bytes(n, "text");
        let mut f = vec![];
        for (i, l) in ["NAME", "Comment", "Program", "RAM", "accessible", "TI-84+", "Disp 1"].iter().enumerate() {
            if i == k {
                f.extend(&b);
            } else {
                f.extend(l.as_bytes());
            }
            f.push(b'\n');
        }
        if k == 7 {
            f.extend(&b);
        }
        put("a.txt", &f);
        let mut e = 0;
        if n > 0 && k >= 6 {
            e = choose(3, "encode_mode");
        }
        let mut r = false;
        let alive = survives(|| {
            let p = Program::load_from_txt("a.txt".into(), &emode(e)).ok();
            r = p.is_some();
            std::mem::forget(p)
        });
        check(alive, "loading does not crash");
        if r {
            reach("loaded")
        } else {
            reach("rejected")
        }
    }
}
pub fn emode(i: usize) -> ti_tools::calculator::EncodeMode {
    use ti_tools::calculator::EncodeMode::*;
    match i {
        0 => Smart,
        1 => Max,
        _ => Min,
    }
}
