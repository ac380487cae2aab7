//! C01, C02, C16, C17 (and C03 by way of JSON): text and JSON forms of programs.
use crate::file8::{emode, mode, model_of, valid_type, window};
use crate::oracle;
use crate::sym::*;
use crate::tokens::FILES;
use crate::util::*;
use ti_tools::calculator::program::Program;

const TYPES: [(&str, u8); 4] = [("Program", 5), ("Locked Program", 6), ("Group", 0x17), ("Flash Application", 0x24)];
const DESTS: [(&str, u8); 2] = [("RAM", 0), ("Archive", 0x80)];
const MODES: [&str; 3] = ["pretty", "accessible", "ti"];

fn letter(b: u8) -> bool {
    (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z')
}
/// the file a text program has to become, but for the comment
fn check_file(g: &[u8], model: usize, ftype: u8, name: &[u8], dest: u8, body: &[u8]) {
    let (sig, product, _) = oracle::details(model);
    let mut s = [0u8; 8];
    s.copy_from_slice(sig.as_bytes());
    let n = g.len();
    check(n == 55 + 19 + body.len() + 2, "size of the file");
    let w = file8xp(&s, product, &g[COMMENT..TOTAL], ftype, name, 0, dest, body);
    check(same(&g[..COMMENT], &w[..COMMENT]), "signature and product id");
    let c = &g[COMMENT..TOTAL];
    check((1..42).all(|i| c[i - 1] != 0 || c[i] == 0), "the comment is padded with NULs");
    check(same(&g[TOTAL..FLAG], &w[TOTAL..FLAG]), "total length");
    check(same(&g[FLAG..BODY], &w[FLAG..BODY]), "variable header");
    check(same(&g[BODY..n - 2], &w[BODY..n - 2]), "body");
    check(same(&g[n - 2..], &w[n - 2..]), "checksum");
}
entries! {
    /// C01, C02: texts with every combination of settings and an arbitrary name
    fn h_txt() {
        let n = choose(param("max", 10) + 1, "name_len");
        let name = bytes(n, "name");
        assume(all(n, |i| (name[i] < 0x80) & (name[i] != b'\n') & (name[i] != b'\r')));
        let full = n == 4;
        let model = if full { choose(25, "model") } else { 24 };
        let (tn, tb) = TYPES[choose(4, "type")];
        let (dn, db) = DESTS[choose(2, "dest")];
        let m = if full { choose(3, "mode") } else { 1 };
        let eol = if full { "\n" } else { ["\n", "\r\n"][choose(2, "eol")] };
        let text = ["Disp \"HI\"", "Disp \"HI\"", "4469737020D448493F"][m];
        let text = if m == 2 { "4142" } else { text };
        let e = choose(3, "encode_mode");
        let mut f = name.clone();
        for l in ["Some comment", tn, dn, MODES[m], oracle::MODELS[model].0, text] {
            f.extend(eol.as_bytes());
            f.extend(l.as_bytes());
        }
        put("a.txt", &f);
        let p = Program::load_from_txt("a.txt".into(), &emode(e)).ok();
        let valid = n <= 8 && all(n, |i| letter(name[i]));
        let t = oracle::table((oracle::MODELS[model].1, None));
        let body = oracle::encode(&t, text, m, e);
        check(p.is_some() == (valid && body.is_some()), "accepted exactly when the name is valid and every token known");
        if let Some(p) = p {
            reach("file");
            let body = body.unwrap();
            check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
            check_file(&get("b.8xp"), model, tb, &name, db, &body);
            for o in ["b.82p", "b.83p"] {
                check(p.save_to(&o.into()).is_ok(), "saving works");
                let g = get(o);
                let k = g.len();
                check(same(&sum(&g[HEADER..k - 2]), &g[k - 2..]), "checksum of the 82p or 83p file");
            }
            std::mem::forget(p)
        } else {
            reach("rejected");
        }
    }
    /// C01, C02: bodies of many sizes, up to and over the limit
    fn h_txt_size() {
        let sizes = [0, 1, 2, 234, 235, 236, 237, 252, 253, 254, 255, 256, 257, 510, 511, 65513, 65514, 65515, 65516, 65517, 65518, 65532, 65533, 65534, 65535, 65536, 65537];
        let n = sizes[choose(sizes.len(), "size")];
        let mut f = b"NAME\nC\nProgram\nRAM\naccessible\nTI-84+\n".to_vec();
        let mut body = vec![];
        if n > 0 {
            for _ in 0..n - 1 {
                f.push(b'\n');
                body.push(0x3F);
            }
            // the last token: an arbitrary upper case letter or digit
            let b = byte("last");
            assume((b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'Z'));
            let b = if n > 1000 { conc(b as usize) as u8 } else { b };
            assume(n <= 1000 || b == b'A' || b == b'7');
            f.push(b);
            body.push(b);
        }
        put("a.txt", &f);
        let p = Program::load_from_txt("a.txt".into(), &emode(0)).ok();
        check(p.is_some() == (n + 19 <= 0xFFFF), "refused exactly when the lengths do not fit");
        if let Some(p) = p {
            reach("file");
            check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
            check_file(&get("b.8xp"), 9, 5, b"NAME", 0, &body);
            std::mem::forget(p)
        } else {
            reach("refused");
        }
    }
    /// C16: to text and back
    fn h_text_round() {
        let w = param("window", 0);
        let f = if w < 4 {
            window(w)
        } else if w == 5 {
            // two tokens in a row
            let (sig, product, _) = FILES[choose(param("models", 9), "model")];
            let mut body = bytes(2, "body");
            body.push(0x31);
            file8xp(sig, product, b"", 5, b"A", 0, 0, &body)
        } else {
            // any token, between others
            let (sig, product, _) = FILES[choose(param("models", 9), "model")];
            let around = choose(4, "around");
            let mut body = vec![];
            if around == 3 {
                body.push([0x3F, 0x29][choose(2, "front")]);
            } else if around > 0 {
                body.extend([0xDE, 0x2A, 0x41]);
            }
            let n = if around == 3 { 1 } else { 1 + choose(2, "len") };
            let b = bytes(n, "body");
            if n == 2 {
                // not two one-byte tokens
                let mut lead = false;
                for x in crate::sheet::SHEET {
                    if x.key.len() == 2 {
                        lead |= b[0] == x.key[0];
                    }
                }
                assume(lead);
            }
            body.extend(&b);
            if around == 2 {
                body.extend([0x29, 0x2A, 0x3F, 0xC2, 0x31, 0x11]);
            }
            if around == 3 {
                // blanks at the end
                let list: [&[u8]; 5] = [&[0x3F], &[0x3F, 0x3F], &[0x29], &[0x29, 0x3F], &[0x3F, 0x29]];
                body.extend(list[choose(5, "end")]);
            }
            file8xp(sig, product, b"", 5, b"A", 0, 0, &body)
        };
        if w == 2 {
            // a name the tool allows
            let n = choose(9, "name_len");
            assume(all(8, |i| if i < n { letter(f[NAME + i]) } else { f[NAME + i] == 0 }));
        }
        assume(valid_type(f[TYPE]) & ((f[DEST] == 0) | (f[DEST] == 0x80)));
        put("a.8xp", &f);
        let m = param("mode", 1);
        // in literals the pretty text of a token may be more than its characters
        let e = if w < 4 || m == 0 { 1 } else { choose(2, "encode_mode") };
        if let Some(p) = load_as("a.8xp", mode(m)) {
            check(p.save_to(&"a.txt".into()).is_ok(), "saves as text");
            let q = Program::load_from_txt("a.txt".into(), &emode(e)).ok();
            check(q.is_some(), "the text loads");
            let q = q.unwrap();
            reach("round");
            check(q.metadata.name == p.metadata.name, "name");
            check(q.metadata.file_type.to_byte() == f[TYPE] && p.metadata.file_type.to_byte() == f[TYPE], "file type");
            check(q.metadata.destination.to_byte() == f[DEST] && p.metadata.destination.to_byte() == f[DEST], "destination");
            check(q.model.model.model_order() == p.model.model.model_order(), "model generation");
            check(q.display_mode.to_string() == MODES[m], "display mode");
            check(q.save_to(&"b.8xp".into()).is_ok(), "saves");
            let g = get("b.8xp");
            check(g[TYPE] == f[TYPE] && g[DEST] == f[DEST] && same(&g[NAME..VERSION], &f[NAME..VERSION]), "the same settings in the file");
            let r = load_as("b.8xp", mode(m));
            check(r.is_some(), "loads");
            let r = r.unwrap();
            check(same(r.body.translation.as_bytes(), p.body.translation.as_bytes()), "program text");
            std::mem::forget((p, q, r))
        } else {
            reach("no program");
        }
    }
    /// C17, C03: JSON and back
    fn h_json() {
        let w = param("window", 0);
        let mut f = match w {
            // one arbitrary byte anywhere
            0 => {
                let mut f = base();
                let k = param("from", 0) + choose(param("at", f.len()), "at");
                f[k] = byte("byte");
                f
            }
            1 => {
                let mut f = base();
                let b = bytes(2, "comment");
                f[COMMENT + 40..COMMENT + 42].copy_from_slice(&b);
                f
            }
            // an 82p program
            _ => {
                let mut f = base();
                let b = bytes(1, "body");
                f[BODY] = b[0];
                f
            }
        };
        if param("seal", 0) == 1 {
            // a valid file: consistent lengths and checksum
            assume(f[TOTAL] == 28 && f[TOTAL + 1] == 0 && f[LEN1] == 11 && f[LEN1 + 1] == 0 && f[LEN2] == 11 && f[LEN2 + 1] == 0 && f[LEN3] == 9 && f[LEN3 + 1] == 0);
            seal(&mut f);
        }
        put("a.8xp", &f);
        let m = choose(3, "mode");
        let p = load_as("a.8xp", mode(m));
        if let Some(p) = p {
            check(p.save_to(&"a.json".into()).is_ok(), "saves as JSON");
            let q = Program::load_from_json("a.json".into()).ok();
            check(q.is_some(), "the JSON loads");
            let q = q.unwrap();
            reach("round");
            let h = &q.header;
            check(same(&h.bytes, &p.header.bytes) && h.signature == p.header.signature && same(&h.signature_extra, &p.header.signature_extra) && h.product_id == p.header.product_id && same(h.comment.as_bytes(), p.header.comment.as_bytes()) && h.metadata_and_body_length == p.header.metadata_and_body_length, "header");
            let (a, b) = (&q.metadata, &p.metadata);
            check(same(&a.bytes, &b.bytes) && a.flag == b.flag && a.unknown_byte == b.unknown_byte && a.body_and_checksum_length == b.body_and_checksum_length && a.file_type.to_byte() == b.file_type.to_byte() && same(a.name.as_bytes(), b.name.as_bytes()) && a.version == b.version && a.destination.to_byte() == b.destination.to_byte() && a.body_and_checksum_length_copy == b.body_and_checksum_length_copy && a.body_length == b.body_length, "metadata");
            check(same(&q.body.bytes, &p.body.bytes) && same(q.body.translation.as_bytes(), p.body.translation.as_bytes()), "body");
            check(same(&q.checksum.bytes, &p.checksum.bytes) && q.checksum.value == p.checksum.value, "checksum");
            check(q.display_mode.to_string() == MODES[m], "display mode");
            check(q.model.model == p.model.model && q.model.signature == p.model.signature && q.model.product_id == p.model.product_id && q.model.language == p.model.language, "model and language");
            check(q.model.model.to_string() == model_of(f[PRODUCT], &f[..8]).unwrap(), "the model of the file");
            for (x, y) in [("p.8xp", "q.8xp"), ("p.txt", "q.txt"), ("p.83p", "q.83p")] {
                check(p.save_to(&x.into()).is_ok() && q.save_to(&y.into()).is_ok(), "saves");
                check(same(&get(x), &get(y)), "the same file");
            }
            if param("seal", 0) == 1 {
                check(same(&get("q.8xp"), &f), "the original file");
            }
            std::mem::forget((p, q))
        }
    }
    /// C17: programs of every model, built from text
    fn h_json_txt() {
        let i = choose(25, "model");
        let (tn, _) = TYPES[choose(4, "type")];
        let (dn, _) = DESTS[choose(2, "dest")];
        let m = choose(3, "mode");
        let d = byte("char");
        assume((d >= b'A') & (d <= b'F'));
        let mut f = format!("NAME\nC\n{}\n{}\n{}\n{}\n", tn, dn, MODES[m], oracle::MODELS[i].0).into_bytes();
        if m == 2 {
            f.push(b'4');
            assume(d == b'A' || d == b'F');
            f.push(d);
        } else {
            f.extend(b"Disp \"");
            f.push(d);
        }
        put("a.txt", &f);
        let p = Program::load_from_txt("a.txt".into(), &emode(0)).ok();
        check(p.is_some(), "the text loads");
        let p = p.unwrap();
        check(p.save_to(&"a.json".into()).is_ok(), "saves as JSON");
        let q = Program::load_from_json("a.json".into()).ok();
        check(q.is_some(), "the JSON loads");
        let q = q.unwrap();
        reach("round");
        check(q.model.model == p.model.model && q.model.signature == p.model.signature && q.model.product_id == p.model.product_id && q.model.language == p.model.language, "model and language");
        check(q.model.model.to_string() == oracle::MODELS[i].0 && q.model.language == oracle::details(i).2, "the model of the text");
        for (x, y) in [("p.8xp", "q.8xp"), ("p.txt", "q.txt"), ("p.83p", "q.83p")] {
            check(p.save_to(&x.into()).is_ok() && q.save_to(&y.into()).is_ok(), "saves");
            check(same(&get(x), &get(y)), "the same file");
        }
        std::mem::forget((p, q))
    }
}
