//! C06, C07, C08: edits of a loaded program.
use crate::sym::*;
use crate::util::*;
use ti_tools::calculator::program::Program;

fn letter(b: u8) -> bool {
    (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z')
}

entries! {
    /// C07: every name of n bytes (ASCII and not)
    fn h_name() {
        put("a.8xp", &base());
        let mut p = load("a.8xp").unwrap();
        let n = choose(param("max", 10) + 1, "len");
        let nm = bytes(n, "name");
        let s = match String::from_utf8(nm.clone()) {
            Ok(s) => s,
            Err(_) => return std::mem::forget(p),
        };
        let before = p.metadata.bytes.clone();
        let ok = p.metadata.rename(s).is_ok();
        let valid = n <= 8 && all(n, |i| letter(nm[i]));
        check(ok == valid, "a name is accepted exactly when it is valid");
        if ok {
            reach("accepted");
            check(p.metadata.name.len() == n, "stored name has the length given");
            let up = p.metadata.name.as_bytes();
            check(all(n, |i| up[i] == nm[i] & 0xDF), "stored in upper case");
            check(p.metadata.bytes.len() == before.len(), "metadata size unchanged");
            check(all(before.len(), |i| p.metadata.bytes[i] == if i < 5 || i >= 13 { before[i] } else if i - 5 < n { nm[i - 5] & 0xDF } else { 0 }), "name bytes");
        } else {
            reach("rejected");
            check(same(&p.metadata.bytes, &before), "rejected name leaves the bytes");
            check(p.metadata.name == "BASE", "rejected name leaves the name");
        }
        std::mem::forget(p)
    }
    /// C07: comments: wide two-byte characters below U+0100, ASCII characters, and an ending that
    /// is any valid UTF-8 of some bytes
    fn h_comment() {
        put("a.8xp", &base());
        let mut p = load("a.8xp").unwrap();
        let wide = choose(param("wide", 2) + 1, "wide");
        let n = choose(param("max", 46) + 1, "len");
        let odd = choose(param("odd", 3) + 1, "odd");
        let mut c = vec![];
        let mut want = vec![];
        for b in bytes(wide, "wide_chars") {
            let b = b | 0x80;
            c.extend([0xC0 | b >> 6, 0x80 | b & 0x3F]);
            want.push(b);
        }
        let a = bytes(n, "comment");
        assume(all(n, |i| a[i] < 0x80));
        c.extend(&a);
        want.extend(&a);
        let t = bytes(odd, "odd_bytes");
        let mut fits = true;
        if odd > 0 {
            let s = match String::from_utf8(t) {
                Ok(s) => s,
                Err(_) => return std::mem::forget(p),
            };
            for ch in s.chars() {
                fits = fits && (ch as u32) < 256;
                want.push(ch as u32 as u8);
            }
            c.extend(s.as_bytes());
        }
        let s = unsafe { String::from_utf8_unchecked(c.clone()) };
        let before = p.header.bytes.clone();
        let ok = p.header.comment(s).is_ok();
        let n = want.len();
        check(ok == (fits && n <= 42), "a comment is accepted exactly when it fits");
        if ok {
            reach("accepted");
            check(same(p.header.comment.as_bytes(), &c), "stored as given");
            check(p.header.bytes.len() == 55, "header size unchanged");
            check(all(55, |i| p.header.bytes[i] == if i < 11 || i >= 53 { before[i] } else if i - 11 < n { want[i - 11] } else { 0 }), "comment bytes");
        } else {
            reach("rejected");
            check(same(&p.header.bytes, &before), "rejected comment leaves the bytes");
            check(p.header.comment == "Base comment", "rejected comment leaves the comment");
        }
        std::mem::forget(p)
    }
    /// C06: one edit of a file whose other fields are arbitrary
    fn h_edit_one() {
        let f = some_file();
        put("a.8xp", &f);
        let mut p = load("a.8xp").unwrap();
        let e = edit(&mut p, choose(6, "op"), true);
        check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
        let g = get("b.8xp");
        let mut w = f.clone();
        e.apply(&mut w);
        check(g.len() == f.len(), "the size does not change");
        check(same(&g[BODY..g.len() - 2], &f[BODY..f.len() - 2]), "the body does not change");
        check(same(&g[..g.len() - 2], &w[..w.len() - 2]), "only the edited field changes");
        reach("edited");
        std::mem::forget(p)
    }
    /// C08 (and C02): a sequence of edits, saved and loaded again
    fn h_edit_seq() {
        let f = some_file();
        put("a.8xp", &f);
        let mut p = load("a.8xp").unwrap();
        let mut w = f.clone();
        let k = choose(param("steps", 3) + 1, "steps");
        for _ in 0..k {
            let e = edit(&mut p, choose(6, "op"), false);
            e.apply(&mut w);
            check(same(p.header.bytes.as_slice(), &w[..HEADER]) && same(p.metadata.bytes.as_slice(), &w[HEADER..BODY]), "bytes after each edit");
        }
        let ext = if param("exts", 0) == 0 { 0 } else { choose(3, "ext") };
        let out = ["b.8xp", "b.82p", "b.83p"][ext];
        check(p.save_to(&out.into()).is_ok(), "saving works");
        let g = get(out);
        let n = g.len();
        check(same(&sum(&g[HEADER..n - 2]), &g[n - 2..]), "valid checksum");
        if ext == 0 {
            reach("8xp");
            let q = load(out);
            check(q.is_some(), "the saved file loads");
            let q = q.unwrap();
            for x in [&p, &q] {
                check(text_is(&x.metadata.name, &w[NAME..VERSION]), "name");
                check(text_is(&x.header.comment, &w[COMMENT..TOTAL]), "comment");
                check(x.metadata.file_type.to_byte() == w[TYPE], "file type");
                check(x.metadata.destination.to_byte() == w[DEST], "destination");
                check(same(&x.header.bytes, &w[..HEADER]) && same(&x.metadata.bytes, &w[HEADER..BODY]) && same(&x.body.bytes, &w[BODY..w.len() - 2]), "bytes");
            }
            check(p.body.translation == q.body.translation && p.model.model == q.model.model, "text and model");
            std::mem::forget(q);
        } else {
            reach("82p/83p");
        }
        std::mem::forget(p)
    }
    /// programs of many sizes: loaded, saved, edited, exported and translated
    fn h_sizes() {
        let what = param("what", 0);
        let sizes = [0, 1, 2, 3, 127, 128, 129, 235, 236, 237, 238, 253, 254, 255, 256, 257, 300, 510, 511, 512, 999, 1000, 1001, 4095, 4096, 10000, 32767, 32768, 65000, 65515, 65516];
        let n = sizes[param("from", 0) + choose(param("sizes", sizes.len()), "size")];
        let x = byte("letter");
        assume((x >= b'A') & (x <= if n < 300 && what != 2 && what != 3 && what != 7 { b'Z' } else if n < 5000 { b'C' } else { b'B' }));
        // letters, line breaks and tokens of two bytes
        let mut body: Vec<u8> = vec![];
        let mut text = String::new();
        let at = [0, n / 2, n - (n > 0) as usize][if n < 2 { 0 } else if n < 5000 { choose(3, "at") } else { 1 }];
        while body.len() < n {
            let i = body.len();
            if i == at {
                body.push(x);
                text.push(unsafe { char::from_u32_unchecked(x as u32) });
            } else if i % 43 == 20 {
                body.push(0x3F);
                text.push('\n');
            } else if i % 71 == 30 && i + 1 < n && i + 1 != at {
                body.extend([0x5C, 0x01]);
                text.push_str("[B]");
            } else {
                body.push(b'A' + (i % 26) as u8);
                text.push((b'A' + (i % 26) as u8) as char);
            }
        }
        let f = file8xp(b"**TI83F*", 0x0A, b"Of some size", 5, b"SIZE", 0, 0, &body);
        put("a.8xp", &f);
        let p = load("a.8xp");
        check(p.is_some(), "the file loads");
        let mut p = p.unwrap();
        match what {
            0 => {
                check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
                check(same(&f, &get("b.8xp")), "the saved file is the loaded file");
            }
            1 => {
                let (h, m) = (&p.header, &p.metadata);
                check(h.metadata_and_body_length as usize == n + META && m.body_and_checksum_length as usize == n + 2 && m.body_and_checksum_length_copy as usize == n + 2 && m.body_length as usize == n, "lengths");
                check(same(&h.bytes, &f[..HEADER]) && same(&m.bytes, &f[HEADER..BODY]) && same(&p.body.bytes, &body), "bytes");
                let s = sum(&f[HEADER..f.len() - 2]);
                check(p.checksum.value == u16::from_le_bytes(s) && same(&p.checksum.bytes, &s), "checksum");
            }
            2 | 3 => {
                let e = edit(&mut p, choose(6, "op"), true);
                check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
                let g = get("b.8xp");
                let mut w = f.clone();
                e.apply(&mut w);
                seal(&mut w);
                check(same(&g, &w), "only the edited field and the checksum change");
                if what == 3 {
                    let q = load("b.8xp");
                    check(q.is_some(), "the saved file loads");
                    let q = q.unwrap();
                    check(same(&q.header.bytes, &w[..HEADER]) && same(&q.metadata.bytes, &w[HEADER..BODY]) && same(&q.body.bytes, &body), "bytes");
                    check(q.metadata.name == p.metadata.name && q.header.comment == p.header.comment, "name and comment");
                    std::mem::forget(q);
                }
            }
            4 => {
                check(p.save_to(&"a.json".into()).is_ok(), "saves as JSON");
                let q = Program::load_from_json("a.json".into()).ok();
                check(q.is_some(), "the JSON loads");
                let q = q.unwrap();
                check(same(&q.body.bytes, &body) && same(q.body.translation.as_bytes(), p.body.translation.as_bytes()), "body");
                check(q.save_to(&"b.8xp".into()).is_ok(), "saving works");
                check(same(&f, &get("b.8xp")), "the same file");
                std::mem::forget(q);
            }
            5 => {
                // a single final line break is not part of a text
                check(p.save_to(&"a.txt".into()).is_ok(), "saves as text");
                let q = Program::load_from_txt("a.txt".into(), &crate::file8::emode(1)).ok();
                check(q.is_some(), "the text loads");
                let q = q.unwrap();
                check(same(&q.body.bytes, &body), "the same tokens");
                std::mem::forget(q);
            }
            6 => check(same(p.body.translation.as_bytes(), text.as_bytes()), "the text is the published one"),
            _ => {
                edit(&mut p, choose(6, "op"), true);
                let out = ["b.8xp", "b.82p", "b.83p"][choose(3, "ext")];
                check(p.save_to(&out.into()).is_ok(), "saving works");
                let g = get(out);
                check(same(&sum(&g[HEADER..g.len() - 2]), &g[g.len() - 2..]), "valid checksum");
            }
        }
        reach("done");
        std::mem::forget(p)
    }
    /// C25: a program from an 82p or 83p file, edited and saved in every format
    fn h_old() {
        let ext = choose(2, "ext");
        let name = ["a.82p", "a.83p"][ext];
        let sigs: [(&[u8; 8], u8, usize); 3] = [(b"**TI82**", 0, 0), (b"**TI83**", 0, 1), (b"**TI83F*", 0x0A, 9)];
        // which of them the format has; a Plus signature occurs in either
        let s = [ext, 2][choose(2, "signature")];
        let (sig, product, i) = sigs[s];
        let mut comment = b"Old comment".to_vec();
        let mut title = b"OLD".to_vec();
        let mut kind = 5;
        let mut body: Vec<u8> = vec![0xDE, 0x2A, b'H', b'I', 0x2A, 0x3F, 0x31, 0x04, b'A'];
        match param("window", 0) {
            0 => {
                let at = [0, 3, 6][choose(3, "at")];
                title = b"OLDNAMES".to_vec();
                title[at..at + 2].copy_from_slice(&bytes(2, "name"));
            }
            1 => {
                let at = [0, 9, 40][choose(3, "at")];
                comment.resize(42, 0);
                comment[at..at + 2].copy_from_slice(&bytes(2, "comment"));
            }
            2 => {
                kind = byte("type");
                assume((kind == 5) | (kind == 6) | (kind == 0x17) | (kind == 0x24));
                let n = choose(param("max", 1) + 1, "body_len");
                body = bytes(n, "body");
                // one-byte tokens of every model
                assume(all(n, |i| (body[i] >= 0x30) & (body[i] <= 0x5A)));
            }
            _ => {
                let n = [0, 1, 228, 237, 238, 239, 240, 253, 254, 255, 256, 257, 1000, 4096][choose(14, "size")];
                let b = byte("token");
                assume((b >= b'A') & (b <= b'Z'));
                body = vec![b; n];
            }
        }
        let f = file82p(sig, product, &comment, kind, &title, &body);
        put(name, &f);
        let p = load(name);
        check(p.is_some(), "a valid file loads");
        let mut p = p.unwrap();
        let mut w = file8xp(sig, product, &comment, kind, &title, 0, 0, &body);
        let says = |p: &Program, w: &[u8]| {
            let n = w.len();
            check(text_is(&p.metadata.name, &w[NAME..VERSION]), "name");
            check(text_is(&p.header.comment, &w[COMMENT..TOTAL]), "comment");
            check(p.metadata.file_type.to_byte() == w[TYPE] && p.metadata.destination.to_byte() == w[DEST], "type and destination");
            check(same(&p.body.bytes, &w[BODY..n - 2]), "body");
            let t = crate::oracle::table((crate::oracle::MODELS[i].1, None));
            if w.len() < 200 {
                check(crate::oracle::decode(&t, &w[BODY..n - 2], 1).as_deref() == Some(&p.body.translation[..]), "text");
            } else {
                check(same(p.body.translation.as_bytes(), &w[BODY..n - 2]), "text");
            }
        };
        says(&p, &w);
        let steps = choose(param("steps", 1) + 1, "edits");
        for _ in 0..steps {
            let e = edit(&mut p, choose(6, "op"), false);
            e.apply(&mut w);
        }
        if steps > 0 {
            says(&p, &w);
            seal(&mut w);
        }
        // 8xp: the same program in that layout
        check(p.save_to(&"b.8xp".into()).is_ok() && same(&get("b.8xp"), &w), "well-formed 8xp file");
        // both older formats
        let name = {
            let mut n = w[NAME..VERSION].to_vec();
            n.truncate(8);
            n
        };
        let old = file82p(sig, product, &w[COMMENT..TOTAL], w[TYPE], &name, &body);
        let out = ["b.82p", "b.83p"][ext];
        check(p.save_to(&out.into()).is_ok() && same(&get(out), &old), "well-formed file in the older format");
        if steps == 0 {
            check(same(&old, &f), "the original file");
        }
        let q = load(out);
        check(q.is_some(), "which loads");
        // the older layout has no destination
        w[DEST] = 0;
        seal(&mut w);
        let q = q.unwrap();
        says(&q, &w);
        check(p.body.translation == q.body.translation && p.model.model == q.model.model, "the same text and model");
        check(q.save_to(&"c.8xp".into()).is_ok() && same(&get("c.8xp"), &w), "and is the same program");
        reach(if steps > 0 { "edited" } else { "loaded" });
        std::mem::forget((p, q))
    }
}

/// the base file with arbitrary version, lengths, type, destination, checksum and one token
fn some_file() -> Vec<u8> {
    let mut f = base();
    let n = f.len();
    for (at, k, name) in [(TOTAL, 6, "total_flag_len"), (TYPE, 1, "type"), (VERSION, 6, "version_dest_len"), (BODY + 6, 1, "body"), (n - 2, 2, "checksum")] {
        let b = bytes(k, name);
        f[at..at + k].copy_from_slice(&b);
    }
    let t = f[TYPE];
    assume((t == 5) | (t == 6) | (t == 0x17) | (t == 0x24));
    assume((f[DEST] == 0) | (f[DEST] == 0x80));
    // one-byte tokens every model has: digits, operators and letters
    let b = f[BODY + 6];
    assume((b >= 0x30) & (b <= 0x5A));
    f
}

/// what an edit does to a file
pub struct Edit {
    at: usize,
    size: usize,
    bytes: Vec<u8>,
}
impl Edit {
    pub fn apply(&self, f: &mut [u8]) {
        for i in 0..self.size {
            f[self.at + i] = if i < self.bytes.len() { self.bytes[i] } else { 0 };
        }
    }
}
pub fn edit(p: &mut Program, op: usize, mixed: bool) -> Edit {
    match op {
        0 => {
            let n = [0, 1, 4, 8][choose(4, "name_len")];
            let b = bytes(n, "name");
            assume(all(n, |i| letter(b[i]) && (mixed || b[i] < b'a')));
            check(p.metadata.rename(unsafe { String::from_utf8_unchecked(b.clone()) }).is_ok(), "a valid name is accepted");
            Edit { at: NAME, size: 8, bytes: b.iter().map(|x| x & 0xDF).collect() }
        }
        1 => {
            let n = [0, 1, 7, 42][choose(4, "comment_len")];
            let mut b = bytes(n, "comment");
            assume(all(n, |i| (b[i] < 0x80) & (b[i] != 0)));
            let mut c = b.clone();
            if n == 7 {
                // a character above ASCII
                c.truncate(6);
                c.extend([0xC3, 0xA9]);
                b[6] = 0xE9;
            }
            check(p.header.comment(unsafe { String::from_utf8_unchecked(c) }).is_ok(), "a valid comment is accepted");
            Edit { at: COMMENT, size: 42, bytes: b }
        }
        2 => {
            p.metadata.lock();
            Edit { at: TYPE, size: 1, bytes: vec![6] }
        }
        3 => {
            p.metadata.unlock();
            Edit { at: TYPE, size: 1, bytes: vec![5] }
        }
        4 => {
            p.metadata.archive();
            Edit { at: DEST, size: 1, bytes: vec![0x80] }
        }
        _ => {
            p.metadata.unarchive();
            Edit { at: DEST, size: 1, bytes: vec![0] }
        }
    }
}
