//! C09 to C15, C18: tokens, encoding, decoding and the model registry.
use crate::file8::{emode, mode};
use crate::oracle;
use crate::sym::*;
use crate::util::*;
use std::cmp::Ordering;
use ti_tools::calculator::models::{Model, ModelDetails};
use ti_tools::calculator::program::{Destination, FileType, Program};
use ti_tools::calculator::tokens::{load_tokens, Map, OsVersion, Translation};
use ti_tools::calculator::{DisplayMode, EncodeMode};

/// the models files can name: signature, product id, index in the registry
pub const FILES: &[(&[u8; 8], u8, usize)] = &[
    (b"**TI83F*", 0, 24),
    (b"**TI82**", 0, 0),
    (b"**TI83**", 0, 1),
    (b"**TI83F*", 4, 5),
    (b"**TI83F*", 0x0A, 9),
    (b"**TI83F*", 0x0B, 14),
    (b"**TI83F*", 0x0F, 16),
    (b"**TI83F*", 0x13, 17),
    (b"**TI83F*", 0x1B, 15),
];
pub fn order(b: &[u8]) -> Vec<u8> {
    b.iter().map(|x| conc(*x as usize) as u8).collect()
}

entries! {
    /// C09: a body with n arbitrary bytes, between fixed tokens or alone, for every model a file
    /// can name and every display mode
    fn h_decode() {
        let k = choose(param("models", FILES.len()), "model");
        let (sig, product, i) = FILES[k];
        let t = oracle::table((oracle::MODELS[i].1, None));
        let n = choose(param("max", 1) + 1, "len");
        let b = bytes(n, "body");
        if param("lead", 0) == 1 && n == 2 {
            // the first byte begins a two-byte token of some model
            let mut lead = false;
            for x in crate::sheet::SHEET {
                if x.key.len() == 2 {
                    lead |= b[0] == x.key[0];
                }
            }
            assume(lead);
        }
        let mut body = vec![];
        let around = choose(param("around", 3), "around");
        if around > 0 {
            body.extend([0x41, 0x5C, 0x00]);
        }
        body.extend(&b);
        if around == 2 {
            body.extend([0x62, 0x16, 0x2A]);
        }
        put("a.8xp", &file8xp(sig, product, b"", 5, b"A", 0, 0, &body));
        for m in 0..3 {
            let p = load_as("a.8xp", mode(m));
            let cb = order(&body);
            let want = oracle::decode(&t, &cb, m);
            check(p.is_some() == want.is_some(), "decodes exactly when every byte belongs to a token");
            if let Some(p) = p {
                reach("decoded");
                check(same(p.body.translation.as_bytes(), want.unwrap().as_bytes()), "the text is the published one");
                std::mem::forget(p);
            } else {
                reach("rejected");
            }
        }
    }
    /// C10: the table of a model's newest OS, at an arbitrary key
    fn h_table() {
        let i = choose(25, "model");
        let (name, rank) = oracle::MODELS[i];
        let map = load_tokens(&OsVersion::new(Model::from_string(name), "latest".to_string())).ok().unwrap();
        let t = oracle::table((rank, None));
        check(map.map.len() == t.len(), "as many tokens as the sheet has");
        let n = 1 + choose(2, "len");
        let mut b = bytes(n, "key");
        if n == 2 {
            b[0] = conc(b[0] as usize) as u8;
        }
        // spelled the way the table does
        let hex = |x: u8| ite(x < 10, (b'0' + x) as u64, (b'A' - 10).wrapping_add(x) as u64) as u8;
        let mut key = vec![];
        for x in &b {
            key.push(b'$');
            key.push(hex(x >> 4));
            key.push(hex(x & 15));
        }
        key.extend(b" en");
        let got = map.get_value(unsafe { std::str::from_utf8_unchecked(&key) });
        let mut known = false;
        for e in &t {
            known |= e.key.len() == n && same(e.key, &b);
        }
        check(got.is_some() == known, "a token is available exactly when the sheet says so");
        if let Some(g) = got {
            let w = oracle::find(&t, &order(&b)).unwrap();
            reach("token");
            check(g.display == w.text[0] && g.accessible == w.text[1] && g.ti_ascii == w.text[2], "the texts of that OS");
        } else {
            reach("no token");
        }
        std::mem::forget(map)
    }
    /// C10: the whole table of an arbitrary numbered OS
    fn h_table_os() {
        let i = [0, 1, 5, 9, 14, 16, 17, 24][choose(8, "model")];
        let (name, rank) = oracle::MODELS[i];
        let shape = ["d.d", "d.dd", "d.ddd", "d.ddddd", "d.d.d", "d", ""][choose(param("shapes", 7), "shape")];
        let (s, v) = version(shape, "os");
        let map = load_tokens(&OsVersion::new(Model::from_string(name), s)).ok().unwrap();
        let t = oracle::table((rank, Some(&v)));
        check(map.map.len() == t.len(), "as many tokens as the sheet has");
        for w in t {
            let mut key = String::new();
            for x in w.key {
                key.push_str(&format!("${:02X}", x));
            }
            key.push_str(" en");
            let g = map.get_value(&key);
            check(g.is_some(), "a token of that OS is available");
            let g = g.unwrap();
            check(g.display == w.text[0] && g.accessible == w.text[1] && g.ti_ascii == w.text[2], "the texts of that OS");
        }
        reach("table");
        std::mem::forget(map)
    }
    /// C11: laws of the order, for arbitrary versions
    fn h_order() {
        let three = param("three", 0) == 1;
        let max = param("max", 3);
        let mk = |who: &str| {
            let i = if three { [0, 5, 6, 24][choose(4, &format!("{}_model", who))] } else { choose(25, &format!("{}_model", who)) };
            let n = choose(max + 2, &format!("{}_len", who));
            if n == max + 1 {
                return (i, "latest".to_string());
            }
            let b = bytes(n, who);
            for x in &b {
                let ok = (*x >= b'0') & (*x <= b'9') | (*x == b'.') | (*x == b'a');
                assume(ok);
            }
            (i, unsafe { String::from_utf8_unchecked(b) })
        };
        let os = |x: &(usize, String)| OsVersion::new(Model::from_string(oracle::MODELS[x.0].0), x.1.clone());
        let (a, b) = (mk("a"), mk("b"));
        let (x, y) = (os(&a), os(&b));
        let ab = x.cmp(&y);
        check(x.cmp(&x) == Ordering::Equal && y.cmp(&os(&b)) == Ordering::Equal, "equal to itself");
        check(y.cmp(&x) == ab.reverse(), "swapping reverses");
        check(x.partial_cmp(&y) == Some(ab), "partial order agrees");
        let (ra, rb) = (oracle::MODELS[a.0].1, oracle::MODELS[b.0].1);
        if ra != rb {
            check(ab == ra.cmp(&rb), "the generation decides first");
            reach("generations");
        }
        if three {
            let c = mk("c");
            let z = os(&c);
            let (bc, ac) = (y.cmp(&z), x.cmp(&z));
            if ab != Ordering::Greater && bc != Ordering::Greater {
                reach("chain");
                check(ac != Ordering::Greater, "transitive");
                check((ac == Ordering::Equal) == (ab == Ordering::Equal && bc == Ordering::Equal), "strictly");
            }
        }
    }
    /// C11: numbered versions of one generation compare component by component
    fn h_order_numbers() {
        let shapes = ["d", "dd", "d.d", "d.dd", "dd.d", "d.d.d", "", "latest"];
        let mk = |who: &str| {
            let s = choose(shapes.len(), &format!("{}_shape", who));
            if s == 7 {
                return (2, "latest".to_string(), vec![]);
            }
            let (t, v) = version(shapes[s], who);
            ((s != 6) as u8, t, v)
        };
        let (a, b) = (mk("a"), mk("b"));
        let (x, y) = (OsVersion::new(Model::TI84Plus, a.1.clone()), OsVersion::new(Model::TI84PlusSE, b.1.clone()));
        let ab = x.cmp(&y);
        let mut want = a.0.cmp(&b.0);
        if want == Ordering::Equal && a.0 == 1 {
            // lexicographic, without case splits inside
            let mut lt = false;
            let mut gt = false;
            for i in 0..a.2.len().max(b.2.len()) {
                let (p, q) = (if i < a.2.len() { a.2[i] as i64 } else { -1 }, if i < b.2.len() { b.2[i] as i64 } else { -1 });
                lt |= !gt & (p < q);
                gt |= !lt & (p > q);
            }
            want = if br(lt) { Ordering::Less } else if br(gt) { Ordering::Greater } else { Ordering::Equal };
        }
        match ab {
            Ordering::Less => reach("less"),
            Ordering::Equal => reach("equal"),
            _ => reach("greater"),
        }
        check(ab == want, "the order of versions");
    }
    /// C12, C13: selection in a table of arbitrary texts, whatever the table order
    fn h_select() {
        let n = 1 + choose(param("tokens", 3), "tokens");
        let texts: Vec<Vec<u8>> = (0..n).map(|i| letters(1 + choose(2, "text_len"), &format!("text{}", i))).collect();
        let keys = ["$01 en", "$5E$10 en", "$5E$02 en"];
        let v = letters(choose(param("max", 3) + 1, "len"), "value");
        let val = unsafe { String::from_utf8_unchecked(v.clone()) };
        let m = choose(3, "mode");
        hash_seed(0xffff);
        let mut map = Map::new();
        for i in 0..n {
            let mut t = [String::from("zz"), String::from("zz"), String::from("zz")];
            t[m] = unsafe { String::from_utf8_unchecked(texts[i].clone()) };
            let [display, accessible, ti_ascii] = t;
            map.insert(keys[i].to_string(), Translation { ti_ascii, display, accessible });
        }
        for longest in [true, false] {
            let got = if longest { map.get_longest_matching_token(&val, &mode(m)) } else { map.get_shortest_matching_token(&val, &mode(m)) };
            let mut want: Option<usize> = None;
            for i in 0..n {
                let x = &texts[i];
                if v.len() >= x.len() && br(same(&v[..x.len()], x)) {
                    let better = match want {
                        None => true,
                        Some(w) => {
                            let l = texts[w].len();
                            if x.len() == l {
                                keys[i] < keys[w]
                            } else {
                                (x.len() > l) == longest
                            }
                        }
                    };
                    if better {
                        want = Some(i);
                    }
                }
            }
            check(got.is_some() == want.is_some(), "a token is found exactly when one matches");
            if let (Some((k, t)), Some(w)) = (got, want) {
                reach("match");
                check(k == keys[w], "the right token");
                check(same(t.as_bytes(), &texts[w]), "its text");
            } else {
                reach("no match");
            }
        }
        std::mem::forget(map)
    }
    /// C12, C14, C15 (and C13): texts with arbitrary characters in them
    fn h_encode() {
        let what = param("what", 0); // 0: C12, 1: C14, 2: C15, 3: C13
        let k = param("model", FILES.len() - 9);
        let (_, _, i) = FILES[k];
        let m = param("mode", 1);
        let text = template(param("set", 0), i, m);
        let text = match String::from_utf8(text) {
            Ok(t) => t,
            Err(_) => return,
        };
        let n = text.len();
        let how = match what {
            0 => 1 + choose(2, "encode_mode"),
            1 => choose(3, "encode_mode"),
            2 => 0,
            _ => choose(3, "encode_mode"),
        };
        let mut f = format!("A\nComment\nProgram\nRAM\n{}\n{}\n", ["pretty", "accessible", "ti"][m], oracle::MODELS[i].0).into_bytes();
        f.extend(text.as_bytes());
        put("a.txt", &f);
        let p = Program::load_from_txt("a.txt".into(), &emode(how)).ok();
        let _ = n;
        match what {
            0 | 2 => {
                let t = oracle::table((oracle::MODELS[i].1, None));
                let text = trim(&text);
                let want = oracle::encode(&t, text, m, how);
                check(p.is_some() == want.is_some(), "encodes exactly when a token matches everywhere");
                if let (Some(p), Some(w)) = (&p, want) {
                    reach("encoded");
                    let fits = |w: &[u8]| p.body.bytes.len() == w.len() && same(&p.body.bytes, w);
                    let mut ok = fits(&w);
                    if what == 2 && !ok {
                        ok = fits(&oracle::encode(&t, text, m, 3).unwrap_or_default());
                    }
                    check(ok, "the tokens the mode asks for");
                } else {
                    reach("rejected");
                }
            }
            1 => {
                if let Some(p) = &p {
                    reach("encoded");
                    check(p.save_to(&"b.8xp".into()).is_ok(), "saving works");
                    let q = load_as("b.8xp", mode(m));
                    check(q.is_some(), "the encoded program decodes");
                    let q = q.unwrap();
                    let text = unsafe { String::from_utf8_unchecked(order(text.as_bytes())) };
                    let want = text.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ");
                    let want = want.replace("\r\n", "\n");
                    check(same(q.body.translation.as_bytes(), trim(&want).as_bytes()), "the text comes back");
                    check(q.body.bytes == p.body.bytes, "the same body");
                    std::mem::forget(q)
                }
            }
            _ => {
                hash_seed(1 + choose(3, "seed") as u64);
                let q = Program::load_from_txt("a.txt".into(), &emode(how)).ok();
                check(p.is_some() == q.is_some(), "the same outcome in every run");
                if let (Some(p), Some(q)) = (&p, &q) {
                    reach("encoded");
                    check(same(&p.body.bytes, &q.body.bytes), "the same bytes in every run");
                }
                std::mem::forget(q)
            }
        }
        std::mem::forget(p)
    }
    /// C15: code right after a closing quote (known finding: the rest of such a line up to the next
    /// token that is not a letter stays in the literal's mode, as the fixtures of the project expect)
    fn h_smart_quote() {
        let mut text = b"\"".to_vec();
        let c = byte("char");
        assume((c >= b'A') & (c <= b'Z'));
        text.push(c);
        text.extend(b"\"->Str1");
        let mut f = b"A\nComment\nProgram\nRAM\naccessible\nTI-84+\n".to_vec();
        f.extend(&text);
        put("a.txt", &f);
        let p = Program::load_from_txt("a.txt".into(), &EncodeMode::Smart).ok();
        check(p.is_some(), "encodes");
        let p = p.unwrap();
        reach("quoted");
        check(same(&p.body.bytes, &[0x2A, c, 0x2A, 0x04, 0xAA, 0x00]), "code after a closing quote takes the longest tokens");
        std::mem::forget(p)
    }
    /// C18: names of models
    fn h_model_names() {
        let n = choose(param("max", 14), "len");
        let b = bytes(n, "name");
        assume(all(n, |i| b[i] < 0x80));
        let s = unsafe { String::from_utf8_unchecked(b.clone()) };
        let m = Model::from_string(&s);
        let mut hit = 24;
        for (i, (x, _)) in oracle::MODELS.iter().enumerate() {
            if x.len() == n && br(same(x.as_bytes(), &b)) {
                hit = i;
                reach("known");
            }
        }
        let (name, rank) = oracle::MODELS[hit];
        check(m.to_string() == name, "the name selects the model");
        check(m.model_order() == rank, "its generation");
        let d = ModelDetails::from_model(&m);
        let (sig, product, lang) = oracle::details(hit);
        check(d.model == m && d.signature == sig && d.product_id == product && d.language == lang, "its details");
    }
    /// C18: details from product id and signature
    fn h_model_bytes() {
        let b = bytes(8, "signature");
        let product = byte("product");
        let mut sig = String::new();
        for x in &b {
            sig.push(*x as char);
        }
        let d = ModelDetails::from_byte(product, &sig).ok();
        let want = crate::file8::model_of(product, &b);
        check(d.is_some() == want.is_some(), "unknown product ids are refused");
        if let (Some(d), Some(w)) = (d, want) {
            reach("known");
            check(d.model.to_string() == w, "the model");
            let i = oracle::MODELS.iter().position(|x| x.0 == w).unwrap();
            let (sig, product, lang) = oracle::details(i);
            check(d.signature == sig && d.product_id == product && d.language == lang, "its details");
        } else {
            reach("unknown");
        }
    }
    /// C18: a program built for a model is recognised as one with the same tokens
    fn h_model_files() {
        let i = choose(25, "model");
        let (name, rank) = oracle::MODELS[i];
        let (sig, product, lang) = oracle::details(i);
        let mut f = format!("A\nC\nProgram\nRAM\naccessible\n{}\n", name).into_bytes();
        f.push(b'0' + conc(byte("digit") as usize % 10) as u8);
        put("a.txt", &f);
        let p = Program::load_from_txt("a.txt".into(), &EncodeMode::Max).ok();
        check(p.is_some(), "builds");
        let p = p.unwrap();
        check(p.model.model.to_string() == name && p.model.signature == sig && p.model.product_id == product && p.model.language == lang, "the model chosen");
        check(p.save_to(&"b.8xp".into()).is_ok(), "saves");
        let q = load("b.8xp");
        check(q.is_some(), "loads");
        let q = q.unwrap();
        check(q.model.signature == sig && q.model.product_id == product, "recognised by signature and product id");
        let r = q.model.model.model_order();
        // the newest generation has no product id of its own
        check(r == rank || (rank == 60 && r == 9999999), "same generation");
        let a = load_tokens(&OsVersion::new(p.model.model.clone(), "latest".to_string())).ok().unwrap();
        let b = load_tokens(&OsVersion::new(q.model.model.clone(), "latest".to_string())).ok().unwrap();
        check(a.map.len() == b.map.len(), "as many tokens");
        for e in crate::sheet::SHEET {
            let mut key = String::new();
            for x in e.key {
                key.push_str(&format!("${:02X}", x));
            }
            key.push_str(" en");
            check(a.get_value(&key) == b.get_value(&key), "the same tokens");
        }
        reach("file");
        std::mem::forget((p, q, a, b))
    }
    /// C18: file types and destinations by byte
    fn h_bytes() {
        let b = byte("byte");
        let t = FileType::from_byte(b).ok();
        check(t.is_some() == crate::file8::valid_type(b), "file types");
        if let Some(t) = t {
            reach("type");
            check(t.to_byte() == b && t.to_string() == crate::file8::type_name(b), "file type by byte");
            check(FileType::from_string(&t.to_string()).ok().map(|x| x.to_byte()) == Some(b), "file type by name");
        }
        let d = Destination::from_byte(b).ok();
        check(d.is_some() == ((b == 0) | (b == 0x80)), "destinations");
        if let Some(d) = d {
            reach("destination");
            check(d.to_byte() == b && d.to_string() == crate::file8::dest_name(b), "destination by byte");
            check(Destination::from_string(&d.to_string()).ok().map(|x| x.to_byte()) == Some(b), "destination by name");
        }
    }
    /// C18: file types, destinations and modes by name
    fn h_names() {
        let n = choose(param("max", 18), "len");
        let b = bytes(n, "name");
        assume(all(n, |i| b[i] < 0x80));
        let s = unsafe { String::from_utf8_unchecked(b.clone()) };
        let find = |list: &[&str]| {
            let mut hit = None;
            for (i, x) in list.iter().enumerate() {
                if x.len() == n && br(same(x.as_bytes(), &b)) {
                    hit = Some(i);
                }
            }
            hit
        };
        let t = find(&["Program", "Locked Program", "Group", "Flash Application"]);
        check(FileType::from_string(&s).ok().map(|x| x.to_byte()) == t.map(|i| [5, 6, 0x17, 0x24][i]), "file type");
        let t = find(&["RAM", "Archive"]);
        check(Destination::from_string(&s).ok().map(|x| x.to_byte()) == t.map(|i| [0, 0x80][i]), "destination");
        let names = ["pretty", "accessible", "ti"];
        let t = find(&names);
        let d = DisplayMode::from_string(&s).ok();
        check(d.as_ref().map(|x| x.to_string()) == t.map(|i| names[i].to_string()), "display mode");
        let t = find(&["min", "max", "smart"]);
        let e = EncodeMode::from_string(&s).ok().map(|x| match x {
            EncodeMode::Min => 0,
            EncodeMode::Max => 1,
            EncodeMode::Smart => 2,
        });
        check(e == t, "encode mode");
        reach("done");
    }
}
/// a text without trailing line breaks, and how many there were
fn trim(s: &str) -> &str {
    match s.strip_suffix('\n') {
        Some(x) => x.strip_suffix('\r').unwrap_or(x),
        None => s,
    }
}
/// a version of the given shape and its components
fn version(shape: &str, who: &str) -> (String, Vec<u32>) {
    let mut s = vec![];
    let mut v = vec![];
    if shape.is_empty() {
        return (String::new(), v);
    }
    let b = bytes(shape.len(), who);
    let mut n = 0u32;
    for (i, c) in shape.bytes().enumerate() {
        if c == b'.' {
            s.push(b'.');
            v.push(n);
            n = 0;
        } else {
            let d = b[i];
            assume(d < 10);
            s.push(b'0' + d);
            n = n * 10 + d as u32;
        }
    }
    v.push(n);
    (unsafe { String::from_utf8_unchecked(s) }, v)
}
/// bytes out of two letters
fn letters(n: usize, who: &str) -> Vec<u8> {
    let b = bytes(n, who);
    assume(all(n, |i| (b[i] == b'a') | (b[i] == b'b')));
    b
}
/// a program text: fixed parts and arbitrary characters. '\u{1}': any character of one byte,
/// '\u{2}': one of a few characters that tokens are made of, '\u{3}': a hexadecimal digit,
/// '\u{4}' to '\u{6}': any character of two to four bytes
fn template(set: usize, model: usize, m: usize) -> Vec<u8> {
    let (mut token, mut long) = (String::new(), String::new());
    if set == 8 || set == 10 {
        // a token of the model
        let t = oracle::table((oracle::MODELS[model].1, None));
        token = t[choose(t.len(), "token")].text[m].to_string();
        if set == 10 {
            token.push_str(t[choose(t.len(), "token2")].text[m]);
        }
    }
    if set == 9 {
        let n = [11, 12, 13, 33, 65, 129, 256, 257, 9, 10, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 511, 512, 513][choose(param("sizes", 23), "size")];
        long = "sin(A1B2/".repeat(n)[..n].to_string();
    }
    let list: &[&str] = match set {
        8 if m == 2 => &["\u{7}\u{3}1", "22\u{7}\u{3}9"],
        8 => &["\u{7}\u{2}", "\"\u{7}\u{2}"],
        10 => &["\u{7}"],
        // long lines, long literals and many lines
        9 => &["\u{7}\u{2}\u{2}", "\"\u{7}\u{2}n(->\u{2}", "\u{8}\u{2}\u{2}", "\"A\n\u{8}\u{2}"],
        // any two bytes
        0 => &["\u{1}\u{1}"],
        // one arbitrary byte in the middle of things
        1 => &["Disp \u{1}", "\"\u{1}sin(", "A\u{1}\r\nB\u{1}\n\n", "prgm\u{1}AB", "\u{1}θ\u{1DBF}"],
        // small words
        2 => &["\u{2}\u{2}\u{2}", "\"\u{2}\u{2}\"", "\"\u{2}\n\u{2}\"\u{2}", "prgm\u{2}\u{2}", "Send(\"\u{2}\u{2}\")"],
        // hexadecimal texts of the "ti" display mode
        4 => &["\u{3}\u{3}\u{3}", "44\u{3}\u{3}69"],
        6 => &["4\u{3}\n\u{3}1"],
        // characters of the "pretty" display mode
        5 => &["π\u{2}→\u{2}", "\u{2}.\u{2}", "ʟ\u{2}\u{2}sin(", "\"\u{2}→θ\u{2}", "\"\u{2}\"→Str1\n\u{2}"],
        // any character that takes several bytes in UTF-8
        7 => &["A\u{4}1", "Disp \"\u{4}sin(", "1\u{5}A", "\"\u{5}\"", "A\u{6}", "\u{5}\u{4}", "prgm\u{5}"],
        _ => &["\"A\u{2}sin(\u{2}\"->Str1\nsin(\u{2}", "prgmX\u{2}\u{2}sin(", "\"sin(\u{2}AB\u{2}"],
    };
    let t = list[choose(list.len(), "template")];
    let n = t.bytes().map(|x| match x {
        1..4 => 1,
        4..7 => x as usize - 2,
        _ => 0,
    }).sum();
    let b = bytes(n, "text");
    let mut out = vec![];
    let mut i = 0;
    for c in t.bytes() {
        match c {
            1 => {
                // a carriage return that is not part of a line break is no token
                assume((b[i] < 0x80) & (b[i] != b'\r'));
                out.push(b[i]);
                i += 1;
            }
            2 => {
                let x = b[i];
                assume((x == b'"') | (x == b'A') | (x == b's') | (x == b'i') | (x == b'n') | (x == b'(') | (x == b'-') | (x == b'>') | (x == b'1') | (x == b'I') | (x == b'f') | (x == b' '));
                out.push(x);
                i += 1;
            }
            3 => {
                let x = b[i];
                assume((x >= b'0') & (x <= b'9') | (x >= b'A') & (x <= b'F'));
                out.push(x);
                i += 1;
            }
            4..7 => {
                let k = c as usize - 2;
                let x = &b[i..i + k];
                let tail = all(k - 1, |j| x[j + 1] & 0xC0 == 0x80);
                // well-formed: no longer than needed, no surrogates, nothing past U+10FFFF
                assume(tail & match k {
                    2 => (x[0] >= 0xC2) & (x[0] <= 0xDF),
                    3 => (x[0] & 0xF0 == 0xE0) & ((x[0] != 0xE0) | (x[1] >= 0xA0)) & ((x[0] != 0xED) | (x[1] < 0xA0)),
                    _ => (x[0] >= 0xF0) & (x[0] <= 0xF4) & ((x[0] != 0xF0) | (x[1] >= 0x90)) & ((x[0] != 0xF4) | (x[1] < 0x90)),
                });
                out.extend(x);
                i += k;
            }
            7 => out.extend(if set == 9 { long.as_bytes() } else { token.as_bytes() }),
            // a line break after each character
            8 => {
                for c in long.bytes() {
                    out.extend([c, b'\n']);
                }
            }
            _ => out.push(c),
        }
    }
    out
}
