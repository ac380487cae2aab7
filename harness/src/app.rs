//! C04, C19 to C26: the commands, run as the real binary.
use crate::file8::{dest_name, model_of, type_name};
use crate::oracle;
use crate::sym::*;
use crate::util::*;

/// the bytes the edited program is saved as
fn edited(f: &[u8], op: usize, value: &[u8]) -> Vec<u8> {
    let mut g = f.to_vec();
    let mut field = |at: usize, n: usize, v: &[u8]| {
        for i in 0..n {
            g[at + i] = if i < v.len() { v[i] } else { 0 };
        }
    };
    match op {
        0 => field(TYPE, 1, &[6]),
        1 => field(TYPE, 1, &[5]),
        2 => field(DEST, 1, &[0x80]),
        3 => field(DEST, 1, &[0]),
        4 => field(NAME, 8, value),
        _ => field(COMMENT, 42, value),
    }
    seal(&mut g);
    g
}
const OPS: [&str; 6] = ["lock", "unlock", "archive", "unarchive", "rename", "comment"];

fn read(name: &str) -> Option<Vec<u8>> {
    match std::fs::metadata(name) {
        Ok(m) if m.is_file() => Some(get(name)),
        _ => None,
    }
}
fn is(name: &str, b: &[u8]) -> bool {
    match read(name) {
        Some(g) => same(&g, b),
        None => false,
    }
}

entries! {
    /// C20: an edit command, its options, answers and a failing or fatal file operation
    fn h_edit_cmd() {
        let mut f = base();
        // type and destination as the file has them
        f[TYPE] = [5u8, 6][choose(2, "type")];
        let c = byte("comment_byte");
        f[COMMENT + 3] = c;
        seal(&mut f);
        put("a.8xp", &f);
        let op = choose(6, "command");
        // the new file: none, absent, existing, the same file, the same file by another path, refused
        let to = choose(7, "new_file");
        let target = ["", "b.8xp", "e.8xp", "a.8xp", "./a.8xp", "b.foo", "b"][to];
        let other = b"something else".to_vec();
        if to == 2 {
            put("e.8xp", &other);
        }
        let delete = to > 0 && choose(2, "delete_old") == 1;
        // no answer, or one with an arbitrary character
        let mut answer = bytes(choose(2, "answer_len"), "answer");
        assume(all(answer.len(), |i| answer[i] != b'\n'));
        let yes = answer.len() > 0 && br((answer[0] | 0x20 == b'y') & (answer[0] < 0x80));
        answer.push(b'\n');
        // an arbitrary name, or a comment that fits or is too long
        let (value, good): (Vec<u8>, bool) = match op {
            4 => {
                let b = bytes(2, "name");
                assume(all(2, |i| (b[i] < 0x80) & (b[i] != 0) & (b[i] != b'-')));
                (b.iter().map(|x| *x).collect(), br(all(2, |i| (b[i] | 0x20 >= b'a') & (b[i] | 0x20 <= b'z'))))
            }
            5 => {
                let n = [12, 43][choose(2, "comment_len")];
                let mut b = b"New comment with more and more characters..".to_vec();
                b.truncate(n);
                let x = byte("comment_char");
                assume((x < 0x80) & (x != 0));
                b[n - 1] = x;
                (b, n <= 42)
            }
            _ => (vec![], true),
        };
        let mut args: Vec<&[u8]> = vec![OPS[op].as_bytes(), b"a.8xp"];
        if op >= 4 {
            args.push([&b"-n"[..], b"-c"][op - 4]);
            args.push(&value);
        }
        if to > 0 {
            args.push(b"-f");
            args.push(target.as_bytes());
        }
        if delete {
            args.push(b"-d");
        }
        let kind = choose(param("faults", 2) + 1, "fault");
        if kind > 0 {
            fault(kind as u32, choose(param("at", 6), "at") as i64);
        }
        let o = app(&args, &answer);
        let stored_value: Vec<u8> = if op == 4 { value.iter().map(|x| x & 0xDF).collect() } else { value.clone() };
        let e = edited(&f, op, &stored_value);
        let same_file = to == 0 || to == 3 || to == 4;
        let path = if same_file { "a.8xp" } else { target };
        // the program is never lost
        let kept = is("a.8xp", &f);
        let stored = good && to < 5 && is(path, &e);
        check(kept || stored, "the original is intact or the edited program is stored");
        let there = to == 2 || same_file;
        let agreed = !there || yes;
        if to == 2 {
            check(is("e.8xp", &other) || (agreed && stored), "an existing file is kept or becomes the edited program");
        }
        if kind == 2 && fault_hit() {
            reach("killed");
            return;
        }
        check(!o.crashed(), "no crash");
        let works = good && to < 5;
        if works && !agreed {
            // declining is no failure
            reach("declined");
            check(kept && list(".").len() == if to == 2 { 2 } else { 1 }, "declining changes nothing");
        } else if o.code != 0 {
            check(kept, "a command that fails leaves the original file");
            if kind == 0 || !fault_hit() {
                check(!works, "a command that can work succeeds");
                check(list(".").len() == if to == 2 { 2 } else { 1 }, "no other file appears");
                reach("refused");
            } else {
                reach("failed");
            }
        } else {
            check(works, "a command that cannot work fails");
            check(stored, "success means the edited program is stored");
            if !same_file {
                check(exists("a.8xp") == !delete, "the old file is deleted exactly when asked");
                check(delete || kept, "the old file stays as it is");
            }
            check(list(".").len() == if same_file || delete { 1 } else { 2 }, "no other file appears");
            reach("done");
        }
    }
    /// C19: converting onto a target, whatever is there, is answered or fails
    fn h_save_cmd() {
        let f = base();
        put("a.8xp", &f);
        let kinds = ["8xp", "82p", "83p", "txt", "json", "foo", "8XP", ""];
        let k = choose(kinds.len(), "ext");
        let target = if k == 7 { "t".to_string() } else { format!("t.{}", kinds[k]) };
        let fresh = format!("fresh.{}", kinds[k]);
        let valid = k < 5;
        let old = bytes(3, "old");
        let there = choose(2, "exists") == 1;
        if there {
            put(&target, &old);
        }
        let n = choose(param("answer", 2) + 1, "answer_len");
        let mut answer = bytes(n, "answer");
        if choose(2, "newline") == 1 {
            answer.push(b'\n');
        }
        // what a save to an absent file writes
        let want = if valid {
            let o = app(&[b"convert", b"a.8xp", b"-o", fresh.as_bytes()], b"");
            check(o.code == 0 && exists(&fresh), "saving to an absent file works");
            get(&fresh)
        } else {
            vec![]
        };
        let before = list(".").len();
        let kind = choose(param("faults", 2) + 1, "fault");
        if kind > 0 {
            fault(kind as u32, choose(param("at", 5), "at") as i64);
        }
        let o = app(&[b"convert", b"a.8xp", b"-o", target.as_bytes()], &answer);
        // the first line of the answer, trimmed, is y or Y
        let mut yes = false;
        let mut line = true;
        let mut seen = 0;
        let mut other = false;
        for (i, x) in answer.iter().enumerate() {
            line &= *x != b'\n';
            if line {
                let y = (*x == b'y') | (*x == b'Y');
                // blanks, also those of two bytes
                let wide = |i: usize| i + 1 < answer.len() && (answer[i] == 0xC2) & ((answer[i + 1] == 0xA0) | (answer[i + 1] == 0x85));
                let blank = (*x == b' ') | ((*x >= 9) & (*x <= 13)) | wide(i) | (i > 0 && wide(i - 1));
                seen += y as u32;
                other |= !(y | blank);
            }
        }
        yes |= (seen == 1) & !other;
        let yes = br(yes);
        let killed = kind == 2 && fault_hit();
        let failed = kind == 1 && fault_hit();
        check(is("a.8xp", &f), "the input file stays");
        if there {
            let kept = is(&target, &old);
            let replaced = valid && is(&target, &want);
            check(kept || (yes && replaced), "an existing file is kept unless the user agrees to a complete replacement");
            if !killed && !failed {
                check(kept == !(yes && valid) || same(&old, &want), "it is replaced exactly when the user agrees");
            }
        } else if valid {
            if !killed && !failed {
                check(is(&target, &want), "a new file is written");
            } else {
                check(!exists(&target) || is(&target, &want), "a new file is complete or absent");
            }
        } else {
            check(!exists(&target), "a refused save creates nothing");
        }
        check(killed || !o.crashed(), "no crash");
        if !killed && !failed {
            reach(if valid && (yes || !there) { "saved" } else if !valid { "refused" } else { "declined" });
            check(o.code == 0 || !valid || (there && !yes), "a save that works reports it");
            check(o.code != 0 || valid, "a refused save reports it");
            check(list(".").len() == before + (valid && !there) as usize, "no other file appears");
        } else {
            reach(if killed { "killed" } else { "failed" });
            if failed && there {
                check(o.code != 0 || is(&target, &want), "a failed save reports it");
            }
            if failed && !there {
                check(o.code != 0 || is(&target, &want), "a failed save reports it");
            }
        }
    }
    /// C19, C20: targets in other directories, absent directories, and targets that are directories
    fn h_place() {
        let f = base();
        std::fs::create_dir("d").unwrap();
        std::fs::create_dir("d/e.8xp").unwrap();
        std::fs::create_dir("d/f").unwrap();
        put("d/e.8xp/keep", b"k");
        put("d/f/a.83p", b"namesake");
        put("d/a.8xp", &f);
        put("d/b.8xp", b"other");
        put("c.8xp", b"third");
        let cmd = choose(3, "command");
        let place = choose(10, "target");
        // n: nothing there, s: the input itself, o: another file, d: a directory, a: no such directory, x: no extension
        let (target, what) = [("d/n.8xp", 'n'), ("d/./n.8xp", 'n'), ("d/a.8xp", 's'), ("d/../d/a.8xp", 's'), ("d/b.8xp", 'o'), ("d/e.8xp", 'd'), ("no/n.8xp", 'a'), ("d/e.8xp/n.8xp", 'n'), ("d/..", 'x'), ("d/f/a.8xp", 'n')][place];
        let input = ["d/a.8xp", "./d/a.8xp"][choose(2, "input")];
        let delete = cmd < 2 && choose(2, "delete_old") == 1;
        let answer: &[u8] = [&b"y\n"[..], b"n\n", b""][choose(3, "answer")];
        let mut args: Vec<&[u8]> = match cmd {
            0 => vec![b"lock", input.as_bytes(), b"-f", target.as_bytes()],
            1 => vec![b"comment", input.as_bytes(), b"-c", b"Base comment", b"-f", target.as_bytes()],
            _ => vec![b"convert", input.as_bytes(), b"-o", target.as_bytes()],
        };
        if delete {
            args.push(b"-d");
        }
        let kind = choose(param("faults", 2) + 1, "fault");
        if kind > 0 {
            fault(kind as u32, choose(param("at", 5), "at") as i64);
        }
        let o = app(&args, answer);
        let e = if cmd == 0 { edited(&f, 0, b"") } else { f.clone() };
        let kept = is("d/a.8xp", &f);
        let stored = is(target, &e);
        check(kept || (stored && what != 'd'), "the original is intact or the edited program is stored");
        check(is("c.8xp", b"third") && is("d/e.8xp/keep", b"k") && is("d/f/a.83p", b"namesake"), "files that are not involved stay");
        let yes = answer == b"y\n";
        if what != 'o' {
            check(is("d/b.8xp", b"other"), "files that are not involved stay");
        } else {
            check(is("d/b.8xp", b"other") || (yes && stored), "an existing file is replaced only with consent");
        }
        if what == 's' {
            check(kept || yes, "an existing file is replaced only with consent");
        }
        if fault_hit() {
            reach(if kind == 2 { "killed" } else { "failed" });
            if kind == 1 {
                check(o.code == 0 || kept, "a command that fails leaves the original file");
                check(o.code != 0 || stored || !(what == 'n' || yes), "success means the program is stored");
            }
            return;
        }
        check(!o.crashed(), "no crash");
        let works = what == 'n' || (yes && (what == 's' || what == 'o'));
        if works {
            check(o.code == 0, "the command works");
            check(stored, "the program is stored");
            check(delete && what != 's' || exists("d/a.8xp"), "the old file stays");
            check(!delete || what == 's' || !exists("d/a.8xp"), "the old file is deleted when asked");
            reach("done");
        } else {
            check(kept, "nothing changes");
            check(what == 's' || !exists(target) || what != 'n' && what != 'a', "nothing is created");
            reach("refused");
        }
        // nothing else appears
        check(list(".").len() == 2, "no other file appears");
        let extra = works && place < 2;
        let gone = works && delete && what != 's';
        check(list("d/f").len() == 1 + (works && place == 9) as usize, "no other file appears");
        check(list("d").len() == 4 + extra as usize - gone as usize, "no other file appears");
        check(list("d/e.8xp").len() == 1 + (works && place == 7) as usize, "no other file appears");
    }
    /// C19, C20: files reached through links, files with permissions of their own, and long names
    fn h_links() {
        use std::os::unix::fs::{symlink, PermissionsExt};
        let f = base();
        let x = byte("comment_byte");
        assume((x >= b' ') & (x < 0x7F));
        let mut g = f.clone();
        g[COMMENT + 3] = x;
        seal(&mut g);
        let other = b"something else".to_vec();
        std::fs::create_dir("d").unwrap();
        symlink("d", "ld").unwrap();
        // the input: a file, a link to one, a file with a second name, a file in a linked directory
        let how = choose(4, "input");
        let (input, real) = [("a.8xp", "a.8xp"), ("a.8xp", "d/r.8xp"), ("a.8xp", "a.8xp"), ("ld/a.8xp", "d/a.8xp")][how];
        put(real, &g);
        if how == 1 {
            symlink("d/r.8xp", "a.8xp").unwrap();
        }
        if how == 2 {
            std::fs::hard_link("a.8xp", "d/h.8xp").unwrap();
        }
        // the target
        let long = |n: usize| "n".repeat(n - 4) + ".8xp";
        let place = choose(11, "target");
        let (target, what) = match place {
            0 => (input.to_string(), 's'),
            // a link to the input, and one to that link
            1 => {
                symlink(real, "t.8xp").unwrap();
                ("t.8xp".to_string(), 's')
            }
            2 => {
                symlink(real, "u.8xp").unwrap();
                symlink("u.8xp", "t.8xp").unwrap();
                ("t.8xp".to_string(), 's')
            }
            // links to another file, to none, and to themselves
            3 => {
                put("d/o.8xp", &other);
                symlink("ld/o.8xp", "t.8xp").unwrap();
                ("t.8xp".to_string(), 'o')
            }
            4 => {
                symlink("d/none.8xp", "t.8xp").unwrap();
                ("t.8xp".to_string(), 'n')
            }
            5 => {
                symlink("t.8xp", "t.8xp").unwrap();
                ("t.8xp".to_string(), 'l')
            }
            // a second name of the input
            6 => {
                std::fs::hard_link(real, "t.8xp").unwrap();
                ("t.8xp".to_string(), 'h')
            }
            // through a directory link
            7 => ("ld/n.8xp".to_string(), 'n'),
            8 => ("ld/../n.8xp".to_string(), 'n'),
            // long names
            9 => (long(251 + choose(6, "length")), 'n'),
            _ => {
                let n = long(251 + choose(5, "length"));
                put(&n, &other);
                (n, 'o')
            }
        };
        let what = if target.len() > 255 { 'l' } else { what };
        let there = what == 's' || what == 'o' || what == 'h';
        // permissions of what is there
        let mode = [0o644, 0o600, 0o640, 0o755][choose(4, "mode")];
        let set = |n: &str| std::fs::set_permissions(n, std::fs::Permissions::from_mode(mode)).unwrap();
        set(real);
        if what == 'o' {
            set(&target);
        }
        let linked = |n: &str| match std::fs::symlink_metadata(n) {
            Ok(m) => m.file_type().is_symlink(),
            Err(_) => false,
        };
        let was_link = linked(&target);
        let names = |d: &str| list(d).len();
        let (before, inside) = (names("."), names("d"));
        let cmd = choose(3, "command");
        let delete = cmd < 2 && choose(2, "delete_old") == 1;
        let yes = choose(2, "yes") == 1;
        let mut args: Vec<&[u8]> = match cmd {
            0 => vec![b"lock", input.as_bytes(), b"-f", target.as_bytes()],
            1 => vec![b"comment", input.as_bytes(), b"-c", b"Other comment"],
            _ => vec![b"convert", input.as_bytes(), b"-o", target.as_bytes()],
        };
        // editing in place needs no target
        if cmd == 1 && (place != 0 || delete) {
            args.push(b"-f");
            args.push(target.as_bytes());
        }
        if delete {
            args.push(b"-d");
        }
        let kind = choose(param("faults", 2) + 1, "fault");
        if kind > 0 {
            fault(kind as u32, choose(param("at", 6), "at") as i64);
        }
        let o = app(&args, if yes { b"y\n" } else { b"n\n" });
        let e = [edited(&g, 0, b""), edited(&g, 5, b"Other comment"), g.clone()][cmd].to_vec();
        let hit = fault_hit();
        let old = is(input, &g);
        let stored = is(&target, &e);
        check(old || stored, "the program is not lost");
        // whatever name a file has, it is as it was or the complete result
        let whole = |n: &str, b: &[u8]| !exists(n) || is(n, b) || (yes && is(n, &e));
        check(whole(real, &g) && whole("d/h.8xp", &g) && whole("d/o.8xp", &other), "every file is as before or complete");
        check(if there { yes || is(&target, if what == 'o' { &other } else { &g }) } else { whole(&target, &e) || stored }, "an existing file is kept unless the user agrees");
        if hit && kind == 2 {
            reach("killed");
            return;
        }
        check(!o.crashed(), "no crash");
        let works = what == 'n' || (there && yes);
        if !works {
            reach(if what == 'l' { "impossible" } else { "declined" });
            check(old || delete && place == 5 && stored, "the original stays");
            check(place == 5 && stored || (o.code != 0) == (what == 'l'), "only declining is no failure");
            check(hit || place == 5 || names(".") == before && names("d") == inside, "nothing changes");
            return;
        }
        if o.code != 0 {
            check(hit, "a command that can work succeeds");
            check(old, "a command that fails leaves the original file");
            check(hit && place == 4 || what == 'n' && stored || (names(".") == before && names("d") == inside), "a command that fails leaves nothing behind");
            reach("failed");
            return;
        }
        check(stored, "success means the program is stored");
        if there {
            let m = std::fs::metadata(&target).unwrap().permissions().mode() & 0o777;
            check(m == mode, "a file that is replaced keeps its permissions");
            check(linked(&target) == was_link, "a link stays a link");
            if was_link {
                check(is(if what == 's' { real } else { "d/o.8xp" }, &e), "the file behind the link is replaced");
            }
        }
        // the input, unless it is the target
        if what != 's' {
            let gone = std::fs::symlink_metadata(input).is_err();
            check(gone == delete, "the old file is deleted exactly when asked");
            check(delete || old, "the old file stays as it is");
        }
        reach("done");
    }
    /// C21: mass conversion of a directory with a program of arbitrary name in it
    fn h_mass() {
        let around: [(&[u8], &[u8]); 10] = [(b"", b""), (b"", b"A"), (b"A", b""), (b"", b".8xp"), (b"../", b""), (b"..", b"BASE"), (b"", b"..\\A"), (b".", b"."), (b"AAAAAA", b"A"), (b"", b"")];
        let k = choose(around.len(), "around");
        let mut name = around[k].0.to_vec();
        let b = bytes((k > 0) as usize + (k == 9) as usize * (param("max", 1) - 1), "name");
        assume(all(b.len(), |i| b[i] != 0));
        name.extend(&b);
        name.extend(around[k].1);
        let n = name.len();
        let mut f = base();
        for i in 0..8 {
            f[NAME + i] = if i < n { name[i] } else { 0 };
        }
        seal(&mut f);
        std::fs::create_dir("in").unwrap();
        let text = b"TXTPROG\nC\nProgram\nRAM\naccessible\nTI-84+\nDisp 1".to_vec();
        let broken = f[..70].to_vec();
        // an exported program, and one of the older format
        let mut g = base();
        g[NAME..NAME + 4].copy_from_slice(b"EXPO");
        seal(&mut g);
        put("x.8xp", &g);
        check(app(&[b"convert", b"x.8xp", b"-o", b"x.json"], b"").code == 0, "exporting works");
        let export = get("x.json");
        std::fs::remove_file("x.8xp").unwrap();
        std::fs::remove_file("x.json").unwrap();
        let old = file82p(b"**TI83**", 0, b"old", 5, b"OLD", &[0x31]);
        std::fs::create_dir("in/dir.8xp").unwrap();
        put("in/dir.8xp/inner.8xp", &f);
        let mut files: Vec<(&str, Vec<u8>)> = vec![("in/junk.bin", b"junk".to_vec()), ("in/a.8xp", f.clone()), ("in/broken.8xp", broken), ("in/b.txt", text), ("in/noext", vec![1, 2]), ("in/e.json", export), ("in/o.83p", old), ("in/bad.json", b"{}".to_vec()), ("in/bad.txt", b"BAD".to_vec())];
        if choose(2, "order") == 1 {
            files.reverse();
        }
        for (k, b) in &files {
            put(k, b);
        }
        // the output directory: there, or made on request
        let make = choose(3, "output");
        if make == 0 {
            std::fs::create_dir("out").unwrap();
        }
        let x = if make == 2 { byte("answer") } else { b'n' };
        assume((x | 0x20 != b'y') | (x >= 0x80));
        let no = [x, b'\n'];
        let answer: &[u8] = [&b""[..], b"y\n", &no][make];
        let o = app(&[b"convert", b"in", b"-o", b"out", [&b"-m"[..], b"--mass"][choose(2, "spelling")]], answer);
        check(!o.crashed(), "no crash");
        for (k, b) in &files {
            check(is(k, b), "the input files stay");
        }
        check(list("in").len() == files.len() + 1 && list("in/dir.8xp").len() == 1, "nothing new in the input directory");
        if make == 2 {
            check(o.code != 0 && list(".").len() == 1, "without an output directory nothing is written");
            reach("declined");
            return;
        }
        check(o.code == 0, "mass conversion succeeds");
        check(list(".").len() == 2, "nothing outside the output directory");
        let got = list("out");
        check(got.len() == 5, "one result for every program that can be converted");
        check(is("out/EXPO.8xp", &g) && is("out/EXPO.txt", b"EXPO\nBase comment\nProgram\nRAM\naccessible\nTI-84+\nDisp \"HI\"\n1->A"), "the exported program");
        check(is("out/OLD.txt", b"OLD\nold\nProgram\nRAM\naccessible\nTI-83\n1"), "the program of the older format");
        check(built("out/TXTPROG.8xp", &file8xp(b"**TI83F*", 0x0A, b"", 5, b"TXTPROG", 0, 0, &[0xDE, 0x31])), "the text program");
        let plain = n > 0 && all(n, |i| (name[i] >= b'0') & (name[i] <= b'9') | (name[i] >= b'A') & (name[i] <= b'Z') | (name[i] >= b'a') & (name[i] <= b'z'));
        if br(plain) {
            let c: Vec<u8> = name.iter().map(|x| conc(*x as usize) as u8).collect();
            let path = format!("out/{}.txt", String::from_utf8(c).unwrap());
            let mut want = name.clone();
            want.extend(b"\nBase comment\nProgram\nRAM\naccessible\nTI-84+\nDisp \"HI\"\n1->A");
            check(is(&path, &want), "the file program, under its name");
            reach("named");
        } else {
            reach("other");
        }
    }
    /// C21, C19: a result that is already there
    fn h_mass_again() {
        let f = base();
        std::fs::create_dir("in").unwrap();
        std::fs::create_dir("out").unwrap();
        put("in/a.8xp", &f);
        let old = bytes(2, "old");
        put("out/BASE.txt", &old);
        let x = byte("answer");
        assume((x | 0x20 != b'y') | (x >= 0x80));
        let (skip, quit) = ([x, b'\n', b'y', b'\n'], [b'n', b'\n', x, b'\n']);
        let answer: &[u8] = [&b"y\n"[..], b"n\ny\n", b"n\nn\n", b"\n\n", b"", &skip, &quit][choose(7, "how")];
        let second = choose(2, "second") == 1;
        if second {
            put("in/b.txt", b"TXTPROG\nC\nProgram\nRAM\naccessible\nTI-84+\nDisp 1");
        }
        let o = app(&[b"convert", b"in", b"-m", b"-o", b"out"], answer);
        check(!o.crashed(), "no crash");
        check(is("in/a.8xp", &f), "the input file stays");
        let text = b"BASE\nBase comment\nProgram\nRAM\naccessible\nTI-84+\nDisp \"HI\"\n1->A";
        if answer[..] == b"y\n"[..] {
            reach("replaced");
            check(is("out/BASE.txt", text), "replaced on request");
        } else {
            reach("kept");
            check(is("out/BASE.txt", &old), "kept");
        }
        if second && (answer[..] == b"y\n"[..] || answer.len() == 4 && answer[2] == b'y' && br(answer[0] != b'\n')) {
            check(exists("out/TXTPROG.8xp"), "the other program is converted");
        }
    }
    /// C21: directories with all kinds of entries, and all kinds of ways to name them
    fn h_mass_dir() {
        use std::os::unix::ffi::OsStringExt;
        use std::os::unix::fs::symlink;
        let x = byte("letter");
        assume((x >= b'A') & (x <= b'Z'));
        let prog = |name: &[u8]| file8xp(b"**TI83F*", 0x0A, b"Of the directory", 5, name, 0, 0, &[0xDE, 0x2A, x, 0x2A]);
        let text = |name: &str| [name.as_bytes(), b"\nOf the directory\nProgram\nRAM\naccessible\nTI-84+\nDisp \"", &[x][..], b"\""].concat();
        std::fs::create_dir("in").unwrap();
        std::fs::create_dir("other").unwrap();
        put("other/p.8xp", &prog(b"ELSE"));
        let last = choose(2, "order") == 1;
        let put_path = |p: &std::path::Path, b: &[u8]| std::fs::write(p, b).unwrap();
        let odd = |b: &[u8]| std::path::PathBuf::from(std::ffi::OsString::from_vec([b"in/", b].concat()));
        if !last {
            put("in/main.8xp", &prog(b"MAIN"));
        }
        // one more entry
        let mut results: Vec<String> = vec!["MAIN".to_string()];
        let mut odd_path = std::path::PathBuf::from("in/main.8xp");
        let kind = choose(12, "entry");
        let mut more = 1;
        match kind {
            // any file name
            0 => {
                let b = bytes(2, "name");
                assume(all(2, |i| (b[i] != 0) & (b[i] != b'/')));
                odd_path = odd(&[b"p", &b[..], b".8xp"].concat());
                put_path(&odd_path, &prog(b"MORE"));
                results.push("MORE".to_string());
            }
            // any extension
            1 => {
                let b = bytes(3, "extension");
                assume(all(3, |i| (b[i] != 0) & (b[i] != b'/') & (b[i] != b'.')));
                odd_path = odd(&[b"p.", &b[..]].concat());
                put_path(&odd_path, &prog(b"MORE"));
                if br(same(&b, b"8xp")) {
                    results.push("MORE".to_string());
                }
            }
            // near misses and surroundings of the extension
            2 => {
                let n = ["in/.8xp", "in/8xp", "in/m8xp", "in/m.8XP", "in/m.8xp~", "in/m.8xp.bak", "in/m.8xpx", "in/m.8x"][choose(8, "miss")];
                put(n, &prog(b"MORE"));
            }
            3 => {
                let n = ["in/a.b.8xp", "in/.a.8xp", "in/-o.8xp", "in/a b.8xp", "in/txt.8xp", "in/a.txt.8xp", "in/--help.8xp", "in/..8xp.8xp"][choose(8, "hit")];
                put(n, &prog(b"MORE"));
                results.push("MORE".to_string());
            }
            // links
            4 => {
                symlink("../other/p.8xp", "in/l.8xp").unwrap();
                results.push("ELSE".to_string());
            }
            5 => symlink(["../other", "nothing", "d.8xp"][choose(3, "link")], "in/d.8xp").unwrap(),
            6 => {
                let n = ["in/e.8xp", "in/e.83p", "in/e.txt", "in/e.json"][choose(4, "empty")];
                put(n, b"");
            }
            // many programs
            7 => {
                for i in 0..12u8 {
                    let c = [b'N', b'A' + i];
                    put(&format!("in/n{}.8xp", i), &prog(&c));
                    results.push(String::from_utf8(c.to_vec()).unwrap());
                }
                more = 12;
            }
            // directories are not searched
            8 => {
                std::fs::create_dir("in/sub").unwrap();
                put("in/sub/p.8xp", &prog(b"SUB"));
            }
            // a program without a name goes by the name of the file
            9 => {
                put("in/nameless.8xp", &prog(b""));
                results.push("nameless".to_string());
            }
            // the formats of the older calculators
            10 => {
                let e = choose(2, "ext");
                put(["in/old.82p", "in/old.83p"][e], &file82p([b"**TI82**", b"**TI83**"][e], 0, b"Old", 5, b"OLD", &[0xDE, 0x31]));
            }
            _ => more = 0,
        }
        if last {
            put("in/main.8xp", &prog(b"MAIN"));
        }
        // where to
        let way = choose(if kind < 2 { 1 } else { 6 }, "way");
        let out = ["out", "out/", "./out", "in/../out", "in/out", "other"][way];
        let input = ["in", "in/", "./in", "other/../in", "in/."][if kind == 11 { choose(5, "input") } else { way % 5 }];
        let made = kind < 2 || out == "other" || choose(2, "make") == 0;
        if made {
            std::fs::create_dir(out).ok();
        }
        let o = app(&[b"convert", input.as_bytes(), b"-m", b"-o", out.as_bytes()], b"y\n");
        check(!o.crashed(), "no crash");
        check(o.code == 0, "mass conversion succeeds");
        let got = list(out);
        let inside = out == "in/out";
        for n in &results {
            if n != "nameless" || exists(&format!("{}/nameless.txt", out)) {
                check(is(&format!("{}/{}.txt", out, n), &text(if n == "nameless" { "" } else { n })), "every program is converted");
            }
        }
        let old = kind == 10;
        if old {
            check(exists(&format!("{}/OLD.txt", out)), "every program is converted");
        }
        let extra = old as usize + (out == "other") as usize;
        check(got.len() == results.len() + extra, "one result for every program that can be converted");
        check(is("in/main.8xp", &prog(b"MAIN")) && std::fs::read(&odd_path).is_ok(), "the input files stay");
        check(is("other/p.8xp", &prog(b"ELSE")) && list("other").len() == if out == "other" { got.len() } else { 1 }, "nothing outside the output directory");
        check(list("in").len() == 1 + more + inside as usize, "nothing new in the input directory");
        check(list(".").len() == 3 - inside as usize - (out == "other") as usize, "nothing outside the output directory");
        check(kind != 8 || list("in/sub").len() == 1, "nothing new in the input directory");
        reach(if inside { "inside" } else { "outside" });
    }
    /// C21: mass conversion gives what converting each file alone gives
    fn h_mass_same() {
        let x = byte("byte");
        assume((x >= b'A') & (x <= b'Z') | (x >= b'0') & (x <= b'9'));
        let t = choose(3, "views");
        let (content, preview) = [(false, false), (true, false), (true, true)][t];
        let output = t == 0 || choose(2, "output") == 1;
        let f = file8xp(b"**TI83F*", 0x0A, b"Some", 5, b"PROG", 0, 0, &[0xDE, 0x2A, 0x04, 0xB0, x, 0x2A, 0x3F, 0x04, x, 0x5D, 0x00]);
        std::fs::create_dir("in").unwrap();
        put("in/a.8xp", &f);
        let mut text = b"TXTPROG\nC\nLocked Program\nArchive\naccessible\nTI-84+\nDisp \"->".to_vec();
        text.push(x);
        text.extend(b"sin(\":sin(1->A");
        put("in/b.txt", &text);
        put("in/o.83p", &file82p(b"**TI83**", 0, b"old", 5, b"OLD", &[0x04, x, 0xB0]));
        let d = [&b"pretty"[..], b"accessible", b"ti", b"foo"][choose(4, "display")];
        let e = [&b"min"[..], b"max", b"smart", b"foo"][choose(4, "encode")];
        let mut opts: Vec<&[u8]> = vec![b"-d", d, b"-e", e];
        if content {
            opts.push(b"-c");
        }
        if preview {
            opts.push(b"-p");
        }
        // each alone
        let inputs: [(&str, &str, &str); 3] = [("in/a.8xp", "alone/PROG.txt", "out/PROG.txt"), ("in/b.txt", "alone/TXTPROG.8xp", "out/TXTPROG.8xp"), ("in/o.83p", "alone/OLD.txt", "out/OLD.txt")];
        std::fs::create_dir("alone").unwrap();
        std::fs::create_dir("out").unwrap();
        let mut shown: Vec<Vec<u8>> = vec![];
        let mut works = true;
        for (i, o, _) in inputs {
            let mut args: Vec<&[u8]> = vec![b"convert", i.as_bytes()];
            args.extend(&opts);
            if output {
                args.extend([&b"-o"[..], o.as_bytes()]);
            }
            let r = app(&args, b"");
            check(!r.crashed(), "no crash");
            works &= r.code == 0;
            shown.push(r.stdout);
        }
        let mut args: Vec<&[u8]> = vec![b"convert", b"in"];
        args.extend(&opts);
        args.push(b"-m");
        if output {
            args.extend([&b"-o"[..], b"out"]);
        }
        let r = app(&args, b"");
        check(!r.crashed(), "no crash");
        if d == b"foo" || e == b"foo" {
            check(!works && r.code != 0, "wrong modes are refused");
            check(list("out").is_empty(), "and nothing is written");
            reach("refused");
            return;
        }
        check(works == (r.code == 0), "works as each alone does");
        for (_, o, m) in inputs {
            match read(o) {
                Some(b) => check(is(m, &b), "the same result as alone"),
                None => check(!exists(m), "no result as alone"),
            }
        }
        check(list(".").len() == 3 && list("in").len() == 3 && list("out").len() == list("alone").len(), "no other file");
        if !output && works {
            // in any order
            let all = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].map(|o| same(&r.stdout, &o.map(|i| shown[i].clone()).concat()));
            check(all[0] | all[1] | all[2] | all[3] | all[4] | all[5], "shows what each alone shows");
            reach("shown");
        }
        if output {
            reach("written");
        }
    }
    /// C22: edit commands with their options in every order and spelling, and arbitrary values
    fn h_cli_edit() {
        let f = base();
        let op = [0, 4, 5, 1, 2, 3][choose(6, "command")];
        let inputs: [&[u8]; 3] = [b"a.8xp", b"-f.8xp", b"--new-file.8xp"];
        let input: &[u8] = inputs[choose(if (1..4).contains(&op) { 1 } else { 3 }, "input")];
        let name = std::str::from_utf8(input).unwrap();
        put(name, &f);
        let mut value: Vec<u8> = vec![];
        if op > 3 {
            let special: [&[u8]; 10] = [b"", b"--new-file", b"--delete-old", b"--name", b"a.8xp", b"rename", b"-n", b"--", b"help", b"--version"];
            // also 1 to 3 arbitrary characters, the option for help with one more, and one in its middle
            let starts: [&[u8]; 5] = [b"", b"-h", b"--hel", b"--help", b"-"];
            let k = choose(special.len() + starts.len() + 2, "value_kind");
            if k < special.len() {
                value = special[k].to_vec();
            } else {
                let k = k - special.len();
                let n = [2, 1, 1, 1, 1, 1, 3][k];
                value = if k < 5 { starts[k].to_vec() } else { vec![] };
                let b = bytes(n, "value");
                assume(all(n, |i| (b[i] < 0x80) & (b[i] != 0)));
                value.extend(b);
            }
        }
        let to = choose(4, "new_file");
        let target: &[u8] = [&b""[..], b"b.8xp", b"-d", b"--comment.8xp"][to];
        let target_name = std::str::from_utf8(target).unwrap();
        let delete = choose(2, "delete_old") == 1;
        let mut items: Vec<Vec<Vec<u8>>> = vec![];
        if op > 3 {
            let long: &[u8] = if op == 4 { b"--name" } else { b"--comment" };
            let short: &[u8] = if op == 4 { b"-n" } else { b"-c" };
            items.push(vec![[short, long][choose(2, "value_spelling")].to_vec(), value.clone()]);
        }
        if to > 0 {
            items.push(vec![[&b"-f"[..], b"--new-file"][choose(2, "file_spelling")].to_vec(), target.to_vec()]);
        }
        if delete {
            items.push(vec![[&b"-d"[..], b"--delete-old"][choose(2, "delete_spelling")].to_vec()]);
        }
        let mut args: Vec<Vec<u8>> = vec![OPS[op].as_bytes().to_vec(), input.to_vec()];
        args.extend(arrange(items));
        let refs: Vec<&[u8]> = args.iter().map(|x| &x[..]).collect();
        let o = app(&refs, b"y\n");
        check(!o.crashed(), "no crash");
        if op > 3 && br(same(&value, b"-h") | same(&value, b"--help")) {
            check(o.code == 0 && is(name, &f) && list(".").len() == 1, "help changes nothing");
            reach("help");
            return;
        }
        let good = match op {
            4 => all(value.len(), |i| (value[i] | 0x20 >= b'a') & (value[i] | 0x20 <= b'z')) && value.len() <= 8,
            _ => true,
        };
        let good = br(good) && to != 2 && (to > 0 || !delete);
        let stored: Vec<u8> = if op == 4 { value.iter().map(|x| x & 0xDF).collect() } else { value.clone() };
        let e = edited(&f, op, &stored);
        check((o.code == 0) == good, "works exactly when the values are valid");
        if !good {
            reach("refused");
            check(is(name, &f) && list(".").len() == 1, "nothing is touched");
            return;
        }
        reach("done");
        check(is(if to > 0 { target_name } else { name }, &e), "the values given are used");
        if to > 0 {
            check(exists(name) == !delete, "the old file is deleted exactly when asked");
        }
        check(list(".").len() == if to > 0 && !delete { 2 } else { 1 }, "no other file");
    }
    /// C22: convert with its options in every order and spelling
    fn h_cli_convert() {
        let txt = choose(2, "input") == 0;
        let (input, output): (&[u8], &[u8]) = if txt { (b"a.txt", b"b.8xp") } else { (b"a.8xp", b"b.txt") };
        let f = base();
        let text = b"NAME\nC\nProgram\nRAM\naccessible\nTI-84+\nDisp \"sin(";
        put(std::str::from_utf8(input).unwrap(), if txt { text } else { &f });
        let mut items: Vec<Vec<Vec<u8>>> = vec![];
        let out = choose(2, "output") == 1;
        if out {
            items.push(vec![[&b"-o"[..], b"--output"][choose(2, "output_spelling")].to_vec(), output.to_vec()]);
        }
        let modes: [&[u8]; 5] = [b"accessible", b"pretty", b"ti", b"accessible", b"-o"];
        let d = choose(5, "display");
        if d != 3 {
            items.push(vec![[&b"-d"[..], b"--display-mode"][choose(2, "display_spelling")].to_vec(), modes[d].to_vec()]);
        }
        let encs: [&[u8]; 5] = [b"smart", b"max", b"min", b"smart", b"-c"];
        let e = choose(5, "encode");
        if e != 3 {
            items.push(vec![[&b"-e"[..], b"--encode-mode"][choose(2, "encode_spelling")].to_vec(), encs[e].to_vec()]);
        }
        let show = choose(3, "show");
        if show > 0 {
            items.push(vec![[[&b"-c"[..], b"--content"], [&b"-p"[..], b"--preview"]][show - 1][choose(2, "show_spelling")].to_vec()]);
        }
        let n = items.len();
        let mut args: Vec<Vec<u8>> = vec![b"convert".to_vec(), input.to_vec()];
        args.extend(if n > 3 && param("all", 0) == 0 { rotate(items) } else { arrange(items) });
        let refs: Vec<&[u8]> = args.iter().map(|x| &x[..]).collect();
        let o = app(&refs, b"");
        check(!o.crashed(), "no crash");
        let good = d < 4 && e < 4 && (out || show > 0);
        check((o.code == 0) == good, "works exactly when the values are valid");
        let files = list(".").len();
        if !good {
            reach("refused");
            check(files == 1, "nothing is written");
            return;
        }
        check(files == 1 + out as usize, "writes exactly the output asked for");
        let t = oracle::table((oracle::MODELS[9].1, None));
        let container = if txt { file8xp(b"**TI83F*", 0x0A, b"", 5, b"NAME", 0, 0, &oracle::encode(&t, "Disp \"sin(", 1, [0, 1, 2, 0][e]).unwrap()) } else { f.clone() };
        if out {
            let mut want = container.clone();
            if !txt {
                let m = [1, 0, 2, 1][d];
                want = format!("BASE\nBase comment\nProgram\nRAM\n{}\nTI-84+\n{}", ["pretty", "accessible", "ti"][m], oracle::decode(&t, &f[BODY..f.len() - 2], m).unwrap()).into_bytes();
            }
            let output = std::str::from_utf8(output).unwrap();
            check(if txt { built(output, &want) } else { is(output, &want) }, "the output asked for");
            reach("written");
        }
        // content and preview: the bytes of a calculator file, the text of a text file
        let dump = hex(&container);
        let shows_bytes = show > 0 && (txt == (show == 2));
        // the comment of a program built from text is the tool's own
        let tail = dump[if txt { dump.len() - 40 } else { 0 }..].to_vec();
        check(contains(&o.stdout, &tail) == shows_bytes, "the bytes are shown exactly when asked for");
        if show > 0 && !shows_bytes {
            let head: &[u8] = if txt { b"NAME\n" } else { b"BASE\nBase comment\nTotal Size: " };
            check(o.stdout.starts_with(head) && contains(&o.stdout, b"Total Size: "), "the text is shown");
        }
        if show == 0 {
            check(!contains(&o.stdout, b"Total Size: "), "nothing is shown unasked");
        }
    }
    /// C22: incomplete and unknown commands
    fn h_cli_missing() {
        let f = base();
        put("a.8xp", &f);
        let lines: [&[&[u8]]; 20] = [
            &[b"rename"],
            &[b"rename", b"a.8xp"],
            &[b"rename", b"a.8xp", b"-n"],
            &[b"rename", b"a.8xp", b"-n", b"X", b"-d"],
            &[b"rename", b"a.8xp", b"-f", b"-n", b"-d"],
            &[b"comment"],
            &[b"comment", b"a.8xp"],
            &[b"comment", b"a.8xp", b"-f", b"b.8xp"],
            &[b"lock"],
            &[b"lock", b"--"],
            &[b"lock", b"a.8xp", b"-d"],
            &[b"unlock", b"a.8xp", b"--delete-old"],
            &[b"archive"],
            &[b"archive", b"a.8xp", b"-d"],
            &[b"unarchive", b"--"],
            &[b"convert"],
            &[b"convert", b"a.8xp"],
            &[b"search"],
            &[b"details"],
            &[b"details", b"--"],
        ];
        let k = choose(lines.len() + 2, "line");
        let o = if k < lines.len() {
            app(lines[k], b"y\n")
        } else {
            // an unknown command: a known one with an arbitrary character, or arbitrary
            let mut c = if k == lines.len() { b"lock".to_vec() } else { vec![0; 3] };
            let b = bytes(3, "command");
            if k == lines.len() {
                c[3] = b[0];
                assume(b[0] != b'k');
            } else {
                c.copy_from_slice(&b);
            }
            assume(all(c.len(), |i| (c[i] < 0x80) & (c[i] != 0)));
            app(&[&c, b"a.8xp"], b"y\n")
        };
        reach("refused");
        check(o.code != 0 && !o.crashed(), "ends with an error");
        check(o.stdout.len() + o.stderr.len() > 0, "and a message");
        check(is("a.8xp", &f) && list(".").len() == 1, "and touches no file");
    }
    /// C22: arguments that are not text
    fn h_cli_bytes() {
        let f = base();
        put("a.8xp", &f);
        let lines: [&[&[u8]]; 10] = [
            &[b"lock", b"a.8xp"],
            &[b"rename", b"a.8xp", b"-n", b"X"],
            &[b"comment", b"a.8xp", b"-c", b"X", b"-f", b"b.8xp", b"-d"],
            &[b"unarchive", b"a.8xp", b"--new-file", b"b.8xp"],
            &[b"convert", b"a.8xp", b"-o", b"b.txt", b"-d", b"ti"],
            &[b"convert", b".", b"-m", b"-o", b"out"],
            &[b"search", b"sin("],
            &[b"details", b"a.8xp"],
            &[b"models"],
            &[b"help", b"lock"],
        ];
        let mut args = lines[choose(lines.len(), "command")].to_vec();
        let at = choose(args.len() + 1, "at");
        let b = bytes(3, "argument");
        assume(all(3, |i| b[i] != 0));
        assume(std::str::from_utf8(&b).is_err());
        let name;
        match choose(3, "how") {
            // in place of an argument, before it or at its end
            0 if at < args.len() => args[at] = &b,
            1 if at < args.len() => {
                name = [args[at], &b].concat();
                args[at] = &name;
            }
            _ => args.insert(at, &b),
        }
        let o = app(&args, b"y\n");
        reach("refused");
        check(o.code != 0 && !o.crashed(), "ends with an error");
        check(o.stdout.len() + o.stderr.len() > 0, "and a message");
        check(is("a.8xp", &f) && list(".").len() == 1, "and touches no file");
    }
    /// C22: help wherever it is asked for
    fn h_cli_help() {
        let f = base();
        put("a.8xp", &f);
        let lines: [&[&[u8]]; 14] = [
            &[b"lock", b"a.8xp"],
            &[b"rename", b"a.8xp", b"-n", b"X"],
            &[b"convert", b"a.8xp", b"-o", b"b.txt"],
            &[b"comment", b"a.8xp", b"-c", b"X", b"-f", b"b.8xp", b"-d"],
            &[b"unlock", b"a.8xp", b"-f", b"b.8xp"],
            &[b"archive", b"a.8xp"],
            &[b"unarchive", b"a.8xp", b"-f"],
            &[b"convert", b".", b"-m", b"-o", b"out"],
            &[b"search", b"sin("],
            &[b"details", b"a.8xp"],
            &[b"models"],
            &[b"version"],
            &[b"help"],
            &[b"help", b"lock"],
        ];
        let k = choose(lines.len(), "command");
        let mut args = lines[k].to_vec();
        let name = args[0];
        let at = choose(args.len() + 1, "at");
        if at > 0 {
            args.insert(at, [&b"-h"[..], b"--help"][choose(2, "spelling")]);
        } else if k < 11 {
            // the help command says the same
            args = vec![b"help", name];
        }
        let o = app(&args, b"y\n");
        check(o.code == 0, "works");
        check(is("a.8xp", &f) && list(".").len() == 1, "and does nothing else");
        if at == 0 && k == 11 {
            reach("version");
            check(same(&o.stdout, format!("ti-tools {}\n", env_version()).as_bytes()), "prints the version");
            return;
        }
        reach("help");
        let title = |n: &[u8]| {
            let mut t = n.to_vec();
            t.extend(b" - ");
            t
        };
        if at == 0 && k == 12 {
            for l in &lines {
                check(contains(&o.stdout, &title(l[0])), "prints the help of every command");
            }
            return;
        }
        let shown = if at == 0 && k == 13 { b"lock" } else { name };
        check(contains(&o.stdout, &title(shown)), "prints the help of the command");
        for l in &lines {
            // no other command's
            let mut t = b"\x1b[1m".to_vec();
            t.extend(&title(l[0]));
            check(l[0] == shown || !contains(&o.stdout, &t), "and only that");
        }
    }
    /// C23: messages with arbitrary text in them
    fn h_print() {
        let f = base();
        put("a.8xp", &f);
        let mut v = spot();
        // a known value tells where the message shows it
        let o = app(&[b"comment", b"a.8xp", b"-c", b"QQQQ", b"-f", b"x.8xp"], b"");
        check(o.code == 0, "the command works");
        let at = o.stdout.windows(4).position(|x| x == b"QQQQ");
        check(at.is_some(), "the message shows the comment");
        let at = at.unwrap();
        let mut want = o.stdout[..at].to_vec();
        want.extend(&v);
        want.extend(&o.stdout[at + 4..]);
        let styled = directive(&v);
        let p = app(&[b"comment", b"a.8xp", b"-c", &v, b"-f", b"y.8xp"], b"");
        check(!p.crashed(), "printing does not crash");
        check(p.code == 0, "the command reports success");
        if !styled {
            check(same(&p.stdout, &want), "the text is shown unchanged");
            reach("plain");
        } else {
            reach("styled");
        }
        let e = edited(&f, 5, &latin(&mut v));
        check(is("y.8xp", &e), "the comment is stored");
    }
    /// C23: error messages and paths with arbitrary text in them
    fn h_print_more() {
        let v = spot();
        let o = match choose(3, "where") {
            0 => {
                // an unknown token is named in the error message
                let mut f = b"A\nC\nProgram\nRAM\naccessible\nTI-84+\n\x7F".to_vec();
                assume(all(v.len(), |i| (v[i] != b'\n') & (v[i] != b'\r')));
                f.extend(&v);
                put("a.txt", &f);
                reach("token");
                let o = app(&[b"convert", b"a.txt", b"-o", b"b.8xp"], b"");
                check(o.code == 1 && !exists("b.8xp"), "the error is reported");
                o
            }
            1 => {
                // a path
                assume(all(v.len(), |i| (v[i] != b'/') & (v[i] != 0) & (v[i] < 0x80)));
                put("a.8xp", &base());
                let mut t = b"o".to_vec();
                t.extend(&v);
                t.extend(b".8xp");
                reach("path");
                let o = app(&[b"convert", b"a.8xp", b"-o", &t], b"");
                check(o.code == 0 && list(".").len() == 2, "the file is written");
                o
            }
            _ => {
                // a name stored in a file
                let mut f = base();
                assume(all(v.len(), |i| (v[i] < 0x80) & (v[i] != 0)));
                for i in 0..8 {
                    f[NAME + i] = if i < v.len() { v[i] } else { 0 };
                }
                put("a.8xp", &f);
                reach("name");
                let o = app(&[b"convert", b"a.8xp", b"-o", b"b.8xp"], b"");
                check(o.code == 0 && exists("b.8xp"), "the file is written");
                o
            }
        };
        check(!o.crashed(), "printing does not crash");
    }
    /// C24: searching for an arbitrary text or byte code
    fn h_search() {
        let t = oracle::table((oracle::MODELS[24].1, None));
        let kind = param("kind", 0) % 3; // 0 accessible, 1 pretty, 2 byte
        let q: Vec<u8> = if param("kind", 0) > 2 {
            // every token there is, followed by nothing or an arbitrary character
            let n = t.len();
            let k = choose((n + 63) / 64, "token_high") * 64 + choose(64, "token_low");
            if k >= n {
                return;
            }
            let mut q = if kind < 2 {
                t[k].text[1 - kind].as_bytes().to_vec()
            } else {
                let mut c = "0x".to_string();
                for x in t[k].key {
                    c.push_str(&format!("{:02X}", x));
                }
                c.into_bytes()
            };
            if choose(2, "more") == 1 {
                let b = byte("query");
                // what can follow a token's text in another's, and one that cannot
                assume((b >= b'0') & (b <= b'1') | (b == b'(') | (b == b'F') | (b == b'e') | (b == b' ') | (b == b'~'));
                q.push(b);
            }
            q
        } else if kind < 2 {
            let lead = [&b""[..], b"si", b"Disp", b"L", b"Asm", b"x", "χ".as_bytes(), b"^^"][choose(param("leads", 8), "lead")];
            let n = 1 + choose(param("max", 1), "len");
            let b = bytes(n, "query");
            assume(all(n, |i| (b[i] < 0x80) & (b[i] != 0)));
            let mut q = lead.to_vec();
            q.extend(&b);
            q
        } else {
            let n = choose(param("digits", 3), "len");
            let b = bytes(n, "query");
            assume(all(n, |i| (b[i] >= b'0') & (b[i] <= b'9') | (b[i] >= b'A') & (b[i] <= b'G') | (b[i] == b'a')));
            let mut q = [&b"0x"[..], b"0xBB", b""][choose(3, "prefix")].to_vec();
            q.extend(&b);
            q
        };
        let spell = [&b"-t"[..], b"--type"][choose(2, "spelling")];
        let ty: &[u8] = [&b"accessible"[..], b"pretty", b"byte"][kind];
        let mut args: Vec<&[u8]> = vec![b"search", &q, spell, ty];
        if kind == 0 && choose(2, "default") == 1 {
            args.truncate(2);
        }
        // "--" is no query
        assume(!same(&q, b"--"));
        let o = app(&args, b"");
        check(!o.crashed(), "no crash");
        let c: Vec<u8> = q.iter().map(|x| conc(*x as usize) as u8).collect();
        if c == b"-h" {
            return;
        }
        let mut code = String::new();
        if kind == 2 {
            code = String::from_utf8(c).unwrap();
        } else if let Some(e) = oracle::pick(&t, &c, 1 - kind, true) {
            code.push_str("0x");
            for x in e.key {
                code.push_str(&format!("{:02X}", x));
            }
        }
        let d = crate::defs::DEFS.binary_search_by(|x| x.0.cmp(&code)).ok().map(|i| crate::defs::DEFS[i].1);
        match d {
            Some(d) => {
                reach("found");
                check(o.code == 0, "a token with a definition is found");
                let mut want = vec![b'\n'];
                want.extend(d.as_bytes());
                if kind == 1 {
                    check(o.stdout.ends_with(&want) && !contains(&o.stdout[..o.stdout.len() - want.len()], b"syntax:"), "exactly its definitions");
                } else {
                    check(same(&o.stdout, &want), "exactly its definitions");
                }
            }
            None => {
                reach("not found");
                check(o.code != 0 && o.stdout.len() + o.stderr.len() > 0, "an error is reported");
                check(!contains(&o.stdout, b"syntax:"), "and nothing else");
            }
        }
    }
    /// C26: what details and preview say about a file
    fn h_details() {
        let mut f = base();
        match param("window", 0) {
            0 => {
                let b = bytes(2, "comment");
                let at = [0, 5, 40][choose(3, "at")];
                f[COMMENT + at..COMMENT + at + 2].copy_from_slice(&b);
            }
            1 => {
                let b = bytes(2, "name");
                let at = [0, 3, 6][choose(3, "at")];
                f[NAME + at..NAME + at + 2].copy_from_slice(&b);
            }
            2 => {
                let (sig, product, _) = crate::tokens::FILES[choose(crate::tokens::FILES.len(), "model")];
                f[..8].copy_from_slice(sig);
                f[PRODUCT] = product;
                f[TYPE] = [5u8, 6, 0x17, 0x24][choose(4, "type")];
                f[DEST] = [0u8, 0x80][choose(2, "dest")];
            }
            4 => {
                // stored lengths, version and checksum that say something else
                for (at, n, name) in [(TOTAL, 2, "total"), (FLAG, 4, "flag_and_length"), (VERSION, 1, "version"), (LEN2, 4, "lengths")] {
                    let b = bytes(n, name);
                    f[at..at + n].copy_from_slice(&b);
                }
            }
            _ => {
                // bodies of several sizes
                let n = [0, 1, 2, 9, 10, 99, 100, 255, 256, 1000, 5000][choose(11, "size")];
                let b = byte("token");
                assume((b >= b'A') & (b <= b'Z'));
                f = file8xp(b"**TI83F*", 0x0A, b"Base comment", 5, b"BASE", 0, 0, &vec![b; n]);
            }
        }
        seal(&mut f);
        if param("window", 0) == 4 {
            let n = f.len();
            f[n - 2..].copy_from_slice(&bytes(2, "checksum"));
        }
        put("a.8xp", &f);
        let model = model_of(f[PRODUCT], &f[..8]).unwrap();
        let mut want = vec![];
        for (at, n) in [(NAME, 8), (COMMENT, 42)] {
            for i in 0..n {
                let b = f[at + i];
                if br(b != 0) {
                    if br(b < 0x80) {
                        want.push(b)
                    } else {
                        want.extend([0xC0 | b >> 6, 0x80 | b & 0x3F])
                    }
                }
            }
            want.push(b'\n');
        }
        let i = oracle::MODELS.iter().position(|x| x.0 == model).unwrap();
        want.extend(format!("Total Size: {} bytes\nBody Size: {} bytes\n----- Status -----\nmodel: {}\nlanguage: {}\nDestination: {}\nFile Type: {}\n", f.len(), f.len() - 76, model, oracle::details(i).2, dest_name(f[DEST]), type_name(f[TYPE])).as_bytes());
        if choose(2, "command") == 0 {
            let o = app(&[b"details", b"a.8xp"], b"");
            check(o.code == 0, "details works");
            check(same(&o.stdout, &want), "details reports what the file says");
            reach("details");
        } else {
            let o = app(&[b"convert", b"a.8xp", b"-p"], b"");
            check(o.code == 0, "preview works");
            want.extend(b"----- Program -----\n");
            let t = oracle::table((oracle::MODELS[i].1, None));
            if param("window", 0) == 3 {
                want.extend(&f[BODY..f.len() - 2]);
            } else {
                want.extend(oracle::decode(&t, &f[BODY..f.len() - 2], 1).unwrap().as_bytes());
            }
            want.extend(b"\n\n");
            check(same(&o.stdout, &want), "the preview reports what the file says");
            reach("preview");
        }
        check(is("a.8xp", &f), "the file stays");
    }
    /// C04: commands on files cut short
    fn h_short_cmd() {
        let k = choose(4, "ext");
        let name = ["a.8xp", "a.82p", "a.83p", "a.txt"][k];
        let text = b"NAME\nC\nProgram\nRAM\naccessible\nTI-84+\nDisp \"A".to_vec();
        let f = if k < 3 { base() } else { text };
        let n = choose(f.len() + 1, "len");
        let mut f = f[..n].to_vec();
        if n > 0 {
            let b = byte("last");
            f[n - 1] = b;
        }
        put(name, &f);
        let args: &[&[u8]] = match choose(4, "command") {
            0 => &[b"details"],
            1 => &[b"convert", b"-o", b"b.json"],
            2 => &[b"convert", b"-c", b"-p"],
            _ => &[b"lock", b"-f", b"c.8xp"],
        };
        let mut a = args.to_vec();
        a.insert(1, name.as_bytes());
        let o = app(&a, b"");
        check(!o.crashed(), "no crash");
        if o.code == 0 {
            reach("works")
        } else {
            reach("error")
        }
        check(is(name, &f), "the file stays");
    }
    /// C17: converting through a JSON file
    fn h_json_cmd() {
        let mut f = base();
        match choose(4, "where") {
            0 => {
                let b = bytes(1, "comment");
                let at = [0, 5, 41][choose(3, "at")];
                f[COMMENT + at..COMMENT + at + 1].copy_from_slice(&b);
            }
            1 => {
                let b = bytes(1, "name");
                f[NAME + 1..NAME + 2].copy_from_slice(&b);
            }
            2 => {
                let (sig, product, _) = crate::tokens::FILES[choose(crate::tokens::FILES.len(), "model")];
                f[..8].copy_from_slice(sig);
                f[PRODUCT] = product;
            }
            _ => {
                f[TYPE] = [5u8, 6, 0x17, 0x24][choose(4, "type")];
                f[DEST] = [0u8, 0x80][choose(2, "dest")];
            }
        }
        seal(&mut f);
        put("a.8xp", &f);
        let mode: &[u8] = [&b"accessible"[..], b"pretty", b"ti"][choose(3, "display")];
        let ext = choose(3, "to");
        let (direct, detour) = [("d.8xp", "j.8xp"), ("d.txt", "j.txt"), ("d.83p", "j.83p")][ext];
        check(app(&[b"convert", b"a.8xp", b"-o", b"a.json", b"-d", mode], b"").code == 0, "exporting works");
        check(app(&[b"convert", b"a.8xp", b"-o", direct.as_bytes(), b"-d", mode], b"").code == 0, "converting works");
        check(app(&[b"convert", b"a.json", b"-o", detour.as_bytes()], b"").code == 0, "importing works");
        reach("round");
        check(same(&get(direct), &get(detour)), "the detour makes no difference");
        check(ext > 0 || same(&get(detour), &f), "the same file");
    }
    /// C27: the content and preview views of every kind of file
    fn h_view() {
        let kind = choose(5, "kind");
        let sig: &[u8; 8] = if kind == 1 { b"**TI82**" } else if kind == 2 { b"**TI83**" } else { b"**TI83F*" };
        let product = if kind == 1 || kind == 2 { 0 } else { 0x0A };
        let x = byte("byte");
        let mut name = b"BASE".to_vec();
        let mut comment = b"Base comment".to_vec();
        let mut body = vec![0xDE, 0x2A, b'H', b'I', 0x2A, 0x3F, 0x31, 0x04, b'A'];
        let at = choose(5, "at");
        // blanks at the ends of the program
        let mut front: &[u8] = b"";
        let mut end: &[u8] = b"";
        match at {
            0 => comment[param("place", 3)] = x,
            1 if kind != 3 => name[1] = x,
            1 => {
                assume((x | 0x20 >= b'a') & (x | 0x20 <= b'z'));
                name[1] = x
            }
            2 => {
                assume((x >= b'A') & (x <= b'Z'));
                body[2] = x;
            }
            3 => body.extend(vec![b'Z'; [0, 1, 5, 6, 7, 8, 30, 160, 170, 171, 172, 173, 427, 428, 940][choose(15, "more")]]),
            _ => {
                let list: [&[u8]; 6] = [b"", b" ", b"\n", b"\n\n", b" \n", b"\n "];
                front = list[choose(6, "front")];
                end = list[choose(6, "end")];
                let tok = |t: &[u8]| t.iter().map(|c| if *c == b' ' { 0x29 } else { 0x3F }).collect::<Vec<u8>>();
                body = [&tok(front)[..], &body, &tok(end)].concat();
            }
        }
        let (ftype, dest) = ([5u8, 6][choose(2, "type")], if kind == 1 || kind == 2 { 0 } else { [0u8, 0x80][choose(2, "dest")] });
        let f = file8xp(sig, product, &comment, ftype, &name, 0, dest, &body);
        let input = ["a.8xp", "a.82p", "a.83p", "a.txt", "a.json"][kind];
        let program = [&b"Disp \"H"[..], b"I\"\n1->A"].concat();
        // the text of the program
        let mut text = program.clone();
        if at == 2 {
            text[6] = x;
        }
        if at == 3 {
            text.extend(vec![b'Z'; body.len() - 9]);
        }
        text = [front, &text, end].concat();
        match kind {
            0 => put(input, &f),
            1 | 2 => put(input, &file82p(sig, product, &comment, ftype, &name, &body)),
            3 => {
                let mut l = name.clone();
                l.extend(format!("\nany\n{}\n{}\naccessible\nTI-84+\n", type_name(ftype), dest_name(dest)).as_bytes());
                l.extend(&text);
                if text.ends_with(b"\n") {
                    // the end of the last line
                    l.push(b'\n');
                }
                put(input, &l)
            }
            _ => {
                put("x.8xp", &f);
                check(app(&[b"convert", b"x.8xp", b"-o", input.as_bytes()], b"").code == 0, "exporting works");
                std::fs::remove_file("x.8xp").unwrap();
            }
        }
        let before = get(input);
        // the details and the text
        let mut shown = vec![];
        // the comment of a program built from text is the tool's own
        let mut g = f.clone();
        let mut own = vec![];
        if kind == 3 {
            check(app(&[b"convert", b"a.txt", b"-o", b"x.8xp"], b"").code == 0, "building works");
            let made = get("x.8xp");
            std::fs::remove_file("x.8xp").unwrap();
            g[COMMENT..COMMENT + 42].copy_from_slice(&made[COMMENT..COMMENT + 42]);
            own.extend(&made[COMMENT..COMMENT + 42]);
        }
        let mut field = |b: &[u8]| {
            for c in b {
                if br(*c != 0) {
                    if br(*c < 0x80) {
                        shown.push(*c)
                    } else {
                        shown.extend([0xC0 | *c >> 6, 0x80 | *c & 0x3F])
                    }
                }
            }
            shown.push(b'\n');
        };
        field(&name);
        field(if kind == 3 { &own } else { &comment });
        let model = ["TI-84+", "TI-82", "TI-83", "TI-84+", "TI-84+"][kind];
        shown.extend(format!("Total Size: {} bytes\nBody Size: {} bytes\n----- Status -----\nmodel: {}\nlanguage: en\nDestination: {}\nFile Type: {}\n----- Program -----\n", f.len(), body.len(), model, dest_name(dest), type_name(ftype)).as_bytes());
        shown.extend(&text);
        shown.extend(b"\n\n");
        // the bytes
        let mut dump = dump(&g);
        dump.extend(b"\n\n");
        let (content, preview) = [(true, false), (false, true), (true, true)][choose(3, "view")];
        let mut want = vec![];
        if content {
            match kind {
                3 => want.extend(&shown),
                4 => {
                    want.extend(&before);
                    want.extend(b"\n\n");
                }
                _ => want.extend(&dump),
            }
        }
        if preview {
            match kind {
                3 => want.extend(&dump),
                4 => {
                    want.extend(&dump);
                    want.extend(&shown);
                }
                _ => want.extend(&shown),
            }
        }
        let mut args: Vec<&[u8]> = vec![b"convert", input.as_bytes()];
        if content {
            args.push(b"-c")
        }
        if preview {
            args.push(b"-p")
        }
        let o = app(&args, b"");
        check(o.code == 0, "looking works");
        check(same(&o.stdout, &want), "the views show the program");
        check(is(input, &before) && list(".").len() == 1, "no file changes");
        reach(["8xp", "82p", "83p", "txt", "json"][kind]);
    }
    /// C28: commands that cannot do their work
    fn h_fail() {
        let f = base();
        std::fs::create_dir("d").unwrap();
        std::fs::create_dir("d.8xp").unwrap();
        put("d/keep", b"k");
        put("ok.8xp", &f);
        let text = b"NAME\nC\nProgram\nRAM\naccessible\nTI-84+\nDisp 1".to_vec();
        let cmd = choose(12, "command");
        let mass = cmd == 11;
        let edit = cmd < 6;
        let x = byte("byte");
        let mut target = [&b"new.8xp"[..], b"", b"out.txt", b"out.8xp"][if edit { choose(2, "new_file") } else { 2 + choose(2, "new_file") }].to_vec();
        let kind = choose(14, "kind");
        let name;
        let mut answer: &[u8] = b"y\n";
        let (input, content): (&str, Option<Vec<u8>>) = match kind {
            0 => ("no.8xp", None),
            1 => ("d", None),
            2 => ("d.8xp", None),
            3 => ("noext", Some(f.clone())),
            4 => {
                // an extension one byte away from one that works
                let at = choose(5, "at");
                assume((x != 0) & (x != b'/') & (x < 0x80));
                let mut v = b"a.8xp".to_vec();
                if at == 4 {
                    v.push(x);
                } else {
                    v[at + 1] = x;
                    assume((x != b"8xp."[(at + 3) % 4]) & ((at != 2) | (x != b'2') & (x != b'3')) & (x | 0x20 != b"8xp."[(at + 3) % 4]));
                }
                name = String::from_utf8(v.iter().map(|b| conc(*b as usize) as u8).collect()).unwrap();
                (&name, Some(f.clone()))
            }
            5 => ("a.txt", Some(text.clone())),
            6 => ("a.json", Some(vec![b' '; 100])),
            7 => ("e.8xp", Some(vec![])),
            8 => {
                let mut g = f.clone();
                let at = choose(3, "at");
                g[[TYPE, DEST, PRODUCT][at]] = x;
                assume(match at {
                    0 => (x != 5) & (x != 6) & (x != 0x17) & (x != 0x24),
                    1 => (x != 0) & (x != 0x80),
                    _ => (x != 0) & (x != 4) & (x != 0x0A) & (x != 0x0B) & (x != 0x0F) & (x != 0x13) & (x != 0x1B),
                });
                ("b.8xp", Some(g))
            }
            9 => {
                // the program ends inside a token
                assume((x == 0x5C) | (x == 0x5D) | (x == 0x5E) | (x == 0x60) | (x == 0x61) | (x == 0x62) | (x == 0x63) | (x == 0x7E) | (x == 0xAA) | (x == 0xBB) | (x == 0xEF));
                ("b.8xp", Some(file8xp(b"**TI83F*", 0x0A, b"", 5, b"A", 0, 0, &[b'A', x])))
            }
            10 => {
                let mut l: Vec<Vec<u8>> = text.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
                let k = choose(4, "line");
                let (line, at) = [(0, 1), (2, 6), (3, 1), (4, 0)][k];
                let old = l[line][at];
                l[line][at] = x;
                assume((x != old) & (x < 0x80) & (x != b'\n') & (x != b'\r'));
                if k == 0 {
                    assume((x | 0x20 < b'a') | (x | 0x20 > b'z'));
                }
                ("n.txt", Some(l.join(&b'\n')))
            }
            11 => {
                assume((x != b'{') & (x < 0x80));
                ("j.json", Some(vec![x; 90]))
            }
            12 => {
                // nowhere to save
                target = [&b"no/x.8xp"[..], b"d.8xp", b"ok.8xp/x.8xp", b"x.foo", b"x", b"d/.", b"x.8xq"][choose(7, "where")].to_vec();
                if mass {
                    target = [&b"no/x"[..], b"ok.8xp"][choose(2, "where_all")].to_vec();
                }
                ("a.8xp", Some(f.clone()))
            }
            _ => {
                // declining is no failure, other answers are the business of C19
                answer = b"";
                ("..8xp", None)
            }
        };
        // those that work
        assume(!(mass && (kind == 1 || kind == 2)));
        assume(!(!edit && cmd != 6 && !mass && kind == 5));
        assume(!(kind == 12 && target == b"" ));
        let view = cmd == 8 || cmd == 9 || cmd == 6;
        assume(!(kind == 12 && view));
        if let Some(c) = &content {
            put(input, c);
        }
        let files = list(".");
        let mut args: Vec<&[u8]> = vec![if edit { OPS[cmd].as_bytes() } else if cmd == 6 { b"details" } else { b"convert" }, input.as_bytes()];
        match cmd {
            4 => args.extend([&b"-n"[..], b"NEW"]),
            5 => args.extend([&b"-c"[..], b"New"]),
            8 => args.push(b"-c"),
            9 => args.extend([&b"-p"[..], b"-d", b"pretty"]),
            10 => args.extend([&b"-c"[..], b"-p", b"-e", b"max"]),
            11 => args.push(b"-m"),
            _ => {}
        }
        if mass && kind == 12 {
            args[1] = b"d";
        }
        if edit && !target.is_empty() {
            args.extend([&b"-f"[..], &target]);
            if choose(2, "delete") == 1 {
                args.push(b"-d");
            }
        }
        if !edit && !view {
            args.extend([&b"-o"[..], &target]);
        }
        let o = app(&args, answer);
        check(!o.crashed(), "no crash");
        check(o.code != 0, "the failure is reported");
        check(o.stdout.len() + o.stderr.len() > 0, "with a message");
        check(content.as_ref().map_or(true, |c| is(input, c)) && is("ok.8xp", &f) && is("d/keep", b"k"), "no file changes");
        check(list(".") == files && list("d").len() == 1 && list("d.8xp").len() == 0, "no file appears or disappears");
        reach(if edit { "edit" } else { "other" });
    }
    /// C20, C28: reading, showing or asking fails
    fn h_io() {
        let x = byte("byte");
        assume((x >= b'A') & (x <= b'Z'));
        let f = file8xp(b"**TI83F*", 0x0A, b"C", 5, b"PROG", 0, 0, &[0xDE, 0x2A, x, 0x2A]);
        put("a.8xp", &f);
        std::fs::create_dir("in").unwrap();
        std::fs::create_dir("out").unwrap();
        let mut text = b"PROG\nC\nProgram\nRAM\naccessible\nTI-84+\nDisp \"".to_vec();
        text.push(x);
        text.push(b'"');
        let commands: [(&[&[u8]], &str); 14] = [
            (&[b"lock", b"a.8xp"], "a.8xp"),
            (&[b"lock", b"a.8xp", b"-f", b"out/b.8xp"], "out/b.8xp"),
            (&[b"lock", b"a.8xp", b"-f", b"out/b.8xp", b"-d"], "out/b.8xp"),
            (&[b"lock", b"a.8xp", b"-f", b"./a.8xp", b"-d"], "a.8xp"),
            (&[b"lock", b"a.8xp", b"-f", b"in/../a.8xp", b"-d"], "a.8xp"),
            (&[b"details", b"a.8xp"], ""),
            (&[b"convert", b"a.8xp", b"-c", b"-p"], ""),
            (&[b"convert", b"a.8xp", b"-o", b"out/PROG.txt"], "out/PROG.txt"),
            (&[b"convert", b"in/a.txt", b"-o", b"out/PROG.8xp", b"-c"], "out/PROG.8xp"),
            (&[b"convert", b"in/a.json", b"-o", b"out/PROG.txt", b"-p"], "out/PROG.txt"),
            (&[b"convert", b"in", b"-m", b"-o", b"out"], ""),
            (&[b"convert", b"in", b"-m", b"-o", b"out", b"-p"], ""),
            (&[b"convert", b"in", b"-m", b"-o", b"new"], ""),
            (&[b"models"], ""),
        ];
        let k = choose(commands.len(), "command");
        let (args, target) = commands[k];
        let mass = k >= 10 && k < 13;
        // what is read
        let mut inputs = vec!["a.8xp"];
        if k == 8 {
            put("in/a.txt", &text);
            inputs.push("in/a.txt");
        }
        if k == 9 {
            check(app(&[b"convert", b"a.8xp", b"-o", b"in/a.json"], b"").code == 0, "exporting works");
            inputs.push("in/a.json");
        }
        if mass {
            put("in/a.8xp", &f);
            inputs.push("in/a.8xp");
            put("in/b.txt", &[b"SEC".to_vec(), text[4..].to_vec()].concat());
            inputs.push("in/b.txt");
        }
        // what is there before
        let there = target.starts_with("out/") && choose(2, "exists") == 1 || k == 10 && choose(2, "exists") == 1;
        let file = if k == 10 { "out/PROG.txt" } else { target };
        if there {
            put(file, b"before");
        }
        let before: Vec<Vec<u8>> = inputs.iter().map(|n| get(n)).collect();
        let kind = 3 + choose(3, "fault");
        fault(kind as u32, choose(param("at", 16), "at") as i64);
        let o = app(args, b"y\ny\ny\n");
        let hit = fault_hit();
        let want: Vec<u8> = match k {
            0..=4 => edited(&f, 0, b""),
            7 | 9 => text.clone(),
            8 => {
                let mut g = file8xp(b"**TI83F*", 0x0A, b"", 5, b"PROG", 0, 0, &[0xDE, 0x2A, x, 0x2A]);
                let v = b"Created by TI-Tools ";
                g[COMMENT..COMMENT + v.len()].copy_from_slice(v);
                g
            }
            _ => vec![],
        };
        // is the file a complete result?
        let complete = |n: &str, w: &[u8]| {
            if n.ends_with(".8xp") && k >= 8 {
                built(n, w)
            } else {
                is(n, w)
            }
        };
        // what cannot be shown is another matter
        check(kind == 4 || !o.crashed(), "no crash");
        check(!o.crashed() || hit, "no crash when nothing fails");
        if mass {
            for (n, b) in inputs.iter().zip(&before) {
                check(is(n, b), "the input files stay");
            }
            let out = if k == 12 { "new" } else { "out" };
            let mut results = 0;
            if exists(out) {
                for n in list(out) {
                    let p = format!("{}/{}", out, n);
                    let ok = match n.as_str() {
                        "PROG.txt" => is(&p, &text) || there && is(&p, b"before"),
                        "SEC.8xp" => built(&p, &file8xp(b"**TI83F*", 0x0A, b"", 5, b"SEC", 0, 0, &[0xDE, 0x2A, x, 0x2A])),
                        _ => false,
                    };
                    check(ok, "every result is complete");
                    results += 1;
                }
            }
            if !hit {
                check(o.code == 0 && results == 2, "everything is converted");
            } else if kind == 3 && o.code == 0 {
                check(results > 0 || o.stdout.len() + o.stderr.len() > 0, "what fails is reported");
            }
            reach(if hit { "mass failed" } else { "mass" });
            return;
        }
        let kept = is("a.8xp", &f);
        let stored = target.len() > 0 && complete(target, &want);
        let delete = k >= 2 && k <= 4;
        let same = k == 3 || k == 4 || k == 0;
        check(kept || (k < 5 && stored), "the program is not lost");
        if target.len() > 0 && exists(target) {
            check(stored || (same && kept) || (there && is(target, b"before")), "the target is as before or complete");
        }
        for (n, b) in inputs.iter().zip(&before).skip(1) {
            check(is(n, b), "the input files stay");
        }
        if o.code == 0 && !(kind == 5 && hit) {
            check(target.len() == 0 || stored, "success means the result is stored");
            check(exists("a.8xp") == !(delete && !same), "the old file is deleted exactly when asked");
        }
        if !hit {
            check(o.code == 0, "what does not fail works");
        }
        if kind == 5 && hit {
            check(kept && (target.len() == 0 || same || is(target, b"before")), "an answer that cannot be read is a no");
        }
        if o.code != 0 {
            check(kind == 4 || o.stdout.len() + o.stderr.len() > 0, "a failure is reported");
        }
        check(list(".").len() == 3 - !exists("a.8xp") as usize && list("out").len() <= 1, "no other file appears");
        reach(if hit { "failed" } else { "works" });
    }
    /// C04: JSON files
    fn h_any_json() {
        put("a.8xp", &file8xp(b"**TI83F*", 0x0A, b"C", 5, b"A", 0, 0, &[0x31]));
        check(app(&[b"convert", b"a.8xp", b"-o", b"a.json"], b"").code == 0, "exporting works");
        let mut j = get("a.json");
        let step = param("step", 1);
        let k = choose((j.len() + step - 1) / step, "at") * step;
        let x = byte("byte");
        match choose(3, "how") {
            0 => j[k] = x,
            1 => j.truncate(k),
            _ => {
                j.remove(k);
            }
        }
        put("b.json", &j);
        let out = ["b.8xp", "b.txt", "b.83p", "c.json"][choose(4, "output")];
        let o = app(&[b"convert", b"b.json", b"-p", b"-o", out.as_bytes()], b"");
        check(!o.crashed(), "no crash");
        check((o.code == 0) == exists(out), "a result exactly when it works");
        reach(if o.code == 0 { "works" } else { "error" });
    }
    /// C04: texts with wide characters after a number of others, wherever they are
    fn h_wide() {
        let mut lines: Vec<Vec<u8>> = [&b"NAME"[..], b"C", b"Program", b"RAM", b"accessible", b"TI-84+", b"Disp 1", b"2"].iter().map(|x| x.to_vec()).collect();
        let k = choose(9, "line");
        let mut l = vec![];
        if k == 8 {
            // a character no token has
            l.push(0x7F);
        }
        l.extend(vec![b'A'; choose(param("max", 20), "before")]);
        let n = 2 + choose(3, "width");
        for _ in 0..1 + choose(3, "count") {
            let b = bytes(1, "char")[0] & 0x3F;
            l.extend(match n {
                2 => vec![0xC3, 0x80 | b],
                3 => vec![0xE2, 0x82, 0x80 | b],
                _ => vec![0xF0, 0x9F, 0x98, 0x80 | b],
            });
        }
        l.extend(vec![b'A'; choose(2, "after")]);
        lines[k.min(7)] = l;
        let f = lines.join(&b'\n');
        put("a.txt", &f);
        let o = app(&[b"convert", b"a.txt", b"-o", b"a.8xp"], b"");
        check(!o.crashed(), "no crash");
        if o.code == 0 {
            reach("works");
            check(exists("a.8xp"), "the file is written");
        } else {
            reach("error");
            check(!exists("a.8xp"), "nothing is written");
        }
    }
    /// C18: every model the tool lists has a name that selects it
    fn h_models_cmd() {
        let o = app(&[b"models"], b"");
        check(o.code == 0, "works");
        let s = String::from_utf8(o.stdout).unwrap();
        let mut n = 0;
        for l in s.lines().skip(1) {
            let l = l.trim_start_matches([' ', '-', '*', '\t']).trim();
            if l.is_empty() {
                continue;
            }
            check(oracle::MODELS.iter().any(|m| m.0 == l), "a known name");
            check(ti_tools::calculator::models::Model::from_string(l).to_string() == l, "the name selects the model");
            n += 1;
        }
        check(n >= 24, "every model is listed");
        reach("listed");
    }
}

fn env_version() -> &'static str {
    // from the manifest of the tool
    let t = include_str!("../../../repo/Cargo.toml");
    let a = t.find("\nversion = \"").unwrap() + 12;
    &t[a..a + t[a..].find('"').unwrap()]
}
/// is the file the one given, but for the comment?
fn built(name: &str, want: &[u8]) -> bool {
    match read(name) {
        Some(g) => g.len() == want.len() && same(&g[..COMMENT], &want[..COMMENT]) && same(&g[TOTAL..], &want[TOTAL..]),
        None => false,
    }
}
/// every order of some options
fn arrange(mut items: Vec<Vec<Vec<u8>>>) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut k = 0;
    while !items.is_empty() {
        let i = choose(items.len(), &format!("order{}", k));
        r.extend(items.remove(i));
        k += 1;
    }
    r
}
/// some orders: every option first, followed by the others forwards or backwards
fn rotate(mut items: Vec<Vec<Vec<u8>>>) -> Vec<Vec<u8>> {
    let n = items.len();
    items.rotate_left(choose(n, "order0"));
    if choose(2, "order1") == 1 {
        items.reverse();
    }
    items.into_iter().flatten().collect()
}
fn contains(s: &[u8], x: &[u8]) -> bool {
    s.len() >= x.len() && (0..=s.len() - x.len()).any(|i| &s[i..i + x.len()] == x)
}
/// the byte dump of a file as it is shown
fn dump(b: &[u8]) -> Vec<u8> {
    let digit = |x: u8| ite(x < 10, (b'0' + x) as u64, (b'A' - 10).wrapping_add(x) as u64) as u8;
    let mut s = vec![];
    for (i, x) in b.iter().enumerate() {
        s.extend([digit(x >> 4), digit(x & 15)]);
        s.extend(if i % 16 == 15 { &b"\n"[..] } else { b", " });
    }
    s
}
/// the byte dump of a file
fn hex(b: &[u8]) -> Vec<u8> {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        s.push_str(&format!("{:02X}", x));
        s.push_str(if i % 16 == 15 { "\n" } else { ", " });
    }
    s.into_bytes()
}
/// text with arbitrary characters among brackets and wide characters
fn spot() -> Vec<u8> {
    let list: [&[u8]; 8] = [b"\x01\x01", b"[\x01", b"[\x01]", b"\x01[color:\x01", b"[color:re\x01]", b"\x01[a]\x01", b"\xC3\xA9[\x01\xC3\xA9]", b"[style:bold\x01"];
    let t = list[choose(list.len(), "template")];
    let n = t.iter().filter(|x| **x == 1).count();
    let b = bytes(n, "text");
    let mut i = 0;
    let mut v = vec![];
    for x in t {
        if *x == 1 {
            assume((b[i] < 0x80) & (b[i] != 0));
            v.push(b[i]);
            i += 1;
        } else {
            v.push(*x);
        }
    }
    // "-h" asks for help
    assume(!same(&v, b"-h"));
    v
}
/// does the text contain a styling directive?
fn directive(v: &[u8]) -> bool {
    for i in 0..v.len() {
        for d in [&b"[color:"[..], b"[bg:", b"[style:"] {
            if v.len() > i + d.len() && br(same(&v[i..i + d.len()], d)) {
                for j in i + d.len()..v.len() {
                    if br(v[j] == b']') {
                        return true;
                    }
                }
            }
        }
    }
    false
}
/// one byte per character
fn latin(v: &mut [u8]) -> Vec<u8> {
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        if br(v[i] < 0x80) {
            r.push(v[i]);
            i += 1;
        } else {
            r.push((v[i] << 6) | (v[i + 1] & 0x3F));
            i += 2;
        }
    }
    r
}
