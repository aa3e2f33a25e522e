//! P11, P12, P16, P17, P18: sequences of lines, of operations, and of readers.

use super::{lines, ramp};
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, Why};
use crate::obs::{self, *};
use crate::{broken, ensure};
use poreader::{error::Error, CatalogueReader, PoParser, PoReader};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Cursor, Read};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

const LINES: &[&str] = &[
    "msgid", "msgstr", "", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "#| msgid", "#~ msgid", "#~ msgstr", "# note", "msgid \"\"", "junk", "#| msgctxt", "#, fuzzy", "#~ ", "#| msgid_plural", "msgstr[2]", "#~| msgid",
];

fn put_line(d: &mut String, k: &str, i: usize) {
    match k {
        "# note" | "#, fuzzy" => d.push_str(&format!("{k}\n")),
        "msgid \"\"" => d.push_str("msgid \"\"\n"),
        "junk" => d.push_str(&format!("junk {i}\n")),
        "" => d.push_str(&format!("\"v{i}\"\n")),
        k if k.ends_with(' ') => d.push_str(&format!("{k}\"v{i}\"\n")),
        k => d.push_str(&format!("{k} \"v{i}\"\n")),
    }
}

/// Beginnings that leave an entry unfinished in every way.
pub const IN_ENTRY: &[&str] = &[
    "#| msgctxt \"pc\"\n", "#| msgctxt \"pc\"\n#| msgid \"pi\"\n", "#| msgid \"pi\"\n#| msgid_plural \"pp\"\n", "#| msgid_plural \"pp\"\n", "msgctxt \"c\"\n", "#| msgid \"pi\"\nmsgctxt \"c\"\n", "msgid \"i\"\n", "msgctxt \"c\"\nmsgid \"i\"\n",
    "#| msgctxt \"pc\"\n#| msgid \"pi\"\n#| msgid_plural \"pp\"\nmsgctxt \"c\"\nmsgid \"i\"\n", "msgid \"i\"\nmsgid_plural \"p\"\n", "msgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"t0\"\n", "msgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"t0\"\nmsgstr[1] \"t1\"\n", "msgid \"i\"\nmsgstr \"t\"\n",
    "msgid \"i\"\nmsgstr \"t\"\n\"more\"\n", "#~ msgctxt \"c\"\n", "#~ msgid \"i\"\n", "#~ msgid \"i\"\n#~ msgid_plural \"p\"\n#~ msgstr[0] \"t0\"\n", "#~ msgid \"i\"\n#~ msgstr \"t\"\n", "#~| msgid \"pi\"\n", "#~| msgctxt \"pc\"\n#~| msgid \"pi\"\n#~ msgctxt \"c\"\n#~ msgid \"i\"\n", "#, fuzzy\n# note\n",
    "msgid \"\"\nmsgstr \"\"\n", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=1; plural=0;\\n\"\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"t0\"\n", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n;\\n\"\nmsgid \"i\"\nmsgid_plural \"p\"\nmsgstr[0] \"t0\"\nmsgstr[1] \"t1\"\n",
    "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=0; plural=n;\\n\"\nmsgid \"i\"\nmsgid_plural \"p\"\n",
];

/// Every message and continuation line of the input is accounted for: its text is in a unit or the header, or an
/// error is reported.  Independent of the reference reader.
fn nothing_lost(d: &str, n: usize, o: &RunObs) -> Res {
    if o.error().is_some() {
        return Ok(());
    }
    let mut seen = String::new();
    for u in o.units() {
        seen.push_str(&format!("{u:?}"));
    }
    let has_header_text = format!("{:?}", o.header);
    let lines: Vec<&str> = d.lines().filter(|l| !l.trim().is_empty()).collect();
    // an entry that the input ends before its translation: the lines after the last translation
    let last_done = lines.iter().rposition(|l| l.contains("msgstr"));
    for i in 0..n {
        let v = format!("v{i}");
        let Some(at) = lines.iter().position(|l| l.contains(&format!("\"{v}\""))) else { continue };
        if seen.contains(&v) || has_header_text.contains(&v) {
            continue;
        }
        // text of a header entry: without a colon it leaves no property
        let in_header = {
            let first_id = lines.iter().position(|l| l.starts_with("msgid \"\"") || l.starts_with("#~ msgid \"\""));
            let next_id = lines.iter().enumerate().position(|(k, l)| first_id.map_or(false, |f| k > f) && l.contains("msgid"));
            match (first_id, next_id) {
                (Some(_), Some(n)) => at < n && lines[..first_id.unwrap()].iter().all(|l| !l.starts_with("msgid")),
                (Some(_), None) => true,
                _ => false,
            }
        };
        if in_header {
            continue;
        }
        let continuation_of_done = last_done.map_or(false, |k| at <= k);
        if !continuation_of_done && last_done.map_or(true, |k| at > k) && !lines[at].starts_with('"') && !lines[at].starts_with("#~ \"") {
            continue; // unfinished last entry
        }
        if last_done.map_or(true, |k| at > k) {
            continue;
        }
        broken!("the line {:?} is in no unit and no error is reported", lines[at]);
    }
    Ok(())
}

pub fn p11(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 4 } else { 5 };
    v.push(space("line sequences", 0, format!("all sequences of up to {n} lines out of 19 (every keyword, mark, comment, continuation, a foreign line) as a whole catalogue, after a header, or after an entry"), move |c| {
        let start = c.choose(3);
        let len = c.choose(n + 1);
        let mut d = String::from(["", "msgid \"\"\nmsgstr \"A: b\\n\"\n\n", "msgid \"first\"\nmsgstr \"F\"\n\n"][start]);
        for i in 0..len {
            put_line(&mut d, c.pick(LINES), i);
        }
        let (_, o) = check(c, d.as_bytes())?;
        nothing_lost(&d, len, &o)
    }));
    let n = if q { 5 } else { 6 };
    v.push(space("short alphabet", 0, format!("all sequences of up to {n} lines out of 12, as a whole catalogue"), move |c| {
        let len = c.choose(n + 1);
        let mut d = String::new();
        for i in 0..len {
            put_line(&mut d, c.pick(&LINES[..12]), i);
        }
        let (_, o) = check(c, d.as_bytes())?;
        nothing_lost(&d, len, &o)
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("from every state", 0, format!("every prefix (25 of them, reaching every state of the entry grammar, also after several entries), then all sequences of up to {n} lines out of 19, then an ordinary entry or the end"), move |c| {
        const P: &[&[&str]] = &[
            &[],
            &["# note"],
            &["#| msgctxt"],
            &["#| msgid"],
            &["#| msgid", "#| msgid_plural"],
            &["msgctxt"],
            &["msgctxt", ""],
            &["msgid"],
            &["msgid", ""],
            &["msgid", "msgid_plural"],
            &["msgid", "msgid_plural", "msgstr[0]"],
            &["msgid", "msgid_plural", "msgstr[0]", "msgstr[1]"],
            &["msgid", "msgstr"],
            &["msgid", "msgstr", ""],
            &["msgid", "msgstr", "# note"],
            &["#| msgctxt", "#| msgid", "msgctxt", "msgid"],
            &["#~ msgid"],
            &["#~ msgid", "#~ msgstr"],
            &["#~ msgid", "#~ msgstr", "#~ "],
            &["#~| msgid", "#~ msgid"],
            &["msgid \"\"", "msgstr"],
            &["msgid \"\"", "msgstr", "", "msgid", "msgstr"],
            &["msgid", "msgstr", "#~ msgid", "#~ msgstr", "msgid", "msgstr"],
            &["#, fuzzy", "#| msgid", "msgid", "msgstr", "msgid", "msgid_plural", "msgstr[0]"],
            &["msgctxt", "msgid", "msgid_plural"],
        ];
        let p = *c.pick(P);
        let len = c.choose(n + 1);
        let tail = c.flip();
        let mut d = String::new();
        for (i, k) in p.iter().enumerate() {
            put_line(&mut d, k, i);
        }
        for i in 0..len {
            put_line(&mut d, c.pick(LINES), p.len() + i);
        }
        if tail {
            d.push_str("msgid \"tail\"\nmsgstr \"T\"\n");
        }
        let (_, o) = check(c, d.as_bytes())?;
        nothing_lost(&d, p.len() + len, &o)
    }));
    fn kept(c: &mut Ctx, d: &str, n: usize) -> Res {
        let (_, o) = check(c, d.as_bytes())?;
        nothing_lost(d, n, &o)
    }
    v.push(lines::sequences("lines of every kind", lines::ALL, 1, 4, lines::STARTS, &["", "msgid \"tail\"\nmsgstr \"T\"\n"], kept));
    if !q {
        v.push(lines::sequences("five lines of every kind", lines::ALL, 5, 5, &[""], &["msgid \"tail\"\nmsgstr \"T\"\n"], kept));
    }
    v.push(lines::sequences("inside an entry", lines::ALL, 1, if q { 2 } else { 3 }, IN_ENTRY, &["", "msgstr \"T\"\n", "msgstr[1] \"T\"\n", "\"more\"\nmsgstr \"T\"\n\nmsgid \"tail\"\nmsgstr \"T\"\n", "# c\nmsgid \"tail\"\nmsgstr \"T\"\n"], kept));
    v.push(space("long foreign lines", 0, "a malformed line of 0 to 40 and up to 9000 bytes, made of one of 16 beginnings, fillers (letters, words, blanks, marks, digits, quotation marks) and one of 5 ends, before, inside or after an entry", |c| {
        const A: &[&str] = &["", "junk ", "msgid ", "msgid", "msgstr ", "\"", "<", "=", "http://", "| ", "~ ", "msgstr[", "é", "domain ", "0", "\u{feff}"];
        let a = *c.pick(A);
        let fill = *c.pick(&["x", "word ", " ", "=", "7", "\"", "é", "\\"]);
        let r = ramp(40, 9000);
        let n = *c.pick(&r);
        let b = *c.pick(&["", "\"", "x", " ", ";"]);
        let l = format!("{a}{}{b}", fill.repeat(n.div_ceil(fill.len())));
        let d = match c.choose(3) {
            0 => format!("{l}\nmsgid \"a\"\nmsgstr \"b\"\n"),
            1 => format!("msgid \"a\"\n{l}\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n"),
            _ => format!("msgid \"a\"\nmsgstr \"b\"\n\n{l}\n\nmsgid \"c\"\nmsgstr \"d\"\n"),
        };
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("late headers", 0, "an entry with an empty source and one of 30 texts (header lines of every usual kind, nothing, blanks) in every place of catalogues of up to 3 other entries with or without a header; obsolete or not, simple or plural, with comments, flags, a context, previous values: an error, unless it comes first", |c| {
        const T: &[&str] = &[
            "", " ", "\n", "x", "Content-Type: text/plain; charset=UTF-8\n", "Content-Type:", "Project-Id-Version: p 1\n", "Language: fr\n", "Language: \n", "Plural-Forms: nplurals=2; plural=n>1;\n", "Plural-Forms: nplurals=3;\n", "Plural-Forms: bad\n", "MIME-Version: 1.0\n",
            "Content-Transfer-Encoding: 8bit\n", "PO-Revision-Date: 2020-01-01 00:00+0000\n", "POT-Creation-Date: YEAR-MO-DA HO:MI+ZONE\n", "Last-Translator: FULL NAME <EMAIL@ADDRESS>\n", "Language-Team: LANGUAGE <LL@li.org>\n", "Report-Msgid-Bugs-To: \n", "X-Generator: Poedit 3.0\n",
            "Project-Id-Version: p 1\nContent-Type: text/plain; charset=UTF-8\nLanguage: fr\n", "A: b\n", "A: b", ":\n", "domain\n", "fuzzy", "TODO", "Content-Type: text/plain; charset=CHARSET\n", "# c", "\"",
        ];
        let text = *c.pick(T);
        let mut e = match c.choose(3) {
            0 => E { id: vec![String::new()], ..E::simple("", text) },
            1 => E::plural("", "", &[text]),
            _ => E::plural("", "x", &["", text]),
        };
        match c.choose(9) {
            0 => (),
            1 => e = e.comment(',', "fuzzy"),
            2 => e = e.comment(' ', "SOME DESCRIPTIVE TITLE.").comment(' ', ""),
            3 => e = e.comment('.', "extracted").comment(':', "a.c:1"),
            4 => e = e.with_ctx(""),
            5 => e = e.with_ctx("c"),
            6 => e = e.with_prev(None, Some("p"), None),
            7 => e = e.with_prev(None, Some(""), None),
            _ => e = e.with_prev(Some("pc"), Some("p"), Some("ps")),
        }
        if c.flip() {
            e = e.obsolete();
        }
        let mut d = [vec![], vec![header(&["X: y"])], vec![header(&[PF2])]][c.choose(3)].clone();
        let k = c.choose(4);
        for i in 0..k {
            d.push(match i {
                0 => E::simple("a", "b"),
                1 => E::plural("p", "q", &["r", "s"]),
                _ => E::simple("o", "p").obsolete(),
            });
        }
        d.push(e);
        if c.flip() {
            d.push(E::simple("last", "l"));
        }
        check(c, doc(&d).as_bytes()).map(|_| ())
    }));
    v.push(space("foreign lines", 0, "a malformed line out of 40 in every place of a five-entry catalogue", |c| {
        const BAD: &[&str] = &[
            "junk", "msgid", "msgid \"", "msgid \"x", "msgid x\"", "msgid 'x'", "msgid \"x\" y", "msgidx \"x\"", "msgstr[] \"x\"", "msgstr[00] \"x\"", "msgstr[-1] \"x\"", "msgstr[a] \"x\"", "msgstr[0 \"x\"", "msgstr 0] \"x\"", "MSGID \"x\"",
            "Msgstr \"x\"", "msgid_plurals \"x\"", "msgctx \"x\"", "msg \"x\"", "\"", "\"x", "x\"", "/", "// c", ";", "domain \"x\"", "{", "msgid: \"x\"", "msgid=\"x\"", "msgid msgid \"x\"", "| msgid \"x\"", "~ msgid \"x\"", "\u{feff}msgid \"x\"", "msgid \u{201c}x\u{201d}", "'x'",
            "msgstr[1]x \"x\"", "msgstr [0] \"x\"", "msgstr[ 0 ] \"x\"", "msgid_plural", "\\",
        ];
        let e = [
            header(&[PF2]),
            E::simple("a", "b").comment(' ', "n").with_ctx("c"),
            E::plural("p", "q", &["r", "s"]).with_prev(Some("x"), Some("y"), Some("z")),
            E::simple("o", "p").obsolete(),
            E { id: vec!["m".into(), "n".into()], ..E::simple("", "t") },
        ];
        let text = doc(&e);
        let mut l: Vec<&str> = text.lines().collect();
        let k = c.choose(l.len() + 1);
        l.insert(k, *c.pick(BAD));
        check(c, (l.join("\n") + "\n").as_bytes()).map(|_| ())
    }));
    v.push(space("line edits", 0, "a five-entry catalogue with one line removed, doubled, swapped with the next, moved to the end, or replaced by another of its lines", |c| {
        let e = [
            header(&[PF3]),
            E::simple("a", "b").comment(' ', "n").with_ctx("c"),
            E::plural("p", "q", &["r", "s", "t"]).with_prev(Some("x"), Some("y"), Some("z")),
            E::plural("op", "oq", &["or"]).obsolete().with_prev(None, Some("oy"), None),
            E { id: vec!["m".into(), "n".into()], ..E::simple("", "t") },
        ];
        let text = doc(&e);
        let mut l: Vec<&str> = text.lines().collect();
        let k = c.choose(l.len());
        match c.choose(5) {
            0 => {
                l.remove(k);
            }
            1 => l.insert(k, l[k]),
            2 if k + 1 < l.len() => l.swap(k, k + 1),
            3 => {
                let x = l.remove(k);
                l.push(x);
            }
            4 => {
                let j = c.choose(l.len());
                l[k] = l[j];
            }
            _ => return Err(Stop::Skip),
        }
        check(c, (l.join("\n") + "\n").as_bytes()).map(|_| ())
    }));
    v
}

pub fn p12(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    fn corpus() -> Vec<String> {
        let m = menu(1);
        let n = menu(2);
        let mut v = vec![];
        for i in 0..m.len() {
            v.push(doc(&[header(&[PF2]), m[i].clone(), n[(i * 5 + 2) % n.len()].clone()]));
        }
        v
    }
    v.push(space("truncation at lines", 0, "every pair of menu entries after a header (or two entries without header), cut after every line, with or without the last line end", |c| {
        let m = menu(1);
        let mut d = if c.flip() { vec![header(&[PF2])] } else { vec![] };
        d.push(c.pick(&m).clone());
        d.push(c.pick(&menu(2)).clone());
        let text = doc(&d);
        let l: Vec<&str> = text.lines().collect();
        let k = c.choose(l.len() + 1);
        let mut s = l[..k].join("\n");
        if c.flip() {
            s.push('\n');
        }
        check(c, s.as_bytes()).map(|_| ())
    }));
    v.push(space("truncation at bytes", 0, "37 three-entry catalogues cut after every byte", |c| {
        let co = corpus();
        let text = c.pick(&co).clone();
        let k = c.choose(text.len() + 1);
        check(c, &text.as_bytes()[..k]).map(|_| ())
    }));
    v.push(lines::sequences("lines of every kind", lines::ALL, 1, 4, &["", "msgid \"first\"\nmsgstr \"F\"\n\n", "#, fuzzy\nmsgid \"first\"\nmsgstr \"F\"\n"], &["", "msgid \"cut"], lines::plain));
    if !q {
        v.push(lines::sequences("five lines of every kind", lines::ALL, 5, 5, &["msgid \"first\"\nmsgstr \"F\"\n"], &[""], lines::plain));
    }
    v.push(lines::sequences("inside an entry", lines::ALL, 0, if q { 2 } else { 3 }, IN_ENTRY, &["", "junk\n", "msgid \"tail\"\nmsgstr \"T\"\n", "# c\n# d"], lines::plain));
    const BAD: &[&str] = &["junk\n", "msgid \"x\n", "msgstr \"x\"\n", "msgid \"\"\nmsgstr \"x\"\n", "\"x\"\n", "msgid \"i\"\nmsgid \"j\"\n", "#~ msgid \"i\"\nmsgstr \"j\"\n", "msgid \"i\"\nmsgid_plural \"j\"\nmsgstr \"k\"\n", "# c\njunk\n", "msgctxt \"c\"\nmsgstr \"t\"\n", "msgid \"bad\"\nmsgstr \"\u{1}\" x\n"];
    v.push(space("after an error", 0, "0 to 3 good entries, one of 12 errors (also bytes that are not UTF-8), 0 to 3 good entries: the entries before are delivered, then one error, then nothing", |c| {
        let a = c.choose(4);
        let hd = c.flip();
        let mut d: Vec<u8> = vec![];
        if hd {
            d.extend(doc(&[header(&[PF2])]).as_bytes());
            d.push(b'\n');
        }
        let m = menu(3);
        for i in 0..a {
            d.extend(doc(&[m[(i * 11 + a) % m.len()].clone()]).as_bytes());
        }
        let blank = c.choose(3);
        if blank == 1 {
            d.push(b'\n');
        } else if blank == 2 {
            d.extend(b"\n# comment\n");
        }
        let k = c.choose(BAD.len() + 1);
        if k == BAD.len() {
            d.extend(b"msgid \"\xff\"\nmsgstr \"x\"\n");
        } else {
            d.extend(BAD[k].as_bytes());
        }
        for i in 0..c.choose(4) {
            d.extend(doc(&[m[(i * 7 + 1) % m.len()].clone()]).as_bytes());
        }
        check(c, &d).map(|_| ())
    }));
    let n = if q { 5 } else { 6 };
    v.push(space("requests", 0, format!("7 catalogues (empty, header only, good, erroneous, cut), all sequences of {n} requests out of next, metadata, take(1), nth(0), nth(1), take_while, find, size_hint, and last, count, collect at the end: once the end or the error was given, every request gives nothing")
        , move |c| {
        const D: &[(&str, &[&str])] = &[
            ("", &[]),
            ("# h\nmsgid \"\"\nmsgstr \"A: b\\n\"\n", &[]),
            ("msgid \"a\"\nmsgstr \"b\"\n", &["a"]),
            ("msgid \"\"\nmsgstr \"A: b\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", &["a", "c"]),
            ("msgid \"a\"\nmsgstr \"b\"\n\n# x\njunk\nmsgid \"c\"\nmsgstr \"d\"\n", &["a", "!"]),
            ("msgid \"a\"\nmsgstr \"b\"\n\n# x\nmsgstr \"z\"\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "!"]),
            ("msgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"c\"\n#~ msgstr \"d\"\nmsgid \"e\"\nmsgstr \"f\"\nmsgctxt \"cut\"\n", &["a", "c", "e"]),
        ];
        let (d, want) = *c.pick(D);
        let ops: Vec<usize> = (0..n).map(|_| c.choose(8)).collect();
        let end = c.choose(4);
        c.input = d.as_bytes().to_vec();
        let name = |x: Result<poreader::unit::Unit, Error>| match x {
            Ok(u) => u.message().get_id().to_string(),
            Err(_) => "!".to_string(),
        };
        let r = in_impl(d.as_bytes(), || {
            let mut r = parser().parse(d.as_bytes()).map_err(|e| e.to_string())?;
            let mut at = 0;
            let left = |at: usize| want.get(at.min(want.len())..).unwrap_or(&[]);
            for (i, o) in ops.iter().enumerate() {
                let (got, exp): (Vec<String>, Vec<&str>) = match o {
                    0 => (r.next().map(name).into_iter().collect(), left(at).iter().take(1).copied().collect()),
                    1 => {
                        let _ = (r.target_language(), r.header_notes(), r.header_comments(), r.header_properties());
                        (vec![], vec![])
                    }
                    2 => (r.by_ref().take(1).map(name).collect(), left(at).iter().take(1).copied().collect()),
                    3 => (r.nth(0).map(name).into_iter().collect(), left(at).iter().take(1).copied().collect()),
                    4 => {
                        let x = (r.nth(1).map(name).into_iter().collect(), left(at).iter().skip(1).take(1).copied().collect());
                        at += 1;
                        x
                    }
                    5 => (r.by_ref().take_while(|x| x.is_ok()).map(name).take(1).collect(), left(at).iter().take(1).filter(|x| **x != "!").copied().collect()),
                    6 => (r.find(|_| true).map(name).into_iter().collect(), left(at).iter().take(1).copied().collect()),
                    _ => {
                        let (lo, hi) = r.size_hint();
                        let k = left(at).len();
                        if lo > k || hi.map_or(false, |h| h < k) {
                            return Err(format!("size_hint is {:?}, but {k} item(s) are left", (lo, hi)));
                        }
                        (vec![], vec![])
                    }
                };
                if matches!(o, 0 | 2..=6) {
                    at += 1;
                }
                if got != exp {
                    return Err(format!("request {} of {ops:?} gives {got:?}, should give {exp:?}", i + 1));
                }
            }
            let rest = left(at);
            let (got, exp): (Vec<String>, Vec<String>) = match end {
                0 => (r.map(name).collect(), rest.iter().map(|x| x.to_string()).collect()),
                1 => (vec![r.count().to_string()], vec![rest.len().to_string()]),
                2 => (r.last().map(name).into_iter().collect(), rest.last().map(|x| x.to_string()).into_iter().collect()),
                _ => (
                    vec![r.collect::<Result<Vec<_>, _>>().map_or("!".into(), |v| format!("{}", v.len()))],
                    vec![if rest.contains(&"!") { "!".into() } else { rest.len().to_string() }],
                ),
            };
            if got != exp {
                return Err(format!("after the requests {ops:?} the rest is {got:?}, should be {exp:?}"));
            }
            Ok::<_, String>(h64(&(&ops, got)))
        });
        c.compared += 1;
        match r {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(h)) => {
                c.state(h);
                Ok(())
            }
        }
    }));
    v.push(space("every request", 0, "10 catalogues (empty, header only, good of 1 to 6 entries, erroneous, cut, not UTF-8), 0 to 3 items taken first, then each of 34 methods of an iterator, on the reader, on a reference to it or on a trait object, and after the ones that leave it three more requests: as a list of the same items gives", |c| {
        const D: &[(&[u8], &[&str])] = &[
            (b"", &[]),
            (b"msgid \"\"\nmsgstr \"A: b\\n\"\n", &[]),
            (b"msgid \"a\"\nmsgstr \"b\"\n", &["a"]),
            (b"msgid \"\"\nmsgstr \"A: b\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", &["a", "c"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\n# x\njunk\nmsgid \"c\"\nmsgstr \"d\"\n", &["a", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"b\"\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"b\"\nmsgstr \"b\"\n\n# x\nmsgstr \"z\"\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "b", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"b\"\nmsgstr \"b\"\nmsgid \"c\"\nmsgstr \"\xff\"\nmsgid \"d\"\nmsgstr \"d\"\n", &["a", "b", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"c\"\n#~ msgstr \"d\"\nmsgid \"e\"\nmsgstr \"f\"\nmsgctxt \"cut\"\n", &["a", "c", "e"]),
            (b"msgid \"\"\nmsgstr \"\"\nmsgid \"f\"\nmsgstr \"1\"\nmsgid \"e\"\nmsgstr \"2\"\nmsgid \"d\"\nmsgstr \"3\"\nmsgid \"c\"\nmsgstr \"4\"\nmsgid \"b\"\nmsgstr \"5\"\nmsgid \"a\"\nmsgstr \"6\"\n", &["f", "e", "d", "c", "b", "a"]),
        ];
        let (d, want) = *c.pick(D);
        let skip = c.choose(4);
        let how = c.choose(3);
        let what = c.choose(34);
        c.input = d.to_vec();
        c.note = format!("method {what} after {skip} item(s), way {how}: ");
        let un = |x: &Result<poreader::unit::Unit, Error>| match x {
            Ok(u) => u.message().get_id().to_string(),
            Err(_) => "!".to_string(),
        };
        let sn = |x: &Result<&'static str, ()>| match x {
            Ok(u) => u.to_string(),
            Err(_) => "!".to_string(),
        };
        macro_rules! ask {
            ($it:expr, $n:expr) => {{
                let mut it = $it;
                let n = $n;
                let j = |v: Vec<String>| v.join(" ");
                match what {
                    0 => it.fold(String::new(), |a, x| a + "," + &n(&x)),
                    1 => {
                        let mut v = vec![];
                        it.for_each(|x| v.push(n(&x)));
                        j(v)
                    }
                    2 => it.try_fold(String::new(), |a, x| if a.len() > 3 { Err(a) } else { Ok(a + &n(&x)) }).unwrap_or_else(|e| e + "."),
                    3 => format!("{:?}", it.try_for_each(|x| if n(&x) == "!" { Err(()) } else { Ok(()) })),
                    4 => it.all(|x| x.is_ok()).to_string(),
                    5 => it.any(|x| x.is_err()).to_string(),
                    6 => format!("{:?}", it.position(|x| n(&x) == "c" || x.is_err())),
                    7 => format!("{:?}", it.find(|x| n(x) == "b").map(|x| n(&x))),
                    8 => format!("{:?}", it.find_map(|x| x.err().map(|_| 1))),
                    9 => {
                        let (a, b): (Vec<_>, Vec<_>) = it.partition(|x| x.is_ok());
                        format!("{} | {}", j(a.iter().map(n).collect()), j(b.iter().map(n).collect()))
                    }
                    10 => format!("{:?}", it.max_by_key(|x| n(x)).map(|x| n(&x))),
                    11 => format!("{:?}", it.min_by_key(|x| n(x)).map(|x| n(&x))),
                    12 => format!("{:?}", it.max_by(|x, y| n(x).cmp(&n(y))).map(|x| n(&x))),
                    13 => format!("{:?}", it.min_by(|x, y| n(x).cmp(&n(y))).map(|x| n(&x))),
                    14 => format!("{:?}", it.reduce(|a, b| if n(&a) > n(&b) { a } else { b }).map(|x| n(&x))),
                    15 => j(it.skip(1).map(|x| n(&x)).collect()),
                    16 => j(it.step_by(2).map(|x| n(&x)).collect()),
                    17 => j(it.chain(None).map(|x| n(&x)).collect()),
                    18 => j((0..4).zip(it).map(|x| n(&x.1)).collect()),
                    19 => {
                        let mut p = it.peekable();
                        let a = p.peek().map(n);
                        format!("{a:?} {}", j(p.map(|x| n(&x)).collect()))
                    }
                    20 => {
                        let mut f = it.fuse();
                        let v: Vec<String> = f.by_ref().map(|x| n(&x)).collect();
                        j(v) + &f.next().is_none().to_string()
                    }
                    21 => j(it.inspect(|_| ()).map(|x| n(&x)).collect()),
                    22 => j(it.skip_while(|x| x.is_ok()).map(|x| n(&x)).collect()),
                    23 => j(it.map_while(|x| x.ok().map(|_| "k".to_string())).collect()),
                    24 => j(it.scan(0, |k, x| {
                        *k += 1;
                        Some(format!("{k}{}", n(&x)))
                    })
                    .collect()),
                    25 => j(it.enumerate().map(|(i, x)| format!("{i}{}", n(&x))).collect()),
                    26 => it.flatten().count().to_string(),
                    27 => it.filter(|x| x.is_ok()).count().to_string(),
                    28 => j(it.filter_map(|x| x.ok().map(|u| n(&Ok(u)))).collect()),
                    29 => format!("{:?}", it.last().map(|x| n(&x))),
                    30 => it.count().to_string(),
                    31 => {
                        let v: Vec<_> = it.collect();
                        j(v.iter().map(n).collect())
                    }
                    32 => {
                        let mut v = vec![];
                        v.extend(it);
                        j(v.iter().map(n).collect())
                    }
                    _ => format!("{:?} {:?}", it.nth(1).map(|x| n(&x)), it.next().map(|x| n(&x))),
                }
            }};
        }
        let all: Vec<Result<&'static str, ()>> = want.iter().map(|x| if *x == "!" { Err(()) } else { Ok(*x) }).collect();
        let mut list = all.into_iter();
        (0..skip).for_each(|_| drop(list.next()));
        let r = in_impl(d, || {
            let mut r = parser().parse(d).map_err(|e| e.to_string())?;
            for _ in 0..skip {
                r.next();
            }
            let rest = |r: &mut dyn Iterator<Item = Result<poreader::unit::Unit, Error>>| (0..3).map(|_| r.next().map(|x| un(&x))).collect::<Vec<_>>();
            Ok::<_, String>(match how {
                0 => (ask!(r, un), vec![]),
                1 => (ask!(&mut r, un), rest(&mut r)),
                _ => {
                    let mut b: Box<dyn CatalogueReader<Item = Result<poreader::unit::Unit, Error>> + '_> = Box::new(r);
                    (ask!(&mut b, un), rest(&mut b))
                }
            })
        });
        let exp = match how {
            0 => (ask!(list, sn), vec![]),
            _ => {
                let a = ask!(&mut list, sn);
                (a, (0..3).map(|_| list.next().map(|x| sn(&x))).collect::<Vec<_>>())
            }
        };
        c.compared += 1;
        match r {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("opening fails: {m}"),
            Ok(Ok(got)) => {
                c.state(h64(&(d, skip, what, &got)));
                ensure!(got == exp, "{}{got:?}, should be {exp:?}", c.note);
                Ok(())
            }
        }
    }));
    v.push(space("many requests", 0, "8 catalogues (good, erroneous, cut, not UTF-8, header only) read to the end or the error, then 0 to 20 (and up to 70000) further requests, with or without looking at the metadata between them; as many looks at the metadata before the first request", |c| {
        const D: &[(&[u8], &[&str])] = &[
            (b"", &[]),
            (b"msgid \"\"\nmsgstr \"A: b\\n\"\n", &[]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", &["a", "c"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\n# x\njunk\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\n# x\nmsgstr \"z\"\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\n# x\nmsgid \"cut\"\n", &["a"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\n# x\n# \xff\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "!"]),
            (b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"\"\nmsgstr \"x\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", &["a", "c", "!"]),
        ];
        let (d, want) = *c.pick(D);
        let r = ramp(20, 70000);
        let n = *c.pick(&r);
        let look = c.choose(3);
        c.input = d.to_vec();
        let r = in_impl(d, || {
            let p = parser();
            let mut r = p.parse(d).map_err(|e| e.to_string())?;
            let seen = |r: &poreader::PoReader<&[u8]>| (r.target_language().to_string(), r.header_notes().clone(), r.header_comments().clone(), format!("{:?}", { let mut v: Vec<_> = r.header_properties().iter().collect(); v.sort(); v }));
            let meta = seen(&r);
            if look == 2 {
                for i in 0..n {
                    if seen(&r) != meta {
                        return Err(format!("look {} at the metadata differs from the first", i + 1));
                    }
                }
            }
            for (i, w) in want.iter().enumerate() {
                let got = match r.next() {
                    None => "nothing".to_string(),
                    Some(Ok(u)) => u.message().get_id().to_string(),
                    Some(Err(_)) => "!".to_string(),
                };
                if got != *w {
                    return Err(format!("item {i} is {got:?}, should be {w:?}"));
                }
            }
            for i in 0..n {
                match r.next() {
                    None => (),
                    Some(x) => return Err(format!("request {} after the end gives {}", i + 1, x.map_or_else(|e| format!("the error {e}"), |u| format!("the unit {:?}", u.message().get_id())))),
                }
                if look == 1 && seen(&r) != meta {
                    return Err(format!("the metadata differs after {} requests beyond the end", i + 1));
                }
            }
            Ok::<_, String>(())
        });
        c.compared += 1;
        c.state(h64(&(d, n, look)));
        match r {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(())) => Ok(()),
        }
    }));
    v.push(space("long catalogues", 0, "0 to 40 (and up to 3000) good entries of 4 kinds, with or without header, then one of 16 errors or a cut entry or nothing, then good entries", |c| {
        let r = ramp(40, 3000);
        let n = *c.pick(&r);
        let mut d = String::from(["", "msgid \"\"\nmsgstr \"X: y\\n\"\n\n"][c.choose(2)]);
        let kind = if n > 300 { 0 } else { c.choose(4) };
        for i in 0..n {
            match kind {
                0 => d.push_str(&format!("msgid \"id{i}\"\nmsgstr \"t{i}\"\n\n")),
                1 => d.push_str(&format!("#~ msgid \"id{i}\"\n#~ msgstr \"t{i}\"\n")),
                2 => d.push_str("#, fuzzy\n#| msgid \"p\"\nmsgid \"same\"\nmsgid_plural \"same\"\nmsgstr[0] \"\"\nmsgstr[1] \"t\"\n\n"),
                _ => d.push_str("#: f.c:1\nmsgctxt \"c\"\nmsgid \"id\"\nmsgstr \"\"\n\n"),
            }
        }
        const BAD: &[&[u8]] = &[
            b"", b"# c\njunk\n", b"msgid \"cut\"\n", b"# c\nmsgstr \"z\"\n", b"msgctxt \"cut\"\n\"more\"\n", b"msgid \"\"\nmsgstr \"x\"\n", b"#~ msgid \"\"\n#~ msgstr \"X: y\\n\"\n", b"msgid \"\"\nmsgid_plural \"\"\nmsgstr[0] \"\"\n",
            b"msgid \"a\"\nmsgid \"b\"\nmsgstr \"c\"\n", b"msgid \"a\"\nmsgstr \"b\"\nmsgstr \"c\"\n", b"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[1] \"c\"\n", b"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"c\"\nmsgstr[2] \"c\"\n", b"msgid \"a\"\nmsgid_plural \"b\"\nmsgstr \"c\"\n",
            b"\"alone\"\n", b"msgid \"\xff\"\nmsgstr \"t\"\n", b"#~ msgid \"a\"\nmsgstr \"b\"\n", b"msgid \"a\"\n# c\nmsgstr \"b\"\n", b"#| msgid \"a\"\nmsgstr \"b\"\n",
        ];
        let mut d = d.into_bytes();
        d.extend_from_slice(c.pick(BAD));
        if c.flip() {
            d.extend_from_slice(b"msgid \"z\"\nmsgstr \"z\"\n\nmsgid \"y\"\nmsgstr \"y\"\n");
        }
        check(c, &d).map(|_| ())
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P16

const P16_DOCS: &[&str] = &[
    "# note A\nmsgid \"\"\nmsgstr \"\"\n\"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgctxt \"ctx\"\nmsgid \"a1\"\nmsgid_plural \"a1s\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n#, fuzzy\nmsgid \"a2\"\nmsgstr \"z\"\n",
    "# note B\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n\n#| msgid \"old\"\nmsgid \"b1\"\nmsgid_plural \"b1s\"\nmsgstr[0] \"p\"\nmsgstr[1] \"q\"\nmsgstr[2] \"r\"\n\n#~ msgid \"b2\"\n#~ msgstr \"s\"\n",
    "msgid \"c1\"\nmsgid_plural \"c1s\"\nmsgstr[0] \"u\"\nmsgstr[1] \"v\"\n\n# last\nmsgid \"c2\"\nmsgid \"error\"\n",
    "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n+;\\n\"\n\nmsgid \"d\"\nmsgstr \"\"\n",
    "msgid \"e\"\nmsgstr \"f\\n\"\n\nmsgid \"g\"\nmsgid \"h\"\n",
    "#: l:1\nmsgid \"i\"\n\"j\"\nmsgstr \"k\"\n\n\njunk\n",
];

/// what each document gives alone: a log of every observation
fn solo_log_now(d: &str) -> Result<Vec<String>, String> {
    // with a parser of its own
    let p = PoParser::new();
    in_impl(d.as_bytes(), || {
        let mut m = Machine::new(d);
        while m.step(&p) {}
        m.log
    })
}

/// What each catalogue gives alone, with a parser of its own (computed once: a PoParser takes a millisecond).
fn solo_log(d: &str) -> Result<Vec<String>, String> {
    static MEMO: [OnceLock<Result<Vec<String>, String>>; 6] = [const { OnceLock::new() }; 6];
    match P16_DOCS.iter().position(|x| *x == d) {
        Some(i) => MEMO[i].get_or_init(|| solo_log_now(d)).clone(),
        None => solo_log_now(d),
    }
}
fn solo_run(i: usize) -> Result<RunObs, String> {
    static MEMO: [OnceLock<Result<RunObs, String>>; 6] = [const { OnceLock::new() }; 6];
    let d: &[u8] = P16_DOCS[i].as_bytes();
    MEMO[i].get_or_init(|| in_impl(d, || run_with(&PoParser::new(), d, 100))).clone()
}

/// A reader driven one request at a time.
struct Machine<'p> {
    doc: String,
    reader: Option<PoReader<'p, Cursor<Vec<u8>>>>,
    opened: bool,
    done: usize,
    log: Vec<String>,
    kept: Vec<(poreader::unit::Unit, String)>,
}
impl<'p> Machine<'p> {
    fn new(d: &str) -> Self {
        Machine { doc: d.to_string(), reader: None, opened: false, done: 0, log: vec![], kept: vec![] }
    }
    fn step(&mut self, p: &'p PoParser) -> bool {
        if !self.opened {
            self.opened = true;
            match p.parse(Cursor::new(self.doc.clone().into_bytes())) {
                Ok(r) => {
                    self.log.push(format!("{:?}", obs::head_obs(&r)));
                    self.reader = Some(r);
                }
                Err(e) => {
                    self.log.push(format!("open {e}"));
                    self.done = 2;
                }
            }
            return self.done < 2;
        }
        if self.done >= 2 {
            return false;
        }
        let Some(r) = self.reader.as_mut() else { return false };
        match r.next() {
            None => {
                self.done += 1;
                self.log.push("end".into());
            }
            Some(Ok(u)) => {
                let s = format!("{:?}", obs::unit(&u));
                self.kept.push((u, s.clone()));
                self.log.push(s);
            }
            Some(Err(e)) => self.log.push(format!("error {e}")),
        }
        self.log.push(format!("{:?}", obs::head_obs(r)));
        self.done < 2
    }
    fn kept_ok(&self) -> Result<(), String> {
        for (u, s) in &self.kept {
            let now = format!("{:?}", obs::unit(u));
            if now != *s {
                return Err(format!("a unit obtained earlier changed from {s} to {now}"));
            }
        }
        Ok(())
    }
}

fn machines(c: &mut Ctx, picks: &[usize], drop_at: Option<(usize, usize)>) -> Res {
    let docs: Vec<&str> = picks.iter().map(|&i| P16_DOCS[i]).collect();
    let mut want = vec![];
    for d in &docs {
        match solo_log(d) {
            Ok(l) => want.push(l),
            Err(p) => broken!("alone, the library {p}"),
        }
    }
    c.input = docs.join("\n=====\n").into_bytes();
    let input = c.input.clone();
    let p = parser();
    let mut ms: Vec<Machine> = docs.iter().map(|d| Machine::new(d)).collect();
    let mut live: Vec<bool> = vec![true; ms.len()];
    let mut turns = vec![0; ms.len()];
    let mut order = String::new();
    while live.iter().any(|&l| l) {
        let open: Vec<usize> = (0..ms.len()).filter(|&i| live[i]).collect();
        let k = open[c.choose(open.len())];
        order.push((b'A' + k as u8) as char);
        let m = &mut ms[k];
        match in_impl(&input, || m.step(p)) {
            Err(x) => broken!("order {order}: the library {x}"),
            Ok(more) => live[k] = more,
        }
        turns[k] += 1;
        if drop_at == Some((k, turns[k])) {
            m.reader = None;
            live[k] = false;
        }
        c.state(h64(&ms.iter().map(|m| m.log.len()).collect::<Vec<_>>()));
        for (i, m) in ms.iter().enumerate() {
            if let Err(x) = m.kept_ok() {
                broken!("order {order}: {x}");
            }
            let n = m.log.len();
            ensure!(m.log[..] == want[i][..n], "order {order}: reader {i} reports {:?}, alone it reports {:?}", m.log.last(), want[i].get(n - 1));
        }
    }
    c.compared += ms.len() as u64;
    for (i, m) in ms.iter().enumerate() {
        if drop_at.map(|d| d.0) != Some(i) {
            ensure!(m.log == want[i], "order {order}: reader {i} stops early");
        }
    }
    Ok(())
}

/// turn-taking between threads: exactly one runs at a time, every read from a source is a scheduling point
struct Sched {
    m: Mutex<SchedState>,
    cv: Condvar,
}
struct SchedState {
    turn: Option<usize>, // None: the controller decides
    alive: Vec<bool>,
    waiting: Vec<bool>,
}
impl Sched {
    fn pause(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.waiting[me] = true;
        g.turn = None;
        self.cv.notify_all();
        while g.turn != Some(me) {
            g = self.cv.wait(g).unwrap();
        }
        g.waiting[me] = false;
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.alive[me] = false;
        g.turn = None;
        self.cv.notify_all();
    }
}
struct YieldRead {
    data: Vec<u8>,
    cuts: Vec<usize>,
    pos: usize,
    me: usize,
    s: Arc<Sched>,
}
impl Read for YieldRead {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.s.pause(self.me);
        let stop = self.cuts.iter().copied().find(|&x| x > self.pos).unwrap_or(self.data.len());
        let n = (stop - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct SendPtr(*const PoParser);
unsafe impl Send for SendPtr {}
impl SendPtr {
    // exactly one thread runs at a time, so the parser is never used concurrently
    fn get(&self) -> &PoParser {
        unsafe { &*self.0 }
    }
}

fn threads(c: &mut Ctx, picks: &[usize], reads: usize) -> Res {
    let docs: Vec<Vec<u8>> = picks.iter().map(|&i| P16_DOCS[i].as_bytes().to_vec()).collect();
    let mut want = vec![];
    for &i in picks {
        match solo_run(i) {
            Ok(o) => want.push(o),
            Err(p) => broken!("alone, the library {p}"),
        }
    }
    c.input = docs.join(&b"\n=====\n"[..]);
    let n = docs.len();
    let s = Arc::new(Sched {
        m: Mutex::new(SchedState { turn: None, alive: vec![true; n], waiting: vec![false; n] }),
        cv: Condvar::new(),
    });
    let p = parser();
    let base = 16 + my_slot() * 4;
    let mut handles = vec![];
    for (i, d) in docs.iter().enumerate() {
        let (s, d, p) = (s.clone(), d.clone(), SendPtr(p));
        handles.push(std::thread::spawn(move || {
            set_slot(base + i);
            let p = &p;
            s.pause(i);
            let cuts: Vec<usize> = (1..reads).map(|k| d.len() * k / reads).collect();
            let src = YieldRead { data: d.clone(), cuts, pos: 0, me: i, s: s.clone() };
            let r = in_impl(&d, || run_with(p.get(), src, 100));
            s.finish(i);
            r
        }));
    }
    let mut order = String::new();
    loop {
        let open: Vec<usize> = {
            let mut g = s.m.lock().unwrap();
            while !(g.turn.is_none() && (0..n).all(|i| g.waiting[i] || !g.alive[i])) {
                g = s.cv.wait(g).unwrap();
            }
            (0..n).filter(|&i| g.alive[i]).collect()
        };
        if open.is_empty() {
            break;
        }
        let k = open[c.choose(open.len())];
        order.push((b'A' + k as u8) as char);
        let mut g = s.m.lock().unwrap();
        g.turn = Some(k);
        g.waiting[k] = false;
        s.cv.notify_all();
    }
    let got: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    c.state(h64(&order));
    for (i, g) in got.into_iter().enumerate() {
        match g {
            Err(_) => return Err(Stop::Harness("a scheduled thread panicked outside the library".into())),
            Ok(Err(p)) => broken!("schedule {order}: the library {p}"),
            Ok(Ok(o)) => {
                c.compared += 1;
                ensure!(o == want[i], "schedule {order}: reader {i} reports {o:?}, alone it reports {:?}", want[i]);
            }
        }
    }
    Ok(())
}

const RICH_P16: &[&str] = &[
    "# t1\n#. d1\n#, hf\n#: h:1\n#= hk\nmsgid \"\"\nmsgstr \"\"\n\"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; \"\n\"plural=n>1;\\n\"\n\"X: y\\n\"\n\"X: z\\n\"\n\n# t2\n#. d2\n#, c-format, fuzzy\n#, other\n#: a.c:1 b.c:2\n#: c.c:3\n#= k\n#! m\n#| msgctxt \"pc\"\n#| msgid \"p\"\n#| \"i\"\n#| msgid_plural \"pp\"\nmsgctxt \"c\"\n\"tx\"\nmsgid \"i\"\n\"d\\n\"\nmsgid_plural \"is\"\n\"\"\nmsgstr[0] \"t\"\n\"0\"\nmsgstr[1] \"\"\n\"\\\"t1\\\"\"\n\n#, fuzzy\n#~| msgid \"op\"\n#~ msgctxt \"oc\"\n#~ msgid \"o\"\n#~ \"b\"\n#~ msgstr \"s\"\n#~ \"t\"\n# end\n",
    "#, a\nmsgid \"s\"\nmsgstr \"\"\n# n\n#, b\nmsgid \"u\"\n\"v\"\nmsgstr \"w\"\n\n#: l:1\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"r\"\n# c\n#, d\nmsgid \"x\"\nmsgid \"wrong\"\n",
];

/// A source that, at chosen reads, makes another reader take a step.
struct Nested<'p> {
    data: Vec<u8>,
    cuts: Vec<usize>,
    pos: usize,
    k: usize,
    plan: Vec<usize>,
    other: Rc<RefCell<Machine<'p>>>,
    p: &'p PoParser,
}
impl Read for Nested<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let steps = self.plan.get(self.k).copied().unwrap_or(0);
        self.k += 1;
        for _ in 0..steps {
            self.other.borrow_mut().step(self.p);
        }
        let stop = self.cuts.iter().copied().find(|&x| x > self.pos).unwrap_or(self.data.len());
        let n = (stop - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// does PoParser implement Sync? (answered without requiring it)
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool {
        true
    }
}

fn nested(c: &mut Ctx, a: usize, b: usize, plan: Vec<usize>, cuts: Vec<usize>) -> Res {
    let d = P16_DOCS[a].as_bytes();
    c.input = d.to_vec();
    let (wa, wb) = match (solo_run(a), solo_log(P16_DOCS[b])) {
        (Ok(x), Ok(y)) => (x, y),
        _ => broken!("alone, the library panicked"),
    };
    let p = parser();
    let other = Rc::new(RefCell::new(Machine::new(P16_DOCS[b])));
    let src = Nested { data: d.to_vec(), cuts, pos: 0, k: 0, plan: plan.clone(), other: other.clone(), p };
    let got = match in_impl(d, || run_with(p, src, 100)) {
        Ok(o) => o,
        Err(x) => broken!("plan {plan:?}: the library {x}"),
    };
    c.compared += 2;
    ensure!(got == wa, "plan {plan:?}: the outer reader reports {got:?}, alone it reports {wa:?}");
    let mut m = other.borrow_mut();
    let rest = in_impl(d, || while m.step(p) {});
    if let Err(x) = rest {
        broken!("plan {plan:?}: the library {x}");
    }
    c.state(h64(&(a, b, &plan)));
    ensure!(m.log == wb, "plan {plan:?}: the inner reader reports {:?}, alone {wb:?}", m.log);
    if let Err(x) = m.kept_ok() {
        broken!("plan {plan:?}: {x}");
    }
    Ok(())
}

const NEAR: &str = "# n\nmsgid \"\"\nmsgstr \"\"\n\"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\"X: y\\n\"\n\n#, a, fuzzy\n#: l:1\n#| msgid \"o\"\nmsgctxt \"c\"\nmsgid \"i\"\nmsgstr \"t\"\n\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"t0\"\nmsgstr[1] \"\"\n\n#~ msgid \"z\"\n#~ msgstr \"w\"\n";
/// Changes of `NEAR` that leave much of it as it is.
const CHANGES: &[(&str, &str)] = &[
    ("", ""), ("n>1", "n > 1"), ("n>1", "n>0"), ("n>1", "n<1"), ("n>1", "N>1"), ("plural=n>1;", "plural=n>1"), ("nplurals=2", "nplurals=3"), ("nplurals=2", "nplurals=1"), ("nplurals=2", "nplurals = 2"), ("nplurals=2", "nplurals=02"), ("nplurals=2; plural=n>1;", "plural=n>1; nplurals=2;"),
    ("nplurals=2; plural=n>1;", "plural=n>1;"), ("nplurals=2; plural=n>1;", "nplurals=2;"), ("\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n", ""), ("Plural-Forms", "plural-forms"), ("plural=n>1", "plural=n>"), ("n>1", "(n>1)"), ("n>1", "n>1 "), ("n>1", "n>1?1:0"), ("n>1", "0"), ("n>1", "n"),
    ("Language: fr", "Language: FR"), ("Language: fr", "Language: de"), ("Language: fr", "Language: fr_FR"), ("\"Language: fr\\n\"\n", ""), ("Language: fr", "Language:fr"), ("X: y", "X: z"), ("X: y", "x: y"), ("X: y", "X: y\\nX: y"), ("X: y", "X:"), ("# n\n", ""), ("# n\n", "# m\n"), ("# n\n", "#. n\n"),
    ("#, a, fuzzy\n", ""), ("#, a, fuzzy", "#, fuzzy, a"), ("a, fuzzy", "a"), ("a, fuzzy", "a, Fuzzy"), ("#: l:1\n", ""), ("#: l:1", "#: l:1 l:2"), ("#: l:1", "#. l:1"), ("#| msgid \"o\"\n", ""), ("msgid \"o\"", "msgctxt \"o\""), ("msgid \"o\"", "msgid \"O\""), ("msgctxt \"c\"\n", ""), ("msgctxt \"c\"", "msgctxt \"\""),
    ("msgctxt \"c\"", "msgctxt \"C\""), ("msgid \"i\"", "msgid \"I\""), ("msgid \"i\"", "msgid \"j\""), ("msgstr \"t\"", "msgstr \"\""), ("msgstr \"t\"", "msgstr \"T\""), ("msgstr \"t\"", "msgstr \"t \""), ("msgstr \"t\"", "msgstr \"\"\n\"t\""), ("msgid \"p\"", "msgid \"i\""), ("msgid_plural \"q\"", "msgid_plural \"r\""),
    ("msgid_plural \"q\"", "msgid_plural \"\""), ("\"t0\"", "\"\""), ("\"t0\"", "\"t1\""), ("msgstr[1] \"\"\n", ""), ("msgstr[1] \"\"", "msgstr[1] \"t1\""), ("msgid_plural \"q\"\nmsgstr[0] \"t0\"\nmsgstr[1] \"\"", "msgstr \"t0\""), ("#~ msgid \"z\"\n#~ msgstr \"w\"\n", "msgid \"z\"\nmsgstr \"w\"\n"), ("#~ msgid \"z\"", "#~ msgctxt \"c\"\n#~ msgid \"z\""),
    ("#~ msgstr \"w\"\n", ""), ("#~ msgstr \"w\"\n", "junk\n"), ("\n\n", "\n"), ("\n", "\r\n"),
];
fn near() -> &'static Vec<(String, Option<model::Expect>)> {
    static V: OnceLock<Vec<(String, Option<model::Expect>)>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<String> = CHANGES.iter().map(|(a, b)| if a.is_empty() { NEAR.to_string() } else { NEAR.replace(a, b) }).collect();
        // each letter or digit replaced by its successor
        for (i, x) in NEAR.char_indices() {
            if x.is_ascii_alphanumeric() {
                let y = (x as u8 + 1) as char;
                v.push(format!("{}{y}{}", &NEAR[..i], &NEAR[i + 1..]));
            }
        }
        v.into_iter().map(|d| { let x = model::read(d.as_bytes()); (d, x) }).collect()
    })
}
/// Two readers of one new parser over two similar catalogues, one after the other or by turns.
fn similar(c: &mut Ctx, all: bool) -> Res {
    let v = near();
    let (i, j) = if all {
        (c.choose(v.len()), c.choose(v.len()))
    } else {
        let (i, j) = (c.choose(CHANGES.len()), c.choose(v.len()));
        if c.flip() { (i, j) } else { (j, i) }
    };
    let how = c.choose(3);
    let ds = [v[i].0.as_bytes(), v[j].0.as_bytes()];
    c.input = ds.join(&b"=====\n"[..]);
    let p = PoParser::new();
    let max = 100;
    let got = in_impl(&c.input.clone(), || {
        if how == 0 {
            let a = run_with(&p, ds[0], max);
            let b = run_with(&p, ds[1], max);
            return vec![(0, a), (1, b)];
        }
        // both open at once, requests by turns, or the first one finished by the time the second begins
        let mut a = Machine::new(std::str::from_utf8(ds[0]).unwrap());
        let mut b = Machine::new(std::str::from_utf8(ds[1]).unwrap());
        let (mut x, mut y) = (true, true);
        if how == 1 {
            while x || y {
                x = x && a.step(&p);
                y = y && b.step(&p);
            }
        } else {
            a.step(&p);
            while y {
                y = b.step(&p);
            }
            while x {
                x = a.step(&p);
            }
        }
        let (wa, wb) = (run_with(&p, ds[0], max), run_with(&p, ds[1], max));
        for (m, w, k) in [(&a, &wa, 0), (&b, &wb, 1)] {
            let l: Vec<&String> = m.log.iter().filter(|l| l.starts_with("UnitObs")).collect();
            let u: Vec<String> = w.units().iter().map(|u| format!("{u:?}")).collect();
            if l.len() != u.len() || l.iter().zip(&u).any(|(a, b)| *a != b) {
                MIXED.with(|x| x.set(Some(k)));
            }
        }
        vec![(0, wa), (1, wb)]
    });
    let got = match got {
        Ok(g) => g,
        Err(m) => broken!("catalogues {i} and {j}: the library {m}"),
    };
    c.compared += 2;
    c.state(h64(&(i, j, how)));
    if let Some(k) = MIXED.with(|x| x.take()) {
        broken!("catalogues {i} and {j}, read by turns: reader {k} reports other units than one that reads its catalogue afterwards");
    }
    for (k, o) in got {
        let (d, x) = &v[[i, j][k]];
        if let Some(x) = x {
            if let Err(m) = model::agree(x, &o) {
                broken!("catalogues {i} and {j} read with one parser: {m} in {d:?}");
            }
        }
    }
    Ok(())
}
thread_local! {
    static MIXED: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

pub fn p16(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("two readers", 0, "two readers of one parser over every pair of 6 catalogues: all interleavings of their requests (opening, each next, metadata after each), units kept and looked at again after every step", |c| {
        let a = c.choose(P16_DOCS.len());
        let b = c.choose(P16_DOCS.len());
        machines(c, &[a, b], None)
    }));
    v.push(space("three readers", 0, "three readers of one parser: all interleavings of their requests", move |c| {
        let a = c.choose(if q { 1 } else { 3 });
        machines(c, &[[0, 3, 2][a], [2, 0, 3][a], [3, 1, 2][a]], None)
    }));
    v.push(space("dropped readers", 0, "two readers, one being dropped after any of its requests, in all interleavings", |c| {
        let a = c.choose(3);
        let b = c.choose(3);
        let k = c.choose(2);
        let at = 1 + c.choose(4);
        machines(c, &[a, b], Some((k, at)))
    }));
    let r = if q { 4 } else { 6 };
    v.push(space("threads", 0, format!("two threads sharing one parser, each reading its catalogue in {r} pieces: all schedules that switch at reads"), move |c| {
        let pairs = [[0usize, 1], [0, 2], [1, 0], [3, 1], [2, 2]];
        let k = c.choose(pairs.len());
        threads(c, &pairs[k], r)
    }));
    v.push(space("three threads", 0, "three threads sharing one parser, each reading its catalogue in 1 or 2 pieces: all schedules", move |c| {
        threads(c, &[0, 1, 2], if q { 1 } else { 2 })
    }));
    v.push(space("nested", 0, "a source that, at each of its reads, advances another reader of the same parser by 0 to 2 requests, in every combination", move |c| {
        let pairs = [[0usize, 1], [1, 0], [0, 2], [2, 1], [0, 3], [3, 0]];
        let k = c.choose(pairs.len());
        let [a, b] = pairs[k];
        let plan: Vec<usize> = (0..6).map(|_| c.choose(3)).collect();
        let d = P16_DOCS[a].as_bytes();
        let cuts: Vec<usize> = (1..5).map(|k| d.len() * k / 5).collect();
        nested(c, a, b, plan, cuts)
    }));
    v.push(space("nested by line", 0, "the same with a source that delivers one line (or half a line) per read, advancing another reader by 0 to 3 requests at each of the first reads", move |c| {
        let pairs = [[4usize, 5], [5, 4], [4, 4], [5, 5], [4, 3], [5, 1], [2, 4], [3, 5]];
        let k = c.choose(pairs.len());
        let [a, b] = pairs[k];
        let half = c.flip();
        let d = P16_DOCS[a].as_bytes();
        let mut cuts: Vec<usize> = (0..d.len()).filter(|&i| d[i] == b'\n').map(|i| i + 1).collect();
        if half {
            let more: Vec<usize> = cuts.iter().map(|x| x - 2).collect();
            cuts.extend(more);
            cuts.sort();
        }
        let plan: Vec<usize> = (0..if q { 8 } else { 9 }).map(|_| c.choose(if q { 2 } else { 3 })).collect();
        nested(c, a, b, plan, cuts)
    }));
    v.push(space("nested anywhere", 0, "a source that delivers a rich catalogue by lines, half lines or bytes and, in the middle of one of its reads (also: of that and of one of the next 6), reads another of 6 catalogues as a whole, its first entry or its header only, with the same parser or another one: both as alone", |c| {
        let outer = c.choose(RICH_P16.len());
        let d = RICH_P16[outer].as_bytes();
        let o = c.choose(6);
        let other = [RICH_P16[0], RICH_P16[1], P16_DOCS[0], P16_DOCS[1], P16_DOCS[5], "msgid \"x\"\nmsgstr \"y\"\n\nmsgid \"z\"\nmsgstr \"w\"\n"][o];
        let cuts: Vec<usize> = match c.choose(3) {
            0 => (1..=d.len()).filter(|&i| d[i - 1] == b'\n').collect(),
            1 => (1..=d.len()).filter(|&i| d[i - 1] == b'\n' || i % 13 == 0).collect(),
            _ => (1..=d.len()).collect(),
        };
        let by_byte = cuts.len() == d.len();
        let at = c.choose(cuts.len() + 1);
        let again = if by_byte { 0 } else { c.choose(7) };
        let most = *c.pick(&[usize::MAX, 1, 0]);
        let own = c.flip();
        c.input = d.to_vec();
        thread_local! {
            static SECOND: &'static PoParser = Box::leak(Box::new(PoParser::new()));
            static ALONE: RefCell<HashMap<(usize, usize, usize), (RunObs, String)>> = RefCell::new(HashMap::new());
        }
        let p = parser();
        let p2 = SECOND.with(|p| *p);
        // as much of the other one as is asked for
        let part = |p: &PoParser| -> String {
            let mut log = String::new();
            match p.parse(other.as_bytes()) {
                Err(e) => log = format!("{e:?}"),
                Ok(mut r) => {
                    log += &format!("{:?}", head_obs(&r));
                    let mut left = most;
                    while left > 0 {
                        left -= 1;
                        match r.next() {
                            None => break,
                            Some(Ok(u)) => log += &format!("{:?}", unit(&u)),
                            Some(Err(e)) => log += &format!("{e:?}"),
                        }
                    }
                }
            }
            log
        };
        let (whole, inner) = match ALONE.with(|m| m.borrow().get(&(outer, o, most)).cloned()) {
            Some(x) => x,
            None => match in_impl(d, || (run_with(&PoParser::new(), d, 100), part(&PoParser::new()))) {
                Ok(x) => {
                    ALONE.with(|m| m.borrow_mut().insert((outer, o, most), x.clone()));
                    x
                }
                Err(x) => broken!("alone, the library {x}"),
            },
        };
        struct Inside<'a> {
            d: &'a [u8],
            cuts: &'a [usize],
            pos: usize,
            k: usize,
            at: [usize; 2],
            f: &'a dyn Fn(),
        }
        impl Read for Inside<'_> {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                if self.at.contains(&self.k) {
                    (self.f)();
                }
                self.k += 1;
                let stop = self.cuts.iter().copied().find(|&x| x > self.pos).unwrap_or(self.d.len());
                let n = (stop - self.pos).min(b.len());
                b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
        let seen = RefCell::new(vec![]);
        let f = || {
            let x = part(if own { p2 } else { p });
            seen.borrow_mut().push(x);
        };
        let src = Inside { d, cuts: &cuts, pos: 0, k: 0, at: [at, at + again], f: &f };
        let got = match in_impl(d, || run_with(p, src, 100)) {
            Ok(x) => x,
            Err(x) => broken!("with another reader at read {at}, the library {x}"),
        };
        c.compared += 2;
        c.state(h64(&(at, again, &got)));
        ensure!(got == whole, "with another reader at read {at} (and {}), the outer one reports {got:?}, alone {whole:?}", at + again);
        for x in seen.borrow().iter() {
            ensure!(*x == inner, "at read {at}, the inner reader reports {x}, alone {inner}");
        }
        Ok(())
    }));
    let n = if q { 4 } else { 5 };
    v.push(space("reuse", 0, format!("one new parser used for all sequences of {n} catalogues out of 8 (good, malformed, refused header, not UTF-8), read fully or dropped half way: each as with a parser of its own"), move |c| {
        let docs: Vec<&[u8]> = P16_DOCS.iter().map(|d| d.as_bytes()).chain([&b"junk\n"[..], &b"msgid \"a\"\nmsgstr \"\xff\"\n"[..]]).collect();
        let p = PoParser::new();
        let mut used = vec![];
        for _ in 0..n {
            let k = c.choose(docs.len());
            used.push(k);
            let half = k < 2 && c.flip();
            let d = docs[k];
            c.input = d.to_vec();
            if half {
                let r = in_impl(d, || {
                    if let Ok(mut r) = p.parse(d) {
                        r.next();
                    }
                });
                if let Err(x) = r {
                    broken!("sequence {used:?}: the library {x}");
                }
                continue;
            }
            let a = in_impl(d, || run_with(&p, d, 100));
            let b = observe(d);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    c.compared += 1;
                    ensure!(a == b, "sequence {used:?}: the last catalogue is read as {a:?} instead of {b:?}")
                }
                (Err(x), _) | (_, Err(x)) => broken!("sequence {used:?}: the library {x}"),
            }
        }
        c.state(h64(&used));
        Ok(())
    }));
    v.push(space("similar catalogues", 0, format!("one new parser for two catalogues, each out of {} variants of one (67 changes of spelling, definition, field, comment, mark or text; each letter or digit replaced by its successor){}, one after the other, by turns, or the second within the first", near().len(), if q { ", one of them out of the 67" } else { "" }), move |c| similar(c, !q)));
    let top = if q { 300 } else { 2000 };
    v.push(space("many readers", 0, format!("0 to 20 (and up to {top}) readers of one parser open at once over 6 catalogues in turn, advanced by turns, in reverse, or one after the other, or dropped half way; then one more over each catalogue: each gives what it gives alone"), move |c| {
        let r = ramp(20, top);
        let n = *c.pick(&r);
        let how = c.choose(4);
        let k = c.choose(P16_DOCS.len());
        let d = P16_DOCS[k].as_bytes();
        c.input = d.to_vec();
        let alone: Vec<_> = match P16_DOCS.iter().map(|d| in_impl(d.as_bytes(), || run_with(&PoParser::new(), d.as_bytes(), 100))).collect::<Result<Vec<_>, _>>() {
            Ok(v) => v,
            Err(m) => broken!("the library {m}"),
        };
        let p = PoParser::new();
        let res = in_impl(d, || {
            let name = |x: Option<Result<poreader::unit::Unit, Error>>| match x {
                None => String::new(),
                Some(Ok(u)) => format!("{u:?}"),
                Some(Err(e)) => format!("! {e}"),
            };
            let solo: Vec<Vec<String>> = P16_DOCS
                .iter()
                .map(|d| match PoParser::new().parse(d.as_bytes()) {
                    Err(e) => vec![format!("! {e}")],
                    Ok(mut r) => (0..4).map(|_| name(r.next())).collect(),
                })
                .collect();
            let mut open: Vec<(usize, Option<poreader::PoReader<&[u8]>>, Vec<String>)> = vec![];
            for i in 0..n {
                let j = (i + k) % P16_DOCS.len();
                open.push(match p.parse(P16_DOCS[j].as_bytes()) {
                    Err(e) => (j, None, vec![format!("! {e}")]),
                    Ok(r) => (j, Some(r), vec![]),
                });
            }
            let order: Vec<usize> = match how {
                0 => (0..4).flat_map(|_| 0..n).collect(),
                1 => (0..4).flat_map(|_| (0..n).rev()).collect(),
                2 => (0..n).flat_map(|i| [i; 4]).collect(),
                _ => (0..2).flat_map(|_| 0..n).collect(),
            };
            for i in order {
                if let (_, Some(r), log) = &mut open[i] {
                    log.push(name(r.next()));
                }
            }
            for (i, (j, r, log)) in open.iter().enumerate() {
                if log[..] != solo[*j][..log.len()] {
                    return Err(format!("reader {i} of {n} over catalogue {j} gives {log:?} instead of {:?}", solo[*j]));
                }
                if let Some(r) = r {
                    let own = PoParser::new();
                    let q = own.parse(P16_DOCS[*j].as_bytes()).map_err(|e| e.to_string())?;
                    if r.header_properties() != q.header_properties() || r.header_notes() != q.header_notes() || r.target_language() != q.target_language() {
                        return Err(format!("the metadata of reader {i} of {n} over catalogue {j} differs"));
                    }
                }
            }
            if how == 3 {
                open.clear();
            }
            for (j, d) in P16_DOCS.iter().enumerate() {
                let x = run_with(&p, d.as_bytes(), 100);
                if x != alone[j] {
                    return Err(format!("with {n} readers open catalogue {j} is read as {x:?} instead of {:?}", alone[j]));
                }
            }
            Ok(())
        });
        c.compared += n as u64;
        c.state(h64(&(n, how, k)));
        match res {
            Err(m) => broken!("the library {m}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(())) => Ok(()),
        }
    }));
    v.push(space("shareable", 0, "a parser can be shared between threads (Sync); many uses of one parser change nothing", |c| {
        let probe: Probe<PoParser> = Probe(std::marker::PhantomData);
        ensure!(probe.sync(), "PoParser is not Sync: it cannot be used by several threads");
        let r = ramp(20, 3000);
        let n = *c.pick(&r);
        let p = PoParser::new();
        let k = c.choose(P16_DOCS.len());
        let d = P16_DOCS[k].as_bytes();
        c.input = d.to_vec();
        let a = in_impl(d, || run_with(&p, d, 100));
        for i in 0..n {
            let x = P16_DOCS[(i + k) % 3].as_bytes();
            if let Err(m) = in_impl(x, || p.parse(x).map(|r| r.count()).unwrap_or(0)) {
                broken!("the library {m}");
            }
        }
        let b = in_impl(d, || run_with(&p, d, 100));
        match (a, b) {
            (Ok(a), Ok(b)) => ensure!(a == b, "after {n} uses the catalogue is read as {b:?} instead of {a:?}"),
            (Err(m), _) | (_, Err(m)) => broken!("the library {m}"),
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P17

/// Is the line of the reported error right?  The reference reader says which line is in error.
fn error_line(x: &model::Expect, o: &RunObs) -> Result<Option<String>, String> {
    let (Some(f), Some(e)) = (&x.fail, o.error()) else { return Ok(None) };
    if f.why == Why::Forms {
        return if e.line == 0 { Ok(None) } else { Err(format!("an error of the Plural-Forms property reports line {}", e.line)) };
    }
    let shown = format!("line {}", e.line);
    let at = e.shown.find(&shown).map(|i| i + shown.len());
    if !at.map_or(false, |i| !e.shown[i..].starts_with(|c: char| c.is_ascii_digit())) {
        return Err(format!("the message {:?} does not show {shown:?}", e.shown));
    }
    if f.why == Why::Malformed && e.line == f.line + 1 && e.kind == Kind::Parse {
        return Ok(Some(format!("a line that is not PO is reported as line {} instead of {}", e.line, f.line)));
    }
    if e.line != f.line {
        return Err(format!("the error ({}) is on line {} but reports {}", e.shown, f.line, e.line));
    }
    Ok(None)
}

pub fn check_line(c: &mut Ctx, d: &[u8]) -> Res {
    let (x, o) = check_also(c, d, |x, o| error_line(x, o).map(|_| ()))?;
    if let Ok(Some(m)) = error_line(&x, &o) {
        c.finding("P17-malformed-line", m);
    }
    Ok(())
}

pub fn located(c: &mut Ctx, d: &str) -> Res {
    check_line(c, d.as_bytes())
}
fn located_n(c: &mut Ctx, d: &str, _n: usize) -> Res {
    check_line(c, d.as_bytes())
}

pub fn p17(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    const BAD: &[&str] = &[
        "junk", "msgstr \"x\"", "\"x\"", "msgid \"i\"\nmsgid \"j\"", "msgid \"i\"\n\n\nmsgctxt \"j\"", "msgid \"\"\nmsgstr \"x\"\n\nmsgid \"y\"\nmsgstr \"y\"", "msgctxt \"c\"\n\nmsgid \"\"\n\"\"\nmsgstr \"x\"\n# z\n", "#| msgid \"o\"\nmsgid \"\"\nmsgstr \"\"\n# z\n",
        "msgid \"i\"\nmsgid_plural \"j\"\n# c\nmsgstr[0] \"k\"", "msgid \"i\"\n#~ msgstr \"j\"", "# c\n# d\n\n#~ \"x\"", "msgid \"i\"\nmsgid_plural \"j\"\nmsgstr[1] \"k\"", "msgid_plural \"i\"", "#~ msgid \"\"\n#~ msgstr \"\"\n# z\n", "msgid \"i\" junk", "# c\njunk\n",
    ];
    const FILL: &[&str] = &["", "   \t", "# comment", "#~ msgid \"f\"\n#~ msgstr \"g\"", "msgid \"f\"\n\"more\"\nmsgstr \"g\"\n\"more\"", "#, fuzzy\nmsgid \"f\"\n\nmsgstr \"g\"\n", "\n\n\n", "msgid \"f\"\nmsgid_plural \"g\"\nmsgstr[0] \"h\"\nmsgstr[1] \"i\"", "#. c\n#: d\n#= e"];
    let n = if q { 3 } else { 4 };
    v.push(space("lines", 0, format!("up to {n} of 9 fillers (blank, comment, entries of several shapes) after an optional header, then one of 16 errors, LF or CRLF, more lines after it or not"), move |c| {
        let mut d = String::new();
        if c.flip() {
            d.push_str("# head\nmsgid \"\"\nmsgstr \"\"\n\"A: b\\n\"\n\"C: d\\n\"\n");
        }
        for _ in 0..c.choose(n + 1) {
            d.push_str(c.pick(FILL));
            d.push('\n');
        }
        d.push_str(c.pick(BAD));
        d.push('\n');
        if c.flip() {
            d.push_str("msgid \"after\"\nmsgstr \"z\"\n");
        }
        if c.flip() {
            d = d.replace('\n', "\r\n");
        }
        check_line(c, d.as_bytes())
    }));
    v.push(space("not UTF-8", 0, "a byte that is not UTF-8 in each line of a catalogue, up to 3 fillers before: an I/O error with that line's number", |c| {
        let mut d = String::new();
        for _ in 0..c.choose(4) {
            d.push_str(c.pick(FILL));
            d.push('\n');
        }
        d.push_str("# note\nmsgctxt \"c\"\nmsgid \"i\"\n\"j\"\n\nmsgstr \"t\"\n\nmsgid \"k\"\nmsgstr \"u\"\n");
        let mut b = d.into_bytes();
        let ends: Vec<usize> = b.iter().enumerate().filter(|(_, &x)| x == b'\n').map(|(i, _)| i).collect();
        let k = c.choose(ends.len());
        b.insert(ends[k], 0xff);
        check_line(c, &b)
    }));
    v.push(space("all line sequences", 0, "all sequences of up to 4 (thorough: 5) lines out of 15, blank lines included", move |c| {
        const L: &[&str] = &["msgid", "msgstr", "", "msgctxt", "msgid_plural", "msgstr[0]", "# note", "msgid \"\"", "junk", "#~ msgid", "#~ msgstr", "#| msgid", "msgstr[1]", "#~ "];
        let len = c.choose(if q { 5 } else { 6 });
        let mut d = String::new();
        for i in 0..len {
            let k = c.choose(L.len() + 1);
            if k == L.len() {
                d.push('\n');
            } else {
                put_line(&mut d, L[k], i);
            }
        }
        d.push_str("# end\n");
        check_line(c, d.as_bytes())
    }));
    v.push(lines::sequences("lines of every kind", lines::ALL, 1, 4, &["", "msgid \"first\"\n\nmsgstr \"F\"\n\n", "# c\nmsgid \"\"\nmsgstr \"A: b\\n\"\n\"C: d\\n\"\n"], &["# z\n", "#~ msgid \"z\"\n"], located_n));
    if !q {
        v.push(lines::sequences("five lines of every kind", lines::ALL, 5, 5, &[""], &["# z\n"], located_n));
    }
    v.push(lines::sequences("inside an entry", lines::ALL, 1, if q { 2 } else { 3 }, IN_ENTRY, &["", "# c\n", "\n\nmsgstr \"T\"\n\nmsgid \"tail\"\nmsgstr \"T\"\n"], located_n));
    v.push(space("empty sources", 0, "entries with an empty source, marked or not, after every combination of comments, blank lines, previous fields and context, each over one or two lines, simple or plural; as first or later entry", |c| {
        let ob = c.flip();
        let (m, p) = if ob { ("#~ ", "#~| ") } else { ("", "#| ") };
        let mut d = String::from(["", "\n# c\nmsgid \"first\"\nmsgstr \"F\"\n", "msgid \"\"\nmsgstr \"\"\n\n"][c.choose(3)]);
        d.push_str(["", "\n", "# c\n", "#, fuzzy\n\n#. d\n"][c.choose(4)]);
        let two = c.flip();
        let gap = c.flip();
        let mut put = |mark: &str, kw: &str, t: &str| {
            if two {
                d.push_str(&format!("{mark}{kw} \"\"\n{}{mark}\"{t}\"\n", if gap { "\n" } else { "" }));
            } else {
                d.push_str(&format!("{mark}{kw} \"{t}\"\n{}", if gap { " \n" } else { "" }));
            }
        };
        let k = c.choose(6);
        if k & 1 == 1 {
            put(p, "msgctxt", "pc");
        }
        if k >= 2 {
            put(p, "msgid", "pi");
        }
        if k >= 4 {
            put(p, "msgid_plural", "pp");
        }
        if c.flip() {
            put(m, "msgctxt", "ctx");
        }
        put(m, "msgid", "");
        if c.flip() {
            put(m, "msgid_plural", "p");
            put(m, "msgstr[0]", "t");
        } else {
            put(m, "msgstr", "t");
        }
        d.push_str(["# z\n", "msgid \"next\"\nmsgstr \"N\"\n"][c.choose(2)]);
        check_line(c, d.as_bytes())
    }));
    v.push(space("far lines", 0, "an error after 0 to 300 (and up to 70000) lines of five kinds", |c| {
        let r = ramp(300, 70000);
        let n = *c.pick(&r);
        let f = *c.pick(&["\n", "# c\n", "\"more\"\n", "msgid \"f\"\nmsgstr \"g\"\n", " \r\n"]);
        if f.starts_with("msgid") && n > 5000 {
            return Err(Stop::Skip);
        }
        let mut d = String::from("msgid \"first\"\nmsgstr \"x\"\n");
        d.push_str(&f.repeat(n));
        d.push_str(c.pick(&["# x\njunk\n", "# x\nmsgstr \"z\"\n", "# x\nmsgid \"\"\nmsgstr \"\"\n# y\n"]));
        check_line(c, d.as_bytes())
    }));
    v.push(space("reported errors", 0, "9 kinds of errors (source failures of 5 kinds, bytes that are not UTF-8, malformed, misplaced, empty source) met after 0 to 3 pieces of catalogue: message, cause, conversion", reported));
    v.push(space("conversion", 0, "errors of every kind built directly (I/O errors of 10 kinds with a payload, bare, with a text, or of the operating system), lines 0, 1, 2, 12, 100000: display, cause, conversion to std::io::Error", |c| {
        use std::error::Error as _;
        use std::io;
        #[derive(Debug)]
        struct Own(u32);
        impl std::fmt::Display for Own {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "own {}", self.0)
            }
        }
        impl std::error::Error for Own {}
        let line = *c.pick(&[0usize, 1, 2, 12, 100000, usize::MAX]);
        let k = c.choose(5);
        const KINDS: &[io::ErrorKind] = &[
            io::ErrorKind::Other, io::ErrorKind::NotFound, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof, io::ErrorKind::PermissionDenied, io::ErrorKind::TimedOut, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted, io::ErrorKind::OutOfMemory,
        ];
        // with a payload of its own, bare, with a text, from the operating system
        let (form, io_kind, os) = if k == 0 { (c.choose(4), *c.pick(KINDS), *c.pick(&[2i32, 5, 13, 28])) } else { (0, KINDS[0], 0) };
        let make_io = || match form {
            0 => io::Error::new(io_kind, Own(7)),
            1 => io::Error::from(io_kind),
            2 => io::Error::new(io_kind, "own 7"),
            _ => io::Error::from_raw_os_error(os),
        };
        let make = || match k {
            0 => Error::Io(line, make_io()),
            1 => Error::Parse(line, "got".into(), "exp".into()),
            2 => Error::Parse(line, String::new(), String::new()),
            3 => Error::Unexpected(line, "odd".into()),
            _ => Error::PluralForms("bad forms".into()),
        };
        c.note = format!("error {k} line {line}");
        let r = in_impl(b"", || {
            let e = make();
            let shown = e.to_string();
            let dbg = format!("{e:?}");
            if shown.is_empty() || dbg.is_empty() {
                return Err("the error has no text".to_string());
            }
            if line > 0 && k != 4 {
                let w = format!("line {line}");
                if !shown.contains(&w) {
                    return Err(format!("{shown:?} does not show {w:?}"));
                }
            }
            match k {
                0 if !shown.contains(&make_io().to_string()) => return Err(format!("{shown:?} does not show the cause")),
                1 if !(shown.contains("got") && shown.contains("exp")) => return Err(format!("{shown:?} does not show the tokens")),
                3 if !shown.contains("odd") => return Err(format!("{shown:?} does not show the message")),
                4 if !shown.contains("bad forms") => return Err(format!("{shown:?} does not show the message")),
                _ => (),
            }
            match (k, e.source()) {
                (0, Some(s)) => {
                    let Some(i) = s.downcast_ref::<io::Error>() else { return Err("the cause is not the I/O error".into()) };
                    let want = make_io();
                    if i.kind() != want.kind() || i.raw_os_error() != want.raw_os_error() || i.to_string() != want.to_string() || form == 0 && i.get_ref().and_then(|x| x.downcast_ref::<Own>()).map(|o| o.0) != Some(7) {
                        return Err("the cause is another I/O error".into());
                    }
                }
                (0, None) => return Err("an I/O error has no cause".into()),
                (_, Some(_)) => return Err("an error that is no I/O error has a cause".into()),
                _ => (),
            }
            let x: io::Error = make().into();
            if x.to_string() != shown {
                return Err(format!("converted, the message {shown:?} becomes {:?}", x.to_string()));
            }
            let Some(b) = x.get_ref().and_then(|b| b.downcast_ref::<Error>()) else { return Err("converted, the error itself is lost".into()) };
            let same = match (b, make()) {
                (Error::Io(a, e), Error::Io(b, f)) => *a == b && e.kind() == f.kind() && e.raw_os_error() == f.raw_os_error() && e.to_string() == f.to_string(),
                (Error::Parse(a, g, e), Error::Parse(b, h, f)) => *a == b && *g == h && *e == f,
                (Error::Unexpected(a, m), Error::Unexpected(b, n)) => *a == b && *m == n,
                (Error::PluralForms(m), Error::PluralForms(n)) => *m == n,
                _ => false,
            };
            if !same {
                return Err("converted, the error is another one".into());
            }
            Ok(shown)
        });
        c.compared += 1;
        match r {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(s)) => {
                c.state(h64(&s));
                Ok(())
            }
        }
    }));
    v
}

/// Errors as the reader gives them: displayed, with their cause, converted.
fn reported(c: &mut Ctx) -> Res {
    use std::error::Error as _;
    use std::io;
    let cause = c.choose(9);
    let mk = || -> Option<io::Error> {
        match cause {
            0 => Some(io::Error::new(io::ErrorKind::Other, "own cause")),
            1 => Some(io::ErrorKind::WouldBlock.into()),
            2 => Some(io::Error::from_raw_os_error(5)),
            3 => Some(io::Error::from_raw_os_error(13)),
            4 => Some(io::Error::new(io::ErrorKind::InvalidData, "own data")),
            _ => None,
        }
    };
    struct Then<'a>(&'a [u8], Option<io::Error>);
    impl Read for Then<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.0.is_empty() {
                return self.1.take().map_or(Ok(0), Err);
            }
            self.0.read(b)
        }
    }
    let n = c.choose(4);
    let mut d = vec![];
    for i in 0..n {
        d.extend(["# c\n", "msgid \"a\"\nmsgstr \"b\"\n", "\n"][(n + i) % 3].as_bytes());
    }
    match cause {
        5 => d.extend(b"msgid \"\xff\"\n"),
        6 => d.extend(b"msgid \"a\"\nmsgstr \"b\"\n\n# x\njunk\n"),
        7 => d.extend(b"# x\nmsgstr \"b\"\n"),
        8 => d.extend(b"# x\nmsgctxt \"c\"\nmsgid \"\"\nmsgid_plural \"p\"\nmsgstr[0] \"\"\n# x\n"),
        _ => (),
    }
    c.input = d.clone();
    c.note = format!("cause {cause}: ");
    let p = parser();
    let r = in_impl(&d, || {
        let first = |r: Result<PoReader<Then>, Error>| match r {
            Err(e) => Some(e),
            Ok(r) => {
                let mut r = r;
                r.find_map(|x| x.err())
            }
        };
        let Some(e) = first(p.parse(Then(&d, mk()))) else { return Err("no error is reported".to_string()) };
        let shown = e.to_string();
        let debug = format!("{e:?}");
        let (line, io) = match &e {
            Error::Io(l, x) => (*l, Some(x)),
            Error::Parse(l, ..) | Error::Unexpected(l, _) => (*l, None),
            Error::PluralForms(_) => (0, None),
        };
        if io.is_some() != (cause < 6) {
            return Err(format!("the error is {debug}"));
        }
        if !shown.contains(&format!("line {line}")) {
            return Err(format!("{shown:?} does not show line {line}"));
        }
        if let (Some(got), Some(want)) = (io, mk()) {
            if got.kind() != want.kind() || got.raw_os_error() != want.raw_os_error() || got.to_string() != want.to_string() {
                return Err(format!("the source's error is {want:?}, reported is {got:?}"));
            }
            if !shown.contains(&want.to_string()) {
                return Err(format!("{shown:?} does not show {want}"));
            }
        }
        let cause_shown = e.source().map(|s| s.to_string());
        if cause_shown != io.map(|e| e.to_string()) {
            return Err(format!("the cause is {cause_shown:?}"));
        }
        let x: io::Error = e.into();
        if x.to_string() != shown {
            return Err(format!("converted, the message {shown:?} becomes {:?}", x.to_string()));
        }
        match x.get_ref().and_then(|b| b.downcast_ref::<Error>()) {
            None => Err("converted, the error itself is lost".into()),
            Some(b) if format!("{b:?}") != debug || b.source().map(|s| s.to_string()) != cause_shown => Err("converted, the error is another one".into()),
            Some(_) => Ok(shown),
        }
    });
    c.compared += 1;
    match r {
        Err(p) => broken!("the library {p}"),
        Ok(Err(m)) => broken!("{}{m}", c.note),
        Ok(Ok(s)) => {
            c.state(h64(&s));
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// P18

/// lines of every kind; none of them is text that could change its meaning by the layouts applied
const STRINGS_TOO: &[&str] = &[
    "msgid \"%\"", "msgid \"\"", "msgstr \"%\"", "msgstr \"\"", "\"%\"", "msgctxt \"%\"", "msgid_plural \"%\"", "msgstr[0] \"%\"", "msgstr[1] \"%\"", "#~ msgid \"%\"", "#~ msgstr \"%\"", "#~ \"%\"", "#~ msgctxt \"%\"", "#~ msgid_plural \"%\"", "#~ msgstr[0] \"%\"", "#| msgid \"%\"",
    "#| msgctxt \"%\"", "#| msgid_plural \"%\"", "#| \"%\"", "#| msgstr \"%\"", "#~| msgid \"%\"", "#~| msgctxt \"%\"", "#~| \"%\"", "# %", "#, fuzzy", "#. %", "#: %", "#= %", "#", "#,", "junk %", "", "\"x y\"", "msgstr \"\\\"%\\\"\"", "msgid \"a\\\\\"",
];

pub fn p18(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    fn bases() -> Vec<Vec<E>> {
        let mut b = vec![];
        let multi = |x: &str| vec![String::new(), format!("{x} 1\n"), format!("{x} 2")];
        let mut e = E::simple("", "").comment(' ', "note").comment(',', "fuzzy").comment(':', "a:1 b:2").comment('.', "dev").comment('=', "x");
        e.pctx = Some(multi("pc"));
        e.pid = Some(multi("pi"));
        e.ppl = Some(multi("pp"));
        e.ctx = Some(multi("c"));
        e.id = multi("i");
        e.body = Body::Plural(multi("p"), vec![multi("t0"), multi("t1")]);
        b.push(vec![header(&[PF2, "Language: fr"]).comment(' ', "header note"), e.clone(), E::simple("next", "n")]);
        b.push(vec![E { obsolete: true, ..e.clone() }, E::simple("next", "n").comment(' ', "")]);
        b.push(vec![header(&[]), E::simple("id", "text").comment('.', "dev"), E { obsolete: true, body: Body::Simple(multi("t")), ..e }]);
        b.push(vec![header(&[PF2]), E::simple("a", ""), E::plural("b", "c", &["d", "e"]), E::simple("f", "g").obsolete().with_prev(None, Some("h"), None)]);
        b
    }
    /// what may vary around one line
    fn layout(c: &mut Ctx, l: &str, out: &mut String) {
        match c.dev(6) {
            0 => (),
            1 => out.push('\n'),
            2 => out.push_str(" \t \n"),
            3 => out.push_str("\r\n"),
            4 => out.push_str("\n\n\n\n"),
            _ => out.push_str("\u{a0}\u{3000}\n"),
        }
        if l.is_empty() {
            out.push('\n');
            return;
        }
        match c.dev(4) {
            0 => (),
            1 => out.push(' '),
            2 => out.push_str("\t\t"),
            _ => out.push_str("          "),
        }
        let is_comment = l.starts_with('#') && !l.starts_with("#~") && !l.starts_with("#|");
        if is_comment {
            // between marker and text
            let body = if l.len() > 2 && l.as_bytes()[1] != b' ' { Some(2) } else { None };
            match body {
                Some(k) => {
                    out.push_str(&l[..k]);
                    match c.dev(3) {
                        0 => out.push_str(&l[k..]),
                        1 => {
                            out.push_str("   ");
                            out.push_str(&l[k..]);
                        }
                        _ => out.push_str(l[k..].trim_start()),
                    }
                }
                None => out.push_str(l),
            }
        } else {
            let quote = l.find('"').unwrap();
            let head = &l[..quote];
            let (mark, kw) = match head.strip_prefix("#~|").map(|r| ("#~|", r)).or(head.strip_prefix("#~").map(|r| ("#~", r))).or(head.strip_prefix("#|").map(|r| ("#|", r))) {
                Some((m, r)) => (m, r.trim()),
                None => ("", head.trim()),
            };
            out.push_str(mark);
            if !mark.is_empty() {
                out.push_str(["", " ", "   ", "\t"][c.dev_pick(&[1usize, 0, 2, 3]).to_owned()]);
            }
            out.push_str(kw);
            if !kw.is_empty() {
                out.push_str(["", " ", "   ", "\t"][c.dev_pick(&[1usize, 0, 2, 3]).to_owned()]);
            }
            let text = &l[quote..];
            // split the string
            let inner = &text[1..text.len() - 1];
            let cut = match c.dev(4) {
                0 => None,
                1 => Some(0),
                2 => Some(inner.len()),
                _ => Some(inner.char_indices().nth(1).map_or(inner.len(), |x| x.0)),
            };
            match cut {
                Some(k) if !inner.contains('\\') || k == 0 || k == inner.len() => {
                    out.push_str(&format!("\"{}\"\n{mark}\"{}\"", &inner[..k], &inner[k..]));
                }
                _ => out.push_str(text),
            }
            match c.dev(4) {
                0 => (),
                1 => out.push(' '),
                2 => out.push_str("\t  "),
                _ => out.push('\r'),
            }
        }
        match c.dev(2) {
            0 => out.push('\n'),
            _ => out.push_str("\r\n"),
        }
    }
    fn go(c: &mut Ctx, base: &[E], post: fn(String) -> String) -> Res {
        let text = doc(base);
        let a = run(c, text.as_bytes())?;
        let mut out = String::new();
        for l in text.lines() {
            layout(c, l, &mut out);
        }
        if c.dev(2) == 1 {
            out.truncate(out.trim_end_matches(['\n', '\r']).len());
        }
        if c.dev(2) == 1 {
            out.push_str("\n \n");
        }
        let out = post(out);
        let b = run(c, out.as_bytes())?;
        must(same(&a, &b, false), || "with another layout".to_string())
    }
    const KINDS: &str = "departures from the usual layout at any places (blank lines before any line, indentation, spacing of marks, keywords and markers, trailing whitespace, splitting of strings, CRLF, final line end)";
    v.push(space("single departures", 1, format!("4 catalogues, every single one of the {KINDS}"), |c| {
        let bs = bases();
        let k = c.choose(4);
        go(c, &bs[k], |s| s)
    }));
    v.push(space("pairs of departures", 2, format!("4 catalogues, all pairs of {KINDS}"), move |c| {
        let bs = bases();
        let k = c.choose(4);
        go(c, &bs[k], |s| s)
    }));
    if !q {
        v.push(space("triples of departures", 3, format!("a catalogue without plural forms, all triples of {KINDS}"), |c| {
            let b = vec![header(&[]), E::simple("a", "b").comment(',', "fuzzy").with_ctx("c"), E::simple("f", "").obsolete().with_prev(None, Some("h"), None)];
            go(c, &b, |s| s)
        }));
    }
    v.push(space("CRLF", 1, "the same with CRLF line ends throughout, up to 1 further departure", |c| {
        let bs = bases();
        let k = c.choose(4);
        go(c, &bs[k], |s| s.replace("\r\n", "\n").replace('\n', "\r\n"))
    }));
    v.push(space("every line", 0, "every menu entry with one kind of departure applied to all lines at once, in every combination of 8 kinds", |c| {
        let m = menu(4);
        let base = vec![header(&[PF2]), c.pick(&m).clone(), E::simple("next", "n").comment(' ', "x")];
        let text = doc(&base);
        let a = run(c, text.as_bytes())?;
        let (blank, indent, tight, wide, trail, crlf, noend, split) = (c.flip(), c.flip(), c.flip(), c.flip(), c.flip(), c.flip(), c.flip(), c.flip());
        if tight && wide {
            return Err(Stop::Skip);
        }
        let mut out = String::new();
        for l in text.lines() {
            if blank {
                out.push_str("\n  \n");
            }
            if l.is_empty() {
                out.push('\n');
                continue;
            }
            if indent {
                out.push_str("  ");
            }
            let is_comment = l.starts_with('#') && !l.starts_with("#~") && !l.starts_with("#|");
            if is_comment {
                out.push_str(l);
            } else {
                let q = l.find('"').unwrap();
                let (h, x) = l.split_at(q);
                let h = if tight { h.replace(' ', "") } else if wide { h.replace(' ', "  \t") } else { h.to_string() };
                out.push_str(&h);
                if split {
                    let mark: String = if h.starts_with("#~|") { "#~|" } else if h.starts_with("#~") { "#~" } else if h.starts_with("#|") { "#|" } else { "" }.into();
                    out.push_str(&format!("\"\"\n{mark}{x}\n{mark}\"\""));
                } else {
                    out.push_str(x);
                }
                if trail {
                    out.push_str(" \t");
                }
            }
            out.push('\n');
        }
        if noend {
            out.truncate(out.trim_end_matches('\n').len());
        }
        if crlf {
            out = out.replace('\n', "\r\n");
        }
        let b = run(c, out.as_bytes())?;
        must(same(&a, &b, false), || "with another layout".to_string())
    }));
    v.push(space("erroneous catalogues", 1, "12 erroneous or cut catalogues, one departure from the usual layout (a blank or indented line anywhere, CRLF, spacing): the same units and the same kind of error", |c| {
        const D: &[&str] = &[
            "msgid \"a\"\nmsgstr \"b\"\n\njunk\n", "msgid \"a\"\nmsgid \"b\"\nmsgstr \"c\"\n", "msgstr \"a\"\n", "msgid \"a\"\nmsgstr \"b\"\n\"c\"\n# d\nmsgid \"\"\nmsgstr \"\"\n# e\n", "msgid \"a\"\n#~ msgstr \"b\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr \"c\"\n",
            "msgid \"a\"\nmsgstr \"b\"\nmsgctxt \"c\"\n", "msgid \"\"\nmsgstr \"Plural-Forms: x\\n\"\nmsgid \"a\"\nmsgstr \"b\"\n", "#| msgid \"a\"\nmsgstr \"b\"\n", "# a\n# b\n", "msgid \"a\"\n# c\nmsgstr \"b\"\n", "\"a\"\nmsgid \"b\"\nmsgstr \"c\"\n",
        ];
        let d = *c.pick(D);
        let a = run(c, d.as_bytes())?;
        let mut out = String::new();
        for l in d.lines() {
            match c.dev(4) {
                0 => (),
                1 => out.push('\n'),
                2 => out.push_str("  "),
                _ => out.push_str("\t\r\n"),
            }
            out.push_str(l);
            match c.dev(2) {
                0 => out.push('\n'),
                _ => out.push_str("\r\n"),
            }
        }
        let b = run(c, out.as_bytes())?;
        must(same(&a, &b, false), || "with another layout".to_string())
    }));
    v.push(space("whitespace characters", 0, "each of the 25 white-space characters (and pairs of them) as a blank line between any two lines, as indentation of any line, between mark, keyword and quote, or after a closing quote", move |c| {
        let base = doc(&[
            header(&[]).comment(' ', "head"),
            E { ctx: Some(vec!["c".into(), "d".into()]), ..E::simple("i", "t").comment(' ', "n").comment(',', "fuzzy").comment(':', "l").with_prev(Some("pc"), Some("pi"), None) },
            E { body: Body::Plural(s("p"), vec![vec!["q".into(), "r".into()], s("s")]), ..E::simple("o", "").obsolete().with_prev(None, Some("pi"), Some("pp")) },
            E::simple("last", "x"),
        ]);
        let l: Vec<&str> = base.lines().collect();
        let white: Vec<char> = super::SPACES.iter().copied().filter(|c| c.is_whitespace()).collect();
        let ch = *c.pick(&white);
        let at = c.choose(l.len());
        let how = c.choose(5);
        let more = c.choose(3);
        let other = if more == 2 { *c.pick(&white) } else { ' ' };
        let sp: String = match more {
            0 => ch.to_string(),
            1 => format!("{ch}{ch}{ch}"),
            _ => format!("{ch}{other}"),
        };
        let a = run(c, base.as_bytes())?;
        let mut out = String::new();
        for (i, x) in l.iter().enumerate() {
            let field = x.find('"').filter(|_| !x.starts_with("# "));
            if i == at {
                match (how, field) {
                    (0, _) => {
                        out.push_str(&sp);
                        out.push('\n');
                        out.push_str(x);
                    }
                    (1, _) if !x.is_empty() => {
                        out.push_str(&sp);
                        out.push_str(x);
                    }
                    (2, Some(_)) => {
                        out.push_str(x);
                        out.push_str(&sp);
                    }
                    (3, Some(k)) => {
                        out.push_str(x[..k].trim_end());
                        out.push_str(&sp);
                        out.push_str(&x[k..]);
                    }
                    (4, Some(k)) if x.starts_with('#') => {
                        let m = if x.starts_with("#~|") { 3 } else { 2 };
                        out.push_str(&x[..m]);
                        out.push_str(&sp);
                        out.push_str(x[m..k].trim_start());
                        out.push_str(&x[k..]);
                    }
                    _ => return Err(Stop::Skip),
                }
            } else {
                out.push_str(x);
            }
            out.push('\n');
        }
        let b = run(c, out.as_bytes())?;
        must(same(&a, &b, false), || format!("with {sp:?} in line {} ({how})", at + 1))
    }));
    fn relaid(c: &mut Ctx, d: &str, _n: usize) -> Res {
        let a = run(c, d.as_bytes())?;
        for how in 0..6 {
            let mut out = String::new();
            for l in d.lines() {
                let field = l.trim_end().ends_with('"');
                match how {
                    0 => {
                        out.push_str(l);
                        out.push_str("\r\n");
                    }
                    1 => {
                        out.push_str("\n");
                        out.push_str(l);
                        out.push_str("\n \t\n");
                    }
                    2 => {
                        if !l.is_empty() {
                            out.push_str(" \t ");
                        }
                        out.push_str(l);
                        out.push('\n');
                    }
                    3 => {
                        out.push_str(l);
                        out.push_str(if field { " \t\n" } else { "\n" });
                    }
                    4 => {
                        // no space between mark, keyword and quote
                        match l.find('"').filter(|_| field) {
                            Some(k) => {
                                out.push_str(&l[..k].replace(' ', ""));
                                out.push_str(&l[k..]);
                            }
                            None => out.push_str(l),
                        }
                        out.push('\n');
                    }
                    _ => {
                        // every string in two pieces
                        match l.find('"').filter(|_| field) {
                            Some(k) => {
                                let mark = ["#~|", "#~", "#|", ""].into_iter().find(|m| l.starts_with(m)).unwrap();
                                out.push_str(&format!("{}\"\"\n{mark}{}", &l[..k], &l[k..]));
                            }
                            None => out.push_str(l),
                        }
                        out.push('\n');
                    }
                }
            }
            c.note = format!("layout {how}: ");
            let b = run(c, out.as_bytes())?;
            must(same(&a, &b, false), || format!("with layout {how}"))?;
        }
        Ok(())
    }
    v.push(lines::sequences("lines of every kind", STRINGS_TOO, 1, if q { 3 } else { 4 }, &["", "msgid \"first\"\nmsgstr \"F\"\n", "msgid \"\"\nmsgstr \"A: b\\n\"\n"], &["msgid \"tail\"\nmsgstr \"T\"\n"], relaid));
    v.push(space("long texts in pieces", 0, "a text of 0 to 40 (and up to 5000) letters, blanks and letters, two-byte characters, escapes or lines in one of 8 fields, obsolete or not, cut every 1, 2, 7, 60, 77, 1000 characters or once, against the uncut one", |c| {
        let r = ramp(40, 5000);
        let n = *c.pick(&r);
        let u: &[&str] = match c.choose(5) {
            0 => &["a", "b", "c"],
            1 => &["a", " "],
            2 => &["é", "ß"],
            3 => &["\\n", "\\\\", "\\\"", "x"],
            _ => &["l", "i", "n", "e", " ", "e", "n", "d", ".", "\\n"],
        };
        let size = match c.choose(8) {
            7 => n / 2 + 1,
            k => [1, 2, 7, 60, 77, 1000, 1024][k],
        };
        let field = c.choose(8);
        let obsolete = c.flip();
        let units: Vec<&str> = (0..n).map(|i| u[i % u.len()]).collect();
        let whole = vec![units.concat()];
        let cut: Vec<String> = if units.is_empty() { vec![String::new(), String::new()] } else { units.chunks(size).map(|x| x.concat()).collect() };
        let m = if obsolete { "#~ " } else { "" };
        let pm = if obsolete { "#~| " } else { "#| " };
        let write = |p: &[String]| {
            let f = |k: usize, plain: &str, mark: &str| {
                if k == field {
                    let mut x = vec![format!("\"k{}\"", p[0])];
                    x.extend(p[1..].iter().map(|y| format!("{mark}\"{y}\"")));
                    x.join("\n")
                } else {
                    format!("\"{plain}\"")
                }
            };
            let mut d = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n");
            d.push_str(&format!("{pm}msgctxt {}\n{pm}msgid {}\n{pm}msgid_plural {}\n", f(0, "pc", pm), f(1, "pi", pm), f(2, "pp", pm)));
            d.push_str(&format!("{m}msgctxt {}\n{m}msgid {}\n{m}msgid_plural {}\n{m}msgstr[0] {}\n{m}msgstr[1] {}\n", f(3, "c", m), f(4, "i", m), f(5, "p", m), f(6, "t", m), f(7, "u", m)));
            d.push_str("\nmsgid \"next\"\nmsgstr \"n\"\n");
            d
        };
        let a = run(c, write(&whole).as_bytes())?;
        let b = run(c, write(&cut).as_bytes())?;
        must(same(&a, &b, false), || "cut into pieces".to_string())
    }));
    v.push(space("many blanks", 0, "runs of 0 to 300 (and up to 70000) blank lines, spaces before a line, or trailing spaces, before, inside and after entries", |c| {
        let r = ramp(300, 70000);
        let n = *c.pick(&r);
        let base = "# note\nmsgctxt \"c\"\nmsgid \"i\"\n\"j\"\nmsgstr \"t\"\n\"u\"\n\nmsgid \"k\"\nmsgstr \"l\"\n";
        let a = run(c, base.as_bytes())?;
        let l: Vec<&str> = base.lines().collect();
        let at = c.choose(l.len());
        let how = c.choose(3);
        let mut out = String::new();
        for (i, x) in l.iter().enumerate() {
            if i == at && how == 0 {
                out.push_str(&"\n".repeat(n));
            }
            if i == at && how == 1 {
                out.push_str(&" ".repeat(n));
            }
            out.push_str(x);
            if i == at && how == 2 && !x.starts_with('#') {
                out.push_str(&" ".repeat(n));
            }
            out.push('\n');
        }
        let b = run(c, out.as_bytes())?;
        must(same(&a, &b, false), || "with another layout".to_string())
    }));
    v
}
