//! P01–P06: what the units contain.

use super::lines::{self, GOOD, STARTS};
use super::{ramp, STRINGS};
use crate::engine::*;
use crate::gen::*;
use crate::model;
use crate::obs::*;
use crate::{broken, ensure};
use std::sync::OnceLock;

pub fn headers() -> Vec<Vec<E>> {
    vec![vec![], vec![header(&[])], vec![header(&[PF2])], vec![header(&[PF3])], vec![header(&[PF1])]]
}

/// an entry with any combination of present fields, bodies, comment kinds and marks, and the number of its header
pub fn any_fields(c: &mut Ctx) -> (usize, E) {
    let h = c.choose(5);
    let forms = [2usize, 2, 2, 3, 1][h];
    let mut e = match c.choose(6) {
        0 => E::simple("source", "target"),
        1 => E::simple("source", ""),
        2 => E::simple("source\n", "target\n"),
        3 => E::plural("source", "sources", &["target", "targets", "targetss"][..forms]),
        4 => E::plural("source", "sources", &["", "", ""][..forms]),
        _ => E::plural("source", "sources", &["", "targets", ""][..forms]),
    };
    e.pctx = [None, Some(s("old context"))][c.choose(2)].clone();
    match c.choose(3) {
        0 => (),
        1 => e.pid = Some(s("old source")),
        _ => {
            e.pid = Some(s("old source"));
            e.ppl = Some(s("old sources"));
        }
    }
    e.ctx = [None, Some(s("context")), Some(s(""))][c.choose(3)].clone();
    e.obsolete = c.flip();
    let kinds: &[(char, &str)] = &[(' ', "translator"), ('.', "developer"), (':', "a.c:1 b.c:2"), (',', "fuzzy, c-format"), ('=', "other")];
    let m = c.choose(8);
    for (i, (k, x)) in kinds.iter().enumerate() {
        if m == 7 || m == i + 1 {
            e = e.comment(*k, x);
        }
    }
    if m == 6 {
        for (k, x) in kinds.iter().rev() {
            e = e.comment(*k, x).comment(*k, "second");
        }
    }
    (h, e)
}

pub fn p01(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("fields", 0, "one entry, every combination of present fields, bodies, comment kinds and marks, under 5 headers, alone, or before or after another entry", |c| {
        let (h, e) = any_fields(c);
        let mut d = headers()[h].clone();
        match c.choose(3) {
            0 => d.push(e),
            1 => {
                d.push(e);
                d.push(E::simple("next", "suivant"));
            }
            _ => {
                d.push(E::simple("previous", "précédent").with_ctx("c").comment(' ', "x"));
                d.push(e);
            }
        }
        check_entries(c, &d).map(|_| ())
    }));
    let n = if t == Tier::Quick { 3 } else { 4 };
    v.push(space("sequences", 0, format!("all sequences of 0 to {} entries of the 37-entry menu, 3 headers (the longest sequences: one header{})", n, if n == 4 { ", every second entry" } else { "" }), move |c| {
        let len = c.choose(n + 1);
        let h = if len >= 3 { 3 } else { 1 + c.choose(3) };
        let mut d = headers()[h].clone();
        if len < 2 && c.flip() {
            d.clear();
        }
        let texts3 = h == 3 && !d.is_empty();
        for i in 0..len {
            let m = menu(i + 1);
            let k = if len == 4 { c.choose(m.len() / 2) * 2 } else { c.choose(m.len()) };
            let mut e = m[k].clone();
            if let (true, Body::Plural(_, ts)) = (texts3, &mut e.body) {
                if ts.len() == 2 {
                    ts.push(s(&format!("p2-{i}")));
                }
            }
            d.push(e);
        }
        check_entries(c, &d).map(|_| ())
    }));
    let n = if q { 4 } else { 5 };
    v.push(space("equal entries", 0, format!("all sequences of up to {n} entries of 2 sources and 2 texts, each plain, fuzzy, obsolete or both, with or without header"), move |c| {
        let mut d = if c.flip() { vec![header(&["X: y"])] } else { vec![] };
        for _ in 0..c.choose(n + 1) {
            let mut e = match c.choose(3) {
                0 => E::simple("a", "x"),
                1 => E::simple("a", "y"),
                _ => E::simple("b", "x"),
            };
            match c.choose(4) {
                0 => (),
                1 => e = e.comment(',', "fuzzy"),
                2 => e = e.obsolete(),
                _ => e = e.comment(',', "fuzzy").obsolete(),
            }
            d.push(e);
        }
        check_entries(c, &d).map(|_| ())
    }));
    v.push(space("equal entries, all fields", 0, format!("up to {n} entries out of 14 that share sources, contexts, plural sources, notes or previous values, in all sequences"), move |c| {
        let base = || E::simple("a", "x");
        let mut d = if c.flip() { vec![header(&[PF2])] } else { vec![] };
        for _ in 0..c.choose(n + 1) {
            d.push(match c.choose(14) {
                0 => base(),
                1 => E::simple("a", ""),
                2 => base().with_ctx("a"),
                3 => base().with_ctx(""),
                4 => E::plural("a", "a", &["x"]),
                5 => E::plural("a", "as", &["", "x"]),
                6 => base().comment('.', "a"),
                7 => base().comment(':', "a:1"),
                8 => base().with_prev(None, Some("a"), None),
                9 => base().with_prev(Some("a"), Some("a"), Some("a")).comment(',', "fuzzy"),
                10 => base().obsolete().with_ctx("a"),
                11 => E::plural("a", "as", &["x", "x"]).obsolete(),
                12 => E::simple("a", "").obsolete(),
                _ => E::simple("x", "a"),
            });
        }
        check_entries(c, &d).map(|_| ())
    }));
    v.push(space("texts in common", 0, "one entry whose context, source, translation (or plural source and texts) and previous values are each one of 24 texts made of the same one or two words in different ways (one before the other after a bar, a control character, a blank, a colon, a line end; with a mark before or after it; in another case; doubled; empty)", |c| {
        const T: &[&str] = &[
            "c", "a", "c|a", "a|c", "c\u{4}a", "a\u{4}c", "ca", "c a", "c:a", "c: a", "c\na", "C", " c", "c ", "cc", "_c", "&c", "c...", "[c]", "(c) a", "c/a", "c.a", "%c", "c||a",
        ];
        let pick = |c: &mut Ctx| *c.pick(T);
        let id = pick(c);
        let text = match c.choose(T.len() + 1) {
            0 => "",
            k => T[k - 1],
        };
        let mut e = match c.choose(3) {
            0 => E::simple(id, text),
            1 => E::plural(id, text, &[id, text]),
            _ => E::plural(id, "a", &[text, ""]),
        };
        let k = c.choose(2 * T.len() + 2);
        if k < T.len() {
            e = e.with_ctx(T[k]);
        } else if k < 2 * T.len() {
            e = e.with_prev(Some(T[k - T.len()]), Some(id), None).with_ctx("c");
        } else if k == 2 * T.len() {
            e = e.with_ctx("");
        }
        if c.flip() {
            e = e.obsolete();
        }
        check_entries(c, &[e]).map(|_| ())
    }));
    let max = if t == Tier::Quick { 5000 } else { 70000 };
    v.push(space("sizes", 0, format!("one quantity (units, comment lines of a kind, flags or locations in a line, continuation lines, plural texts, header lines, text or comment length) takes every value 0..=40 and around powers of two and round numbers up to {max}"), move |c| {
        let what = c.choose(13);
        let lim = match what {
            8 => 1100,
            0 => max / 2,
            _ => max,
        };
        let r = ramp(40, lim);
        let n = *c.pick(&r);
        let mut h = header(&[PF2]);
        let mut e = E::simple("source", "target");
        let mut d = vec![];
        let kinds = [' ', '.', ':', ',', '='];
        match what {
            0 => {
                for i in 0..n {
                    d.push(E::simple(&format!("id{i}"), &format!("text{i}")));
                }
            }
            1..=5 => {
                for i in 0..n {
                    e = e.comment(kinds[what - 1], &format!("c{i}"));
                }
            }
            6 => e = e.comment(',', &(0..n).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ")),
            7 => e = e.comment(':', &(0..n).map(|i| format!("f:{i}")).collect::<Vec<_>>().join(" ")),
            8 => {
                h = header(&[&format!("Plural-Forms: nplurals={}; plural=n;", n.max(1))]);
                e.body = Body::Plural(s("sources"), (0..n.max(1)).map(|i| s(&format!("t{i}"))).collect());
            }
            9 => {
                e.id = (0..n + 1).map(|i| format!("piece {i}\n")).collect();
                e.body = Body::Simple((0..n + 1).map(|i| format!("text {i}\n")).collect());
            }
            10 => {
                let l: Vec<String> = (0..n).map(|i| format!("X-{i}: value {i}")).collect();
                h = header(&l.iter().map(|x| x.as_str()).collect::<Vec<_>>());
            }
            11 => {
                let x: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                e = E::simple(&format!("{x}s"), &x).with_ctx(&x);
            }
            _ => {
                let x: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                e = e.comment(' ', &x).comment('.', &x).comment('=', &x);
            }
        }
        if what != 0 {
            d.push(E::simple("previous", "p"));
            d.push(e);
            d.push(E::simple("next", "n"));
        }
        d.insert(0, h);
        check_entries(c, &d).map(|_| ())
    }));
    v.push(space("strings", 2, "an entry with every field; up to two fields take any value of the 61 unusual strings", |c| {
        let mut e = E::simple("source", "target");
        let def: Vec<&str> = vec!["d"; STRINGS.len() + 1];
        let val = |c: &mut Ctx, d: &str| -> Str {
            let k = c.dev(def.len());
            s(if k == 0 { d } else { STRINGS[k - 1] })
        };
        e.pctx = Some(val(c, "old context"));
        e.pid = Some(val(c, "old source"));
        e.ppl = Some(val(c, "old sources"));
        e.ctx = Some(val(c, "context"));
        e.id = val(c, "source");
        if e.id[0].is_empty() {
            return Err(Stop::Skip);
        }
        let pl = val(c, "sources");
        let a = val(c, "target");
        let b = val(c, "targets");
        e.body = Body::Plural(pl, vec![a.clone(), b]);
        let e2 = E { body: Body::Simple(a), ..e.clone() };
        let e3 = E { obsolete: true, ..e.clone() };
        check_entries(c, &[header(&[]), e, e2, e3]).map(|_| ())
    }));
    v.push(space("duplicates", 0, "sequences of 4 entries whose sources, contexts and texts are each one of two values: equal entries stay separate and in order", |c| {
        let mut d = vec![header(&[])];
        for _ in 0..4 {
            let mut e = E::simple(["a", "b"][c.choose(2)], ["x", ""][c.choose(2)]);
            e.ctx = [None, Some(s("k"))][c.choose(2)].clone();
            e.obsolete = c.flip();
            d.push(e);
        }
        check_entries(c, &d).map(|_| ())
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("repeated comments", 0, format!("all sequences of up to {n} comment lines out of 16 (equal and different texts, repeated flags and locations) before an entry, and once more before the next one"), move |c| {
        const L: &[(char, &str)] = &[
            (' ', "a"), (' ', "b"), ('.', "a"), ('.', "b"), (':', "a"), (':', "a b"), (':', "b a a"), (',', "a"), (',', "b, a"), (',', "a, a"), ('=', "a"), ('=', "b"), ('!', "a"), (' ', ""), ('.', ""), ('=', ""),
        ];
        let k = c.choose(n + 1);
        let cs: Vec<(char, &str)> = (0..k).map(|_| *c.pick(L)).collect();
        let mut e = E::simple("i", "t");
        for (a, b) in &cs {
            e = e.comment(*a, b);
        }
        let e2 = E { id: s("j"), ..e.clone() };
        let e3 = E { obsolete: true, ..e.clone() };
        check_entries(c, &[e, E::simple("between", "x"), e2, e3]).map(|_| ())
    }));
    v.push(lines::sequences("lines", GOOD, 0, if q { 4 } else { 5 }, STARTS, &["", "msgid \"last\"\nmsgstr \"L\"\n"], lines::plain));
    v.push(space("adjacent entries", 0, "all sequences of up to 3 entries of the menu without blank lines between them, after no header or one", move |c| {
        let mut d = String::new();
        if c.flip() {
            d.push_str(&doc(&[header(&[PF2])]));
        }
        let k = 1 + c.choose(if q { 2 } else { 3 });
        for i in 0..k {
            let m = menu(i + 1);
            let e = c.pick(&m).clone();
            d.push_str(&doc(&[e]));
        }
        check(c, d.as_bytes()).map(|_| ())
    }));
    v
}

/// the eight string fields
pub fn with_field(f: usize, val: Str) -> E {
    let mut e = E::plural("source", "sources", &["target", "targets"]);
    match f {
        0 => e.id = val,
        1 => e.body = Body::Simple(val),
        2 => e.ctx = Some(val),
        3 => e.pctx = Some(val),
        4 => e.pid = Some(val),
        5 => {
            e.pid = Some(s("old"));
            e.ppl = Some(val)
        }
        6 => e.body = Body::Plural(val, vec![s("x")]),
        _ => e.body = Body::Plural(s("x"), vec![s("t0"), val]),
    }
    e
}
fn raw_doc(f: usize, obsolete: bool, raw: &[String]) -> String {
    // raw pieces put between the quotes as they are
    let kws = ["msgid", "msgstr", "msgctxt", "| msgctxt", "| msgid", "| msgid_plural", "msgid_plural", "msgstr[1]"];
    let mut o = String::new();
    let mut line = |prev: bool, kw: &str, txt: &str| {
        let m = match (obsolete, prev) {
            (false, false) => "",
            (false, true) => "#| ",
            (true, false) => "#~ ",
            (true, true) => "#~| ",
        };
        o.push_str(&format!("{m}{kw}{}\"{txt}\"\n", if kw.is_empty() { "" } else { " " }));
    };
    let order: &[usize] = match f {
        3 => &[3, 0, 1],
        4 => &[4, 0, 1],
        5 => &[4, 5, 0, 1],
        2 => &[2, 0, 1],
        6 => &[0, 6, 8],
        7 => &[0, 6, 8, 7],
        _ => &[0, 1],
    };
    for &k in order {
        let kw = if k == 8 { "msgstr[0]" } else { kws[k].trim_start_matches("| ") };
        let prev = k < 8 && kws[k].starts_with('|');
        if k == f {
            for (i, r) in raw.iter().enumerate() {
                line(prev, if i == 0 { kw } else { "" }, r);
            }
        } else {
            line(prev, kw, "d");
        }
    }
    o
}

pub fn p02(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 5 } else { 6 };
    v.push(space("values", 0, format!("all strings of up to {n} characters over 10 characters (quote, backslash, newline, tab, return, space, n, r, é, #) in each of the 8 string fields"), move |c| {
        let f = c.choose(8);
        let len = c.choose(n + 1);
        let x: String = (0..len).map(|_| *c.pick(&['n', '"', '\\', '\n', '\t', '\r', ' ', 'r', 'é', '#'])).collect();
        if f == 0 && x.is_empty() {
            return Err(Stop::Skip);
        }
        check_entries(c, &[header(&[]), with_field(f, vec![x])]).map(|_| ())
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("raw pieces", 0, format!("all literals of up to {n} characters over 9 characters (backslash, n, r, t, quote, a, x, 0, space) that are well formed, in the source or translation"), move |c| {
        let f = c.choose(2);
        let len = c.choose(n + 1);
        let x: String = (0..len).map(|_| *c.pick(&['\\', 'n', 'r', 't', '"', 'a', 'x', '0', ' '])).collect();
        let Some(want) = model::unescape(&x) else { return Err(Stop::Skip) };
        if f == 0 && want.is_empty() {
            return Err(Stop::Skip);
        }
        let d = format!("msgid \"h\"\nmsgstr \"h\"\n\n{}", raw_doc(f, false, &[x]));
        let (_, o) = check(c, d.as_bytes())?;
        let u = o.units()[1].clone();
        let got = if f == 0 { u.message.id } else { u.message.text };
        ensure!(got == want, "decoded as {got:?}, should be {want:?}");
        Ok(())
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("raw splits", 0, format!("two or three pieces, each any well-formed literal of up to {n} (third: 1) characters over backslash, n, t, quote, a, in each field, obsolete or not"), move |c| {
        let f = c.choose(8);
        let ob = c.flip();
        let mut raw = vec![];
        let mut want = String::new();
        let pieces = 2 + c.choose(2);
        for i in 0..pieces {
            let len = if i == 2 { c.choose(2) } else { c.choose(n) };
            let x: String = (0..len).map(|_| *c.pick(&['\\', 'n', 't', '"', 'a'])).collect();
            let Some(w) = model::unescape(&x) else { return Err(Stop::Skip) };
            want.push_str(&w);
            raw.push(x);
        }
        if f == 0 && want.is_empty() {
            return Err(Stop::Skip);
        }
        let d = format!("msgid \"h\"\nmsgstr \"h\"\n\n{}", raw_doc(f, ob, &raw));
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("splits", 0, "every way of cutting a 9-character text with escapes into pieces (also with an empty first piece), in each field, obsolete or not", |c| {
        let f = c.choose(8);
        let ob = c.flip();
        let text: Vec<char> = "a\\n\"\n\té \r".chars().collect();
        let mut p: Str = vec![];
        if c.flip() {
            p.push(String::new());
        }
        let mut cur = String::new();
        for (i, ch) in text.iter().enumerate() {
            if i > 0 && c.flip() {
                p.push(std::mem::take(&mut cur));
            }
            cur.push(*ch);
        }
        p.push(cur);
        let mut e = with_field(f, p);
        e.obsolete = ob;
        check_entries(c, &[header(&[]), e]).map(|_| ())
    }));
    v.push(space("characters", 0, "every Unicode scalar value, in the middle, at the start and at the end of a text, and after a backslash", |c| {
        let block = c.choose(0x110000 / 64);
        let mut d = String::from("msgid \"first\"\nmsgstr \"x\"\n");
        let mut want = vec![];
        for k in 0..64u32 {
            let Some(ch) = char::from_u32(block as u32 * 64 + k) else { continue };
            if ch == '\n' || ch == '"' || ch == '\\' {
                continue;
            }
            let esc = match ch {
                'n' => "\n".to_string(),
                'r' => "\r".to_string(),
                't' => "\t".to_string(),
                _ => format!("\\{ch}"),
            };
            d.push_str(&format!("msgctxt \"{ch}\"\nmsgid \"a{ch}b\"\nmsgstr \"{ch}c\\{ch}\"\n\"d{ch}\"\n\n"));
            want.push((format!("{ch}"), format!("a{ch}b"), format!("{ch}c{esc}d{ch}")));
        }
        if want.is_empty() {
            return Err(Stop::Skip);
        }
        let o = run(c, d.as_bytes())?;
        let us = o.units();
        ensure!(o.error().is_none(), "error {}", o.error().unwrap().shown);
        ensure!(us.len() == want.len() + 1, "{} units instead of {}", us.len(), want.len() + 1);
        for (u, w) in us[1..].iter().zip(&want) {
            ensure!(
                u.context.as_deref() == Some(w.0.as_str()) && u.message.id == w.1 && u.message.text == w.2,
                "context {:?} source {:?} text {:?}, should be {w:?}",
                u.context,
                u.message.id,
                u.message.text
            );
        }
        Ok(())
    }));
    v.push(space("lengths", 0, "texts of every length 0..=300 and around powers of two up to 65536, made of letters, escapes, two- or four-byte characters, in one piece or cut in two or into 1-character pieces; up to 2000 continuation lines", |c| {
        let r = ramp(300, 65536);
        let n = *c.pick(&r);
        let ch = ["a", "\n", "\\", "é", "\u{1F600}", "\""][c.choose(6)];
        let x = ch.repeat(n);
        let f = c.choose(2);
        let p: Str = match c.choose(3) {
            0 => vec![x],
            1 => {
                let k = (n / 2) * ch.len();
                vec![x[..k].into(), x[k..].into()]
            }
            _ => {
                if n > 2000 {
                    return Err(Stop::Skip);
                }
                (0..n).map(|_| ch.to_string()).collect()
            }
        };
        let mut p = p;
        p.push("z".into());
        check_entries(c, &[header(&[]), with_field(f, p), E::simple("next", "n")]).map(|_| ())
    }));
    v.push(space("long pieces", 0, "an escape, a quote, a character of two to four bytes, or the end of a piece at every offset 0..=1100 and around powers of two and round numbers up to 70000 of a text of letters or of two-byte characters", |c| {
        let r = ramp(1100, 70000);
        let n = *c.pick(&r);
        let base = ["a", "é", "\n", "\\"][c.choose(4)];
        let probe = ["\n", "\\", "\"", "\t", "\r", "é", "\u{20ac}", "\u{1F600}", ""][c.choose(9)];
        let a = base.repeat(n);
        let p: Str = match (probe, c.choose(2)) {
            ("", _) => vec![a, "end".into()],
            (x, 0) => vec![format!("{a}{x}z")],
            (x, _) => vec![a, format!("{x}z")],
        };
        let f = if n < 300 { c.choose(8) } else { c.choose(2) };
        check_entries(c, &[header(&[]), with_field(f, p), E::simple("next", "n")]).map(|_| ())
    }));
    v.push(space("one among many", 0, "a piece of n characters of one of 11 kinds (letters, each escape, escapes in turn, two- to four-byte characters, blanks), n out of 0..=12 and around powers of two and round numbers up to 5000, with one of 150 characters (all controls, ASCII punctuation, unusual ones) at its beginning, middle or end", |c| {
        let r = ramp(12, 5000);
        let n = *c.pick(&r);
        let what = c.choose(11);
        let base: Vec<&str> = [&["a"][..], &["\n"], &["\\"], &["\""], &["\t"], &["\r"], &["\n", "\\", "\"", "\t", "\r"], &["é"], &["\u{20ac}"], &["\u{1F600}"], &[" "]][what].to_vec();
        let odd: Vec<char> = (0u8..128).filter(|b| !b.is_ascii_alphanumeric() || b"nrtuxaN0".contains(b)).map(|b| b as char).chain(super::SPACES.iter().copied().filter(|c| !c.is_ascii())).chain("\u{80}\u{ff}\u{300}\u{d7ff}\u{e000}\u{f8ff}\u{fffd}\u{ffff}\u{10000}\u{10FFFF}\u{202a}\u{2066}\u{2069}".chars()).collect();
        let x = *c.pick(&odd);
        let at = [0, n / 2, n][c.choose(3)];
        if n == 0 && (at != n || what != 0) {
            return Err(Stop::Skip);
        }
        let mut t: String = (0..at).map(|i| base[i % base.len()]).collect();
        t.push(x);
        t.extend((at..n).map(|i| base[i % base.len()]));
        let f = c.choose(2);
        check_entries(c, &[header(&[]), with_field(f, vec![t]), E::simple("next", "n")]).map(|_| ())
    }));
    v.push(space("many pieces", 0, "0 to 300 (and up to 20000) continuation lines in each field, obsolete or not, pieces empty, of one character, or numbered", |c| {
        let r = ramp(300, 20000);
        let n = *c.pick(&r);
        let f = if n <= 300 { c.choose(8) } else { c.choose(2) };
        let what = c.choose(3);
        let p: Str = std::iter::once(if f == 0 || what == 2 { "first".to_string() } else { String::new() })
            .chain((0..n).map(|i| match what {
                0 => String::new(),
                1 => ["\\", "n", "\"", "é"][i % 4].to_string(),
                _ => format!("{i},"),
            }))
            .collect();
        let mut e = with_field(f, p);
        e.obsolete = c.flip();
        check_entries(c, &[header(&[]), e, E::simple("next", "n")]).map(|_| ())
    }));
    v.push(space("fields together", 2, "every field cut into 1 to 4 pieces; up to two fields take another cut than one piece", |c| {
        let cut = |c: &mut Ctx, x: &str| -> Str {
            match c.dev(6) {
                0 => vec![format!("{x} 12")],
                1 => vec![String::new(), format!("{x} 12")],
                2 => vec![x.to_string(), " 12".into()],
                3 => vec![x.to_string(), " 1".into(), "2".into()],
                4 => vec![String::new(), x.to_string(), String::new(), " 12".into()],
                _ => vec![x.to_string(), " 1".into(), "2".into(), String::new()],
            }
        };
        let mut e = E::simple("", "");
        e.pctx = Some(cut(c, "pc"));
        e.pid = Some(cut(c, "pi"));
        e.ppl = Some(cut(c, "pp"));
        e.ctx = Some(cut(c, "c"));
        e.id = cut(c, "i");
        let (p, a, b) = (cut(c, "p"), cut(c, "t0"), cut(c, "t1"));
        e.body = Body::Plural(p, vec![a.clone(), b]);
        let e2 = E { body: Body::Simple(a), obsolete: true, ..e.clone() };
        check_entries(c, &[header(&[]), e, e2]).map(|_| ())
    }));
    v
}

pub fn p03(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 3 } else { 4 };
    const MARKS: &[&str] = &["", " ", ".", ":", ",", "=", "!", "\"", "m", "#", "\\", "[", "é", ". ", ": ", ", ", "  "];
    const TOKS: &[&str] = &[
        " ", "\"", "msgid", "msgid \"x\"", "\"x\"", "\\n", ",", "fuzzy", "a.c:1", "~", "|", "é", "msgstr[0] \"y\"", "#", "msgstr", "\t",
    ];
    v.push(space("text", 0, format!("a comment line made of '#', one of 17 markers and up to {n} of 16 tokens, at 3 places of a catalogue"), move |c| {
        let place = c.choose(3);
        let mut l = String::from("#");
        l.push_str(c.pick(MARKS));
        let k = c.choose(n + 1);
        for _ in 0..k {
            l.push_str(c.pick(TOKS));
        }
        if l.starts_with("#~") || l.starts_with("#|") {
            return Err(Stop::Skip);
        }
        let a = "msgid \"a\"\nmsgstr \"A\"\n";
        let b = "msgid \"b\"\nmsgstr \"B\"\n";
        let d = match place {
            0 => format!("{l}\n{a}\n{b}"),
            1 => format!("{a}{l}\n{b}"),
            _ => format!("{a}{b}{l}\n"),
        };
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("two lines", 0, "two comment lines out of 60 after one another before an entry (first entry, header, second entry)", |c| {
        let lines: Vec<String> = {
            let mut v = vec![];
            for m in ["", " ", ".", ":", ",", "=", "\"", "!"] {
                for x in ["", "a", "fuzzy", "msgid \"x\"", "\"x\"", "a, b", "a b"] {
                    v.push(if x.is_empty() { format!("#{m}") } else { format!("#{m} {x}") });
                    if m.is_empty() {
                        v.pop();
                    }
                }
            }
            v.push("#".into());
            v.push("#.x".into());
            v.push("#:x:1".into());
            v.push("#,fuzzy,x".into());
            v
        };
        let (a, b) = (c.pick(&lines).clone(), c.pick(&lines).clone());
        let d = match c.choose(3) {
            0 => format!("{a}\n{b}\nmsgid \"i\"\nmsgstr \"t\"\n"),
            1 => format!("{a}\n{b}\nmsgid \"\"\nmsgstr \"A: b\\n\"\n\nmsgid \"i\"\nmsgstr \"t\"\n"),
            _ => format!("# x\nmsgid \"h\"\nmsgstr \"t\"\n\n{a}\n\n{b}\n#~ msgid \"i\"\n#~ msgstr \"t\"\n\nmsgid \"k\"\nmsgstr \"\"\n"),
        };
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("characters", 0, "every Unicode scalar value as marker, directly after the marker, and as first and last character of the text", |c| {
        let block = c.choose(0x110000 / 64);
        let mut d = String::from("msgid \"first\"\nmsgstr \"x\"\n");
        let mut n = 0;
        for k in 0..64u32 {
            let Some(ch) = char::from_u32(block as u32 * 64 + k) else { continue };
            if ch == '\n' || ch == '~' || ch == '|' || ch == '\r' {
                continue;
            }
            n += 1;
            d.push_str(&format!("#{ch}\n#{ch} text\n#{ch}text\n#.{ch}\n# {ch}x{ch}.\n#={ch}{ch}.\nmsgid \"{n}\"\nmsgstr \"x\"\n\n"));
        }
        if n == 0 {
            return Err(Stop::Skip);
        }
        check(c, d.as_bytes()).map(|_| ())
    }));
    let (n, m) = if q { (3, 2) } else { (3, 3) };
    v.push(space("texts of two lines", 0, format!("two comment lines of 6 kinds one after the other, the first with any text of up to {n}, the second of up to {m} characters over backslash, quote, space, tab, a, comma, n, #"), move |c| {
        const CH: &[char] = &['\\', '"', ' ', 'a', '\t', ',', 'n', '#'];
        let mut d = String::new();
        for k in [n, m] {
            d.push('#');
            d.push_str(c.pick(&[" ", ".", ":", ",", "=", ""]));
            let len = c.choose(k + 1);
            for _ in 0..len {
                d.push(*c.pick(CH));
            }
            d.push('\n');
        }
        if d.starts_with("#~") || d.starts_with("#|") {
            return Err(Stop::Skip);
        }
        d.push_str("msgid \"i\"\nmsgstr \"t\"\n\n# last\nmsgid \"j\"\nmsgstr \"u\"\n");
        check(c, d.as_bytes()).map(|_| ())
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("comment lines", 0, format!("all sequences of up to {n} comment lines out of 36 (repeated texts, texts that look like other lines, lone markers) before an entry, with blank lines between them or not"), move |c| {
        const L: &[&str] = &[
            "#", "# ", "# a", "# b", "#a", "#.", "#. a", "#.a", "#. b", "#:", "#: a", "#:a b", "#: b  a", "#,", "#, a", "#,a,b", "#, fuzzy", "#=", "#= a", "#=b", "#!a", "##", "## a", "#\"a\"", "# \"a\"", "#msgid \"a\"", "# msgid \"a\"", "#. msgstr \"a\"",
            "# a\\", "#. a\\", "# \\n", "#, \"a\"", "#: \"a\"", "#-", "#\t", "#\ta",
        ];
        let k = c.choose(n + 1);
        let blank = c.flip();
        let mut d = String::from("msgid \"h\"\nmsgstr \"h\"\n");
        for _ in 0..k {
            d.push_str(c.pick(L));
            d.push('\n');
            if blank {
                d.push('\n');
            }
        }
        d.push_str("msgid \"i\"\nmsgstr \"t\"\n\nmsgid \"j\"\nmsgstr \"u\"\n");
        check(c, d.as_bytes()).map(|_| ())
    }));
    let max = if q { 3000 } else { 70000 };
    v.push(space("many comments", 0, format!("0 to 40 (and up to {max}) comment lines, all of one of 6 kinds or of two kinds in turn, numbered, equal or empty, before the header, the only entry, one entry of several, or the end"), move |c| {
        const K: &[&str] = &["#", "#.", "#:", "#,", "#=", "#!"];
        let r = ramp(40, max);
        let n = *c.pick(&r);
        let (a, b) = (*c.pick(K), *c.pick(K));
        let t = c.choose(3);
        let at = c.choose(4);
        let run: String = (0..n)
            .map(|i| {
                let k = if i % 2 == 0 { a } else { b };
                match t {
                    0 => format!("{k} c{i}\n"),
                    1 => format!("{k} c\n"),
                    _ => format!("{k}\n"),
                }
            })
            .collect();
        let d = match at {
            0 => format!("{run}msgid \"\"\nmsgstr \"A: b\\n\"\n\n# n\nmsgid \"i\"\nmsgstr \"t\"\n"),
            1 => format!("{run}msgid \"i\"\nmsgstr \"t\"\n"),
            2 => format!("# l\nmsgid \"h\"\nmsgstr \"s\"\n\n{run}msgid \"i\"\nmsgstr \"t\"\n\n# n\n#, f\nmsgid \"j\"\nmsgstr \"u\"\n"),
            _ => format!("msgid \"i\"\nmsgstr \"t\"\n{run}"),
        };
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("lengths", 0, "comment texts of every length 0..=600 and around powers of two and round numbers up to 70000, of letters, spaces inside, two- or four-byte characters, of each kind; as many flags or locations", |c| {
        let r = ramp(600, 70000);
        let n = *c.pick(&r);
        let k = *c.pick(&[' ', '.', ':', ',', '=']);
        let t = match c.choose(5) {
            0 => "x".repeat(n),
            1 => "é".repeat(n),
            2 => "\u{1F600}".repeat(n),
            3 => "a ".repeat(n),
            _ => "a,".repeat(n),
        };
        check(c, format!("#{k}{}{t}z\nmsgid \"i\"\nmsgstr \"t\"\n# last\nmsgid \"j\"\nmsgstr \"u\"\n", if k == ' ' { "" } else { " " }).as_bytes()).map(|_| ())
    }));
    v.push(space("whitespace", 0, "every whitespace character before the mark, before, inside and after the text of each kind of comment", |c| {
        let w = *c.pick(super::SPACES);
        let k = *c.pick(&["", " ", ".", ":", ",", "=", "!"]);
        let d = match c.choose(6) {
            0 => format!("{w}#{k} a\n"),
            1 => format!("#{k}{w}a\n"),
            2 => format!("#{k} a{w}\n"),
            3 => format!("#{k} a{w}b\n"),
            4 => format!("#{k}{w}\n"),
            _ => format!("#{k} a,{w}b{w},{w}c\n"),
        };
        check(c, format!("{d}msgid \"i\"\nmsgstr \"t\"\n").as_bytes()).map(|_| ())
    }));
    v.push(space("flags and locations", 0, "flag lines with all texts of up to 6 characters over a, b, comma, space, tab; location lines likewise, also two of them", move |c| {
        let k = *c.pick(&[",", ":", ", ", ": "]);
        let len = c.choose(if q { 6 } else { 7 });
        let x: String = (0..len).map(|_| *c.pick(&['a', ',', ' ', 'b', '\t'])).collect();
        let second = c.flip();
        let d = format!(
            "#{k}{x}\n{}msgid \"i\"\nmsgstr \"t\"\n",
            if second { format!("#{k}a c{x}\n") } else { String::new() }
        );
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("orders", 0, "all sequences of up to 5 comment lines of the 6 kinds before an entry with or without previous and obsolete lines: each kind is kept in order", move |c| {
        let n = c.choose(if q { 6 } else { 7 });
        let mut e = [E::simple("i", "t"), E::simple("i", "t").obsolete(), E::simple("i", "t").with_prev(Some("c"), Some("p"), None).with_ctx("x")][c.choose(3)].clone();
        for i in 0..n {
            let k = *c.pick(&[' ', '.', ':', ',', '=', '!']);
            e = e.comment(k, &format!("c{i}"));
        }
        check_entries(c, &[header(&[]), e, E::simple("next", "")]).map(|_| ())
    }));
    v
}

pub fn p04(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    fn hdr(h: usize) -> Vec<E> {
        match h {
            0 => vec![header(&[])],
            1 => vec![header(&[PF2])],
            _ => vec![header(&[PF3]).comment(',', "fuzzy").comment(' ', "header note").comment('=', "header comment").with_prev(Some("pc"), Some("pi"), Some("pp"))],
        }
    }
    static SOLO: OnceLock<Vec<Vec<UnitObs>>> = OnceLock::new();
    fn solo() -> &'static Vec<Vec<UnitObs>> {
        SOLO.get_or_init(|| {
            (0..3)
                .map(|h| {
                    menu(7)
                        .into_iter()
                        .map(|e| {
                            let mut d = hdr(h);
                            d.push(e);
                            // a reader that cannot even read this is reported by the comparison below
                            match observe(doc(&d).as_bytes()) {
                                Ok(o) if o.items.len() == 1 && o.items[0].is_ok() => o.items[0].clone().unwrap(),
                                _ => {
                                    let mut u = observe(b"msgid \"x\"\nmsgstr \"x\"\n").unwrap().items[0].clone().unwrap();
                                    u.message.id = "(the entry cannot be read alone)".into();
                                    u
                                }
                            }
                        })
                        .collect()
                })
                .collect()
        })
    }
    fn compare(c: &mut Ctx, h: usize, idx: &[usize]) -> Res {
        let m = menu(7);
        let mut d = hdr(h);
        d.extend(idx.iter().map(|&i| m[i].clone()));
        let o = run(c, doc(&d).as_bytes())?;
        ensure!(o.error().is_none(), "error: {}", o.error().unwrap().shown);
        let us = o.units();
        ensure!(us.len() == idx.len(), "{} units instead of {}", us.len(), idx.len());
        for (k, (u, &i)) in us.iter().zip(idx).enumerate() {
            if let Some(x) = model::diff(&solo()[h][i], u) {
                broken!("entry {} ({:?}) is not read as it is alone: {x}", k + 1, u.message.id);
            }
        }
        Ok(())
    }
    let n = if q { 3 } else { 4 };
    v.push(space("sequences", 0, format!("all sequences of 2 to {n} entries of the 37-entry menu under 3 headers (the longest: one header), every unit compared with the same entry read alone"), move |c| {
        let len = 2 + c.choose(n - 1);
        let h = if len == n { 0 } else { c.choose(3) };
        let m = menu(7).len();
        let idx: Vec<usize> = (0..len).map(|_| if len == 4 { c.choose(m / 2) * 2 + 1 } else { c.choose(m) }).collect();
        compare(c, h, &idx)
    }));
    v.push(space("long sequence", 0, "one catalogue in which every ordered pair (and for one header every ordered triple) of menu entries occurs consecutively", move |c| {
        let h = c.choose(3);
        let k = menu(7).len();
        let order = if h == 1 && c.choose(2) == 1 { 3 } else { 2 };
        // de Bruijn sequence
        let mut a = vec![0; k * order];
        let mut seq = vec![];
        fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
            if t > n {
                if n % p == 0 {
                    seq.extend_from_slice(&a[1..=p]);
                }
            } else {
                a[t] = a[t - p];
                db(t + 1, p, n, k, a, seq);
                for j in a[t - p] + 1..k {
                    a[t] = j;
                    db(t + 1, t, n, k, a, seq);
                }
            }
        }
        db(1, 1, order, k, &mut a, &mut seq);
        let head: Vec<usize> = seq[..order - 1].to_vec();
        seq.extend(head);
        compare(c, h, &seq)
    }));
    v.push(space("distance", 0, "an entry, then 0 to 40 (and up to 1000) plain entries, then another entry: both as alone", |c| {
        let r = ramp(20, 1000);
        let k = *c.pick(&r);
        let m = menu(7).len();
        let a = c.choose(m);
        let b = (a * 7 + 3) % m;
        let mut idx = vec![a];
        idx.extend(std::iter::repeat(0).take(k));
        idx.push(b);
        compare(c, 1, &idx)
    }));
    let top = if q { 5000 } else { 70000 };
    v.push(space("after much", 0, format!("after one of 30 predecessors (n entries of eight kinds, or one entry with n comment lines of a kind, flags, locations, pieces, escapes, characters, blank lines, blanks), n out of 0..=20 and around powers of two and round numbers up to {top}: 37 entries of the menu and 16 odd ones are read as they are alone"), move |c| {
        let kind = c.choose(30);
        let r = ramp(20, if kind < 8 { top.min(20000) } else { top });
        let n = *c.pick(&r);
        let mut d = doc(&[header(&[PF2])]);
        d.push('\n');
        let odd = (n > 3 && kind % 2 == 1) as usize;
        let one = E::simple("before", "B");
        let rep = |e: E| doc(&[e]) + "\n";
        let letters = |n: usize| (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>();
        match kind {
            0..=7 => {
                for i in 0..n {
                    let x = i.to_string();
                    d.push_str(&rep(match kind {
                        0 => E::simple(&x, "B"),
                        1 => E::simple(&x, "B").obsolete(),
                        2 => E::simple(&x, "B").comment(',', "fuzzy"),
                        3 => E::plural(&x, "Bs", &["B0", "B1"]),
                        4 => E::simple(&x, "B").comment(' ', "n").comment('.', "d").comment(':', "l:1").comment('=', "o").comment(',', "f"),
                        5 => E::simple(&x, "B").with_ctx("ctx"),
                        6 => E::simple(&x, "B").with_prev(Some("pc"), Some("pi"), Some("pp")),
                        _ => E::simple(&x, "").obsolete().with_prev(Some("pc"), None, None),
                    }));
                }
            }
            8..=13 => {
                let k = [' ', '.', ':', ',', '=', '~'][kind - 8];
                let mut e = one;
                if k == '~' {
                    e.obsolete = true;
                }
                for i in 0..n {
                    e = e.comment(k, &format!("c{i}"));
                }
                d.push_str(&rep(e));
            }
            14 => d.push_str(&rep(one.comment(',', &(0..n).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ")))),
            15 => d.push_str(&rep(one.comment(':', &(0..n).map(|i| format!("f:{i}")).collect::<Vec<_>>().join(" ")))),
            16..=21 => {
                let p: Str = (0..n + 1).map(|i| format!("p{i}")).collect();
                let mut e = one;
                match kind {
                    16 => e.id = p,
                    17 => e.body = Body::Simple(p),
                    18 => e.ctx = Some(p),
                    19 => e.pctx = Some(p),
                    20 => {
                        e.pid = Some(p.clone());
                        e.ppl = Some(p);
                        e.obsolete = true;
                    }
                    _ => e.body = Body::Plural(p.clone(), vec![p.clone(), p]),
                }
                d.push_str(&rep(e));
            }
            22 => d.push_str(&rep(E::simple("before", &"\n\t\"\\".repeat(n / 4 + odd)))),
            23 => d.push_str(&rep(E::simple(&letters(n + 1), "B"))),
            24 => d.push_str(&rep(E::simple("before", &letters(n)).obsolete())),
            25 => d.push_str(&rep(one.comment(' ', &letters(n)).comment('.', &letters(n)).comment('=', &letters(n)))),
            26 => d.push_str(&rep(one.with_ctx(&"é".repeat(n)).with_prev(Some(&letters(n)), Some(&letters(n)), None))),
            27 => d.push_str(&(rep(one) + &"\n".repeat(n))),
            28 => d.push_str(&(rep(one).replace("msg", &(" ".repeat(n) + "msg")))),
            _ => d.push_str(&(rep(one).replace('\n', &(" ".repeat(n) + "\r\n")))),
        }
        static PROBES: OnceLock<Vec<(String, Result<UnitObs, String>)>> = OnceLock::new();
        let probes = PROBES.get_or_init(|| {
            let mut v: Vec<String> = menu(7).into_iter().map(|e| doc(&[e])).collect();
            for x in [
                "# note  \n#.  dev\t \n#= x \u{a0}\n#,  f1 ,, f2 \n#:  a:1\t\tb:2  \nmsgid \"x\"\nmsgstr \"y\"\n", "#~ odd comment\n#~ msgid \"x\"\n#~ msgstr \"y\"\n", "#| odd comment\nmsgid \"x\"\nmsgstr \"y\"\n", "#\n#.\n#,\n#:\n#=\nmsgid \"x\"\nmsgstr \"y\"\n",
                "#,fuzzy,\n#,Fuzzy\nmsgid \"x\"\nmsgstr \"\"\n", "# msgid \"x\"\n#msgid \"x\"\nmsgid \"x\"\nmsgstr \"y\"\n", "\t msgid\t\"x\"  \n  \"\\n\"\t\nmsgstr\"y\" \n", "# a\r\nmsgid \"x\"\r\nmsgstr \"y\"\r\n", "msgid \" \"\nmsgstr \" \"\n", "msgctxt \" \"\nmsgid \"\\n\"\nmsgstr \"\\n\"\n",
                "msgid \"a \\\"q\\\" \\x \\\\n \"\nmsgstr \"\" \"\n", "#~| msgctxt \"\"\n#~| msgid \"\"\n#~ msgctxt \"\"\n#~ msgid \"x\"\n#~ \"\"\n#~ msgstr \"\"\n#~ \"\"\n", "msgid \"x\"\nmsgid_plural \"\"\nmsgstr[0] \"\"\n", "#é é\n#\u{1f600}\nmsgid \"é\u{301}\"\nmsgstr \"\u{feff}\u{0}\"\n",
                "#| msgid \"x\"\nmsgid \"x\"\nmsgstr \"x\"\n", "#: a b a b\n#, a, b, a\nmsgid \"x\"\nmsgid_plural \"x\"\nmsgstr[0] \"x\"\nmsgstr[1] \"x\"\n",
            ] {
                v.push(x.to_string());
            }
            v.into_iter()
                .map(|x| {
                    let r = match observe((doc(&[header(&[PF2])]) + "\n" + &x).as_bytes()) {
                        Ok(o) if o.items.len() == 1 => o.items[0].clone().map_err(|e| e.shown.clone()),
                        Ok(o) => Err(format!("{} items", o.items.len())),
                        Err(p) => Err(p),
                    };
                    (x, r)
                })
                .collect()
        });
        let first = if kind < 8 { n } else { 1 };
        for (x, alone) in probes {
            if alone.is_ok() {
                d.push('\n');
                d.push_str(x);
            }
        }
        let o = run(c, d.as_bytes())?;
        ensure!(o.error().is_none(), "error after {n} (predecessor {kind}): {}", o.error().unwrap().shown);
        let us = o.units();
        let want: Vec<_> = probes.iter().filter(|p| p.1.is_ok()).collect();
        ensure!(us.len() == first + want.len(), "{} units instead of {}", us.len(), first + want.len());
        for (u, (x, alone)) in us[first..].iter().zip(want) {
            if let Some(m) = model::diff(alone.as_ref().unwrap(), u) {
                broken!("the entry {x:?} is not read as it is alone: {m}");
            }
        }
        Ok(())
    }));
    v.push(space("probes", 0, "an entry with any combination of present fields, bodies, comment kinds and marks (also with empty values), then two of 7 probe entries, with or without blank lines between them: the probes are read as they are alone", |c| {
        fn probes() -> Vec<E> {
            vec![
                E::simple("probe", "p"),
                E::simple("probe", ""),
                E::plural("probe", "probes", &["p0"]),
                E::plural("probe", "probes", &["p0", "p1"]).with_ctx(""),
                E::simple("probe", "p").obsolete(),
                E::simple("probe", "p").with_prev(Some("x"), None, None),
                E::simple("probe", "p").comment(' ', "").with_prev(None, Some("x"), None),
            ]
        }
        static ALONE: OnceLock<Vec<Option<UnitObs>>> = OnceLock::new();
        let alone = ALONE.get_or_init(|| {
            probes()
                .into_iter()
                .map(|e| match observe(doc(&[header(&[PF2]), e]).as_bytes()) {
                    Ok(o) if o.items.len() == 1 => o.items[0].clone().ok(),
                    _ => None,
                })
                .collect()
        });
        let x = |c: &mut Ctx, t: &str| [None, Some(s("")), Some(s(t))][c.choose(3)].clone();
        let mut e = match c.choose(4) {
            0 => E::simple("source", "target"),
            1 => E::simple("source", ""),
            2 => E::plural("source", "sources", &["target", "targets"]),
            _ => E::plural("source", "", &[""]),
        };
        e.pctx = x(c, "old context");
        e.pid = x(c, "old source");
        if e.pid.is_some() {
            e.ppl = x(c, "old sources");
        }
        e.ctx = x(c, "context");
        e.obsolete = c.flip();
        for (k, t) in [(' ', "n"), (',', "fuzzy, a"), (':', "l")] {
            if c.flip() {
                e = e.comment(k, t).comment('.', t).comment('=', t);
            }
        }
        let ps = probes();
        let (a, b) = (c.choose(ps.len()), c.choose(ps.len()));
        let sep = ["\n", ""][c.choose(2)];
        let d = [header(&[PF2]), e, ps[a].clone(), ps[b].clone()].iter().map(|e| doc(&[e.clone()])).collect::<Vec<_>>().join(sep);
        let o = run(c, d.as_bytes())?;
        let us = o.units();
        ensure!(us.len() == 3 && o.error().is_none(), "{} units, error {:?}", us.len(), o.error().map(|e| &e.shown));
        for (u, k) in us[1..].iter().zip([a, b]) {
            let Some(w) = &alone[k] else { broken!("the probe {k} cannot be read alone") };
            if let Some(x) = model::diff(w, u) {
                broken!("an entry is not read as it is alone: {x}");
            }
        }
        Ok(())
    }));
    v.push(space("separators", 0, "all sequences of 2 or 3 entries of the menu with nothing, blank lines, or a comment of the next entry between them", move |c| {
        let m = menu(7);
        let k = 2 + c.choose(if q { 1 } else { 2 });
        let sep = *c.pick(&["", "\n\n\n", " \t\n"]);
        let idx: Vec<usize> = (0..k).map(|_| c.choose(m.len())).collect();
        let mut d = doc(&hdr(1));
        for &i in &idx {
            d.push_str(sep);
            d.push_str(&doc(&[m[i].clone()]));
        }
        let o = run(c, d.as_bytes())?;
        ensure!(o.error().is_none(), "error: {}", o.error().unwrap().shown);
        let us = o.units();
        ensure!(us.len() == idx.len(), "{} units instead of {}", us.len(), idx.len());
        for (u, &i) in us.iter().zip(&idx) {
            if let Some(x) = model::diff(&solo()[1][i], u) {
                broken!("an entry ({:?}) is not read as it is alone: {x}", u.message.id);
            }
        }
        Ok(())
    }));
    v.push(lines::sequences("lines", GOOD, 0, if q { 3 } else { 5 }, &["# n\n#, fuzzy\n#| msgid \"p\"\nmsgctxt \"c\"\nmsgid \"f\"\nmsgstr \"F\"\n\n", "#~| msgctxt \"p\"\n#~ msgid \"f\"\n#~ msgid_plural \"fs\"\n#~ msgstr[0] \"F\"\n"], &["", "msgid \"last\"\nmsgstr \"L\"\n"], lines::plain));
    v.push(space("repetition", 0, "the same entry 2, 3, 50 times", |c| {
        let n = *c.pick(&[2, 3, 50]);
        let h = c.choose(3);
        let a = c.choose(menu(7).len());
        compare(c, h, &vec![a; n])
    }));
    v
}

pub fn p05(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    const M: [&str; 4] = ["", "#| ", "#~ ", "#~| "];
    const SHAPES: &[&[&str]] = &[
        &["msgid", "", "msgstr", ""],
        &["msgctxt", "msgid", "msgstr"],
        &["msgid", "msgid_plural", "msgstr[0]", "msgstr[1]"],
        &["msgid", "msgid", "msgstr"],
        &["msgctxt", "msgid", "msgctxt", "msgid", "msgstr"],
        &["msgctxt", "", "msgid", "", "msgid", "msgstr"],
        &["msgid", "msgid_plural", "msgid", "msgid_plural", "msgstr[0]"],
        &["msgid", "msgstr", "msgid", "msgstr", "msgid", "msgstr"],
        &["msgctxt", "msgid", "msgid_plural", "msgctxt", "msgid", "msgstr"],
        &["msgid", "", "msgid_plural", "msgstr[0]", "", "msgstr[1]"],
    ];
    v.push(space("marks", 0, "10 line shapes of 3 to 6 lines, every assignment of the four marks to the lines, between two ordinary entries or first in the catalogue or after a header", |c| {
        let sh = *c.pick(SHAPES);
        let mut d = match c.choose(3) {
            0 => String::new(),
            1 => "msgid \"\"\nmsgstr \"A: b\\n\"\n\n".into(),
            _ => "msgid \"before\"\nmsgstr \"B\"\n\n".to_string(),
        };
        for (i, k) in sh.iter().enumerate() {
            let m = *c.pick(&M);
            d.push_str(&format!("{m}{k}{}\"v{i}\"\n", if k.is_empty() { "" } else { " " }));
        }
        d.push_str("\nmsgid \"after\"\nmsgstr \"A\"\n");
        check(c, d.as_bytes()).map(|_| ())
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("marked lines", 0, format!("all sequences of up to {n} lines over 10 marked and unmarked lines (msgid, msgstr, continuation; 4 marks)"), move |c| {
        const L: &[&str] = &[
            "msgid", "msgstr", "", "#~ msgid", "#~ msgstr", "#~ ", "#| msgid", "#| ", "#~| msgid", "#~| ",
        ];
        let len = c.choose(n + 1);
        let mut d = String::from("msgid \"before\"\nmsgstr \"B\"\n\n");
        for i in 0..len {
            let k = *c.pick(L);
            let sp = if k.ends_with(' ') || k.is_empty() { "" } else { " " };
            d.push_str(&format!("{k}{sp}\"v{i}\"\n"));
        }
        check(c, d.as_bytes()).map(|_| ())
    }));
    let n = if q { 5 } else { 6 };
    v.push(space("mark spellings", 0, format!("all sequences of up to {n} characters over #, ~, |, space, tab and a no-break space before each of 9 lines of an entry, inside a plain or an obsolete catalogue"), move |c| {
        let len = c.choose(n + 1);
        let mut x = String::new();
        for _ in 0..len {
            x.push(*c.pick(&['#', '~', '|', ' ', '\t', '\u{a0}']));
        }
        let k = *c.pick(&["msgctxt", "msgid", "msgid_plural", "msgstr", "msgstr[0]", "msgstr[1]", "", "\"v\" ", "fuzzy "]);
        let m = *c.pick(&["", "#~ "]);
        let d = match c.choose(3) {
            0 => format!("{m}msgid \"before\"\n{m}msgstr \"B\"\n\n{x}{k}\"v\"\n{m}msgid \"i\"\n{m}msgstr \"t\"\n"),
            1 => format!("{m}msgctxt \"c\"\n{m}msgid \"i\"\n{x}{k}\"v\"\n{m}msgstr \"t\"\n\n{m}msgid \"after\"\n{m}msgstr \"A\"\n"),
            _ => format!("{m}msgid \"i\"\n{m}msgid_plural \"p\"\n{m}msgstr[0] \"t\"\n{x}{k}\"v\"\n\n{m}msgid \"after\"\n{m}msgstr \"A\"\n"),
        };
        check(c, d.as_bytes()).map(|_| ())
    }));
    const MARKED: &[&str] = &[
        "msgid \"%\"", "msgstr \"%\"", "\"%\"", "msgctxt \"%\"", "msgid_plural \"%\"", "msgstr[0] \"%\"", "#~ msgid \"%\"", "#~ msgstr \"%\"", "#~ \"%\"", "#~ msgctxt \"%\"", "#~ msgid_plural \"%\"", "#~ msgstr[0] \"%\"", "#| msgid \"%\"", "#| msgctxt \"%\"",
        "#| msgid_plural \"%\"", "#| \"%\"", "#| msgstr \"%\"", "#| msgstr[0] \"%\"", "#~| msgid \"%\"", "#~| msgctxt \"%\"", "#~| msgid_plural \"%\"", "#~| \"%\"", "#~| msgstr \"%\"", "#~ %", "#| %", "#~| %", "#~ # %", "# ~ msgid \"%\"", "#, fuzzy", "",
        "#~# %", "##~ msgid \"%\"", "# | msgid \"%\"", "#~|msgid \"%\"", "#~msgid \"%\"", "#|msgid \"%\"", "#~  | msgid \"%\"", "#|~ msgid \"%\"", "#~~ msgid \"%\"", "#|| msgid \"%\"",
    ];
    v.push(lines::sequences("all marks", MARKED, 0, if q { 4 } else { 5 }, &["msgid \"first\"\nmsgstr \"F\"\n"], &["msgid \"last\"\nmsgstr \"L\"\n"], lines::plain));
    v.push(lines::sequences("obsolete beginnings", MARKED, 0, if q { 3 } else { 4 }, &["", "#~ msgid \"first\"\n#~ msgstr \"F\"\n", "#| msgctxt \"pc\"\n#| msgid \"pi\"\nmsgctxt \"c\"\nmsgid \"i\"\n", "#~| msgctxt \"pc\"\n#~| msgid \"pi\"\n#~ msgctxt \"c\"\n#~ msgid \"i\"\n", "#~ msgid \"i\"\n#~ msgid_plural \"p\"\n#~ msgstr[0] \"t\"\n", "#| msgid \"pi\"\n#| msgid_plural \"pp\"\n"], &["", "#~ msgid \"last\"\n#~ msgstr \"L\"\n"], lines::plain));
    v.push(space("same content", 0, "every menu entry with and without the obsolete mark (and with tight, wide or tabbed marks): same unit apart from the mark", |c| {
        let m = menu(3);
        let e = E { obsolete: false, ..c.pick(&m).clone() };
        let o = E { obsolete: true, ..e.clone() };
        let h = header([&[][..], &[PF2][..]][c.choose(2)]);
        let sep = ["#~ ", "#~", "#~  ", "#~\t"][c.choose(4)];
        let text = doc(&[h.clone(), o]).replace("#~| ", if sep == "#~" { "#~|" } else { "#~|  " }).replace("\n#~ ", &format!("\n{sep}"));
        let a = run(c, doc(&[h, e]).as_bytes())?;
        let b = run(c, text.as_bytes())?;
        ensure!(a.items.len() == 1 && b.items.len() == 1 && a.error().is_none() && b.error().is_none(), "an entry of the menu cannot be read");
        let (mut a, b) = (a.units()[0].clone(), b.units()[0].clone());
        ensure!(!a.obsolete && b.obsolete, "obsolete is {} without and {} with the mark", a.obsolete, b.obsolete);
        a.obsolete = true;
        if let Some(x) = model::diff(&a, &b) {
            broken!("with the obsolete mark, {x}");
        }
        Ok(())
    }));
    v.push(space("previous lines", 0, "previous context, source and plural source absent, empty, or cut into up to 3 lines, obsolete or not, before an entry with or without context: only the previous values change", |c| {
        let vals = |c: &mut Ctx, x: &str| -> Option<Str> {
            match c.choose(4) {
                0 => None,
                1 => Some(s("")),
                2 => Some(s(x)),
                _ => Some(vec![String::new(), format!("{x}\n"), "end".into()]),
            }
        };
        let mut e = if c.flip() { E::simple("id", "text") } else { E::plural("id", "ids", &["t0", "t1"]) };
        e.pctx = vals(c, "pc");
        e.pid = vals(c, "pi");
        e.ppl = vals(c, "pp");
        if e.pid.is_none() && e.ppl.is_some() {
            return Err(Stop::Skip);
        }
        e.ctx = vals(c, "c");
        e.obsolete = c.flip();
        let fuzzy = c.flip();
        if fuzzy {
            e = e.comment(',', "fuzzy");
        }
        let other = E::simple("other", "o").with_ctx("oc");
        let mut d = vec![header(&[]), other.clone(), e, other];
        if c.flip() {
            d.remove(0);
            d.remove(0);
        }
        check_entries(c, &d).map(|_| ())
    }));
    v
}

pub fn p06(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    const FLAGS: &[&str] = &[
        "fuzzy", "c-format", "Fuzzy", "FUZZY", "fuzz", "fuzzyy", "no-fuzzy", "fuzzy-x", "fu zzy", "fuzzy fuzzy", "unfuzzy", "", "\"fuzzy\"", "fuzzy:", "#fuzzy", "range: 0..10",
    ];
    fn bodies() -> Vec<(&'static str, E)> {
        let mut v: Vec<(&'static str, E)> = vec![];
        for t in ["", "x", " ", "\n", "0"] {
            v.push((PF2, E::simple("id", t)));
        }
        for m in 0..2 {
            v.push((PF1, E::plural("id", "ids", &[["", "x"][m & 1]])));
        }
        for m in 0..4usize {
            v.push((PF2, E::plural("id", "ids", &[["", "x"][m & 1], ["", "y"][m >> 1 & 1]])));
        }
        for m in 0..8usize {
            v.push((PF3, E::plural("id", "ids", &[["", "x"][m & 1], ["", "y"][m >> 1 & 1], ["", "z"][m >> 2 & 1]])));
        }
        v.push((PF3, E::plural("id", "ids", &[""])));
        v.push((PF3, E::plural("id", "ids", &["", "x"])));
        v
    }
    v.push(space("flags and texts", 0, "one flag line of up to 2 of 16 near-miss flags with 4 separators, on 21 bodies (every blank pattern of up to 3 plural texts), obsolete or not", |c| {
        let bs = bodies();
        let (pf, e) = c.pick(&bs).clone();
        let mut e = E { obsolete: c.flip(), ..e };
        match c.choose(3) {
            0 => (),
            1 => e = e.comment(',', c.pick(FLAGS)),
            _ => {
                let a = *c.pick(FLAGS);
                let b = *c.pick(FLAGS);
                let sep = *c.pick(&[", ", ",", " ,\t", ",,"]);
                e = e.comment(',', &format!("{a}{sep}{b}"));
            }
        }
        let d = [header(&[pf]), e];
        // the expectation is spelled out here, independently of the reference reader
        let want = d[1].comments.iter().flat_map(|(_, t)| t.split(',')).any(|f| f.trim() == "fuzzy");
        let blank = match &d[1].body {
            Body::Simple(t) => t.concat().is_empty(),
            Body::Plural(_, ts) => ts.iter().all(|t| t.concat().is_empty()),
        };
        let o = check_entries(c, &d)?;
        let u = o.units()[0].clone();
        let st = if want { 1 } else if blank { 0 } else { 2 };
        ensure!(u.state == st && u.translated == (st == 2), "state {} translated {}, should be {st}", u.state, u.translated);
        Ok(())
    }));
    let n = if q { 3 } else { 4 };
    v.push(space("comment lines", 0, format!("up to {n} comment lines out of 14 (the word fuzzy in every kind of comment), on 5 bodies, obsolete or not, after a fuzzy or plain entry"), move |c| {
        const L: &[(char, &str)] = &[
            (',', "fuzzy"), (',', "c-format"), (',', "a, fuzzy, b"), (',', "fuzzy,"), (',', ""), (' ', "fuzzy"), ('.', "fuzzy"), (':', "fuzzy"), ('=', "fuzzy"), (' ', ", fuzzy"), ('.', ", fuzzy"),
            ('!', "fuzzy"), (',', "xfuzzy"), (',', "Fuzzy"),
        ];
        let bs = [E::simple("id", ""), E::simple("id", "x"), E::plural("id", "ids", &["", ""]), E::plural("id", "ids", &["", "x"]), E::simple("id", "x").with_prev(None, Some("old"), None)];
        let mut e = E { obsolete: c.flip(), ..c.pick(&bs).clone() };
        let k = c.choose(n + 1);
        for _ in 0..k {
            let (a, b) = *c.pick(L);
            e = e.comment(a, b);
        }
        let before = if c.flip() { E::simple("before", "b").comment(',', "fuzzy") } else { E::simple("before", "b") };
        check_entries(c, &[header(&[]), before, e, E::simple("after", "a")]).map(|_| ())
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("flag texts", 0, format!("all flag lines of up to {n} tokens over fuzzy, f, comma, space, x, tab, y; also cut over two lines"), move |c| {
        let k = c.choose(n + 1);
        let mut e = E::simple("id", ["x", ""][c.choose(2)]);
        let cut = c.choose(2) * 2;
        let mut x = String::new();
        for i in 0..k {
            if cut > 0 && i == cut {
                e = e.comment(',', x.trim_start());
                x.clear();
            }
            x.push_str(*c.pick(&["fuzzy", ",", " ", "x", "\t", "fuzz", "y"]));
        }
        let x = x.trim_start().to_string();
        e = e.comment(',', &x);
        check_entries(c, &[header(&[]), e]).map(|_| ())
    }));
    v.push(space("neighbours of fuzzy", 0, "the word fuzzy with any of 300 characters (ASCII, Latin-1, white space and look-alikes) before, after or instead of one of its letters", |c| {
        let k = c.choose(256 + super::SPACES.len() + 12);
        let ch = if k < 256 { k as u8 as char } else if k < 256 + super::SPACES.len() { super::SPACES[k - 256] } else { ['ｆ', 'ſ', 'ﬁ', 'ｙ', '\u{301}', '\u{200d}', 'Ｆ', 'ｚ', 'у', 'İ', '\u{2c}', '，'][k - 256 - super::SPACES.len()] };
        if ch == '\n' || ch == '\r' {
            return Err(Stop::Skip);
        }
        let at = c.choose(11);
        let mut w: Vec<char> = "fuzzy".chars().collect();
        if at < 6 {
            w.insert(at, ch);
        } else {
            w[at - 6] = ch;
        }
        let w: String = w.into_iter().collect();
        let w = w.trim_start().to_string();
        let e = E::simple("id", ["x", ""][c.choose(2)]);
        let e = match c.choose(3) {
            0 => e.comment(',', &w),
            1 => e.comment(',', &format!("a, {w}")),
            _ => e.comment(',', &format!("{w}, b")),
        };
        check_entries(c, &[header(&[]), e]).map(|_| ())
    }));
    v.push(space("texts", 0, "4 plural texts, each absent, empty, of one character out of 34 (white space and look-alikes) or ordinary; the blank ones in every combination", |c| {
        let e = if c.flip() {
            E::simple("id", &c.pick(super::SPACES).to_string())
        } else {
            let k = 1 + c.choose(4);
            let t: Vec<String> = (0..k).map(|_| match c.choose(4) { 0 => String::new(), 1 => "x".into(), 2 => " ".into(), _ => "\n".into() }).collect();
            E::plural("id", "ids", &t.iter().map(|x| x.as_str()).collect::<Vec<_>>())
        };
        let e = E { obsolete: c.flip(), ..e };
        let e = if c.flip() { e.comment(',', "fuzzy") } else { e };
        check_entries(c, &[header(&["Plural-Forms: nplurals=4; plural=n;"]), e]).map(|_| ())
    }));
    v.push(space("many flags", 0, "the flag fuzzy at each position among 0 to 20 (and up to 300) other flags on one or several lines, on a blank and a translated body", |c| {
        let r = ramp(20, 300);
        let n = *c.pick(&r);
        let pos = c.choose(n + 2); // n+1: absent
        if n > 40 && pos > 3 && pos + 3 < n {
            return Err(Stop::Skip);
        }
        let several = c.flip();
        let mut f: Vec<String> = (0..n).map(|i| format!("flag-{i}")).collect();
        if pos <= n {
            f.insert(pos, "fuzzy".into());
        }
        let mut e = E::simple("id", ["x", ""][c.choose(2)]);
        if several {
            for x in &f {
                e = e.comment(',', x);
            }
        } else {
            e = e.comment(',', &f.join(", "));
        }
        check_entries(c, &[header(&[]), e]).map(|_| ())
    }));
    v
}
