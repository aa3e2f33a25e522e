//! The vocabulary: inputs made of the words and numbers that the library's own source speaks of, besides those that
//! are common in catalogues. What a reader treats specially, it has to name; so every string, character and number
//! literal of the source tree under check (tests aside) becomes part of what is enumerated. What is right is decided
//! by the reference as everywhere else.

use crate::engine::*;
use crate::gen::*;
use crate::{broken, ensure};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

/// Words of the trade, whatever the source says.
const TRADE: &[&str] = &[
    "TRANSLATORS:", "Translators:", "translators: note", "xgettext:no-c-format", "FIXME", "TODO", "Copyright (C) YEAR", "SOME DESCRIPTIVE TITLE.", "EMAIL@ADDRESS", "fuzzy", "no-fuzzy", "no-wrap", "wrap", "c-format", "no-c-format", "possible-c-format",
    "range: 0..5", "markdown-text", "obsolete", "untranslated", "translated", "header", "msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "domain", "previous", "Plural-Forms", "Plural-Forms:", "nplurals=2; plural=n;", "plural=", "Language: de", "Language-Team",
    "Content-Type: text/plain; charset=UTF-8", "charset", "CHARSET", "MIME-Version: 1.0", "PO-Revision-Date: 2024-01-02 03:04+0500", "X-Generator: Poedit 3.0", "translator-credits", "_: KDE context\n", "_n: one\nmany", "Context|Source", "ctx\u{4}id", "\u{4}", "\u{feff}", "yes|no",
    "a.c:12", "a.c 12", "File: a.c, line: 12", "\u{2068}a b.c\u{2069}:1", "http://example.org/?a=b#c", "C:\\dir\\new", "%s", "%1$s", "%n", "%%", "{n}", "${x}", "&amp;", "<b>", "@x@", "&File", "_File", "...", "\u{2026}", "\u{a0}:", "\u{ab}\u{a0}x\u{a0}\u{bb}",
    "\u{200e}", "\u{200f}", "\u{ad}", "-", "--", "---", "<<<<<<< HEAD", "=======", ">>>>>>> x", "//", "/* x */", ";", "#", "#:", "~", "|", "0", "1", "2", "-1", "n", "C", "POSIX", "en", "en_US.UTF-8", "None", "null", "nil", "true", "\\N", "\u{1a}", "\0",
];

/// Literals of the sources: strings (whole, and the runs of letters and of other characters in them), characters, numbers.
#[derive(Default)]
struct Lits {
    words: BTreeSet<String>,
    nums: BTreeSet<u64>,
}

fn escapes(x: &str, raw: bool) -> String {
    // what the literal stands for; in a raw one (a regular expression, mostly) only the escapes for characters
    let mut o = String::new();
    let ch: Vec<char> = x.chars().collect();
    let mut i = 0;
    let mut bytes: Vec<u8> = vec![];
    let flush = |b: &mut Vec<u8>, o: &mut String| {
        if !b.is_empty() {
            match std::str::from_utf8(b) {
                Ok(t) => o.push_str(t),
                Err(_) => o.extend(b.iter().map(|x| *x as char)),
            }
            b.clear();
        }
    };
    while i < ch.len() {
        if ch[i] != '\\' || i + 1 >= ch.len() {
            flush(&mut bytes, &mut o);
            o.push(ch[i]);
            i += 1;
            continue;
        }
        let k = ch[i + 1];
        if matches!(k, 'u' | 'x' | 'U') {
            let braced = ch.get(i + 2) == Some(&'{');
            let from = i + 2 + braced as usize;
            let max = if braced { 6 } else if k == 'x' { 2 } else if k == 'u' { 4 } else { 8 };
            let mut to = from;
            while to < ch.len() && to < from + max && ch[to].is_ascii_hexdigit() {
                to += 1;
            }
            let hex: String = ch[from..to].iter().collect();
            if let Some(v) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                if k == 'x' && !braced && !raw {
                    bytes.push(v as u32 as u8);
                } else {
                    flush(&mut bytes, &mut o);
                    o.push(v);
                }
                i = to + (braced && ch.get(to) == Some(&'}')) as usize;
                continue;
            }
        }
        flush(&mut bytes, &mut o);
        if raw {
            o.push('\\');
            o.push(k);
        } else {
            match k {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                '0' => o.push('\0'),
                '\n' => (),
                _ => o.push(k),
            }
        }
        i += 2;
    }
    flush(&mut bytes, &mut o);
    o
}

impl Lits {
    fn string(&mut self, x: &str, raw: bool) {
        let x = escapes(x, raw);
        let mut add = |w: &str| {
            if !w.is_empty() && w.len() <= 48 {
                self.words.insert(w.to_string());
            }
        };
        add(&x);
        for alnum in [true, false] {
            for run in x.split(|ch: char| (ch.is_alphanumeric() || matches!(ch, '_' | '-')) != alnum) {
                add(run);
            }
        }
        for ch in x.chars().filter(|ch| !ch.is_ascii()) {
            add(&ch.to_string());
        }
        for run in x.split_whitespace() {
            add(run);
        }
        for run in x.split(|ch: char| !ch.is_ascii_digit()) {
            if let Ok(n) = run.parse() {
                self.nums.insert(n);
            }
        }
    }
    fn file(&mut self, text: &str) {
        let ch: Vec<char> = text.chars().collect();
        let at = |i: usize| ch.get(i).copied().unwrap_or('\0');
        let mut i = 0;
        let mut test = 0; // 1: a test item was announced; then the depth of its braces, plus one
        while i < ch.len() {
            let x = ch[i];
            if x == '/' && at(i + 1) == '/' {
                while i < ch.len() && ch[i] != '\n' {
                    i += 1;
                }
            } else if x == '/' && at(i + 1) == '*' {
                i += 2;
                while i < ch.len() && !(ch[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            } else if x == '#' && ch[i..].iter().take(12).collect::<String>() == "#[cfg(test)]" {
                test = 1;
                i += 12;
            } else if x == '"' || (x == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) && !(i > 0 && (ch[i - 1].is_alphanumeric() && ch[i - 1] != 'b'))) {
                let raw = x == 'r';
                let mut hashes = 0;
                i += raw as usize;
                while at(i) == '#' {
                    hashes += 1;
                    i += 1;
                }
                if at(i) != '"' {
                    continue;
                }
                i += 1;
                let from = i;
                while i < ch.len() {
                    if !raw && ch[i] == '\\' {
                        i += 2;
                        continue;
                    }
                    if ch[i] == '"' && (1..=hashes).all(|k| at(i + k) == '#') {
                        break;
                    }
                    i += 1;
                }
                let lit: String = ch[from.min(ch.len())..i.min(ch.len())].iter().collect();
                i += 1 + hashes;
                if test == 0 {
                    self.string(&lit, raw);
                }
            } else if x == '\'' {
                let to = if at(i + 1) == '\\' { (i + 3..i + 14).find(|k| at(*k) == '\'') } else { Some(i + 2).filter(|k| at(*k) == '\'') };
                match to {
                    Some(to) if to < ch.len() => {
                        let lit: String = ch[i + 1..to].iter().collect();
                        if test == 0 {
                            let w = escapes(&lit, false);
                            self.words.insert(w);
                        }
                        i = to + 1;
                    }
                    _ => i += 1,
                }
            } else if x.is_ascii_digit() {
                let from = i;
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                if test == 0 && !(from > 0 && (ch[from - 1].is_alphanumeric() || ch[from - 1] == '_')) {
                    let lit: String = ch[from..i].iter().filter(|k| **k != '_').collect();
                    let (body, radix) = match lit.get(..2) {
                        Some("0x") => (&lit[2..], 16),
                        Some("0b") => (&lit[2..], 2),
                        Some("0o") => (&lit[2..], 8),
                        _ => (&lit[..], 10),
                    };
                    let end = if radix == 16 { body.len() } else { body.find(|k: char| !k.is_ascii_digit()).unwrap_or(body.len()) };
                    if let Ok(n) = u64::from_str_radix(&body[..end], radix) {
                        self.nums.insert(n);
                        if let (true, Some(k)) = (n < 0x110000, char::from_u32(n as u32)) {
                            if radix == 16 {
                                self.words.insert(k.to_string());
                            }
                        }
                    }
                }
            } else {
                if test == 1 && x == ';' {
                    test = 0;
                }
                if test >= 1 && x == '{' {
                    test += 1;
                }
                if test > 1 && x == '}' {
                    test -= 1;
                    if test == 1 {
                        test = 0;
                    }
                }
                // a name may be no literal, but what follows letters is none either
                if x.is_alphabetic() || x == '_' {
                    while at(i + 1).is_alphanumeric() || at(i + 1) == '_' {
                        i += 1;
                        if at(i + 1) == '"' && matches!(ch[i], 'b' | 'r') {
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
    }
    fn dir(&mut self, d: &Path) {
        let mut l: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).collect();
        l.sort();
        for p in l {
            if p.is_dir() {
                self.dir(&p);
            } else if matches!(p.extension().and_then(|e| e.to_str()), Some("rs" | "lalrpop")) {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    self.file(&t);
                }
            }
        }
    }
}

fn lits() -> &'static (Vec<String>, Vec<u64>) {
    static L: OnceLock<(Vec<String>, Vec<u64>)> = OnceLock::new();
    L.get_or_init(|| {
        let mut l = Lits::default();
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        l.dir(&Path::new(&root).join("src"));
        let mut w: Vec<String> = l.words.into_iter().collect();
        w.sort_by_key(|x| (x.len(), x.clone()));
        w.truncate(400);
        (w, l.nums.into_iter().take(200).collect())
    })
}
/// the words of the source
pub fn source() -> &'static [String] {
    &lits().0
}
/// the words of the source and of the trade
pub fn words() -> &'static [String] {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let mut w: Vec<String> = source().to_vec();
        for t in TRADE {
            if !w.iter().any(|x| x == t) {
                w.push(t.to_string());
            }
        }
        w
    })
}
/// the numbers of the source (those above 1), and their neighbours
pub fn numbers() -> &'static [u64] {
    static N: OnceLock<Vec<u64>> = OnceLock::new();
    N.get_or_init(|| {
        let mut s = BTreeSet::new();
        for n in lits().1.iter().filter(|n| **n > 1) {
            s.extend([n - 1, *n, n.saturating_add(1)]);
        }
        s.into_iter().collect()
    })
}

fn cased(w: &str, how: usize) -> Option<String> {
    let x = match how {
        0 => w.to_string(),
        1 => w.to_uppercase(),
        2 => w.to_lowercase(),
        _ => {
            let mut i = w.chars();
            i.next().map(|k| k.to_uppercase().collect::<String>() + &i.as_str().to_lowercase()).unwrap_or_default()
        }
    };
    if how > 0 && x == w {
        None
    } else {
        Some(x)
    }
}

/// words of the source that the pinned source did not have
pub fn new() -> &'static [String] {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    N.get_or_init(|| {
        let old: BTreeSet<&str> = include_str!("../words.txt").lines().collect();
        let mut n: Vec<String> = source().iter().filter(|x| !old.contains(format!("{x:?}").as_str()) && !TRADE.contains(&x.as_str())).cloned().collect();
        n.truncate(24);
        n
    })
}
/// what a word is joined with, if not with another word
const PARTNERS: &[&str] = &["x", "X y", " ", "\n", "\\", "\"", "1", ":", "#", "a, b", "\u{e9}", ";"];

/// two words to be put together
fn pair(c: &mut Ctx) -> Result<(String, String), Stop> {
    let (n, w) = (new(), words());
    let deep = c.thorough();
    let k = c.choose(3);
    let (a, b) = if k == 2 {
        (c.pick(w).clone(), PARTNERS[c.choose(PARTNERS.len())].to_string())
    } else if k == 1 && deep {
        (c.pick(source()).clone(), c.pick(source()).clone())
    } else if k == 0 && !n.is_empty() {
        (c.pick(n).clone(), c.pick(w).clone())
    } else {
        return Err(Stop::Skip);
    };
    Ok(if k != 1 && c.flip() { (b, a) } else { (a, b) })
}
const PAIRS: &str = "every word of the vocabulary with 12 others in either order; every word that the pinned source does not have, with every word; thorough: every two words of the source";
const TEXTS: &str = "every word of the vocabulary (the literals of the library's source, and what is common in catalogues) in 4 letter cases, alone or in 9 ways of writing it with a letter, a digit, a space or a line end; every word that the pinned source does not have, joined with every word (thorough: every two words of the source)";

/// a text made of the vocabulary
fn text(c: &mut Ctx) -> Result<String, Stop> {
    if c.flip() {
        let (a, b) = pair(c)?;
        return Ok(match c.choose(3) {
            0 => a + &b,
            1 => a + "x" + &b,
            _ => a + " " + &b,
        });
    }
    let a = c.pick(words());
    let case = c.choose(4);
    let Some(a) = cased(a, case) else { return Err(Stop::Skip) };
    Ok(match c.choose(10) {
        0 => a,
        1 => format!("{a}x"),
        2 => format!("x{a}"),
        3 => format!("{a} x"),
        4 => format!("x {a}"),
        5 => format!("{a}1"),
        6 => format!("1{a}"),
        7 => format!("{a}\n"),
        8 => format!("x {a} y"),
        _ => format!("{a}{a}"),
    })
}
fn one_line(x: String) -> Result<String, Stop> {
    if x.contains('\n') || x.contains('\r') {
        Err(Stop::Skip)
    } else {
        Ok(x)
    }
}

fn plain(k: usize) -> E {
    match k {
        0 => E::simple("id", "text"),
        1 => E::plural("one", "many", &["t0", "t1"]),
        2 => E::simple("id", "").obsolete(),
        _ => E::simple("id", "text").comment(',', "fuzzy").with_prev(None, Some("old"), None),
    }
}

/// two-, three- and more-way relations between the texts of an entry
fn related(c: &mut Ctx) -> (Vec<E>, Vec<String>) {
    let any: &[&str] = &["a", "b", ""];
    let pl = c.flip();
    let mut e = E::simple(c.pick(&any[..2]), "");
    let mut texts = vec![];
    if pl {
        let (p, a, b) = (*c.pick(any), *c.pick(any), *c.pick(any));
        texts.extend([a.to_string(), b.to_string()]);
        e.body = Body::Plural(s(p), vec![s(a), s(b)]);
    } else {
        let a = *c.pick(any);
        texts.push(a.to_string());
        e.body = Body::Simple(s(a));
    }
    e.ctx = [None, Some(s("a")), Some(s("b"))][c.choose(3)].clone();
    e.pctx = [None, Some(s("a")), Some(s("b"))][c.choose(3)].clone();
    e.pid = [None, Some(s("a")), Some(s("b"))][c.choose(3)].clone();
    if e.pid.is_some() {
        e.ppl = [None, Some(s("a")), Some(s("b")), Some(s(""))][c.choose(4)].clone();
    }
    if c.flip() {
        e = e.obsolete();
    }
    match c.choose(5) {
        0 => (),
        1 => e = e.comment(',', "fuzzy"),
        2 => e = e.comment(' ', "a").comment('.', "a"),
        3 => e = e.comment(',', "a").comment(':', "a"),
        _ => e = e.comment('=', "b").comment(',', "fuzzy, b"),
    }
    (vec![header(&[PF2]), e], texts)
}
const RELATED: &str = "every entry whose source, plural source, two translations, context and previous texts are each a, b, empty or absent, with 5 sets of comments, obsolete or not";

fn bytes_in(c: &mut Ctx, few: bool) -> Result<String, Stop> {
    // a word as a line of its own, or at the beginning or end of one, somewhere in a catalogue
    let e = [header(&[PF2]), E::simple("a", "b").comment(' ', "n").with_ctx("c"), E::plural("p", "q", &["r", "s"]).with_prev(Some("x"), Some("y"), Some("z")), E::simple("o", "p").obsolete()];
    let d = doc(&e);
    let mut l: Vec<String> = d.lines().map(|x| x.to_string()).collect();
    let k = if few { [0, 2, 4, 7, 13, l.len() - 1][c.choose(6)] } else { c.choose(l.len() + 1) };
    let w = c.pick(words()).clone();
    match c.choose(8) {
        0 => l.insert(k, w),
        1 => l.insert(k, format!("{w} x")),
        2 => l.insert(k, format!("{w} \"x\"")),
        3 => l.insert(k, format!("\"x\" {w}")),
        4 => l.insert(k, format!("#{w}")),
        5 if k < l.len() => l[k] = format!("{w}{}", l[k]),
        6 if k < l.len() => l[k] = format!("{} {w}", l[k]),
        7 if k < l.len() => l[k] = l[k].replacen(' ', &w, 1),
        _ => return Err(Stop::Skip),
    }
    Ok(l.join("\n") + "\n")
}
const LINES: &str = "every word of the vocabulary as a line, before a text, before or after a quoted text, as a comment, at the beginning or end of every line of a four-entry catalogue, or instead of its first space";

fn number_lines(c: &mut Ctx, n: usize) -> Option<String> {
    // n units, comment lines, continuation lines or characters before what is looked at
    if n > 20000 {
        return None;
    }
    let mut d = String::from("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\n");
    match c.choose(6) {
        0 => {
            for i in 0..n {
                d.push_str(&format!("msgid \"i{i}\"\nmsgstr \"t{i}\"\n\n"));
            }
        }
        1 => {
            for i in 0..n {
                d.push_str(&format!("# {i}\n"));
            }
        }
        2 => {
            d.push_str("msgid \"\"\n");
            for i in 0..n {
                d.push_str(&format!("\"{i}\"\n"));
            }
            d.push_str("\"x\"\nmsgstr \"\"\n\n");
        }
        3 => d.push_str(&format!("msgid \"{}x\"\nmsgstr \"t\"\n\n", "a".repeat(n))),
        4 => d.push_str(&format!("msgid \"x\"\nmsgstr \"{}\"\n\n", "\u{e9}\\n".repeat(n))),
        _ => {
            for i in 0..n {
                d.push_str(&format!("#~ msgid \"o{i}\"\n#~ msgstr \"\"\n"));
            }
            d.push('\n');
        }
    }
    Some(d)
}
const NUMBERS: &str = "every number of the library's source up to 20000, and its neighbours, as the number of units, obsolete units, comment lines, continuation lines or characters before";

pub fn spaces(p: &str) -> Vec<Space> {
    let mut v = vec![];
    let fields = |v: &mut Vec<Space>, name: &'static str| {
        v.push(space(name, 0, format!("{TEXTS}; as each of the 8 string fields"), |c| {
            let f = c.choose(8);
            let x = text(c)?;
            if f == 0 && x.is_empty() {
                return Err(Stop::Skip);
            }
            check_entries(c, &[header(&[PF2]), super::content::with_field(f, vec![x])]).map(|_| ())
        }));
    };
    let comments = |v: &mut Vec<Space>, name: &'static str| {
        v.push(space(name, 0, format!("{TEXTS}; as the text of a comment of each of 6 kinds before an entry; every word alone in one before a plural entry or the header"), |c| {
            let k = *c.pick(&[' ', '.', ':', ',', '=', '!']);
            let at = c.choose(3);
            let x = one_line(if at == 0 { text(c)? } else { c.pick(words()).clone() })?;
            if x.is_empty() {
                return Err(Stop::Skip);
            }
            let mut h = header(&[PF2]);
            let mut e = plain(at.min(1));
            if at == 2 {
                h = h.comment(k, &x);
            } else {
                e = e.comment(k, &x).comment(' ', "y");
            }
            // (as a line it may begin with white space, which is no part of it; so it is the text that is checked)
            check(c, doc(&[h, e, plain(0)]).as_bytes()).map(|_| ())
        }));
    };
    let lines_with = |v: &mut Vec<Space>, f: fn(&mut Ctx, &str) -> Res| {
        v.push(space("vocabulary in lines", 0, LINES, move |c| {
            let d = bytes_in(c, false)?;
            f(c, &d)
        }));
    };
    fn any(c: &mut Ctx, d: &str) -> Res {
        check(c, d.as_bytes()).map(|_| ())
    }
    let relations = |v: &mut Vec<Space>| {
        v.push(space("related texts", 0, RELATED, |c| {
            let (d, _) = related(c);
            check_entries(c, &d).map(|_| ())
        }));
    };
    let counted = |v: &mut Vec<Space>, tails: &'static [&'static str], f: fn(&mut Ctx, &str) -> Res| {
        v.push(space("numbers of the source", 0, format!("{NUMBERS} {} ends", tails.len()), move |c| {
            let n = *c.pick(numbers()) as usize;
            let tail = *c.pick(tails);
            let Some(mut d) = number_lines(c, n) else { return Err(Stop::Skip) };
            d.push_str(tail);
            f(c, &d)
        }));
    };
    const GOOD: &[&str] = &["msgid \"a\"\nmsgstr \"b\"\n", "#. n\n#| msgid \"o\"\nmsgctxt \"c\"\nmsgid \"one\"\nmsgid_plural \"many\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\nmsgid \"z\"\nmsgstr \"z\"\n", "#~ msgid \"a\"\n#~ msgstr \"b\"\n\nmsgid \"\"\n\"p\"\nmsgstr \"q\"\n"];
    const ENDS: &[&str] = &["junk\n", "msgid \"a\"\nmsgid \"b\"\n", "msgid \"\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", "msgid \"a\"\n#~ msgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", "msgid \"a\"\nmsgstr \"b\"\n\njunk\nmsgid \"c\"\nmsgstr \"d\"\n"];
    match p {
        "P01" => {
            fields(&mut v, "vocabulary in fields");
            comments(&mut v, "vocabulary in comments");
            relations(&mut v);
            counted(&mut v, GOOD, any);
            two_places(&mut v);
            under_headers(&mut v);
        }
        "P02" => {
            fields(&mut v, "vocabulary in fields");
            v.push(space("vocabulary in pieces", 0, format!("{PAIRS}; as two pieces of each of the 8 fields"), |c| {
                let f = c.choose(8);
                let (a, b) = pair(c)?;
                check_entries(c, &[header(&[PF2]), super::content::with_field(f, vec![a, b])]).map(|_| ())
            }));
        }
        "P03" => comments(&mut v, "vocabulary"),
        "P04" => {
            v.push(space("vocabulary before", 0, "an entry with a word of the vocabulary in one of its 8 fields or in a comment of one of 6 kinds, before each of 4 entries", |c| {
                let f = c.choose(14);
                let w = c.pick(words()).clone();
                let e = if f < 8 {
                    if f == 0 && w.is_empty() {
                        return Err(Stop::Skip);
                    }
                    super::content::with_field(f, vec![w])
                } else {
                    plain(1).comment([' ', '.', ':', ',', '=', '!'][f - 8], &one_line(w)?)
                };
                let k = c.choose(4);
                check(c, doc(&[header(&[PF2]), e, plain(k), plain(0)]).as_bytes()).map(|_| ())
            }));
            counted(&mut v, GOOD, any);
            two_places(&mut v);
        }
        "P05" => {
            v.push(space("vocabulary in marked lines", 0, "every word of the vocabulary after the mark of a line (#~, #|, #~|), before or after its keyword, or as its text, in an obsolete entry or one with previous texts", |c| {
                let m = *c.pick(&["#~", "#|", "#~|"]);
                let kw = *c.pick(&["msgid", "msgctxt", "msgstr", ""]);
                let w = one_line(c.pick(words()).clone())?;
                let l = match c.choose(5) {
                    0 => format!("{m}{w}{kw} \"x\""),
                    1 => format!("{m} {kw}{w} \"x\""),
                    2 => format!("{m} {kw} \"x\"{w}"),
                    3 => format!("{m} {w}"),
                    _ => format!("{m} {kw} \"{}\"", escape(&w)),
                };
                let d = match c.choose(3) {
                    0 => format!("msgid \"h\"\nmsgstr \"h\"\n\n{l}\nmsgid \"a\"\nmsgstr \"b\"\n"),
                    1 => format!("msgid \"h\"\nmsgstr \"h\"\n\n{l}\n#~ msgid \"a\"\n#~ msgstr \"b\"\n"),
                    _ => format!("#~ msgid \"h\"\n{l}\n#~ msgstr \"h\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"),
                };
                check(c, d.as_bytes()).map(|_| ())
            }));
            relations(&mut v);
        }
        "P06" => {
            v.push(space("related texts", 0, format!("{RELATED}: the state"), |c| {
                let (d, texts) = related(c);
                let o = check_entries(c, &d)?;
                let u = o.units()[0].clone();
                let fuzzy = d[1].comments.iter().any(|(k, x)| *k == ',' && x.split(',').any(|f| f.trim() == "fuzzy"));
                let want = if fuzzy { 1 } else if texts.iter().any(|x| !x.is_empty()) { 2 } else { 0 };
                ensure!(u.state as usize == want && u.translated == (want == 2), "the state is {:?} (translated: {}), should be {want}", u.state, u.translated);
                Ok(())
            }));
            v.push(space("vocabulary in flags", 0, format!("{TEXTS}; as the flags of an entry, alone or between others, translated or not, obsolete or not"), |c| {
                let x = one_line(text(c)?)?;
                let x = match c.choose(3) {
                    0 => x,
                    1 => format!("c-format, {x}"),
                    _ => format!("{x}, c-format"),
                };
                let mut e = E::simple("id", ["", "text"][c.choose(2)]).comment(',', &x);
                e.obsolete = c.flip();
                check(c, doc(&[header(&[]), e]).as_bytes()).map(|_| ())
            }));
            v.push(space("vocabulary in texts", 0, format!("{TEXTS}; as the translation or the first or second of two"), |c| {
                let f = c.choose(3);
                let x = text(c)?;
                let e = match f {
                    0 => E::simple("id", &x),
                    1 => E::plural("one", "many", &[&x, ""]),
                    _ => E::plural("one", "many", &["", &x]),
                };
                check_entries(c, &[header(&[PF2]), e]).map(|_| ())
            }));
        }
        "P07" => {
            v.push(space("vocabulary in properties", 0, format!("{TEXTS}; as key or value of a header property, before or after another, or as a line without colon"), |c| {
                let how = c.choose(4);
                let x = text(c)?;
                let l = match how {
                    0 => format!("{x}: v\nA: b\n"),
                    1 => format!("A: {x}\nA: b\n"),
                    2 => format!("A: b\nX-Y: {x}"),
                    _ => format!("A: b\n{x}\nA: c\n"),
                };
                let mut h = E::simple("", "");
                h.body = Body::Simple(vec![l]);
                check(c, doc(&[h, E::simple("id", "t")]).as_bytes()).map(|_| ())
            }));
            v.push(space("pairs of words", 0, format!("{PAIRS}; as key and value of a header property"), |c| {
                let (a, b) = pair(c)?;
                let mut h = E::simple("", "");
                h.body = Body::Simple(vec![format!("{a}: {b}\n"), "A: b\n".into()]);
                check(c, doc(&[h, E::simple("id", "t")]).as_bytes()).map(|_| ())
            }));
            comments_of_header(&mut v);
            under_headers(&mut v);
        }
        "P08" => {
            v.push(space("numbers of the source", 0, "every two numbers of the library's source (and neighbours) as operand and count, under each of 16 operators, in either order", |c| {
                let (k, n) = (*c.pick(numbers()), *c.pick(numbers()));
                if k > i64::MAX as u64 || n > i64::MAX as u64 {
                    return Err(Stop::Skip);
                }
                let op = *c.pick(&["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "? 1 :", "- -", "+ -"]);
                let f = if c.flip() { format!("n {op} {k}") } else { format!("{k} {op} n") };
                super::formulas::evaluates(c, &f, &[n as usize, n as usize / 2, k as usize, 0, 1])
            }));
        }
        "P09" => {
            v.push(space("vocabulary in formulas", 0, format!("every word of the vocabulary, in 4 letter cases, alone and in 9 places of a formula, with and without spaces around it; two words between or before operands: {PAIRS}"), |c| {
                let f = if c.flip() {
                    let (a, b) = pair(c)?;
                    match c.choose(3) {
                        0 => format!("n {a} {b} 1"),
                        1 => format!("{a} n {b}"),
                        _ => format!("{a}{b}"),
                    }
                } else {
                    let w = c.pick(words());
                    let case = c.choose(4);
                    let Some(w) = cased(w, case) else { return Err(Stop::Skip) };
                    let sp = *c.pick(&["", " "]);
                    match c.choose(10) {
                        0 => w,
                        1 => format!("n{sp}{w}{sp}1"),
                        2 => format!("{w}{sp}n"),
                        3 => format!("n{sp}{w}"),
                        4 => format!("n{sp}+{sp}{w}"),
                        5 => format!("({sp}{w}{sp})"),
                        6 => format!("n{sp}?{sp}{w}{sp}:{sp}0"),
                        7 => format!("n{sp}?{sp}1{sp}{w}{sp}0"),
                        8 => format!("n{sp}=={sp}1{sp}{w}{sp}n{sp}=={sp}2"),
                        _ => format!("1{w}{sp}==n"),
                    }
                };
                if f.contains([';', '\n', '\r']) {
                    return Err(Stop::Skip);
                }
                super::formulas::accept(c, &f)
            }));
        }
        "P10" => {
            counted(&mut v, &GOOD[1..2], any);
            v.push(space("vocabulary in texts", 0, format!("{PAIRS}; as the two texts of a plural message, looked up"), |c| {
                let (a, b) = pair(c)?;
                check_entries(c, &[header(&[PF2]), E::plural("one", "many", &[&a, &b])]).map(|_| ())
            }));
            relations(&mut v);
        }
        "P11" => {
            lines_with(&mut v, any);
            counted(&mut v, ENDS, any);
        }
        "P12" => {
            lines_with(&mut v, any);
            counted(&mut v, ENDS, any);
        }
        "P13" => {
            v.push(space("vocabulary", 0, format!("{LINES}; (at 6 lines) delivered byte by byte, line by line, cut after each of the first 4 bytes, with interruptions"), |c| {
                let d = bytes_in(c, true)?;
                let d = d.as_bytes();
                let w = super::faults::whole(c, d)?;
                let ends: Vec<usize> = d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect();
                super::faults::deliver(c, &w, d, (1..d.len()).collect(), 0)?;
                super::faults::deliver(c, &w, d, ends, 1)?;
                for k in 1..5.min(d.len()) {
                    super::faults::deliver(c, &w, d, vec![k], k % 2)?;
                }
                Ok(())
            }));
        }
        "P14" => {
            v.push(space("vocabulary", 0, format!("{LINES}; the source failing after it"), |c| {
                let d = bytes_in(c, false)?;
                let n = d.len();
                super::faults::failing_at(c, d.as_bytes(), n)?;
                Ok(())
            }));
        }
        "P15" => lines_with(&mut v, super::faults::wide),
        "P17" => {
            lines_with(&mut v, super::order::located);
            counted(&mut v, ENDS, super::order::located);
        }
        "P18" => {
            v.push(space("vocabulary", 0, "an entry with a word of the vocabulary in one of its 8 fields, written plainly and in 5 other layouts", |c| {
                let f = c.choose(8);
                let w = c.pick(words()).clone();
                let d = doc(&[header(&[PF2]), super::content::with_field(f, vec!["x".into(), w]), plain(0)]);
                let (a, o) = check(c, d.as_bytes())?;
                let _ = a;
                let e = match c.choose(5) {
                    0 => d.replace('\n', "\r\n"),
                    1 => d.lines().map(|l| format!("\t {l}  \n")).collect(),
                    2 => d.lines().map(|l| format!("\n{l}\n \t\n")).collect(),
                    3 => d.trim_end().to_string(),
                    _ => d.lines().map(|l| if l.ends_with('"') { format!("{l}\n{}\"\"\n", if l.starts_with("#~|") { "#~| " } else if l.starts_with("#~") { "#~ " } else if l.starts_with("#|") { "#| " } else { "" }) } else { format!("{l}\n") }).collect(),
                };
                let (_, q) = check(c, e.as_bytes())?;
                must(same(&o, &q, false), || "another layout of the same catalogue is read otherwise".into())
            }));
        }
        "P19" => {
            v.push(space("vocabulary", 0, "messages of every two words of the vocabulary: their views, and their equality to messages with those exchanged, doubled or missing", |c| {
                let (a, b) = (c.pick(words()).clone(), c.pick(words()).clone());
                if a.is_empty() {
                    return Err(Stop::Skip);
                }
                use poreader::Message;
                let m = |i: &str, t: Option<&str>| Message::Simple { id: i.to_string(), text: t.map(|x| x.to_string()) };
                let r = in_impl(b"", || {
                    let x = m(&a, Some(&b));
                    let mut bad = vec![];
                    let mut no = |w: &str, k: bool| if !k { bad.push(w.to_string()) };
                    no("clone", x == x.clone() && !(x != x.clone()));
                    no("same", x == m(&a, Some(&b)));
                    no("source", (x == m(&b, Some(&b))) == (a == b) && (m(&b, Some(&b)) == x) == (a == b));
                    no("no text", (x == m(&a, None)) == b.is_empty());
                    no("longer source", x != m(&format!("{a}x"), Some(&b)) && m(&format!("x{a}"), Some(&b)) != x);
                    no("id", x.get_id() == a);
                    no("text", x.get_text() == b && x.get_plural_text(3) == Some(&b));
                    no("blank", x.is_blank() == b.is_empty());
                    no("kind", x.is_simple() && !x.is_plural() && x.plural().is_none() && x.get_plural_id().is_none());
                    bad
                });
                match r {
                    Err(p) => broken!("the library {p}"),
                    Ok(bad) => {
                        c.compared += 1;
                        ensure!(bad.is_empty(), "for the source {a:?} and text {b:?} these do not hold: {}", bad.join(", "));
                        Ok(())
                    }
                }
            }));
        }
        "P20" => {
            v.push(space("vocabulary", 0, format!("{TEXTS}; as the Language"), |c| {
                let x = text(c)?;
                if x.contains(['\n', '\r']) {
                    return Err(Stop::Skip);
                }
                super::meta::lang(c, &x)
            }));
            v.push(space("other properties", 0, "a header with another property than Language (20 customary ones, and every word of the source) whose value speaks of a language in one of 12 ways, or is every word of the source between or next to codes of languages, without Language or with an empty, good or bad one", |c| {
                const KEYS: &[&str] = &[
                    "Language-Team", "X-Language", "X-Poedit-Language", "X-Poedit-Country", "Language-Name", "Language-Code", "X-Source-Language", "Locale", "X-Locale", "Lang", "LANGUAGE", "Content-Language", "X-Crowdin-Language", "X-Generator", "Last-Translator", "Project-Id-Version",
                    "Content-Type", "X-Domain", "Languages", "Language ",
                ];
                let k = c.choose(KEYS.len() + source().len());
                let key = if k < KEYS.len() { KEYS[k].to_string() } else { source()[k - KEYS.len()].clone() };
                if key.trim() == "Language" && key != "Language " {
                    return Err(Stop::Skip);
                }
                let lim = if k < KEYS.len() { 12 + source().len() * 4 } else { 12 };
                let j = c.choose(lim);
                let val = if j < 12 {
                    ["de", "fr_FR", "German <de@li.org>", "de <translation-team-de@lists.sourceforge.net>", "French", "fr@x", "zh-Hant (x)", "x <http://x/de/>", "de.po", "de/fr", "text/plain; charset=de", ""][j].to_string()
                } else {
                    let w = &source()[(j - 12) / 4];
                    match j % 4 {
                        0 => format!("de{w}"),
                        1 => format!("{w}de"),
                        2 => format!("X <de{w}"),
                        _ => format!("de {w} fr"),
                    }
                };
                let own = [None, Some(""), Some("pt_BR"), Some("!")][c.choose(4)];
                let mut l = vec![format!("{key}: {val}")];
                if let Some(x) = own {
                    l.insert(c.choose(2), format!("Language: {x}"));
                }
                let l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
                let d = doc(&[E::header(&l), E::simple("id", "t")]);
                check(c, d.as_bytes()).map(|_| ())
            }));
        }
        "P21" => {
            v.push(space("vocabulary in declarations", 0, format!("every word of the vocabulary before, after or instead of the number of forms, before or after a key, as a key, as an item of its own, or before or after the whole definition; two words around the number: {PAIRS}"), |c| {
                let def = if c.flip() {
                    let (a, b) = pair(c)?;
                    format!("nplurals={a}3{b}; plural=n;")
                } else {
                    let w = c.pick(words());
                    let d = *c.pick(&["3", "10", "0"]);
                    match c.choose(12) {
                        0 => format!("nplurals={w}{d}; plural=n;"),
                        1 => format!("nplurals={d}{w}; plural=n;"),
                        2 => format!("nplurals={w}; plural=n;"),
                        3 => format!("{w}nplurals={d}; plural=n;"),
                        4 => format!("nplurals{w}={d}; plural=n;"),
                        5 => format!("{w}={d}; plural=n;"),
                        6 => format!("nplurals={d}; {w}; plural=n;"),
                        7 => format!("nplurals={d}; plural=n; {w}=n>1;"),
                        8 => format!("{w} nplurals={d}; plural=n;"),
                        9 => format!("nplurals={d}; plural=n; {w}"),
                        10 => format!("nplurals={d}; {w}plural=n;"),
                        _ => w.clone(),
                    }
                };
                if def.contains(['\n', '\r']) {
                    return Err(Stop::Skip);
                }
                super::meta::with_def(c, &[format!("Plural-Forms: {def}")])
            }));
            v.push(space("other properties", 0, "a header with another property than Plural-Forms (16 customary ones, and every word of the source) which looks like a definition or names a language, without Plural-Forms or with an empty or a good one", |c| {
                const KEYS: &[&str] = &["plural-forms", "Plural_Forms", "PluralForms", "Plural-Form", "X-Plural-Forms", "Plurals", "nplurals", "plural", "Language", "Language-Team", "X-Generator", "PLURAL-FORMS", "Content-Type", "X-Language", "Plural Forms", "Plural-Forms-2"];
                let k = c.choose(KEYS.len() + source().len());
                let key = if k < KEYS.len() { KEYS[k].to_string() } else { source()[k - KEYS.len()].clone() };
                if key.trim() == "Plural-Forms" || key.contains(['\n', '\r']) {
                    return Err(Stop::Skip);
                }
                let val = *c.pick(&["nplurals=3; plural=n;", "nplurals=1; plural=0;", "nplurals=x;", "plural=;", "ja", "pl", "fr_FR", "3", ""]);
                let mut l = vec![format!("{key}: {val}")];
                match c.choose(4) {
                    0 => (),
                    1 => l.push("Plural-Forms:".into()),
                    2 => l.push("Plural-Forms: nplurals=2; plural=n>1;".into()),
                    _ => l.insert(0, "Plural-Forms: nplurals=2; plural=n>1;".into()),
                }
                super::meta::with_def(c, &l)
            }));
        }
        "P23" => {
            v.push(space("vocabulary", 0, "every two words of the vocabulary as texts of notes: what they show, their clones and their equality", |c| {
                let (a, b) = (c.pick(words()).clone(), c.pick(words()).clone());
                use poreader::{note::Note, Origin};
                let r = in_impl(b"", || {
                    let o = [Origin::Developer, Origin::Translator];
                    let mut bad = vec![];
                    for i in 0..2 {
                        let x = Note::new(o[i], a.clone());
                        for j in 0..2 {
                            let y = Note::new(o[j], b.clone());
                            if (x == y) != (i == j && a == b) || (x != y) == (i == j && a == b) {
                                bad.push("equality");
                            }
                            let mut z = x.clone();
                            z.clone_from(&y);
                            if z != y || z.value() != b || *z.origin() != o[j] {
                                bad.push("clone_from");
                            }
                        }
                        if x.value() != a || *x.origin() != o[i] || x.clone() != x || x.clone().value() != a {
                            bad.push("what it shows");
                        }
                    }
                    bad
                });
                match r {
                    Err(p) => broken!("the library {p}"),
                    Ok(bad) => {
                        c.compared += 1;
                        ensure!(bad.is_empty(), "for notes of {a:?} and {b:?} these do not hold: {bad:?}");
                        Ok(())
                    }
                }
            }));
        }
        _ => (),
    }
    v
}

fn two_places(v: &mut Vec<Space>) {
    v.push(space("words in two places", 0, "two words of 8 (and those that the pinned source does not have) in two of 15 places: the fields of an entry, its comments, and the comments of the entry before", |c| {
        const W: &[&str] = &["fuzzy", "c-format", "TRANSLATORS:", "msgid", "x", "1", "#", "%d"];
        let mut w: Vec<&str> = W.to_vec();
        w.extend(new().iter().take(12).filter(|x| !x.contains(['\n', '\r'])).map(|x| x.as_str()));
        let (a, b) = (*c.pick(&w), *c.pick(&w));
        let x = c.choose(15);
        let y = c.choose(15);
        if x >= y {
            return Err(Stop::Skip);
        }
        let mut e = if c.flip() { E::plural("source", "sources", &["target", "targets"]) } else { E::simple("source", "target") };
        let mut p = E::simple("before", "t");
        for (at, w) in [(x, a), (y, b)] {
            match at {
                0 => e.id = s(w),
                1 => e.ctx = Some(s(w)),
                2 => e.pctx = Some(s(w)),
                3 => e.pid = Some(s(w)),
                4 => match &mut e.body {
                    Body::Simple(t) => *t = s(w),
                    Body::Plural(q, _) => *q = s(w),
                },
                5 => match &mut e.body {
                    Body::Plural(_, t) => t[0] = s(w),
                    _ => return Err(Stop::Skip),
                },
                6 => match &mut e.body {
                    Body::Plural(_, t) => t[1] = s(w),
                    _ => e.obsolete = true,
                },
                7..=11 => e = e.comment([' ', '.', ':', ',', '='][at - 7], w),
                _ => p = p.comment([' ', ',', '.'][at - 12], w),
            }
        }
        check(c, doc(&[header(&[PF2]), p, e, plain(0)]).as_bytes()).map(|_| ())
    }));
}

fn under_headers(v: &mut Vec<Space>) {
    v.push(space("under a header", 0, "every entry of the 37-entry menu under a header with one of 14 customary properties (or one named by a word that the pinned source does not have) with each of 16 values (or such a word)", |c| {
        const K: &[&str] = &["X-Generator", "Content-Type", "Content-Transfer-Encoding", "MIME-Version", "Project-Id-Version", "Language", "Language-Team", "Last-Translator", "PO-Revision-Date", "POT-Creation-Date", "Report-Msgid-Bugs-To", "X-Poedit-Basepath", "X-Accelerator-Marker", "X-Poedit-Bookmarks"];
        const V: &[&str] = &["Poedit 3.0", "Lokalize 22.04", "Weblate 5", "text/plain; charset=UTF-8", "text/plain; charset=ISO-8859-1", "text/plain; charset=UTF-16", "8bit", "quoted-printable", "base64", "1.0", "fr", "ar", "KDE", "&", ".", "2024-01-02 03:04+0500"];
        let n = new();
        let k = c.choose(K.len() + n.len());
        let j = c.choose(V.len() + n.len());
        let key = if k < K.len() { K[k] } else { &n[k - K.len()] };
        let val = if j < V.len() { V[j] } else { &n[j - V.len()] };
        let m = menu(1);
        let e = c.pick(&m).clone();
        let mut h = E::simple("", "");
        h.body = Body::Simple(vec![format!("{key}: {val}\n"), format!("{PF2}\n")]);
        check(c, doc(&[h, e, plain(0)]).as_bytes()).map(|_| ())
    }));
}

fn comments_of_header(v: &mut Vec<Space>) {
    v.push(space("vocabulary in header comments", 0, "every word of the vocabulary, alone or before or after a letter, in a comment of each of 6 kinds of the header", |c| {
        let k = *c.pick(&[' ', '.', ':', ',', '=', '!']);
        let w = one_line(c.pick(words()).clone())?;
        let w = match c.choose(3) {
            0 => w,
            1 => format!("{w} x"),
            _ => format!("x {w}"),
        };
        let d = doc(&[header(&["Language: fr"]).comment(k, &w).comment(' ', "y"), E::simple("id", "t")]);
        check(c, d.as_bytes()).map(|_| ())
    }));
}
