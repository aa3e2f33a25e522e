//! P07, P20, P21: what the header says.

use super::{lines, ramp};
use crate::engine::*;
use crate::gen::*;
use crate::model;
use crate::obs::*;
use crate::{broken, ensure};


pub fn p07(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 7 } else { 9 };
    v.push(space("header texts", 0, format!("all header texts of up to {n} characters over a, b, colon, space, newline, tab"), move |c| {
        let len = c.choose(n + 1);
        let x: String = (0..len).map(|_| *c.pick(&['a', ':', '\n', ' ', 'b', '\t'])).collect();
        let mut h = E::simple("", "");
        h.body = Body::Simple(vec![x]);
        check_entries(c, &[h, E::simple("id", "t")]).map(|_| ())
    }));
    let n = if q { 5 } else { 6 };
    const LINES: &[&str] = &[
        "A: 1", "A: 2", "B:x:y", " A : 3 ", "nocolon", ":v", "A:", "a: 4", "X-\u{e9}: \u{fc}", "A\t:\t5", "URL: http://x:80/?a=b", "", "Language: fr", "B: \"q\" \\ z",
    ];
    v.push(space("header lines", 0, format!("all header texts of up to {n} lines out of 14 (repeated keys, missing colons, odd spacing)"), move |c| {
        let len = c.choose(n + 1);
        let mut x = String::new();
        for _ in 0..len {
            x.push_str(c.pick(LINES));
            x.push('\n');
        }
        if len > 0 && len < 4 && c.flip() {
            x.pop();
        }
        let mut h = E::simple("", "");
        h.body = Body::Simple(vec![String::new(), x]);
        check_entries(c, &[h, E::simple("id", "t")]).map(|_| ())
    }));
    v.push(space("cuts", 0, "every way of cutting a two-line header text with a repeated key into continuation lines", |c| {
        let text = "A: 1\nB:2\nA:3\n";
        let mut p: Str = vec![];
        let mut cur = String::new();
        for (i, ch) in text.chars().enumerate() {
            if i > 0 && c.flip() {
                p.push(std::mem::take(&mut cur));
            }
            cur.push(ch);
        }
        p.push(cur);
        let mut h = E::simple("", "");
        h.body = Body::Simple(p);
        check_entries(c, &[h, E::simple("id", "t")]).map(|_| ())
    }));
    v.push(space("characters", 0, "every Unicode scalar value as first and last character of a key and of a value, inside them, and instead of the colon", |c| {
        // 0x110000 values in blocks of 64
        let b = c.choose(0x110000 / 64);
        let mut text = String::new();
        let mut want: Vec<(String, String)> = vec![];
        let how = c.choose(2);
        for k in 0..64u32 {
            let Some(ch) = char::from_u32(b as u32 * 64 + k) else { continue };
            let (key, val) = if how == 0 { (format!("{ch}k{k}{ch}"), format!("{ch}v{ch}w{ch}")) } else { (format!("k{k}{ch}l"), format!("v{ch}")) };
            text.push_str(&format!("{key}:{val}\n"));
            want.push((key, val));
            if how == 1 {
                text.push_str(&format!("k{k}{ch}x\n"));
            }
        }
        let mut h = E::simple("", "");
        h.body = Body::Simple(vec![text]);
        check_entries(c, &[h, E::simple("id", "t")]).map(|_| ())
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("repeated keys", 0, format!("all headers of up to {n} properties whose keys are A, a, A B or B and whose values are 1, 2 or empty"), move |c| {
        let len = c.choose(n + 1);
        let mut x = String::new();
        for _ in 0..len {
            let k = *c.pick(&["A", "B", "a"]);
            let v = *c.pick(&["1", "", "2"]);
            x.push_str(&format!("{k}: {v}\n"));
        }
        let mut h = E::simple("", "");
        h.body = Body::Simple(vec![x]);
        check_entries(c, &[h, E::simple("id", "t")]).map(|_| ())
    }));
    v.push(lines::sequences("first lines", HEAD_LINES, 1, if q { 5 } else { 6 }, &["", "# n\n"], &["", "msgid \"tail\"\nmsgstr \"T: t\\n\"\n"], lines::plain));
    v.push(space("separators", 0, "header texts of two to four properties with one of 12544 characters (all below U+3000 and those from U+FF00 to U+FFFF) or a pair of two of 40 of them instead of some or all line feeds, before, after or on both sides of a blank; with or without a line feed at the beginning, in the middle or at the end", |c| {
        const SOME: &[char] = &['\r', '\t', '\u{b}', '\u{c}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{85}', '\u{2028}', '\u{2029}', '\u{a0}', '\u{0}', '\u{1}', '\u{4}', '\u{1b}', '\u{7f}', ' ', '!', '#', '$', '%', '&', '\'', '*', '+', ',', '-', '.', '/', ';', '<', '=', '@', '^', '`', '|', '~', '\\', '"'];
        let sep = if c.flip() {
            let mut x = String::from(*c.pick(SOME));
            x.push(*c.pick(SOME));
            x
        } else {
            let b = c.choose(12544) as u32;
            let ch = if b < 0x3000 { b } else { 0xFF00 + (b - 0x3000) };
            let Some(ch) = char::from_u32(ch) else { return Err(Stop::Skip) };
            ch.to_string()
        };
        let sep = match c.choose(3) {
            0 => sep,
            1 => format!("{sep} "),
            _ => format!(" {sep} "),
        };
        let x = match c.choose(7) {
            0 => format!("A: b{sep}C: d"),
            1 => format!("A: b{sep}C: d\n"),
            2 => format!("A: b{sep}C: d{sep}"),
            3 => format!("A: b{sep}C: d{sep}A: e{sep}F: g\n"),
            4 => format!("\nA: b{sep}C: d"),
            5 => format!("A: b\nC: d{sep}E: f\nG: h{sep}"),
            _ => format!("A: b{sep}\nC: d{sep}\n"),
        };
        let mut h = E::simple("", "");
        h.body = Body::Simple(vec![x]);
        check_entries(c, &[h, E::simple("id", "t")]).map(|_| ())
    }));
    v.push(space("header entries", 0, "header entries with any combination of notes, other comments, flags, locations, context, previous values, obsolete mark, empty text; followed by 0 to 2 units; metadata read before, between and after the units", |c| {
        let mut h = [header(&[]), header(&[PF2, "Language: de"]), E::simple("", ""), header(&["Language: pt_BR", "X: y", "X: z"])][c.choose(4)].clone();
        let n = c.choose(5);
        for (i, (k, x)) in [(' ', "translator"), ('.', "developer"), ('=', "other"), ('!', "more")].iter().enumerate() {
            if i < n {
                h = h.comment(*k, x);
            }
        }
        if c.flip() {
            h = h.comment(',', "fuzzy").comment(':', "file:1");
        }
        if c.flip() {
            h.ctx = Some(s("header context"));
        }
        if c.flip() {
            h = h.with_prev(Some("pc"), Some("pi"), None);
        }
        h.obsolete = c.flip();
        let k = c.choose(3);
        let mut d = vec![h];
        for i in 0..k {
            d.push(E::simple(&format!("id{i}"), "Other: value\n").comment(' ', "unit note").comment('=', "unit comment"));
        }
        check_entries(c, &d)?;
        let text = doc(&d);
        let x = model::read(text.as_bytes()).unwrap();
        let r = in_impl(text.as_bytes(), || {
            let mut r = parser().parse(text.as_bytes()).map_err(|e| e.to_string())?;
            let mut seen = vec![header_of(&r)];
            while r.next().is_some() {
                seen.push(header_of(&r));
            }
            r.next();
            seen.push(header_of(&r));
            Ok::<_, String>(seen)
        });
        match r {
            Ok(Ok(seen)) => {
                for (i, h) in seen.iter().enumerate() {
                    ensure!(*h == x.header, "after {i} units the metadata is {h:?}, should be {:?}", x.header);
                }
                Ok(())
            }
            Ok(Err(e)) => broken!("opening fails: {e}"),
            Err(p) => broken!("the library {p}"),
        }
    }));
    v.push(space("no header", 0, "catalogues that begin with an ordinary entry whose text looks like a header; a later entry with an empty source is an error; empty catalogues and comment-only catalogues", |c| {
        let first = [E::simple("id", "Language: fr\nA: b\n"), E::simple("id", "").comment(' ', "note"), E::plural("id", "ids", &["A: b\n", "x"]), E::simple(" ", "A: b\n"), E::simple("\n", "A: b\n")];
        let mut d = String::new();
        match c.choose(7) {
            5 => (),
            6 => d.push_str("# only\n# comments\n\n"),
            k => d.push_str(&doc(&[first[k].clone()])),
        }
        match c.choose(4) {
            0 => (),
            1 => d.push_str("\nmsgid \"\"\nmsgstr \"Language: de\\nB: c\\n\"\n"),
            2 => d.push_str("\n# note\nmsgctxt \"c\"\nmsgid \"\"\nmsgstr \"\"\n\nmsgid \"z\"\nmsgstr \"z\"\n"),
            _ => d.push_str("\nmsgid \"z\"\nmsgstr \"Language: de\\n\"\n"),
        }
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("known items", 0, "each of 60 known keys of headers (and 9 spellings of each) with each of 70 usual, default or odd values, alone or before or after another property", |c| {
        let k = *c.pick(KEYS);
        let key = match c.choose(9) {
            0 => k.to_string(),
            1 => k.to_lowercase(),
            2 => k.to_uppercase(),
            3 => k.replace('-', "_"),
            4 => k.replace('-', ""),
            5 => k.replace('-', " "),
            6 => format!("X-{k}"),
            7 => format!("{k}s"),
            _ => format!("{k} "),
        };
        let val = *c.pick(VALUES);
        let item = format!("{key}: {val}");
        let other = "X-Other: kept";
        let l: Vec<&str> = match c.choose(3) {
            0 => vec![&item],
            1 => vec![other, &item],
            _ => vec![&item, other, &item],
        };
        let text = doc(&[E::header(&l), E::simple("id", "t")]);
        check(c, text.as_bytes()).map(|_| ())
    }));
    v.push(space("similar items", 0, "two properties, the key of the first one of 60 known keys, that of the second the same key in one of 24 near spellings (case, separators, prefixes, blanks inside, letters doubled, left out or replaced), with equal or different values, and again the first or not", |c| {
        let k = *c.pick(KEYS);
        let mut v: Vec<char> = k.chars().collect();
        if v.is_empty() {
            return Err(Stop::Skip);
        }
        let mid = v.len() / 2;
        let other: String = match c.choose(24) {
            0 => k.to_lowercase(),
            1 => k.to_uppercase(),
            2 => k.replace('-', "_"),
            3 => k.replace('-', ""),
            4 => k.replace('-', " "),
            5 => format!("X-{k}"),
            6 => format!("{k}s"),
            7 => v[..v.len() - 1].iter().collect(),
            8 => v[1..].iter().collect(),
            9 => format!("{k}-"),
            10 => format!("-{k}"),
            11 => format!("{k}\u{200b}"),
            12 => format!("{k}."),
            13 => format!("{k}\u{301}"),
            14 => format!("#{k}"),
            15 => format!("\u{feff}{k}"),
            16 => format!("{k} {k}"),
            17 => k.chars().rev().collect(),
            i @ 18..=23 => {
                match i {
                    18 => v[mid] = if v[mid].is_ascii_lowercase() { v[mid].to_ascii_uppercase() } else { v[mid].to_ascii_lowercase() },
                    19 => v[0] = v[0].to_ascii_lowercase(),
                    20 => v.insert(mid, ' '),
                    21 => v.insert(mid, v[mid]),
                    22 => drop(v.remove(mid)),
                    _ => v[mid] = char::from_u32(v[mid] as u32 ^ 0x100).unwrap_or('x'),
                }
                v.iter().collect()
            }
            _ => unreachable!(),
        };
        let same = c.flip();
        let (a, b) = (format!("{k}: fr"), format!("{other}: {}", if same { "fr" } else { "de" }));
        let third = format!("{k}: again");
        let l: Vec<&str> = match c.choose(4) {
            0 => vec![&a, &b],
            1 => vec![&b, &a],
            2 => vec![&a, &b, &third],
            _ => vec![&b, &a, &b, &third],
        };
        let text = doc(&[E::header(&l), E::simple("id", "t")]);
        check(c, text.as_bytes()).map(|_| ())
    }));
    v.push(space("sizes", 0, "headers with 0 to 40 (and up to 3000) properties, distinct or all of the same key; values and keys of up to 10000 characters", |c| {
        let r = ramp(40, 3000);
        let n = *c.pick(&r);
        let l: Vec<String> = match c.choose(4) {
            0 => (0..n).map(|i| format!("Key-{i}: value {i}")).collect(),
            1 => (0..n).map(|i| format!("Key: v{i}")).collect(),
            2 => vec![format!("Key: {}", "v".repeat(n * 3)), "Next: 1".into()],
            _ => vec![format!("K{}: v", "k".repeat(n * 3)), "Next: 1".into()],
        };
        check_entries(c, &[E::header(&l.iter().map(|x| x.as_str()).collect::<Vec<_>>()), E::simple("id", "t")]).map(|_| ())
    }));
    v
}

const KEYS: &[&str] = &[
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator", "X-Poedit-Basepath", "X-Poedit-SourceCharset", "X-Poedit-KeywordsList",
    "X-Poedit-Language", "X-Poedit-Country", "X-Poedit-SearchPath-0", "X-Crowdin-Project", "X-Crowdin-Language", "X-Crowdin-File", "X-Launchpad-Export-Date", "X-Accelerator-Marker", "X-POOTLE-MTIME", "X-Domain", "X-Loco-Version", "X-Qt-Contexts", "X-Environment", "X-Language", "X-Source-Language", "Source-Language",
    "Domain", "Encoding", "Charset", "Locale", "Country", "Region", "Fuzzy", "Context", "Version", "Author", "License", "Copyright", "Note", "Comment", "msgid", "msgstr", "nplurals", "plural", "#", "#X", "# X", "//", "\u{feff}Language", "0", "-", "*", "a b", "(c)", "http",
];
const VALUES: &[&str] = &[
    "", "PACKAGE VERSION", "pkg 1.0", "YEAR-MO-DA HO:MI+ZONE", "2024-01-02 03:04+0500", "2024-01-02T03:04:05Z", "FULL NAME <EMAIL@ADDRESS>", "Jos\u{e9} <jose@example.org>", "LANGUAGE <LL@li.org>", "fr <fr@li.org>", "fr", "pt_BR", "zh-Hant", "none", "1.0", "text/plain; charset=UTF-8", "text/plain; charset=utf-8",
    "text/plain; charset=CHARSET", "text/plain; charset=ISO-8859-1", "text/plain; charset=us-ascii", "text/plain;charset=UTF-8", "text/plain", "charset=", "8bit", "7bit", "quoted-printable", "base64", "nplurals=2; plural=(n != 1);", "nplurals=INTEGER; plural=EXPRESSION;", "nplurals=1; plural=0;", "(none)", "null", "None", "undefined", "N/A", "-", "0", "1",
    "true", "false", "yes", "UTF-8", "utf8", "a: b", ":", "::", "a;b", ";", "a=b", "a, b", ",", "\"q\"", "'q'", "a\\b", "\\", "#", "# c", "$Id$", "%s", "{x}", "<x>", "a  b", "a\tb", "\u{a0}", "\u{feff}x", "x\u{200b}", "\u{85}x", "=?UTF-8?Q?a?=", "&amp;", "A", "~", "@", "\u{65e5}\u{672c}\u{8a9e}", "e\u{301}", "\r",
];

/// lines that headers and what may be taken for one are made of
const HEAD_LINES: &[&str] = &[
    "msgid \"\"", "msgstr \"A%: b\\n\"", "\"C: %\\n\"", "msgstr \"\"", "msgctxt \"\"", "msgid \"x\"", "# %", "#= %", "#~ msgid \"\"", "#~ msgstr \"A%: b\\n\"", "msgid_plural \"\"", "msgstr[0] \"A%: b\\n\"", "\"\"", "#| msgid \"\"",
];

fn header_of<R: std::io::Read>(r: &poreader::PoReader<R>) -> HeaderObs {
    crate::obs::head_obs(r)
}

pub fn lang(c: &mut Ctx, val: &str) -> Res {
    // the reference answer comes from locale_config itself, a dependency of the library
    let key: String = val.trim().to_string();
    let mut h = E::simple("", "");
    h.body = Body::Simple(vec![format!("Language: {val}\n")]);
    let text = doc(&[h, E::simple("id", "t")]);
    let want = match std::panic::catch_unwind(|| model::language(Some(&key))) {
        Ok(w) => w,
        Err(_) => return Err(Stop::Skip), // the dependency itself cannot take it
    };
    let o = run(c, text.as_bytes())?;
    ensure!(o.open.is_none(), "opening fails: {}", o.open.unwrap().shown);
    let h = o.header.as_ref().unwrap();
    ensure!(h.lang == want, "the target language is {:?}, should be {want:?}", h.lang);
    ensure!(o.items.len() == 1 && o.error().is_none(), "the catalogue is not read");
    ensure!(h.props.get("Language") == Some(&key), "the Language property is {:?}", h.props.get("Language"));
    Ok(())
}

pub fn p20(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 6 } else { 7 };
    v.push(space("values", 0, format!("all Language values of up to {n} characters over e, n, U, _, -, 1, period, @, *, =, space"), move |c| {
        let len = c.choose(n + 1);
        let x: String = (0..len).map(|_| *c.pick(&['e', '_', 'n', '-', 'U', '1', '.', '@', '*', '=', ' '])).collect();
        lang(c, &x)
    }));
    v.push(space("composed", 0, "language, separator, region, encoding and variant each out of a list, in every combination", |c| {
        let l = *c.pick(&["fr", "FR", "zh", "sr", "ast", "x", "C", "POSIX", "en", "i", "", "english", "nb"]);
        let sep = *c.pick(&["", "_", "-", "__", "_-", " "]);
        let r = *c.pick(&["", "BR", "br", "Hant", "419", "ZZZ", "Latn-RS", "Hant_TW", "b", "US-posix", "1994"]);
        let e = *c.pick(&["", ".UTF-8", ".", ".iso885915", ".utf8.x"]);
        let m = *c.pick(&["", "@euro", "@latin", "@cyrillic", "@", "@saaho", "@x@y", "@valencia", "@Latn"]);
        lang(c, &format!("{l}{sep}{r}{e}{m}"))
    }));
    v.push(space("subtags", 0, "every language of two lower-case letters with every region of two letters (upper, lower and mixed case; _ or -), 64 at a time; every language of three letters", |c| {
        let kind = c.choose(4);
        let l = |k: usize| (b'a' + (k % 26) as u8) as char;
        if kind == 3 {
            let a = c.choose(26);
            let b = c.choose(26);
            for k in 0..26 {
                lang(c, &format!("{}{}{}", l(a), l(b), l(k)))?;
            }
            return Ok(());
        }
        let a = c.choose(26);
        let b = c.choose(26);
        let r = c.choose(26);
        for k in 0..26 {
            let reg = format!("{}{}", l(r), l(k));
            let v = match kind {
                0 => format!("{}{}_{}", l(a), l(b), reg.to_uppercase()),
                1 => format!("{}{}-{}", l(a), l(b), reg),
                _ => format!("{}{}_{}", l(a).to_ascii_uppercase(), l(b), reg),
            };
            lang(c, &v)?;
        }
        Ok(())
    }));
    v.push(space("long ranges", 0, "all ranges of 1 to 7 subtags out of 14 (languages, extended languages, scripts, regions, variants, extensions, private use), with - or _ between them, some with an encoding or a variant after them", |c| {
        const T: &[&str] = &["de", "Hant", "TW", "1996", "x", "u", "co", "phonebk", "valencia", "gan", "419", "a", "ABCDEFGH", "toolongsub"];
        let n = 1 + c.choose(7);
        let sep = *c.pick(&["-", "_"]);
        let tail = *c.pick(&["", ".UTF-8", "@latin"]);
        let mut p = vec![];
        for i in 0..n {
            p.push(if i < 4 { *c.pick(T) } else { T[(i * 5 + p.len()) % T.len()] });
        }
        lang(c, &format!("{}{tail}", p.join(sep)))
    }));
    v.push(space("modifiers", 0, "each of 42 modifiers of Unix locale names (in 3 cases) after each of 20 languages with or without a region and an encoding", |c| {
        const M: &[&str] = &[
            "saaho", "arabic", "cyrl", "cyrillic", "devanagari", "hebrew", "iqtelif", "latn", "latin", "shaw", "ijekavianlatin", "ije", "ijekavian", "valencia", "euro", "abegede", "boldquot", "quot", "piglatin", "cjknarrow", "stroke", "phonebook", "pinyin", "radical",
            "traditional", "tarask", "nynorsk", "bokmal", "hans", "hant", "simplified", "trad", "dict", "posix", "utf8", "1994", "a", "ab", "abcdefgh", "abcdefghi", "x", "oldstyle",
        ];
        const L: &[&str] = &["aa", "sr", "ca", "de", "gez", "en", "tt", "uz", "zh", "nb", "ssy", "be", "sh", "ks", "sd", "nan", "az", "pa", "yi", "C"];
        let m = c.pick(M).to_string();
        let m = match c.choose(3) {
            0 => m,
            1 => m.to_uppercase(),
            _ => m[..1].to_uppercase() + &m[1..],
        };
        let l = *c.pick(L);
        let r = *c.pick(&["", "_ER", "_RS", "_de", "-TW"]);
        let e = *c.pick(&["", ".UTF-8"]);
        lang(c, &format!("{l}{r}{e}@{m}"))
    }));
    v.push(space("names", 0, "names of languages and lists of languages, in 8 ways of writing two of them together", |c| {
        const N: &[&str] = &["de", "fr", "pt_BR", "en-US", "English", "French", "Deutsch", "C", "POSIX", "none", "und", "mul", "i-klingon", "art-lojban", "zh-min-nan", "en-GB-oed", "sgn-BE-FR", "root", "*", "x-private", "no", "nb_NO", "iw", "he", "in", "sh", "cmn", "zh_CN.GB2312", "ja_JP.eucJP", "sr_RS@latin", "ca@valencia", "en@quot", "en@boldquot", "de__PHONEBOOK", "qaa-Qaaa-QM-x-southern"];
        let a = *c.pick(N);
        let b = *c.pick(N);
        let v = match c.choose(9) {
            0 => a.to_string(),
            1 => format!("{a}, {b}"),
            2 => format!("{a},{b}"),
            3 => format!("{a} {b}"),
            4 => format!("{a};{b}"),
            5 => format!("{a}:{b}"),
            6 => format!("{a} ({b})"),
            7 => format!("{a};q=0.5"),
            _ => format!("{a}/{b}"),
        };
        lang(c, &v)
    }));
    v.push(space("lines", 0, "the Language value with each of 34 white-space and look-alike characters before, after and inside it, cut over two header lines, or next to a comment-like text", |c| {
        let ch = *c.pick(super::SPACES);
        let v = *c.pick(&["fr", "pt_BR", "de-AT", "sr@latin"]);
        let x = match c.choose(4) {
            0 => format!("{ch}{v}"),
            1 => format!("{v}{ch}"),
            2 => format!("{}{ch}{}", &v[..1], &v[1..]),
            _ => format!("{ch}{ch}{v}{ch}"),
        };
        if x.contains('\n') {
            return Err(Stop::Skip);
        }
        lang(c, &x)
    }));
    v.push(space("table", 0, "known values", |c| {
        const T: &[(&str, &str)] = &[
            ("fr", "fr"), ("pt-BR", "pt-BR"), ("pt-br", "pt-BR"), ("pt_BR", "pt-BR"), ("PT_BR", "pt-BR"), ("de_AT.UTF-8", "de-AT"), ("zh-Hant-TW", "zh-Hant-TW"), ("zh-hant-tw", "zh-Hant-TW"),
            ("English!", ""), ("", ""), ("123", ""), ("x_", ""), ("ca-valencia", "ca-valencia"), ("sr@latin", "sr-Latn"),
        ];
        let (a, b) = *c.pick(T);
        let h = format!("msgid \"\"\nmsgstr \"\"\n\"X: y\\n\"\n\"Language: {a}\\n\"\n\nmsgid \"i\"\nmsgstr \"t\"\n");
        let o = run(c, h.as_bytes())?;
        ensure!(o.open.is_none(), "opening fails");
        let l = &o.header.as_ref().unwrap().lang;
        let l0 = l.split('-').next().unwrap_or("");
        ensure!(l == b || (a.contains('@') || a == "x_") && (l.starts_with(b) || l0.is_empty()), "the target language for {a:?} is {l:?}, should be {b:?}");
        Ok(())
    }));
    v.push(space("header lines", 0, "headers of up to 4 lines out of 9 with no, one or several Language lines, other keys that resemble it; no header at all; a later entry that looks like a header", |c| {
        const L: &[&str] = &[
            "Language: fr", "Language: de_AT", "Language:", "Language: no such language", "language: it", "Language-Team: es", "X-Language: ja", " Language : pt_BR ", "Plural-Forms: nplurals=2; plural=n>1;",
        ];
        let n = c.choose(5);
        let lines: Vec<&str> = (0..n).map(|_| *c.pick(L)).collect();
        let mut d = vec![E::header(&lines)];
        match c.choose(3) {
            0 => d.push(E::simple("id", "Language: nl\n")),
            1 => d.insert(0, E::simple("id", "Language: nl\n")),
            _ => (),
        }
        let text = doc(&d);
        check(c, text.as_bytes()).map(|_| ())
    }));
    v
}

pub fn with_def(c: &mut Ctx, header_lines: &[String]) -> Res {
    let mut d = String::from("msgid \"\"\nmsgstr \"\"\n");
    for l in header_lines {
        d.push_str(&format!("\"{}\\n\"\n", escape(l)));
    }
    d.push_str("\nmsgid \"one\"\nmsgid_plural \"many\"\nmsgstr[0] \"t0\"\n\n#~| msgid \"po\"\n#~| msgid_plural \"pm\"\n#~ msgid \"two\"\n#~ msgid_plural \"many\"\n#~ msgstr[0] \"\"\n\nmsgid \"simple\"\nmsgstr \"text\"\n");
    check(c, d.as_bytes()).map(|_| ())
}

pub fn p21(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 4 } else { 5 };
    const ITEMS: &[&str] = &[
        "nplurals=2;", "plural=n>1;", "nplurals = 3 ;", "plural = 0 ;", "foo=bar;", "garbage;", "nplurals=x;", "nplurals=-1;", "nplurals=;", "plural=;", "nplurals=2", "plural=n", "=1;", "two words=1;", "nplurals=1 2;", "plural=n==1;", "plural=n+;",
        "Nplurals=7;", "plural\t=\tn;", "nplurals=007;", "nplurals=1;", ";", " ; ", "nplurals=+3;", "plural=n > 1 ;", "plural=n;",
    ];
    v.push(space("items", 0, format!("all definitions of up to {n} items out of 26 (good, foreign, broken, unterminated) joined with a space, up to {} without", n - 1), move |c| {
        let sep = *c.pick(&[" ", ""]);
        let len = c.choose(if sep.is_empty() { n } else { n + 1 });
        let mut x = vec![];
        for _ in 0..len {
            x.push(*c.pick(ITEMS));
        }
        with_def(c, &[format!("Plural-Forms: {}", x.join(sep))])
    }));
    let n = if q { 7 } else { 8 };
    v.push(space("tokens", 0, format!("all definitions of up to {n} tokens over nplurals, plural, =, ;, space, 1, n, x"), move |c| {
        let len = c.choose(n + 1);
        let mut x = String::new();
        for _ in 0..len {
            x.push_str(*c.pick(&["nplurals", "plural", "=", ";", " ", "1", "n", "x"]));
        }
        with_def(c, &[format!("Plural-Forms: {x}")])
    }));
    v.push(space("header lines", 0, "up to 4 header lines out of 11: the definition cut over repeated lines, in any order and spacing, between other properties, no line at all, an empty one", |c| {
        const L: &[&str] = &[
            "Plural-Forms: nplurals=2; plural=n>1;", "Plural-Forms: nplurals=3;", "Plural-Forms: plural=n%2;", "Plural-Forms:", "Plural-Forms:   nplurals=4 ;  plural = n ;  ", "plural-forms: nplurals=9;", "X: y", "Plural-Forms: plural=n", "Plural-Forms: % 3;",
            "Plural-Forms: nplurals", "Plural-Forms: = 5; plural=0;",
        ];
        let n = c.choose(5);
        let l: Vec<String> = (0..n).map(|_| c.pick(L).to_string()).collect();
        with_def(c, &l)
    }));
    v.push(space("counts", 0, "nplurals from 0 to 40 and around powers of two and ten up to 2^63, with 0 to 3 texts written, formula n or absent", |c| {
        let mut k: Vec<u128> = (0..=40).collect();
        for p in 0..63u32 {
            k.push(1u128 << p);
        }
        for p in 1..19u32 {
            k.push(10u128.pow(p));
        }
        k.push((1 << 63) - 1);
        k.push(1 << 63);
        let n = *c.pick(&k);
        let f = *c.pick(&["", " plural=n;", " plural=n-1;"]);
        let texts = 1 + c.choose(3);
        let mut d = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n};{f}\\n\"\n\nmsgid \"one\"\nmsgid_plural \"many\"\n");
        for i in 0..texts {
            d.push_str(&format!("msgstr[{i}] \"t{i}\"\n"));
        }
        d.push_str("\nmsgid \"next\"\nmsgstr \"x\"\n");
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("numbers", 0, "nplurals written with each of 300 characters before, after or between its digits, or instead of them", |c| {
        let k = c.choose(256 + super::SPACES.len() + 12);
        let ch = if k < 256 { k as u8 as char } else if k < 256 + super::SPACES.len() { super::SPACES[k - 256] } else { ['１', '٣', '²', '½', 'Ⅳ', '一', '\u{301}', '−', '＋', '，', '．', '\u{200d}'][k - 256 - super::SPACES.len()] };
        if ch == '\n' {
            return Err(Stop::Skip);
        }
        let x = match c.choose(5) {
            0 => format!("{ch}3"),
            1 => format!("3{ch}"),
            2 => format!("1{ch}2"),
            3 => format!("{ch}"),
            _ => format!("3 {ch}"),
        };
        let key = *c.pick(&["nplurals=", "nplurals ="]);
        with_def(c, &[format!("Plural-Forms: {key}{x}; plural=n;")])
    }));
    v.push(space("keys", 0, "the keys nplurals and plural with each of 300 characters before, after or inside them, before or after a good declaration", |c| {
        let k = c.choose(256 + super::SPACES.len());
        let ch = if k < 256 { k as u8 as char } else { super::SPACES[k - 256] };
        if ch == '\n' {
            return Err(Stop::Skip);
        }
        let (key, val) = *c.pick(&[("nplurals", "4"), ("plural", "n>2")]);
        let key = match c.choose(4) {
            0 => format!("{ch}{key}"),
            1 => format!("{key}{ch}"),
            2 => format!("{}{ch}{}", &key[..2], &key[2..]),
            _ => key.to_uppercase().replace('L', &ch.to_string()),
        };
        let item = format!("{key}={val};");
        let def = match c.choose(3) {
            0 => item,
            1 => format!("{item} nplurals=3; plural=n;"),
            _ => format!("nplurals=3; plural=n; {item}"),
        };
        with_def(c, &[format!("Plural-Forms: {def}")])
    }));
    v.push(space("blanks", 0, "6 definitions with each of 34 white-space and look-alike characters (and, of 12 of them and the semicolon, all pairs) at each of their gaps: before and after keys, values, equals signs and semicolons", |c| {
        const D: &[&[&str]] = &[
            &["nplurals", "=", "3", ";", "plural", "=", "n", ";"],
            &["plural", "=", "n>2", ";"],
            &["nplurals", "=", "4", ";"],
            &["x", "=", "y z", ";", "nplurals", "=", "1", ";"],
            &["x", "=", ";", "plural", "=", "1-n", ";", ";"],
            &["nplurals", "=", "1", ";", "nplurals", "=", "2", ";", "plural", "=", "n", ";", "plural", "=", "0", ";"],
        ];
        let mut parts: Vec<String> = c.pick(D).iter().map(|x| x.to_string()).collect();
        let gap = c.choose(parts.len() + 1);
        let k = c.choose(super::SPACES.len() + 13 * 13);
        let x = match k.checked_sub(super::SPACES.len()) {
            None => super::SPACES[k].to_string(),
            Some(k) => {
                let w = [';', ' ', '\t', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{202f}', '\u{3000}', '\u{200b}'];
                format!("{}{}", w[k / 13], w[k % 13])
            }
        };
        if x.contains('\n') {
            return Err(Stop::Skip);
        }
        parts.insert(gap, x);
        let sep = *c.pick(&["", " "]);
        with_def(c, &[format!("Plural-Forms: {}", parts.join(sep))])
    }));
    const MANY: &[&str] = &["nplurals=1;", "nplurals=2;", "nplurals=3;", "plural=n;", "plural=0;", "plural=n>1;", "x=1;", ";", "nplurals=x;", "plural=;"];
    let n = if q { 4 } else { 5 };
    v.push(space("repeated declarations", 0, format!("all definitions of up to {n} declarations out of 10, most of them of the same two keys, on one header line or each on its own"), move |c| {
        let len = c.choose(n + 1);
        let x: Vec<&str> = (0..len).map(|_| *c.pick(MANY)).collect();
        if c.flip() {
            with_def(c, &x.iter().map(|x| format!("Plural-Forms: {x}")).collect::<Vec<_>>())
        } else {
            with_def(c, &[format!("Plural-Forms: {}", x.join(" "))])
        }
    }));
    v.push(space("many items", 0, "0 to 40 (and up to 3000) foreign, empty, distinct or equal items before, between or after the declarations, on one header line or each on one of its own", |c| {
        let r = ramp(40, 3000);
        let n = *c.pick(&r);
        let kind = c.choose(4);
        let mut x: Vec<String> = (0..n)
            .map(|i| match kind {
                0 => format!("x{i}={i};"),
                1 => "x=y;".into(),
                2 => ";".into(),
                _ => format!("nplurals={};", 3 + i % 2),
            })
            .collect();
        let place = [0, n / 2, n][c.choose(3)];
        x.insert(place, "plural=n>2;".into());
        let place = [0, n / 2, n][c.choose(3)];
        x.insert(place, "nplurals=5;".into());
        if n < 300 && c.flip() {
            with_def(c, &x.iter().map(|x| format!("Plural-Forms: {x}")).collect::<Vec<_>>())
        } else {
            with_def(c, &[format!("Plural-Forms: {}", x.join(" "))])
        }
    }));
    v.push(space("verbatim", 0, "definitions with unusual inner spacing, long formulas and extra keys are exposed as written, to every plural unit, also after other units", |c| {
        let f = ["n != 1", "  n   !=   1  ", "(n%10==1 && n%100!=11 ? 0 : 1)", "n\t>\t1", "0", ""][c.choose(6)];
        let sp = ["", " ", "  ", "\t"][c.choose(4)];
        let order = c.choose(4);
        let a = format!("nplurals{sp}={sp}2{sp};");
        let b = format!("plural{sp}={sp}{f}{sp};");
        let x = format!("x{sp}={sp}y z{sp};");
        let def = match order {
            0 => format!("{a}{sp}{b}"),
            1 => format!("{b}{sp}{a}"),
            2 => format!("{x}{sp}{b}{sp}{x}"),
            _ => format!("{a}{sp}{x}{sp}{b}"),
        };
        let k = c.choose(4);
        let mut d = vec![header(&[&format!("Plural-Forms: {def}")])];
        for i in 0..k {
            d.push(E::simple(&format!("s{i}"), "x"));
        }
        d.push(E::plural("one", "many", &["a", "b"]));
        d.push(E::plural("two", "many", &["a"]).obsolete().with_prev(None, Some("o"), Some("p")));
        let o = check_entries(c, &d)?;
        for u in o.units() {
            if let Some(p) = &u.message.details {
                let f = p.forms.as_ref();
                ensure!(f.map(|f| f.definition.as_str()) == Some(def.trim()), "the definition is {:?}, should be {:?}", f.map(|f| &f.definition), def.trim());
            }
        }
        Ok(())
    }));
    v
}

