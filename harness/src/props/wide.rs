//! Spaces shared by several properties: every small edit of rich catalogues, by character, by token, by line.

use super::lines;
use crate::engine::*;
use crate::gen::*;
use crate::model;

/// Catalogues in which every kind of line occurs in every kind of place.
pub const RICH: &[&str] = &[
    r##"# Translators
#. extracted
#= other
#, fuzzy
msgid ""
msgstr ""
"Project-Id-Version: pkg 1.0\n"
"Language: pt_BR\n"
"Plural-Forms: nplurals=2; plural=(n > 1);\n"
"X-Key: some value\n"
"X-Key: more\n"

# note one
#  Note two
#. dev
#: a.c:1 dir/b.c:22
#, fuzzy, c-format
#= other
#| msgctxt "oc"
#| msgid "oi"
#| "oj"
#| msgid_plural "op"
msgctxt "Ctx"
msgid "one %d"
msgid_plural "many %d"
msgstr[0] "t0\n"
msgstr[1] "t1"
"more \"q\" \\ x"

msgid "plain"
msgstr ""

# old
#~| msgid "po"
#~ msgid "obs"
#~ "cont"
#~ msgstr "text"

#, c-format
#: z.c:9
msgid "last"
msgstr "end"
"..."
"##,
    r##"#. first
msgctxt "c"
msgid ""
"a"
msgstr "b"
#~| msgctxt "old"
#~ msgctxt "k"
#~ msgid "x"
#~ msgid_plural "y"
#~ msgstr[0] "z"
#~ msgstr[1] ""
#, no-wrap
msgid "Title"
msgstr "Título"
"##,
    r##"# SOME DESCRIPTIVE TITLE.
# FIRST AUTHOR <EMAIL@ADDRESS>, YEAR.
#
msgid ""
msgstr "Project-Id-Version: 1\nLanguage: de\nMIME-Version: 1.0\n"
"Content-Type: text/plain; charset=UTF-8\nPlural-Forms: "
"nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2;\n"

#: src/main.rs:10
#, c-format, range: 0..6
msgid "%d file"
msgid_plural "%d files"
msgstr[0] "%d Datei"
msgstr[1] "%d Dateien"
msgstr[2] ""

#: src/main.rs:12
#, fuzzy
#| msgid "Old"
msgctxt "menu|File"
msgid "Open"
msgstr "Öffnen"

#~ msgid "gone"
#~ msgstr "weg"
"##,
];

/// ASCII, all white space, and characters that are easily taken for others or have unusual cases.
pub fn chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|x| x as char).collect();
    v.extend(super::SPACES.iter().copied().filter(|c| !c.is_ascii()));
    v.extend("\u{2066}\u{2068}\u{2069}\u{2060}éÉßſKİıΣς日\u{301}\u{200d}\u{200e}\u{202e}\u{ad}\u{2019}\u{201c}\u{201d}«»＂＃：；＝，１٣²−–—｜～\u{fffd}\u{fffe}\u{ffff}\u{e000}\u{d7ff}\u{1f600}\u{10ffff}\u{80}\u{9f}ÿĀ".chars());
    v
}

/// Longer pieces.
pub const TOKENS: &[&str] = &[
    "\\n", "\\t", "\\r", "\\\"", "\\\\", "\\x41", "\\0", "\\u00e9", "\"\"", "\" \"", "\"\n\"", "\\n\"\n\"", "msgid ", "msgid \"", "msgstr ", "msgstr \"", "msgctxt ", "msgid_plural ", "msgstr[0] ", "msgstr[1] ", "msgstr[", "#~ ", "#| ", "#~| ", "# ", "#, ", "#: ", "#. ",
    "\n", "\n\n", "\r\n", "\n#~ ", "\n# ", "\n#| ", "  ", "\t\t", "\r\r", "//", "/*", "*/", "--", "<!--", "fuzzy", "Fuzzy", ", fuzzy", "fuzzy, ", "no-fuzzy", ",,", ", ,", "::", ": ", "; ", ";;", "Language: fr\\n", "Plural-Forms: nplurals=1; plural=0;\\n", "Plural-Forms:", "X-Key:", "X-Key: z\\n", "nplurals=",
    "plural=", "%s", "{0}", "\u{feff}", "[0]", "00", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\\\\n", "\\\\\\\"", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "日本語日本語日本語日本語日本語", "domain \"x\"\n", "include", "EOF", "\u{1a}", "\u{4}", "\0\0", "\u{2028}", "\u{85}", "\u{c}",
    "\u{2068}a b\u{2069}", "<<<<<<< HEAD", "=======", ">>>>>>> x", "\n=======\n", "\n<<<<<<< HEAD\n", "\ndomain \"x\"\n", "\n~\n", "\n\u{c}\n", "%%", "@@ -1 +1 @@\n", "\n---\n", "\n+", "\n-", "\n//", "\n;", "\n$", "c-format", "no-c-format", "range: 1..2", "\n#,fuzzy\n", "\n#,\n", "\n#~ \n", "\n#|\n", "\n#~|\n", "\n#\n", "\n#.\n", "\n#:\n", "\n##\n", "\n#~# x\n", "\n#~, fuzzy\n", "\n#~: a:1\n", "\n#~. x\n", "\nmsgstr\n", "\nmsgid\n", "\nmsgid_plurals \"x\"\n", "\nmsgstr[2] \"x\"\n", "\nmsgstr[00] \"x\"\n", "\nMSGID \"x\"\n", "\nmsgid\"x\"\n", "\n\"x\" \"y\"\n",
];

pub type Sel = fn(&str, usize) -> bool;
pub type Chk = fn(&mut Ctx, &str) -> Res;

pub fn all(_: &str, _: usize) -> bool {
    true
}
pub fn in_string(l: &str, i: usize) -> bool {
    match (l.find('"'), l.rfind('"')) {
        (Some(a), Some(b)) => !comment(l, 0) && a < i && i <= b,
        _ => false,
    }
}
pub fn comment(l: &str, _: usize) -> bool {
    l.starts_with('#') && !l.starts_with("#~") && !l.starts_with("#|")
}
pub fn marked(l: &str, _: usize) -> bool {
    l.starts_with("#~") || l.starts_with("#|")
}
pub fn flags(l: &str, _: usize) -> bool {
    l.starts_with("#,")
}
pub fn header_line(l: &str, _: usize) -> bool {
    l.contains("\\n\"") && l.contains(':')
}
pub fn forms_line(l: &str, _: usize) -> bool {
    l.contains("plural") && l.contains("\"")
}
pub fn numbered(l: &str, _: usize) -> bool {
    l.contains("msgstr[") || l.contains("nplurals")
}
pub fn outside(l: &str, i: usize) -> bool {
    !in_string(l, i)
}

/// Is every reading of the text free of errors?
pub fn well_formed(d: &str) -> bool {
    let v = model::readings(d.as_bytes(), model::End::Eof);
    !v.is_empty() && v.iter().all(|x| x.fail.is_none() && !x.open_fail)
}
pub fn good(c: &mut Ctx, d: &str) -> Res {
    if !well_formed(d) {
        return Err(Stop::Skip);
    }
    check(c, d.as_bytes()).map(|_| ())
}
pub fn any(c: &mut Ctx, d: &str) -> Res {
    check(c, d.as_bytes()).map(|_| ())
}

fn places(docs: &[&str], sel: Sel) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (k, d) in docs.iter().enumerate() {
        let mut at = 0;
        for l in d.split_inclusive('\n') {
            for i in 0..l.len() {
                if d.is_char_boundary(at + i) && sel(l.trim_end_matches('\n'), i) {
                    v.push((k, at + i));
                }
            }
            at += l.len();
        }
        if sel("", 0) {
            v.push((k, at));
        }
    }
    v
}

/// Every insertion, replacement, removal or doubling of a character at a selected place of the rich catalogues.
pub fn char_edits(name: &'static str, what: &str, sel: Sel, f: Chk) -> Space {
    let p = places(RICH, sel);
    let ch = chars();
    let rule = format!("every edit of one character ({} characters put in or put instead, one removed, one doubled, one exchanged with the next) at {} places ({what}) of three rich catalogues", ch.len(), p.len());
    space(name, 0, rule, move |c| {
        let (k, at) = p[c.choose(p.len())];
        let d = RICH[k];
        let next = d[at..].chars().next();
        let n = next.map_or(0, char::len_utf8);
        let mut t = String::with_capacity(d.len() + 4);
        t.push_str(&d[..at]);
        let op = c.choose(2 * ch.len() + 3);
        if op < ch.len() {
            t.push(ch[op]);
            t.push_str(&d[at..]);
        } else {
            let Some(x) = next else { return Err(Stop::Skip) };
            let rest = &d[at + n..];
            match op - ch.len() {
                i if i < ch.len() => t.push(ch[i]),
                i if i == ch.len() => (),
                i if i == ch.len() + 1 => {
                    t.push(x);
                    t.push(x);
                }
                _ => {
                    let Some(y) = rest.chars().next() else { return Err(Stop::Skip) };
                    t.push(y);
                    t.push(x);
                    t.push_str(&rest[y.len_utf8()..]);
                    return f(c, &t);
                }
            }
            t.push_str(rest);
        }
        f(c, &t)
    })
}

/// Every insertion of a longer piece.
pub fn token_edits(name: &'static str, what: &str, sel: Sel, f: Chk) -> Space {
    let p = places(RICH, sel);
    let rule = format!("{} longer pieces (escapes, quotes, keywords, marks, line ends, header items, odd characters) put in at {} places ({what}) of three rich catalogues, or put instead of the rest of the line", TOKENS.len(), p.len());
    space(name, 0, rule, move |c| {
        let (k, at) = p[c.choose(p.len())];
        let d = RICH[k];
        let x = *c.pick(TOKENS);
        let rest = if c.flip() { d[at..].find('\n').map_or(d.len(), |i| at + i) } else { at };
        f(c, &format!("{}{x}{}", &d[..at], &d[rest..]))
    })
}

/// What makes lines long, and how long.
const FILL: &[&str] = &["a", "é", " ", "\\n", "x \\\\ "];
const LONG: &[usize] = &[63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 10001, 16384, 32769, 65535, 65536, 65537];

/// Every line made long in several places.
pub fn long_edits(name: &'static str, what: &str, sel: Sel, f: Chk) -> Space {
    let mut p = vec![];
    for (k, d) in RICH.iter().enumerate() {
        let mut at = 0;
        for l in d.split_inclusive('\n') {
            let x = l.trim_end_matches('\n');
            let mut own = vec![0, x.len()];
            own.extend(x.find('"').map(|i| i + 1));
            own.extend(x.rfind('"'));
            own.extend(x.find(' '));
            own.extend(x.find(": ").map(|i| i + 1));
            own.extend((x.starts_with('#') && x.len() > 2).then_some(2));
            own.sort();
            own.dedup();
            p.extend(own.into_iter().filter(|i| d.is_char_boundary(at + i) && sel(x, *i)).map(|i| (k, at + i)));
            at += l.len();
        }
    }
    let rule = format!("lines of three rich catalogues ({what}) made long: {} characters at the start, after the mark, keyword, opening quote or key, before the closing quote or at the end, out of {} kinds, in {} numbers from 63 to 65537", p.len(), FILL.len(), LONG.len());
    space(name, 0, rule, move |c| {
        let (k, at) = p[c.choose(p.len())];
        let d = RICH[k];
        let x = *c.pick(FILL);
        let n = *c.pick(LONG);
        f(c, &format!("{}{}{}", &d[..at], x.repeat(n / x.chars().count() + 1), &d[at..]))
    })
}

/// Every edit by lines.
pub fn line_edits(name: &'static str, f: Chk) -> Space {
    let rule = "every line of three rich catalogues removed, doubled, moved to any other place, exchanged with any other, or a line of any kind put before it, put instead of it, or all lines up to it (or from it on) removed".to_string();
    space(name, 0, rule, move |c| {
        let k = c.choose(RICH.len());
        let mut l: Vec<String> = RICH[k].lines().map(str::to_string).collect();
        let n = l.len();
        let i = c.choose(n);
        match c.choose(8) {
            0 => {
                l.remove(i);
            }
            1 => l.insert(i, l[i].clone()),
            2 => {
                let j = c.choose(n);
                let x = l.remove(i);
                l.insert(j, x);
            }
            3 => {
                let j = c.choose(n);
                l.swap(i, j);
            }
            op @ (4 | 5) => {
                let mut x = String::new();
                lines::fill(&mut x, c.pick(lines::ALL), 0);
                x.pop();
                if op == 4 {
                    l.insert(i, x);
                } else {
                    l[i] = x;
                }
            }
            6 => {
                l.drain(..i);
            }
            _ => l.truncate(i),
        }
        f(c, &(l.join("\n") + "\n"))
    })
}

/// Two edits by lines.
pub fn two_line_edits(name: &'static str, f: Chk) -> Space {
    let rule = format!("two of the following to the second of the rich catalogues, in every combination: a line removed, doubled, exchanged with another, or a line out of {} of every kind put before it", lines::ALL.len());
    space(name, 0, rule, move |c| {
        let mut l: Vec<String> = RICH[1].lines().map(str::to_string).collect();
        for e in 0..2 {
            let n = l.len();
            let i = c.choose(n + 1);
            match c.choose(4) {
                0 if i < n => {
                    l.remove(i);
                }
                1 if i < n => l.insert(i, l[i].clone()),
                2 if i < n => {
                    let j = c.choose(n);
                    l.swap(i, j);
                }
                3 => {
                    let mut x = String::new();
                    lines::fill(&mut x, c.pick(lines::ALL), e);
                    x.pop();
                    l.insert(i, x);
                }
                _ => return Err(Stop::Skip),
            }
        }
        f(c, &(l.join("\n") + "\n"))
    })
}
