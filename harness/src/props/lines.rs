//! Spaces made of sequences of lines: every sequence over an alphabet of lines, between a beginning and an end.
//! `%` in a line stands for a text of its own in every place.

use crate::engine::*;
use crate::gen::*;

/// Lines of every keyword, mark and kind.
pub const ALL: &[&str] = &[
    "msgid \"%\"", "msgid \"\"", "msgstr \"%\"", "msgstr \"\"", "\"%\"", "msgctxt \"%\"", "msgid_plural \"%\"", "msgstr[0] \"%\"", "msgstr[1] \"%\"", "msgstr[2] \"%\"",
    "#~ msgid \"%\"", "#~ msgid \"\"", "#~ msgstr \"%\"", "#~ \"%\"", "#~ msgctxt \"%\"", "#~ msgid_plural \"%\"", "#~ msgstr[0] \"%\"", "#~ msgstr[1] \"%\"",
    "#| msgid \"%\"", "#| msgctxt \"%\"", "#| msgid_plural \"%\"", "#| \"%\"", "#| msgstr \"%\"", "#| msgstr[0] \"%\"",
    "#~| msgid \"%\"", "#~| msgctxt \"%\"", "#~| msgid_plural \"%\"", "#~| \"%\"", "#~| msgstr \"%\"",
    "# %", "#, fuzzy", "#. %", "#: %", "#= %", "#", "#~ %", "#| %", "#~", "junk %", "", "\r", "\u{c}",
];

/// Lines that well-formed catalogues are made of.
pub const GOOD: &[&str] = &[
    "msgid \"%\"", "msgstr \"%\"", "msgstr \"\"", "\"%\"", "msgctxt \"%\"", "msgctxt \"\"", "msgid_plural \"%\"", "msgstr[0] \"%\"", "msgstr[1] \"%\"", "msgid \"\"",
    "#~ msgid \"%\"", "#~ msgstr \"%\"", "#~ \"%\"", "#| msgid \"%\"", "#| \"%\"", "# %", "# a", "#, fuzzy", "#, a", "#. %", "#. a", "#: %", "#: a", "#= a", "",
];

pub const STARTS: &[&str] = &["", "msgid \"\"\nmsgstr \"A: b\\n\"\n\n", "msgid \"first\"\nmsgstr \"F\"\n\n"];

pub fn fill(d: &mut String, l: &str, n: usize) {
    for ch in l.chars() {
        if ch == '%' {
            d.push('v');
            d.push_str(&n.to_string());
        } else {
            d.push(ch);
        }
    }
    d.push('\n');
}

/// All sequences of `n0..=n` lines.
#[allow(clippy::too_many_arguments)]
pub fn sequences(
    name: &'static str,
    alpha: &'static [&'static str],
    n0: usize,
    n: usize,
    starts: &'static [&'static str],
    ends: &'static [&'static str],
    f: fn(&mut Ctx, &str, usize) -> Res,
) -> Space {
    let rule = format!(
        "all sequences of {n0} to {n} lines out of {} ({}{}), after each of {} beginnings, before each of {} ends",
        alpha.len(),
        alpha[..alpha.len().min(12)].join(" / "),
        if alpha.len() > 12 { " / ..." } else { "" },
        starts.len(),
        ends.len()
    );
    space(name, 0, rule, move |c| {
        let mut d = String::from(starts[c.choose(starts.len())]);
        let end = ends[c.choose(ends.len())];
        let len = n0 + c.choose(n - n0 + 1);
        for i in 0..len {
            let l = *c.pick(alpha);
            fill(&mut d, l, i);
        }
        d.push_str(end);
        f(c, &d, len)
    })
}

pub fn plain(c: &mut Ctx, d: &str, _n: usize) -> Res {
    check(c, d.as_bytes()).map(|_| ())
}

