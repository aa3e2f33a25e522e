pub mod content;
pub mod faults;
pub mod formulas;
pub mod lines;
pub mod meta;
pub mod order;
pub mod stream;
pub mod views;
pub mod vocab;
pub mod wide;

use crate::engine::{Space, Tier};

pub const ALL: &[&str] = &[
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18",
    "P19", "P20", "P21", "P22", "P23",
];

pub fn spaces(p: &str, t: Tier) -> Vec<Space> {
    let mut v = own(p, t);
    v.extend(vocab::spaces(p));
    v.extend(edits(p, t));
    v
}

/// Small edits of rich catalogues, where they bear on the property.
fn edits(p: &str, t: Tier) -> Vec<Space> {
    use wide::*;
    let (sel, what, f): (Sel, &str, Chk) = match p {
        "P01" => (all, "all", good),
        "P02" => (in_string, "in strings", good),
        "P03" => (comment, "in comments", any),
        "P04" => (all, "all", good),
        "P05" => (marked, "in marked lines", any),
        "P06" => (flags, "in flag lines", good),
        "P07" => (header_line, "in header lines", good),
        "P10" => (numbered, "in numbered translations and declarations", any),
        "P11" | "P12" => (all, "all", any),
        "P17" => (outside, "outside strings", order::located),
        "P18" => (outside, "outside strings", good),
        "P15" => (all, "all", faults::wide),
        "P20" => (header_line, "in header lines", any),
        "P21" => (forms_line, "where plural is spoken of", any),
        _ => return vec![],
    };
    let mut v = vec![char_edits("character edits", what, sel, f), token_edits("token edits", what, sel, f)];
    if matches!(p, "P01" | "P02" | "P03" | "P05" | "P07" | "P11" | "P15" | "P17" | "P18" | "P21") {
        v.push(long_edits("long lines of rich catalogues", what, sel, f));
    }
    if matches!(p, "P01" | "P04" | "P05" | "P11" | "P12" | "P15" | "P17") {
        v.push(line_edits("line edits of rich catalogues", f));
        if t == Tier::Thorough {
            v.push(two_line_edits("two line edits", f));
        }
    }
    v
}

fn own(p: &str, t: Tier) -> Vec<Space> {
    match p {
        "P01" => content::p01(t),
        "P02" => content::p02(t),
        "P03" => content::p03(t),
        "P04" => content::p04(t),
        "P05" => content::p05(t),
        "P06" => content::p06(t),
        "P07" => meta::p07(t),
        "P08" => formulas::p08(t),
        "P09" => formulas::p09(t),
        "P10" => formulas::p10(t),
        "P11" => order::p11(t),
        "P12" => order::p12(t),
        "P13" => faults::p13(t),
        "P14" => faults::p14(t),
        "P15" => faults::p15(t),
        "P16" => order::p16(t),
        "P17" => order::p17(t),
        "P18" => order::p18(t),
        "P19" => views::p19(t),
        "P20" => meta::p20(t),
        "P21" => meta::p21(t),
        "P22" => stream::p22(t),
        "P23" => stream::p23(t),
        _ => vec![],
    }
}

/// 0..=n plus the neighbourhoods of the powers of two up to `max`
pub fn ramp(n: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n).collect();
    let mut k = 1;
    while k <= max {
        for d in [k.wrapping_sub(1), k, k + 1] {
            if d <= max && !v.contains(&d) {
                v.push(d);
            }
        }
        k *= 2;
    }
    for d in [10, 50, 100, 200, 500, 1000, 2000, 5000, 10000, 50000] {
        for d in [d - 1, d, d + 1] {
            if d <= max && !v.contains(&d) {
                v.push(d);
            }
        }
    }
    for &d in vocab::numbers() {
        if d <= max as u64 && !v.contains(&(d as usize)) {
            v.push(d as usize);
        }
    }
    v.sort();
    v
}

pub const STRINGS: &[&str] = &[
    "", " ", "  x  ", "a", "msgid", "msgid \"x\"", "msgstr \"\"", "#", "# x", "#~ msgid \"x\"", "#, fuzzy", "%d items", "\\", "\\n",
    "\\\\", "\n", "a\nb\n", "\n\n", "\r\n", "\r", "\t", "\ta\t", "é", "日本語", "\u{1F600}", "e\u{301}", "\u{202E}x", "\u{85}", "\u{2028}",
    "\u{feff}", "\0", "\u{7f}", "\u{a0}x\u{a0}", ";", "a: b", ",", "=", "fuzzy", "0", "\"", "\"\"", "\\\"", "'", "]", "[0]", "msgstr[0]", "~",
    "|", "#|", "~|", "{0}", "$x", "<b>&amp;</b>", "a\\", "\\t", "\\x41", "C:\\new\\table", "n != 1", "?", "\u{10FFFF}",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
];

/// every character with the White_Space property, and some that look like it but do not have it
pub const SPACES: &[char] = &[
    '\t', '\u{b}', '\u{c}', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\r',
    '\u{1c}', '\u{1f}', '\u{200b}', '\u{feff}', '\u{180e}', '\0', '\u{7f}', '\u{8}',
];
