//! P22 (reading is incremental) and P23 (what is delivered are plain values).

use super::ramp;
use crate::engine::*;
use crate::gen::*;
use crate::obs::*;
use crate::{broken, ensure};
use poreader::{comment::Comment, note::Note, plural::PluralForms, unit::Unit, CatalogueReader, Message, Origin, PoParser, PoReader, State};
use std::cell::Cell;
use std::collections::HashSet;
use std::io::{self, Read};
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------------------------
// P22

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Line,
    TwoLines,
    Bytes(usize),
}

/// A source that knows how far it may be read.
struct Tap<'a> {
    data: &'a [u8],
    pos: usize,
    step: Step,
    limit: Rc<Cell<usize>>,
    reads: Rc<Cell<usize>>,
    over: Rc<Cell<Option<usize>>>,
}
impl Read for Tap<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        if self.pos >= self.limit.get() {
            if self.over.get().is_none() {
                self.over.set(Some(self.pos));
            }
            return Ok(0);
        }
        let rest = &self.data[self.pos..];
        let line = |x: &[u8]| x.iter().position(|&c| c == b'\n').map_or(x.len(), |i| i + 1);
        let n = match self.step {
            Step::Line => line(rest),
            Step::TwoLines => {
                let k = line(rest);
                k + line(&rest[k..])
            }
            Step::Bytes(k) => k.min(rest.len()),
        }
        .min(b.len());
        b[..n].copy_from_slice(&rest[..n]);
        self.pos += n;
        Ok(n)
    }
}

/// A catalogue cut into its entries (the comments and blank lines before an entry belong to it).
struct Cat {
    text: String,
    ends: Vec<usize>,
    head: usize,
}
impl Cat {
    fn new() -> Cat {
        Cat { text: String::new(), ends: vec![], head: 0 }
    }
    fn add(&mut self, x: &str) {
        self.text.push_str(x);
        if !x.ends_with('\n') {
            self.text.push('\n');
        }
        self.ends.push(self.text.len());
    }
    fn of(es: &[E], gap: &str) -> Cat {
        let mut r = Cat::new();
        for (i, e) in es.iter().enumerate() {
            let g = if i == 0 { "" } else { gap };
            r.add(&format!("{g}{}\n", e.lines().join("\n")));
        }
        if es.first().map_or(false, |e| e.id.concat().is_empty()) {
            r.head = 1;
        }
        r
    }
    /// how far the source may have been read when `items` items have been delivered
    fn limit(&self, items: usize) -> usize {
        self.ends.get(items + self.head + 1).copied().unwrap_or(usize::MAX)
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    Meta,
    Hint,
    Skip,
    Find,
}

/// Open, make the requests, then (if `rest`) go on to the end and beyond, drop the reader.
fn tapped(c: &mut Ctx, cat: &Cat, step: Step, ops: &[Op], rest: bool) -> Res {
    let data = cat.text.as_bytes();
    c.input = data.to_vec();
    c.compared += 1;
    let limit = Rc::new(Cell::new(cat.limit(0)));
    let reads = Rc::new(Cell::new(0));
    let over = Rc::new(Cell::new(None));
    let tap = Tap { data, pos: 0, step, limit: limit.clone(), reads: reads.clone(), over: over.clone() };
    let far = |what: &str, items: usize| match over.get() {
        None => Ok(()),
        Some(p) => Err(format!(
            "{what} reads the source at byte {p} ({step:?} at a time), {items} item(s) having been delivered before; entries end at {:?}",
            cat.ends.iter().skip(items.saturating_sub(1)).take(5).collect::<Vec<_>>()
        )),
    };
    let r = in_impl(data, || {
        let mut seen = 0u64;
        let mut r = match parser().parse(tap) {
            Err(_) => {
                far("opening", 0)?;
                return Ok::<u64, String>(1);
            }
            Ok(r) => r,
        };
        far("opening", 0)?;
        let mut items = 0;
        let mut over_by = 0;
        let mut ended = false;
        let mut k = 0;
        loop {
            let op = if k < ops.len() {
                ops[k]
            } else if rest && over_by < 3 {
                Op::Next
            } else {
                break;
            };
            k += 1;
            let before = reads.get();
            let n = match op {
                Op::Next | Op::Find => 1,
                Op::Skip => 2,
                _ => 0,
            };
            if !ended {
                limit.set(cat.limit(items + n));
            }
            let got = match op {
                Op::Meta => {
                    let _ = (r.target_language().to_string(), r.header_notes().len(), r.header_comments().len(), r.header_properties().len());
                    None
                }
                Op::Hint => {
                    let _ = r.size_hint();
                    None
                }
                Op::Next => Some(r.next().map(|x| x.is_ok())),
                Op::Skip => Some(r.nth(1).map(|x| x.is_ok())),
                Op::Find => Some(r.find(|_| true).map(|x| x.is_ok())),
            };
            far(&format!("request {k} ({op:?})"), items)?;
            if (n == 0 || ended) && reads.get() != before {
                return Err(format!("request {k} ({op:?}){} reads the source", if ended { ", after the end or the error," } else { "" }));
            }
            items += n;
            match got {
                Some(None) | Some(Some(false)) => {
                    ended = true;
                    over_by += 1;
                }
                _ => (),
            }
            seen = h64(&(seen, k as u64, reads.get()));
        }
        let before = reads.get();
        drop(r);
        if reads.get() != before {
            return Err("dropping the reader reads the source".into());
        }
        Ok(seen)
    });
    match r {
        Err(p) => broken!("the library {p}"),
        Ok(Err(m)) => broken!("{m}"),
        Ok(Ok(h)) => {
            c.state(h64(&(h, data)));
            Ok(())
        }
    }
}

const STEPS: &[Step] = &[Step::Line, Step::Bytes(1), Step::Bytes(7), Step::TwoLines];

pub fn p22(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("menu sequences", 0, "every sequence of 3 entries of the 37-entry menu (quick: every third one in first place) under 3 headers, followed by four plain entries, with or without blank lines; source delivering a line, two lines, 7 bytes or a byte at a time", move |c| {
        let (tag, head) = [(1, vec![]), (2, vec![header(&[PF2])]), (3, vec![header(&["Language: fr"])])][c.choose(3)].clone();
        let m = menu(tag);
        let a = m[c.choose(if q { m.len() / 3 } else { m.len() }) * if q { 3 } else { 1 }].clone();
        let b = c.pick(&m).clone();
        let d = c.pick(&m).clone();
        let mut es = head;
        es.extend([a, b, d]);
        es.extend((0..4).map(|i| E::simple(&format!("plain {i}"), "p")));
        let gap = ["\n", ""][c.choose(2)];
        let step = STEPS[c.choose(if q { 2 } else { 4 })];
        tapped(c, &Cat::of(&es, gap), step, &[], true)
    }));
    let top = if q { 2000 } else { 20000 };
    v.push(space("long catalogues", 0, format!("catalogues of n+6 equal or alternating entries of each of 37 kinds, n from 0 to 20 and around powers of two and round numbers up to {top}, after no header, a header, or a header of 30 lines: n units are taken, then the reader is dropped"), move |c| {
        let m = menu(7);
        let r = ramp(20, top);
        let k = c.choose(m.len());
        let n = *c.pick(&r);
        let mut cat = Cat::new();
        match c.choose(3) {
            0 => cat.add("msgid \"first\"\nmsgstr \"x\"\n"),
            h => {
                let lines: Vec<String> = (0..if h == 1 { 1 } else { 30 }).map(|i| format!("X-{i}: v")).collect();
                cat.add(&header(&lines.iter().map(|x| x.as_str()).collect::<Vec<_>>()).lines().join("\n"));
                cat.head = 1;
            }
        }
        let alt = c.flip();
        for i in 0..n + 6 {
            cat.add(&format!("\n{}\n", if alt && i % 2 == 1 { "msgid \"plain\"\nmsgstr \"p\"".to_string() } else { m[k].lines().join("\n") }));
        }
        let step = [Step::Line, Step::Bytes(7)][c.choose(2)];
        if n > 300 && (alt || step != Step::Line) {
            return Err(Stop::Skip);
        }
        tapped(c, &cat, step, &vec![Op::Next; n], false)
    }));
    let n = if q { 4 } else { 6 };
    v.push(space("requests", 0, format!("6 catalogues of 12 entries (one with an error, one malformed), every sequence of {n} requests out of next, nth(1), find, size_hint, looks at the metadata, then to the end and beyond or dropped"), move |c| {
        let which = c.choose(6);
        let mut cat = Cat::new();
        if which % 2 == 1 {
            cat.add("# n\nmsgid \"\"\nmsgstr \"Language: fr\\n\"\n");
            cat.head = 1;
        }
        for i in 0..12 {
            cat.add(&match (which, i) {
                (2, 5) => "\n# c\nmsgstr \"z\"\nmsgid \"z\"\n".into(),
                (3, 5) => "\n# c\njunk\nmsgid \"z\"\nmsgstr \"z\"\n".into(),
                (4, _) => format!("\n# c{i}\n#. d\n#: l:1\n#, f\nmsgctxt \"c\"\nmsgid \"i{i}\"\nmsgid_plural \"p\"\nmsgstr[0] \"a\"\n"),
                (5, _) => format!("#~ msgid \"i{i}\"\n#~ msgstr \"\"\n#~ \"a\"\n"),
                _ => format!("\nmsgid \"i{i}\"\nmsgstr \"t\"\n"),
            });
        }
        let ops: Vec<Op> = (0..n).map(|_| *c.pick(&[Op::Next, Op::Meta, Op::Hint, Op::Skip, Op::Find])).collect();
        let rest = c.flip();
        let step = [Step::Line, Step::Bytes(1)][c.choose(2)];
        tapped(c, &cat, step, &ops, rest)
    }));
    v.push(space("large entries", 0, "an entry in which one thing (comment lines of a kind, continuation lines of a field, plural texts, blank lines before it, length of a line) takes every number 0..=20 and around powers of two and round numbers up to 5000, in first to third place of seven entries", |c| {
        let r = ramp(20, 5000);
        let what = c.choose(11);
        let n = *c.pick(&r);
        let at = c.choose(3);
        let mut cat = Cat::new();
        let nf = n.max(1).to_string();
        cat.add(&header(&[&format!("Plural-Forms: nplurals={}; plural=0;", if what == 8 { &nf } else { "2" })]).lines().join("\n"));
        cat.head = 1;
        for i in 0..7 {
            let mut x = String::from("\n");
            let n = if i == at { n } else { 1 };
            match what {
                0..=4 => (0..n).for_each(|j| x.push_str(&format!("#{} c{j}\n", [" ", ".", ":", ",", "="][what]))),
                5 => x.push_str(&format!("msgctxt \"\"\n{}", "\"c\"\n".repeat(n))),
                9 => x.push_str(&"\n".repeat(n)),
                _ => (),
            }
            x.push_str(&format!("msgid \"i{i}\"\n"));
            match what {
                6 => x.push_str(&"\"m\"\n".repeat(n)),
                8 => x.push_str("msgid_plural \"p\"\n"),
                _ => (),
            }
            match what {
                7 => x.push_str(&format!("msgstr \"\"\n{}", "\"t\"\n".repeat(n))),
                8 => (0..n.max(1)).for_each(|j| x.push_str(&format!("msgstr[{j}] \"t\"\n"))),
                10 => x.push_str(&format!("msgstr \"{}\"\n", "t".repeat(n))),
                _ => x.push_str("msgstr \"t\"\n"),
            }
            cat.add(&x);
        }
        let step = [Step::Line, Step::Bytes(5), Step::TwoLines][c.choose(3)];
        tapped(c, &cat, step, &[], true)
    }));
    v.push(space("errors", 0, "a catalogue of 14 entries whose k-th is replaced by one of 11 bad ones (malformed, misplaced, empty source, bad header definition, not UTF-8 apart), line by line or byte by byte: reading stays within the entries around it and stops after it", |c| {
        const BAD: &[&str] = &[
            "junk", "# c\njunk", "msgstr \"x\"", "# c\n\"x\"", "msgid \"i\"", "msgid \"i\"\nmsgid \"j\"", "msgctxt \"c\"\nmsgstr \"s\"", "msgid \"\"\nmsgstr \"x\"", "msgid \"i\"\nmsgid_plural \"p\"\nmsgstr \"x\"", "msgid \"i\"\nmsgstr[0] \"x\"",
            "msgid \"i\"\nmsgstr \"s\"\nmsgstr \"s\"",
        ];
        let b = *c.pick(BAD);
        let at = c.choose(8);
        let mut cat = Cat::new();
        if c.flip() {
            cat.add("msgid \"\"\nmsgstr \"Language: fr\\n\"\n");
            cat.head = 1;
        } else if at == 0 && b.starts_with("msgid \"\"") {
            return Err(Stop::Skip); // a header, and a good one
        }
        for i in 0..14 {
            cat.add(&if i == at { format!("\n{b}\n") } else { format!("\nmsgid \"i{i}\"\nmsgstr \"t\"\n") });
        }
        let step = *c.pick(STEPS);
        tapped(c, &cat, step, &[], true)
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------
// P23

/// Every accessor, and the public fields of a simple message.
#[derive(Clone, PartialEq, Debug, Hash, Eq)]
struct Full {
    u: UnitObs,
    texts: [Option<(String, Option<String>)>; 2],
}
fn full(u: &Unit) -> Full {
    let f = |m: &Message| match m {
        Message::Simple { id, text } => Some((id.clone(), text.clone())),
        _ => None,
    };
    Full { u: unit(u), texts: [f(u.message()), f(u.prev_message())] }
}

fn read_all(p: &PoParser, d: &str) -> Result<Vec<Unit>, String> {
    p.parse(d.as_bytes()).map_err(|e| format!("{e}"))?.collect::<Result<Vec<_>, _>>().map_err(|e| format!("{e}"))
}

fn verdict(c: &mut Ctx, r: Result<Result<u64, String>, String>) -> Res {
    c.compared += 1;
    match r {
        Err(p) => broken!("the library {p}"),
        Ok(Err(m)) => broken!("{m}"),
        Ok(Ok(h)) => {
            c.state(h);
            Ok(())
        }
    }
}

/// clones and their clones, the original being dropped or changed into another value
fn cloned<T: Clone, O: PartialEq + std::fmt::Debug>(what: &str, x: &T, other: &T, look: impl Fn(&T) -> O) -> Result<(), String> {
    let want = look(x);
    let a = x.clone();
    let b = a.clone();
    let mut d = other.clone();
    let od = look(&d);
    if look(other) != od {
        return Err(format!("a clone of a {what} is {od:?} instead of {:?}", look(other)));
    }
    d.clone_from(x);
    for (k, y) in [&a, &b, &d, x].iter().enumerate() {
        let got = look(y);
        if got != want {
            return Err(format!("{} of a {what} shows {got:?} instead of {want:?}", ["a clone", "a clone of a clone", "clone_from", "the original, once cloned,"][k]));
        }
    }
    drop(a);
    if look(&b) != want || look(&d) != want {
        return Err(format!("a clone of a {what} changes when another is dropped"));
    }
    Ok(())
}

pub fn p23(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("clones of units", 0, "every ordered pair of entries of the 37-entry menu under 3 headers: clones of units, messages, plural details, plural forms, notes and comments show the same as the original through every accessor, also when it, the reader and the parser are gone", |c| {
        let (tag, head) = [(1, vec![]), (2, vec![header(&[PF2])]), (3, vec![header(&[PF3])])][c.choose(3)].clone();
        let m = menu(tag);
        let mut es = head;
        es.extend([c.pick(&m).clone(), c.pick(&m).clone()]);
        if es[0].id.concat().is_empty() && es.len() == 2 {
            return Err(Stop::Skip);
        }
        let d = doc(&es);
        c.input = d.clone().into_bytes();
        let r = in_impl(d.as_bytes(), || {
            let p = PoParser::new();
            let us = read_all(&p, &d)?;
            drop(p);
            if us.len() < 2 {
                return Err(format!("{} units", us.len()));
            }
            let (a, b) = (&us[0], &us[1]);
            for (x, y) in [(a, b), (b, a), (a, a)] {
                cloned("unit", x, y, full)?;
                cloned("message", x.message(), y.message(), msg)?;
                cloned("message", x.prev_message(), y.message(), msg)?;
                if let (Some(x), Some(y)) = (x.message().plural(), y.message().plural()) {
                    let m = |x: &poreader::plural::Plural| msg(&Message::Plural(x.clone()));
                    cloned("plural", x, y, |x| (x.singular().to_string(), x.plural().to_string(), x.first().to_string(), x.values().clone(), m(x)))?;
                    if let (Some(x), Some(y)) = (x.get_forms(), y.get_forms()) {
                        cloned("set of plural forms", x, y, |f| (f.get_count(), f.get_definition().to_string(), f.get_formula().to_string(), (0..200).map(|n| f.get_value(n)).collect::<Vec<_>>()))?;
                    }
                }
                for n in x.notes() {
                    for k in y.notes() {
                        cloned("note", n, k, |n: &Note| (*n.origin(), n.value().to_string()))?;
                    }
                }
                for n in x.comments() {
                    for k in y.comments() {
                        cloned("comment", n, k, |n: &Comment| (n.kind(), n.comment().to_string()))?;
                    }
                }
                // debug renderings are for people, but must not fail
                if format!("{x:?}{:?}", x.clone()).is_empty() {
                    return Err("the debug rendering of a unit is empty".into());
                }
            }
            let want = (full(a), full(b));
            let (ca, cb) = (a.clone(), b.clone());
            drop(us);
            if (full(&ca), full(&cb)) != want {
                return Err("clones change when the units they were made from are dropped".into());
            }
            Ok(h64(&want))
        });
        verdict(c, r)
    }));
    v.push(space("clones of any unit", 0, "a unit with every combination of present fields, bodies, comment kinds and marks under 5 headers, in turn with one of 6 others: its clones, also by clone_from over another, show the same; with none, one or all of 6 usual flags", |c| {
        let (h, mut e) = super::content::any_fields(c);
        const FLAGS: &[&str] = &["c-format", "no-wrap", "fuzzy", "python-format", "no-c-format", "range: 0..1"];
        match c.choose(8) {
            0 => (),
            7 => e = e.comment(',', &FLAGS.join(", ")),
            k => e = e.comment(',', FLAGS[k - 1]),
        }
        let other = [E::simple("o", "t"), E::simple("o", "").obsolete(), E::simple("o", "t").comment(',', "fuzzy, other").comment(':', "o:1").comment(' ', "o").comment('!', "o"), E::simple("o", "t").with_ctx("o").with_prev(Some("o"), Some("o"), Some("os")), E::plural("o", "os", &["t0"]).comment('.', "o"), E::plural("o", "os", &[""]).with_ctx("")][c.choose(6)].clone();
        let mut es = super::content::headers()[h].clone();
        es.extend([other, e]);
        let d = doc(&es);
        c.input = d.clone().into_bytes();
        let r = in_impl(d.as_bytes(), || {
            let us = read_all(parser(), &d)?;
            if us.len() != 2 {
                return Err(format!("{} units", us.len()));
            }
            cloned("unit", &us[1], &us[0], full)?;
            cloned("unit", &us[0], &us[1], full)?;
            cloned("message", us[1].message(), us[0].message(), msg)?;
            cloned("message", us[1].prev_message(), us[0].prev_message(), msg)?;
            Ok(h64(&full(&us[1])))
        });
        verdict(c, r)
    }));
    v.push(space("clones of forms", 0, "plural units under definitions with 0 to 80 (and up to 5000) spaces in one of 6 places, foreign items before, between or after the declarations, declarations left out, repeated or turned, of 8 formulas and 5 numbers: clones of the forms, the plural details, the messages and the units show the same", |c| {
        let ramped = c.flip(); // many spaces, of a few definitions
        let f = if ramped { *c.pick(&["n", "n != 1"]) } else { *c.pick(&["n", "n>1", "n != 1", "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", "0", "", "(n==1)?0:(n==2)?1:2", "1/n"]) };
        let num = if ramped { "2" } else { *c.pick(&["1", "2", "02", "6", "40"]) };
        let (a, b) = (format!("nplurals={num};"), format!("plural={f};"));
        let mut items = match c.choose(7) {
            0 => vec![a, b],
            1 => vec![b, a],
            2 => vec![a],
            3 => vec![b],
            4 => vec![b.clone(), a, b],
            5 => vec!["nplurals=3;".into(), "plural=n==5;".into(), a, b],
            _ => vec![a, b, ";".into()],
        };
        match c.choose(4) {
            0 => (),
            1 => items.insert(0, "x=y;".into()),
            2 => items.insert(1, "range=0..9;".into()),
            _ => items.push("source=CLDR 44 (plural rules of the Unicode consortium, as of the year 2024);".into()),
        }
        let r = ramp(80, 5000);
        let n = if ramped { *c.pick(&r) } else { 1 };
        let sp = if n == 1 { [" ", "\t"][c.choose(2)].to_string() } else { " ".repeat(n) };
        let place = if n == 1 { 0 } else { c.choose(6) };
        let def = match place {
            0 => items.join(&sp),
            1 => items.join(" ").replacen('=', &format!("{sp}="), 1),
            2 => items.join(" ").replacen('=', &format!("={sp}"), 1),
            3 => items.join(" ").replacen(';', &format!("{sp};"), 1),
            4 => items.join("").replace("nplurals=", &format!("nplurals{sp}=")).replace("plural=", &format!("plural{sp}=")),
            _ => items.join("").replace(';', &format!(";{sp};")),
        };
        let d = doc(&[header(&[&format!("Plural-Forms: {def}")]), E::plural("a", "b", &["x"]), E::plural("c", "d", &["z"]).obsolete()]);
        c.input = d.clone().into_bytes();
        let def = def.trim().to_string();
        let r = in_impl(d.as_bytes(), || {
            let us = read_all(parser(), &d)?;
            let other = read_all(parser(), "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=4; plural=3-n;\\n\"\n\nmsgid \"o\"\nmsgid_plural \"os\"\nmsgstr[0] \"ot\"\n")?;
            let [a, b] = &us[..] else { return Err(format!("{} units", us.len())) };
            let forms = |f: &poreader::plural::PluralForms| (f.get_count(), f.get_definition().to_string(), f.get_formula().to_string(), (0..120).map(|n| f.get_value(n)).collect::<Vec<_>>());
            let mut h = 0;
            for (x, y) in [(a, &other[0]), (b, a)] {
                cloned("unit", x, y, full)?;
                cloned("message", x.message(), y.message(), msg)?;
                let (Some(xp), Some(yp)) = (x.message().plural(), y.message().plural()) else { return Err("a plural message is none".into()) };
                let (Some(xf), Some(yf)) = (xp.get_forms(), yp.get_forms()) else { return Err("a plural message has no forms".into()) };
                cloned("set of plural forms", xf, yf, forms)?;
                cloned("plural", xp, yp, |x| (x.get_forms().map(forms), x.values().clone()))?;
                if xf.clone().get_definition() != def {
                    return Err(format!("a clone of the forms has the definition {:?} instead of {def:?}", xf.clone().get_definition()));
                }
                h = h64(&(h, forms(xf)));
            }
            Ok(h)
        });
        verdict(c, r)
    }));
    v.push(space("clones by size", 0, "units with 0 to 40 (and up to 3000) notes, other comments, flags, locations, plural texts or characters of one of their texts: their clones show the same", |c| {
        let r = ramp(40, 3000);
        let n = *c.pick(&r);
        let long: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let mut e = if c.flip() { E::simple("i", "t") } else { E::plural("i", "is", &["t", "u"]) };
        match c.choose(11) {
            0 => (0..n).for_each(|i| e = e.clone().comment('.', &format!("d{i}"))),
            1 => (0..n).for_each(|i| e = e.clone().comment(' ', &format!("t{i}"))),
            2 => (0..n).for_each(|i| e = e.clone().comment('=', &format!("c{i}"))),
            3 => e = e.comment(',', &(0..n).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ")),
            4 => e = e.comment(':', &(0..n).map(|i| format!("f:{i}")).collect::<Vec<_>>().join(" ")),
            5 if n > 0 && n < 1100 => e.body = Body::Plural(s("is"), (0..n).map(|i| s(&format!("t{i}"))).collect()),
            6 => e = e.with_ctx(&long),
            7 => e.id = s(&format!("i{long}")),
            8 => e = e.with_prev(Some(&long), Some("p"), None),
            9 => e = e.with_prev(None, Some(&long), Some(&long)),
            10 => e = e.comment('.', &long).comment(' ', &long),
            _ => return Err(Stop::Skip),
        }
        let d = doc(&[header(&[&format!("Plural-Forms: nplurals={}; plural=n;", n.max(2))]), e, E::simple("o", "p")]);
        c.input = d.clone().into_bytes();
        let r = in_impl(d.as_bytes(), || {
            let us = read_all(parser(), &d)?;
            let [a, b] = &us[..] else { return Err(format!("{} units", us.len())) };
            cloned("unit", a, b, full)?;
            cloned("unit", b, a, full)?;
            cloned("message", a.message(), b.message(), msg)?;
            cloned("message", a.prev_message(), b.message(), msg)?;
            Ok(h64(&full(a)))
        });
        verdict(c, r)
    }));
    v.push(space("characters", 0, "two comments whose marks, texts or both differ by one character, every Unicode scalar value against those that share its low 7, 8 or 16 bits, its neighbours, its other cases and 40 usual ones: as comments, as notes, as built notes", |c| {
        // one execution per block of 64 scalar values
        let block = c.choose(0x110000 / 64);
        let how = c.choose(3);
        let usual: Vec<char> = "!=-$%&*+/;<>?@A^_`a{}[]()0é\u{121}\u{a0}~|. :,#日".chars().collect();
        let mut first = None;
        let r = in_impl(b"", || {
            for k in 0..64u32 {
                let Some(x) = char::from_u32(block as u32 * 64 + k) else { continue };
                let n = x as u32;
                let mut other: Vec<char> = [n ^ 0x100, n ^ 0x200, n ^ 0x80, n ^ 0x20, n ^ 0x10000, n.wrapping_add(1), n.wrapping_sub(1), n & 0xff, n & 0x7f, n & 0xffff].iter().filter_map(|&n| char::from_u32(n)).collect();
                other.extend(x.to_lowercase().chain(x.to_uppercase()));
                if how == 2 || n < 0x250 {
                    other.extend(&usual);
                }
                other.sort();
                other.dedup();
                other.retain(|&y| y != x);
                if how == 2 {
                    for y in other {
                        for (a, b) in [(format!("{x}"), format!("{y}")), (format!("a{x}b"), format!("a{y}b")), (format!("a{x}"), "a".to_string())] {
                            let (m, n) = (Note::new(Origin::Developer, a.clone()), Note::new(Origin::Developer, b.clone()));
                            if m == n || m.value() != a || m != Note::new(Origin::Developer, a.clone()) {
                                return Err(format!("notes {a:?} and {b:?}: {m:?} {n:?}"));
                            }
                        }
                    }
                    continue;
                }
                // all of them in one catalogue: as marks (how 0) or in texts (how 1)
                let ok = |c: char| !matches!(c, '\n' | '\r') && !c.is_whitespace() && if how == 0 { !matches!(c, '~' | '|' | ',' | ':' | '.') } else { true };
                if !ok(x) {
                    continue;
                }
                let all: Vec<char> = std::iter::once(x).chain(other.into_iter().filter(|&c| ok(c))).collect();
                let d: String = all.iter().map(|y| if how == 0 { format!("#{y} t\n") } else { format!("#! t{y}\n") }).collect::<String>() + "msgid \"i\"\nmsgstr \"t\"\n";
                first.get_or_insert(d.clone());
                let us = read_all(parser(), &d)?;
                let cs = us[0].comments();
                let get = |m: &Comment| if how == 0 { Some(m.kind()) } else { m.comment().chars().nth(1) };
                if cs.len() != all.len() || cs.iter().zip(&all).any(|(m, y)| get(m) != Some(*y)) {
                    return Err(format!("the comments of {d:?} are {cs:?}"));
                }
                for m in &cs[1..] {
                    if cs[0] == *m || *m == cs[0] || !(cs[0] != *m) {
                        return Err(format!("{:?} equals {m:?}", cs[0]));
                    }
                    if m.clone() != *m || !(*m == *m) {
                        return Err(format!("{m:?} does not equal itself or its clone"));
                    }
                }
            }
            Ok(h64(&(block, how)))
        });
        c.input = first.unwrap_or_default().into_bytes();
        verdict(c, r)
    }));
    let len = if q { 5 } else { 6 };
    v.push(space("histories", 0, format!("two plural units of one catalogue and one of another one: every history of {len} steps out of cloning a value, dropping one, dropping the readers or parsers, overwriting one by another; after each step every value left shows what it did"), move |c| {
        let docs = [
            "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n\n# n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"a0\"\nmsgstr[1] \"a1\"\nmsgstr[2] \"a2\"\n\n#, fuzzy\n#| msgid \"old\"\n#| msgid_plural \"olds\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"b0\"\n\nmsgid \"left\"\nmsgstr \"l\"\n",
            "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x0\"\nmsgstr[1] \"x1\"\n\nmsgid \"left\"\nmsgstr \"l\"\n",
        ];
        c.input = docs.join("=====\n").into_bytes();
        let ops: Vec<usize> = (0..len).map(|_| c.choose(8)).collect();
        let r = in_impl(&c.input.clone(), || {
            let parsers: Vec<PoParser> = vec![PoParser::new(), PoParser::new()];
            let parsers: &'static Vec<PoParser> = Box::leak(Box::new(parsers));
            let mut readers: Vec<PoReader<'static, &'static [u8]>> = vec![];
            for i in 0..2 {
                readers.push(parsers[i].parse(docs[i].as_bytes()).map_err(|e| e.to_string())?);
            }
            let mut vals: Vec<(Unit, Full)> = vec![];
            for i in [0, 0, 1] {
                let u = readers[i].next().ok_or("no unit")?.map_err(|e| e.to_string())?;
                let f = full(&u);
                vals.push((u, f));
            }
            let mut h = 0;
            for (k, o) in ops.iter().enumerate() {
                let n = vals.len();
                match o {
                    0..=2 if n > 0 => {
                        let x = &vals[o % n];
                        let y = (x.0.clone(), x.1.clone());
                        vals.push(y);
                    }
                    3 if n > 0 => drop(vals.remove(0)),
                    4 if n > 0 => drop(vals.pop()),
                    5 if n > 1 => {
                        let (u, f) = (vals[n - 1].0.clone(), vals[n - 1].1.clone());
                        vals[0] = (u, f);
                    }
                    6 => readers.clear(),
                    7 if n > 1 => {
                        let (a, b) = vals.split_at_mut(1);
                        a[0].0.clone_from(&b[0].0);
                        a[0].1 = b[0].1.clone();
                    }
                    _ => (),
                }
                for (i, (u, f)) in vals.iter().enumerate() {
                    let got = full(u);
                    if got != *f {
                        return Err(format!("after the steps {:?} value {i} shows {got:?} instead of {f:?}", &ops[..=k]));
                    }
                }
                h = h64(&(h, o, n));
            }
            drop(readers);
            vals.clear();
            unsafe {
                drop(Box::from_raw(parsers as *const Vec<PoParser> as *mut Vec<PoParser>));
            }
            Ok(h)
        });
        verdict(c, r)
    }));
    v.push(space("notes", 0, "all pairs of notes out of 2 origins and 60 texts, built, and read as note of an entry or of the header: equal exactly when origin and text are; what they were made from is shown", |c| {
        let texts = super::STRINGS;
        let (oa, ob) = (c.flip(), c.flip());
        let (a, b) = (*c.pick(texts), *c.pick(texts));
        let o = |d: bool| if d { Origin::Developer } else { Origin::Translator };
        c.note = format!("{:?} {a:?} / {:?} {b:?}", o(oa), o(ob));
        let r = in_impl(b"", || {
            let (x, y) = (Note::new(o(oa), a.to_string()), Note::new(o(ob), b.to_string()));
            if (*x.origin(), x.value()) != (o(oa), a) {
                return Err(format!("it shows {:?} {:?}", x.origin(), x.value()));
            }
            let want = oa == ob && a == b;
            if (x == y) != want || (y == x) != want || (x != y) == want || x != x.clone() {
                return Err(format!("{x:?} == {y:?} should be {want}"));
            }
            Ok(h64(&(a, b, want)))
        });
        verdict(c, r)
    }));
    v.push(space("read notes and comments", 0, "two comment lines out of 9 marks and 28 texts, in the header or an entry: what they give is equal exactly when its accessors are", |c| {
        const TEXTS: &[&str] = &["a", "b", "A", "aa", "a b", "", "é", "E", "\\n", "\"a\"", "0", "a,", "#", "~", "|", ".", ":", "a\u{301}", "á", "日", "msgid", "-", "=", "a  b", "ab", "ba", "\u{1F600}", "\u{200b}"];
        const MARKS: &[&str] = &[" ", ".", "=", "!", "$", "-", "é", "日", "%"];
        let mut l = vec![];
        for _ in 0..2 {
            let m = *c.pick(MARKS);
            l.push(format!("#{m} {}\n", c.pick(TEXTS)));
        }
        let w = c.choose(3);
        let d = match w {
            0 => format!("{}msgid \"\"\nmsgstr \"A: b\\n\"\n\n{}msgid \"i\"\nmsgstr \"t\"\n", l[0], l[1]),
            1 => format!("msgid \"\"\nmsgstr \"A: b\\n\"\n\n{}msgid \"i\"\nmsgstr \"t\"\n\n{}msgid \"j\"\nmsgstr \"t\"\n", l[0], l[1]),
            _ => format!("msgid \"h\"\nmsgstr \"t\"\n\n{}{}msgid \"i\"\nmsgstr \"t\"\n", l[0], l[1]),
        };
        c.input = d.clone().into_bytes();
        let r = in_impl(d.as_bytes(), || {
            let r = parser().parse(d.as_bytes()).map_err(|e| e.to_string())?;
            let mut ns: Vec<Note> = r.header_notes().clone();
            let mut cs: Vec<Comment> = r.header_comments().clone();
            for u in r {
                let u = u.map_err(|e| e.to_string())?;
                ns.extend(u.notes().iter().cloned());
                cs.extend(u.comments().iter().cloned());
            }
            if ns.len() + cs.len() != 2 {
                return Err(format!("{} notes, {} comments", ns.len(), cs.len()));
            }
            for a in &ns {
                for b in &ns {
                    let want = a.origin() == b.origin() && a.value() == b.value();
                    if (a == b) != want || (a != b) == want {
                        return Err(format!("{a:?} == {b:?} should be {want}"));
                    }
                    if (*a == Note::new(*b.origin(), b.value().to_string())) != want {
                        return Err(format!("{a:?} compared with a note built like {b:?}: should be {want}"));
                    }
                }
            }
            for a in &cs {
                for b in &cs {
                    let want = a.kind() == b.kind() && a.comment() == b.comment();
                    if (a == b) != want || (a != b) == want {
                        return Err(format!("{a:?} == {b:?} should be {want}"));
                    }
                }
            }
            Ok(h64(&d))
        });
        verdict(c, r)
    }));
    v.push(space("built messages", 0, "simple messages of all sources and texts of up to 2 of 9 characters, text missing or not: the value shows what it was made from, so does its clone; the default unit is empty", |c| {
        let word = |c: &mut Ctx| -> String {
            let n = c.choose(3);
            (0..n).map(|_| *c.pick(&['a', ' ', '\n', '"', '\\', 'é', '0', 'A', '%'])).collect()
        };
        let id = word(c);
        let text = if c.flip() { Some(word(c)) } else { None };
        c.note = format!("{id:?} {text:?}");
        let r = in_impl(b"", || {
            let m = Message::Simple { id: id.clone(), text: text.clone() };
            let look = |m: &Message| match m {
                Message::Simple { id, text } => Some((id.clone(), text.clone(), msg(m))),
                _ => None,
            };
            let o = look(&m);
            cloned("message", &m, &Message::default(), look)?;
            match &o {
                Some((i, t, _)) if *i == id && *t == text => (),
                o => return Err(format!("it shows {o:?}")),
            }
            let u = Unit::default();
            if u.message().get_id() != "" || u.context().is_some() || u.prev_context().is_some() || !u.flags().is_empty() || !u.notes().is_empty() || u.is_obsolete() || u.is_translated() || u.state() != State::Empty || !u.message().is_blank() {
                return Err(format!("the default unit is not empty: {u:?}"));
            }
            Ok(h64(&o))
        });
        verdict(c, r)
    }));
    v.push(space("plural forms", 0, "the plural forms of 60 definitions, cloned out of a unit that is dropped: the same number, texts and index for every count up to 300 and around powers of two", |c| {
        const F: &[&str] = &["n", "0", "1", "n!=1", "n>1", "n%3", "n==1?0:n==2?1:2", "n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2", "!n", "n/2", "2-n", "n*n", "-n", "(n)", "n<2"];
        let x = *c.pick(F);
        let k = *c.pick(&[0usize, 1, 2, 3]);
        let d = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={k}; plural={x};\\n\"\n\n#| msgid \"o\"\n#| msgid_plural \"os\"\nmsgid \"i\"\nmsgstr \"t\"\n");
        c.input = d.clone().into_bytes();
        let r = in_impl(d.as_bytes(), || {
            let p = PoParser::new();
            let us = read_all(&p, &d)?;
            drop(p);
            let u = us.into_iter().next().ok_or("no unit")?;
            let f = u.prev_message().plural().and_then(|p| p.get_forms()).ok_or("no plural forms")?;
            let counts: Vec<usize> = ramp(300, 1 << 40);
            let look = |f: &PluralForms| (f.get_count(), f.get_definition().to_string(), f.get_formula().to_string(), counts.iter().map(|&n| f.get_value(n)).collect::<Vec<_>>());
            let want = look(f);
            let (a, rc) = (f.clone(), Rc::new(f.clone()));
            drop(u);
            let b = a.clone();
            drop(a);
            if look(&b) != want || look(&rc) != want {
                return Err("a clone shows otherwise than the original".into());
            }
            Ok(h64(&want))
        });
        verdict(c, r)
    }));
    v.push(space("enumerations", 0, "states and origins: copies are equal, different ones are not, as members of hash sets too", |c| {
        let s = [State::Empty, State::NeedsWork, State::Final];
        let o = [Origin::Developer, Origin::Translator];
        let (i, j) = (c.choose(3), c.choose(3));
        c.compared += 1;
        ensure!((s[i] == s[j]) == (i == j) && s[i] == s[i].clone(), "states {:?} and {:?}", s[i], s[j]);
        let mut h = HashSet::new();
        h.insert(s[i]);
        ensure!(h.contains(&s[j]) == (i == j), "{:?} in a set of {:?}", s[j], s[i]);
        ensure!((o[i % 2] == o[j % 2]) == (i % 2 == j % 2), "origins");
        let mut h = HashSet::new();
        h.insert(o[i % 2]);
        ensure!(h.contains(&o[j % 2]) == (i % 2 == j % 2), "{:?} in a set of {:?}", o[j % 2], o[i % 2]);
        c.state(h64(&(i, j)));
        Ok(())
    }));
    v
}
