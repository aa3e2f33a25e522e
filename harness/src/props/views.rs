//! P19: the views of a message and equality.

use crate::engine::*;
use crate::gen::*;
use crate::obs::{h64, msg, unit, MsgObs};
use crate::{broken, ensure};
use poreader::{unit::Unit, Message};
use std::cell::RefCell;

const IDS: &[&str] = &["a", "b", " ", "a\n", "A", "aa"];
const TEXTS: &[&str] = &["", "a", "x", " ", "\n"];

struct M {
    m: Message,
    from: String,
}

/// Messages as a user can get them: read from catalogues (as current and previous message), default, and built.
fn build() -> Result<Vec<M>, String> {
    let mut v = vec![];
    let heads = [vec![], vec![header(&[PF2])], vec![header(&[PF3])], vec![header(&[PF1])]];
    let forms = [2, 2, 3, 1];
    for (h, head) in heads.iter().enumerate() {
        let mut es: Vec<E> = vec![E::simple("first", "f")];
        for id in IDS {
            if h < 2 {
                for t in TEXTS {
                    es.push(E::simple(id, t));
                }
                es.push(E::simple(id, "x").obsolete().with_prev(None, Some(id), None));
            }
        }
        for id in &IDS[..4] {
            for pl in ["a", "b", "", "as"] {
                for texts in [["", "", ""], ["x", "", ""], ["", "y", ""], ["x", "y", "z"], ["a", "b", "c"]] {
                    es.push(E::plural(id, pl, &texts[..forms[h]]).with_prev(None, Some(id), Some(pl)));
                }
                es.push(E::plural(id, pl, &["x"]));
            }
        }
        let mut d = head.clone();
        d.extend(es);
        let text = doc(&d);
        let r = in_impl(text.as_bytes(), || {
            let mut out = vec![];
            match parser().parse(text.as_bytes()) {
                Err(e) => return Err(e.to_string()),
                Ok(r) => {
                    for u in r {
                        match u {
                            Err(e) => return Err(e.to_string()),
                            Ok(u) => {
                                out.push(u.message().clone());
                                out.push(u.prev_message().clone());
                            }
                        }
                    }
                }
            }
            Ok(out)
        });
        match r {
            Err(p) => return Err(format!("the library {p}")),
            Ok(Err(e)) => return Err(format!("a well-formed catalogue is refused: {e}")),
            Ok(Ok(ms)) => {
                for m in ms {
                    // keep one of each kind
                    let from = format!("{h}:{m:?}");
                    if !v.iter().any(|x: &M| x.from == from) {
                        v.push(M { m, from });
                    }
                }
            }
        }
    }
    v.push(M { m: Message::default(), from: "default".into() });
    for id in ["", "a", "b"] {
        for t in [None, Some(""), Some("x"), Some("a")] {
            v.push(M { m: Message::Simple { id: id.into(), text: t.map(String::from) }, from: format!("built {id:?} {t:?}") });
        }
    }
    Ok(v)
}

thread_local! { static MS: RefCell<Option<&'static Vec<M>>> = const { RefCell::new(None) }; }
fn messages() -> Result<&'static Vec<M>, Stop> {
    MS.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            match build() {
                Ok(v) => *m = Some(Box::leak(Box::new(v))),
                Err(e) => broken!("{e}"),
            }
        }
        Ok(m.unwrap())
    })
}

fn views(m: &Message, o: &MsgObs) -> Result<(), String> {
    macro_rules! need { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
    if !o.id.is_empty() {
        need!(o.simple != o.plural, "simple {} and plural {} for the source {:?}", o.simple, o.plural, o.id);
    }
    need!(o.plural == o.plural_id.is_some(), "plural is {} but the plural source is {:?}", o.plural, o.plural_id);
    need!(o.plural == o.details.is_some(), "plural is {} but there are {} plural details", o.plural, if o.details.is_some() { "" } else { "no" });
    let texts: Vec<String> = match m {
        Message::Simple { id, text } => {
            need!(*id == o.id, "the source is {:?}, should be {id:?}", o.id);
            text.iter().cloned().collect()
        }
        Message::Plural(p) => p.values().clone(),
    };
    need!(o.text == texts.first().cloned().unwrap_or_default(), "the text is {:?}, the texts are {texts:?}", o.text);
    need!(o.blank == texts.iter().all(|t| t.is_empty()), "blank is {} but the texts are {texts:?}", o.blank);
    match &o.details {
        Some(p) => {
            need!(p.singular == o.id && Some(&p.plural) == o.plural_id.as_ref(), "sources {:?} {:?} but details {:?} {:?}", o.id, o.plural_id, p.singular, p.plural);
            need!(p.first == o.text && p.is_blank == o.blank && p.get == o.texts, "the plural details disagree with the message");
        }
        None => {
            let want = texts.first().cloned();
            need!(o.texts.iter().all(|t| *t == want), "texts by count {:?}, should all be {want:?}", o.texts);
        }
    }
    Ok(())
}

pub fn p19(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    fn one(f: impl FnOnce() -> Result<(), String>) -> Res {
        match in_impl(b"", f) {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(())) => Ok(()),
        }
    }
    v.push(space("views", 0, "every message of a set read from four catalogues, default and built: its views agree; it equals itself and its clone", |c| {
        let ms = messages()?;
        let x = c.pick(ms);
        c.note = x.from.clone();
        c.compared += 1;
        let (mut h, m) = (0, &x.m);
        let r = one(|| {
            let o = msg(m);
            h = h64(&o);
            views(m, &o)?;
            let k = m.clone();
            if !(*m == *m) || !(*m == k) || !(k == *m) || *m != k {
                return Err("it does not equal itself or its clone".into());
            }
            if msg(&k) != o {
                return Err("its clone has other content".into());
            }
            Ok(())
        });
        c.state(h);
        r
    }));
    v.push(space("pairs", 0, "every ordered pair of those messages: equality is symmetric, tells apart different sources, plural sources, simple and plural, and identifies missing and empty translations", |c| {
        let ms = messages()?;
        let (a, b) = (c.pick(ms), c.pick(ms));
        c.note = format!("{} / {}", a.from, b.from);
        c.compared += 1;
        let (x, y) = (&a.m, &b.m);
        let mut h = 0;
        let r = one(|| {
            let e = x == y;
            h = h64(&(e, &a.from, &b.from));
            if e != (y == x) {
                return Err(format!("{x:?} == {y:?} is {e}, but not the other way round"));
            }
            if e == (x != y) {
                return Err(format!("{x:?} and {y:?} are both equal and different"));
            }
            let differ = x.get_id() != y.get_id() || x.is_plural() != y.is_plural() || x.get_plural_id() != y.get_plural_id();
            if e && differ {
                return Err(format!("{x:?} equals {y:?}"));
            }
            if let (Message::Simple { id: i, text: t }, Message::Simple { id: j, text: u }) = (x, y) {
                let z = |t: &Option<String>| t.clone().unwrap_or_default();
                if i == j && z(t) == z(u) && !e {
                    return Err(format!("{x:?} differs from {y:?}"));
                }
            }
            Ok(())
        });
        c.state(h);
        r
    }));
    let step = if q { 6 } else { 2 };
    v.push(space("triples", 0, format!("every ordered triple of one message in {step}: equality is transitive"), move |c| {
        let ms = messages()?;
        let n = ms.len() / step;
        let pick = |c: &mut Ctx, off: usize| &ms[(c.choose(n) * step + off) % ms.len()];
        let off = c.choose(step.min(2));
        let (a, b, d) = (pick(c, off), pick(c, off), pick(c, off));
        c.compared += 1;
        one(|| {
            if a.m == b.m && b.m == d.m && a.m != d.m {
                return Err(format!("{} equals {} which equals {}, but the first and last differ", a.from, b.from, d.from));
            }
            Ok(())
        })
    }));
    v.push(space("alike triples", 0, "every ordered triple of the messages with source a: equality is transitive", |c| {
        let ms = messages()?;
        let n: Vec<&M> = ms.iter().filter(|m| matches!(m.m.get_id(), "a" | "")).collect();
        let (a, b, d) = (*c.pick(&n), *c.pick(&n), *c.pick(&n));
        c.compared += 1;
        one(|| {
            if a.m == b.m && b.m == d.m && a.m != d.m {
                return Err(format!("{} equals {} which equals {}, but the first and last differ", a.from, b.from, d.from));
            }
            Ok(())
        })
    }));
    v.push(space("read back", 0, "every id, plural id and up to 3 texts over 6 short strings, under 4 headers, current or previous, obsolete or not: views agree with what was written", |c| {
        const X: &[&str] = &["a", "b", "", " "];
        let h = c.choose(4);
        let forms = [2, 2, 3, 1][h];
        let id = *c.pick(&["a", "b", " "]);
        let mut e = if c.flip() {
            let pl = *c.pick(X);
            let n = 1 + c.choose(forms);
            let ts: Vec<&str> = (0..n).map(|_| *c.pick(X)).collect();
            E::plural(id, pl, &ts)
        } else {
            E::simple(id, c.pick(X))
        };
        e.obsolete = c.flip();
        match c.choose(3) {
            0 => (),
            1 => e.pid = Some(s(c.pick(X))),
            _ => {
                e.pid = Some(s(c.pick(X)));
                e.ppl = Some(s(c.pick(X)));
            }
        }
        let mut d = [vec![E::simple("f", "f")], vec![header(&[PF2])], vec![header(&[PF3])], vec![header(&[PF1])]][h].clone();
        d.push(e);
        let o = check_entries(c, &d)?;
        let u = o.units().last().unwrap().clone().clone();
        for m in [&u.message, &u.prev_message] {
            ensure!(m.id.is_empty() || m.simple != m.plural, "simple {} plural {}", m.simple, m.plural);
            ensure!(m.plural == m.plural_id.is_some() && m.plural == m.details.is_some(), "the plural views disagree");
        }
        Ok(())
    }));
    v.push(space("near sources", 0, "every ordered pair of 300 sources that differ in one place, in case, in white space, in a character that looks alike, in length, or only far into a long text; as sources of simple, of plural messages, and as plural sources, with equal texts or none: equal exactly if the same", |c| {
        let ids = near_ids();
        let kind = c.choose(3);
        let i = c.choose(ids.len());
        c.compared += ids.len() as u64;
        let ms = near_messages(kind)?;
        let mut h = 0;
        let r = one(|| {
            for (j, y) in ms.iter().enumerate() {
                let x = &ms[i];
                let e = x == y;
                if e != (i == j) || e == (x != y) {
                    let cut = |s: &str| s.chars().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect::<String>();
                    return Err(format!("messages with the sources ...{:?} ({} bytes) and ...{:?} ({} bytes): equality is {e}", cut(&ids[i]), ids[i].len(), cut(&ids[j]), ids[j].len()));
                }
            }
            h = h64(&(kind, i));
            Ok(())
        });
        c.state(h);
        r
    }));
    v.push(space("many texts", 0, "plural messages with 0 to 300 texts of which all, none, the first, the last or one in between is not empty: blank, first text, and all texts as written", |c| {
        let n = 1 + c.choose(300);
        let full = [0, n / 2, n - 1][c.choose(3)];
        let how = c.choose(3);
        let t: Vec<String> = (0..n).map(|i| if how == 0 || (how == 1 && i == full) { format!("t{i}") } else { String::new() }).collect();
        let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        check_entries(c, &[header(&[&format!("Plural-Forms: nplurals={n}; plural=n;")]), E::plural("one", "many", &t)]).map(|_| ())
    }));
    v.push(space("equality by texts", 0, "every pair of plural messages of the same (or nearly the same) sources that have 1 to 12 texts (or 40, 100, 130), all, some or none of them empty, alike or not, under their own definitions or none: equal exactly when singular and plural are; simple messages likewise", |c| {
        let mut make = || -> Result<(Unit, bool), Stop> {
            let n = *c.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 12, 40, 100, 130]);
            let how = c.choose(4);
            let t: Vec<String> = (0..n)
                .map(|i| match how {
                    0 => format!("t{i}"),
                    1 => "t".into(),
                    2 if i % 2 == 0 => "t".into(),
                    _ => String::new(),
                })
                .collect();
            let same = !c.flip();
            let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
            let mut e = E::plural("one", if same { "many" } else { "man" }, &t);
            if how == 1 {
                e = e.obsolete().with_ctx("c").with_prev(None, Some("one"), Some("many"));
            }
            let d = doc(&[header(&[&format!("Plural-Forms: nplurals={n}; plural={};", ["n", "0", "n%2"][n % 3])]), e]);
            c.input = d.clone().into_bytes();
            match in_impl(d.as_bytes(), || parser().parse(d.as_bytes()).ok().and_then(|mut r| r.next()).and_then(|x| x.ok())) {
                Ok(Some(u)) => Ok((u, same)),
                Ok(None) => Err(Stop::Broken("a plural entry cannot be read".into())),
                Err(x) => Err(Stop::Broken(format!("the library {x}"))),
            }
        };
        let (a, x) = make()?;
        let (b, y) = make()?;
        c.compared += 1;
        c.state(h64(&(unit(&a), x == y)));
        let r = in_impl(b"", || (a.message() == b.message(), b.message() == a.message(), a.message() != b.message()));
        match r {
            Err(x) => broken!("the library {x}"),
            Ok(r) => ensure!(r == (x == y, x == y, x != y), "messages of {} sources: {r:?}; {:?} and {:?}", if x == y { "the same" } else { "different" }, a.message(), b.message()),
        }
        Ok(())
    }));
    v
}

/// sources that are easily taken for each other
fn near_ids() -> &'static Vec<String> {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<String> = vec![];
        for x in ["File", "file", "FILE", "fiLe", "File\n", "File ", " File", "File\t", "\nFile", "File.", "File:", "File...", "File\u{2026}", "&File", "_File", "Fi&le", "Fi_le", "File\0", "File\0x", "File\u{4}x", "Fil", "Files", "F ile", "Fi  le", "Fi le", "Fi\u{a0}le", "Fi\nle", "Fi\r\nle", "Fi\\nle", "F\u{ed}le", "F\u{69}\u{301}le", "\u{fb01}le", "\u{24}", "K", "\u{212a}", "k", "I", "\u{131}", "\u{130}", "i", "\u{df}", "ss", "SS", "\u{1e9e}", "\u{3c3}", "\u{3c2}", "\u{a3}", "1", "01", "1.0", "+1", "\u{ff11}", "%s", "%d", "%1$s", "{0}", "{}", "\u{feff}File", "File\u{200b}", "File\u{ad}", "\"File\"", "'File'", "\u{2019}File", "a|b", "a", "b", "\u{4}", "a\u{4}b", "Fi\u{200d}le", "\u{1f600}", "\u{1f601}", "\u{fffd}", "?", "\u{e9}", "e\u{301}", "\u{c9}"] {
            v.push(x.into());
        }
        for n in [7usize, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535, 65536] {
            let a = "abcdefghij".repeat(n / 10 + 1)[..n].to_string();
            v.push(a.clone());
            v.push(format!("{a}x"));
            v.push(format!("{a}y"));
            v.push(format!("x{a}"));
            v.push(format!("y{a}"));
            v.push(format!("{}x{}", &a[..n / 2], &a[n / 2..]));
            v.push(format!("{}y{}", &a[..n / 2], &a[n / 2..]));
            v.push(format!("{}\u{e9}{}", &a[..n - 2], &a[n - 2..]));
            v.push(format!("{}\u{e8}{}", &a[..n - 2], &a[n - 2..]));
        }
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert(x.clone()));
        v
    })
}

thread_local! { static NEAR: RefCell<[Option<&'static Vec<Message>>; 3]> = const { RefCell::new([None; 3]) }; }
fn near_messages(kind: usize) -> Result<&'static Vec<Message>, Stop> {
    NEAR.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(v) = m[kind] {
            return Ok(v);
        }
        let d: Vec<E> = near_ids()
            .iter()
            .map(|x| match kind {
                0 => E::simple(x, "t"),
                1 => E::plural(x, "many", &["t"]),
                _ => E::plural("one", x, &[""]),
            })
            .collect();
        let text = doc(&d);
        let r = in_impl(text.as_bytes(), || match parser().parse(text.as_bytes()) {
            Err(e) => Err(e.to_string()),
            Ok(r) => r.map(|u| u.map(|u| u.message().clone()).map_err(|e| e.to_string())).collect::<Result<Vec<Message>, String>>(),
        });
        match r {
            Ok(Ok(v)) if v.len() == near_ids().len() => {
                let v: &'static Vec<Message> = Box::leak(Box::new(v));
                m[kind] = Some(v);
                Ok(v)
            }
            Ok(Ok(v)) => broken!("{} messages are read instead of {}", v.len(), near_ids().len()),
            Ok(Err(e)) => broken!("a well-formed catalogue is refused: {e}"),
            Err(p) => broken!("the library {p}"),
        }
    })
}
