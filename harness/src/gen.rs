//! Catalogues as data, their PO text, and the units they stand for.

use crate::engine::*;
use crate::model::{self, Ent, Expect, Msg};
use crate::obs::*;
use crate::{broken, ensure};
use std::fmt::Write as _;

/// The decoded pieces of one string field, one per physical line.
pub type Str = Vec<String>;
pub fn s(x: &str) -> Str {
    vec![x.to_string()]
}

#[derive(Clone, Debug)]
pub enum Body {
    Simple(Str),
    Plural(Str, Vec<Str>),
}

#[derive(Clone, Debug)]
pub struct E {
    /// comment lines: marker and text
    pub comments: Vec<(char, String)>,
    pub pctx: Option<Str>,
    pub pid: Option<Str>,
    pub ppl: Option<Str>,
    pub ctx: Option<Str>,
    pub id: Str,
    pub body: Body,
    pub obsolete: bool,
}

impl E {
    pub fn simple(id: &str, text: &str) -> E {
        E { comments: vec![], pctx: None, pid: None, ppl: None, ctx: None, id: s(id), body: Body::Simple(s(text)), obsolete: false }
    }
    pub fn plural(id: &str, pl: &str, texts: &[&str]) -> E {
        E { body: Body::Plural(s(pl), texts.iter().map(|t| s(t)).collect()), ..E::simple(id, "") }
    }
    pub fn header(lines: &[&str]) -> E {
        let mut p = vec![String::new()];
        p.extend(lines.iter().map(|l| format!("{l}\n")));
        E { body: Body::Simple(p), ..E::simple("", "") }
    }
    pub fn comment(mut self, k: char, t: &str) -> E {
        self.comments.push((k, t.into()));
        self
    }
    pub fn with_ctx(mut self, c: &str) -> E {
        self.ctx = Some(s(c));
        self
    }
    pub fn with_prev(mut self, c: Option<&str>, id: Option<&str>, pl: Option<&str>) -> E {
        self.pctx = c.map(s);
        self.pid = id.map(s);
        self.ppl = pl.map(s);
        self
    }
    pub fn obsolete(mut self) -> E {
        self.obsolete = true;
        self
    }

    /// The lines of the entry, without line ends.
    pub fn lines(&self) -> Vec<String> {
        let mut v = vec![];
        for (k, t) in &self.comments {
            v.push(match (k, t.is_empty()) {
                (' ', true) => "#".into(),
                (' ', false) => format!("# {t}"),
                (k, true) => format!("#{k}"),
                (k, false) => format!("#{k} {t}"),
            });
        }
        let mut put = |prev: bool, kw: &str, val: &Str| {
            let mark = match (self.obsolete, prev) {
                (false, false) => "",
                (false, true) => "#| ",
                (true, false) => "#~ ",
                (true, true) => "#~| ",
            };
            for (i, p) in val.iter().enumerate() {
                v.push(if i == 0 { format!("{mark}{kw} \"{}\"", escape(p)) } else { format!("{mark}\"{}\"", escape(p)) });
            }
        };
        for (prev, kw, val) in
            [(true, "msgctxt", &self.pctx), (true, "msgid", &self.pid), (true, "msgid_plural", &self.ppl), (false, "msgctxt", &self.ctx)]
        {
            if let Some(val) = val {
                put(prev, kw, val);
            }
        }
        put(false, "msgid", &self.id);
        match &self.body {
            Body::Simple(t) => put(false, "msgstr", t),
            Body::Plural(p, ts) => {
                put(false, "msgid_plural", p);
                for (i, t) in ts.iter().enumerate() {
                    put(false, &format!("msgstr[{i}]"), t);
                }
            }
        }
        v
    }

    /// The unit this entry stands for.
    pub fn ent(&self) -> Ent {
        let mut e = Ent { obsolete: self.obsolete, ..Ent::default() };
        for (k, t) in &self.comments {
            match k {
                ' ' => e.notes.push((false, t.clone())),
                '.' => e.notes.push((true, t.clone())),
                ':' => e.locs.extend(t.split_whitespace().map(String::from)),
                ',' => e.flags.extend(t.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty())),
                k => e.comments.push((*k, t.clone())),
            }
        }
        let j = |x: &Str| x.concat();
        e.ctx = self.ctx.as_ref().map(j);
        e.pctx = self.pctx.as_ref().map(j);
        e.pmsg = match (&self.pid, &self.ppl) {
            (None, _) => Msg::default(),
            (Some(i), None) => Msg::Simple(j(i), None),
            (Some(i), Some(p)) => Msg::Plural(j(i), j(p), vec![]),
        };
        e.msg = match &self.body {
            Body::Simple(t) => Msg::Simple(j(&self.id), Some(j(t)).filter(|t| !t.is_empty())),
            Body::Plural(p, ts) => Msg::Plural(j(&self.id), j(p), ts.iter().map(j).collect()),
        };
        e
    }
}

pub fn escape(t: &str) -> String {
    let mut o = String::with_capacity(t.len());
    for c in t.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o
}

pub fn doc(entries: &[E]) -> String {
    let mut o = String::new();
    for (i, e) in entries.iter().enumerate() {
        if i > 0 {
            o.push('\n');
        }
        for l in e.lines() {
            let _ = writeln!(o, "{l}");
        }
    }
    o
}

pub fn show_unit(u: &UnitObs) -> String {
    format!("{:?}", u.message.id)
}

fn record(c: &mut Ctx, o: &RunObs) {
    run_states(o, |h| c.state(h));
    c.compared += 1;
}

/// Run the library on `input`, a panic being a violation.
pub fn run(c: &mut Ctx, input: &[u8]) -> Result<RunObs, Stop> {
    c.input.clear();
    c.input.extend_from_slice(input);
    match observe(input) {
        Ok(o) => {
            record(c, &o);
            Ok(o)
        }
        Err(p) => broken!("the library {p}"),
    }
}

/// The reading that agrees with what was observed; if none does, why the last one does not.
pub fn agreeing(v: Vec<Expect>, o: &RunObs, also: impl Fn(&Expect, &RunObs) -> Result<(), String>) -> Result<Expect, Stop> {
    let mut why = String::new();
    for x in v {
        match model::agree(&x, o).and_then(|()| also(&x, o)) {
            Ok(()) => return Ok(x),
            Err(m) => why = m,
        }
    }
    broken!("{why}")
}

/// Run the library on `input` and compare with what the reference reader says.
pub fn check(c: &mut Ctx, input: &[u8]) -> Result<(Expect, RunObs), Stop> {
    check_also(c, input, |_, _| Ok(()))
}

pub fn check_also(c: &mut Ctx, input: &[u8], also: impl Fn(&Expect, &RunObs) -> Result<(), String>) -> Result<(Expect, RunObs), Stop> {
    let v = model::readings(input, model::End::Eof);
    if v.is_empty() {
        return Err(Stop::Skip);
    }
    let o = run(c, input)?;
    let x = agreeing(v, &o, also)?;
    Ok((x, o))
}

/// Run the library on a catalogue made of `entries`; the expectation comes from the data, and the reference reader
/// must agree with it.
pub fn check_entries(c: &mut Ctx, entries: &[E]) -> Result<RunObs, Stop> {
    let text = doc(entries);
    check_entries_text(c, entries, text.as_bytes())
}

pub fn check_entries_text(c: &mut Ctx, entries: &[E], text: &[u8]) -> Result<RunObs, Stop> {
    let Some(mut x) = model::read(text) else { return Err(Stop::Harness("the reference reader leaves a generated catalogue open".into())) };
    if x.open_fail || x.fail.is_some() {
        return Err(Stop::Harness(format!("the reference reader refuses a generated catalogue: {:?}", x.fail)));
    }
    let ents: Vec<Ent> = entries.iter().map(E::ent).collect();
    let skip = match ents.first() {
        Some(e) if e.msg == Msg::Simple(String::new(), None) || matches!(&e.msg, Msg::Simple(i, _) if i.is_empty()) => 1,
        _ => 0,
    };
    if x.units != ents[skip..] {
        return Err(Stop::Harness("the reference reader and the generator disagree".into()));
    }
    x.units = ents[skip..].to_vec();
    let o = run(c, text)?;
    if let Err(m) = model::agree(&x, &o) {
        broken!("{m}")
    }
    Ok(o)
}

/// Two runs that must be seen alike; `lines`: error line numbers count too.
pub fn same(a: &RunObs, b: &RunObs, lines: bool) -> Result<(), String> {
    if a.header != b.header {
        return Err(format!("header {:?} instead of {:?}", b.header, a.header));
    }
    let (ua, ub) = (a.units(), b.units());
    for (i, (x, y)) in ua.iter().zip(&ub).enumerate() {
        if let Some(d) = model::diff(x, y) {
            return Err(format!("unit {}: {d}", i + 1));
        }
    }
    if ua.len() != ub.len() {
        return Err(format!("{} unit(s) instead of {}", ub.len(), ua.len()));
    }
    let k = |e: Option<&ErrObs>| e.map(|e| (e.kind, if lines { e.line } else { 0 }, e.io_kind.clone()));
    if k(a.error()) != k(b.error()) || a.open.is_some() != b.open.is_some() {
        return Err(format!("error {:?} instead of {:?}", b.error().map(|e| &e.shown), a.error().map(|e| &e.shown)));
    }
    if a.late != b.late || a.runaway != b.runaway {
        return Err("items after the end".into());
    }
    Ok(())
}

pub fn must(r: Result<(), String>, what: impl FnOnce() -> String) -> Res {
    match r {
        Ok(()) => Ok(()),
        Err(m) => {
            ensure!(false, "{}: {m}", what());
            Ok(())
        }
    }
}

/// A header with the given extra property lines.
pub fn header(extra: &[&str]) -> E {
    let mut v = vec!["Project-Id-Version: x", "Content-Type: text/plain; charset=UTF-8"];
    v.extend(extra);
    E::header(&v)
}
pub const PF2: &str = "Plural-Forms: nplurals=2; plural=(n != 1);";
pub const PF3: &str =
    "Plural-Forms: nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);";
pub const PF1: &str = "Plural-Forms: nplurals=1; plural=0;";

/// A menu of entries that differ in every kind of content; all distinguishable, numbered by `tag`.
pub fn menu(tag: usize) -> Vec<E> {
    let t = |x: &str| format!("{x}{tag}");
    let base = E::simple(&t("id"), &t("text"));
    let pl = E::plural(&t("one"), &t("many"), &[&t("p0-"), &t("p1-")]);
    let mut v = vec![
        base.clone(),
        E::simple(&t("id"), ""),
        base.clone().with_ctx(&t("ctx")),
        E::simple(&t("id"), "").with_ctx(""),
        base.clone().comment(',', "fuzzy"),
        E::simple(&t("id"), "").comment(',', "fuzzy"),
        base.clone().comment(',', &format!("c-format, {}", t("flag"))),
        base.clone().comment(',', "fuzzy, no-wrap").comment(',', &t("flag")),
        base.clone().comment(' ', &t("note")),
        base.clone().comment('.', &t("dev")),
        base.clone().comment(':', &format!("{}:1 {}:2", t("src"), t("src"))),
        base.clone().comment('=', &t("other")),
        base.clone().comment(' ', &t("n1")).comment('.', &t("n2")).comment(' ', "").comment('!', &t("x")).comment(':', &t("l1")).comment(':', &t("l2")),
        base.clone().with_prev(Some(&t("pctx")), None, None),
        base.clone().with_prev(None, Some(&t("pid")), None),
        base.clone().with_prev(None, Some(&t("pid")), Some(&t("ppl"))),
        base.clone().with_prev(Some(&t("pctx")), Some(&t("pid")), Some(&t("ppl"))).with_ctx(&t("ctx")).comment(',', "fuzzy"),
        E::simple(&t("id"), "").with_prev(Some(""), Some(""), None),
        base.clone().obsolete(),
        E::simple(&t("id"), "").obsolete(),
        base.clone().obsolete().comment(',', "fuzzy").comment(' ', &t("note")),
        base.clone().obsolete().with_ctx(&t("ctx")).with_prev(Some(&t("pctx")), Some(&t("pid")), None),
        pl.clone(),
        E::plural(&t("one"), &t("many"), &["", ""]),
        E::plural(&t("one"), &t("many"), &["", &t("p1-")]),
        E::plural(&t("one"), &t("many"), &[&t("p0-"), ""]),
        E::plural(&t("one"), &t("many"), &[&t("p0-")]),
        pl.clone().with_ctx(&t("ctx")).comment(',', "fuzzy").comment('.', &t("dev")),
        pl.clone().obsolete(),
        pl.clone().obsolete().with_prev(None, Some(&t("pid")), Some(&t("ppl"))),
        pl.clone().with_prev(Some(&t("pctx")), Some(&t("pid")), Some(&t("ppl"))),
        E::plural(&t("one"), "", &[&t("p0-"), &t("p1-")]),
    ];
    // strings over several lines
    let multi = |x: &str| vec![String::new(), format!("{x}{tag}\n"), format!("more {x}"), String::new(), "end".to_string()];
    let mut m = E::simple("", "");
    m.id = multi("id");
    m.body = Body::Simple(multi("text"));
    m.ctx = Some(multi("ctx"));
    v.push(m.clone());
    m.pctx = Some(multi("pctx"));
    m.pid = Some(multi("pid"));
    m.ppl = Some(multi("ppl"));
    v.push(m.clone());
    m.body = Body::Plural(multi("pl"), vec![multi("p0"), multi("p1")]);
    v.push(m.clone());
    m.obsolete = true;
    v.push(m);
    let mut q = E::simple(&format!("\"{tag}\" \\ \t\r\n é\u{1F600}"), "\\n \\\\ \"q\" '");
    q.comments = vec![(' ', "msgid \"trap\"".into()), ('.', "\"trap\"".into())];
    v.push(q);
    v
}
