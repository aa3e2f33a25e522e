//! Everything a user can see of the library, as plain data.

use crate::engine::{in_impl, parser};
use poreader::{error::Error, unit::Unit, CatalogueReader, Message, Origin, PoParser, PoReader, State};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::io::Read;

/// The counts every plural text is looked up for.
pub const COUNTS: &[usize] = &[0, 1, 2, 3, 5, 11, 21, 102];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FormsObs {
    pub count: usize,
    pub definition: String,
    pub formula: String,
    pub index: Vec<Option<usize>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PluralObs {
    pub singular: String,
    pub plural: String,
    pub first: String,
    pub values: Vec<String>,
    pub is_blank: bool,
    pub forms: Option<FormsObs>,
    pub get: Vec<Option<String>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MsgObs {
    pub simple: bool,
    pub plural: bool,
    pub blank: bool,
    pub id: String,
    pub text: String,
    pub plural_id: Option<String>,
    pub texts: Vec<Option<String>>,
    pub details: Option<PluralObs>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct UnitObs {
    pub context: Option<String>,
    pub message: MsgObs,
    pub prev_context: Option<String>,
    pub prev_message: MsgObs,
    pub flags: BTreeSet<String>,
    pub notes: Vec<(bool, String)>, // true: developer
    pub locations: Vec<String>,
    pub comments: Vec<(char, String)>,
    pub state: u8, // 0 empty, 1 needs work, 2 final
    pub translated: bool,
    pub obsolete: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct HeaderObs {
    pub props: BTreeMap<String, String>,
    pub notes: Vec<(bool, String)>,
    pub comments: Vec<(char, String)>,
    pub lang: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Io,
    Parse,
    Unexpected,
    Plural,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ErrObs {
    pub kind: Kind,
    pub line: usize,
    pub io_kind: String,
    pub shown: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RunObs {
    pub open: Option<ErrObs>,
    pub header: Option<HeaderObs>,
    pub items: Vec<Result<UnitObs, ErrObs>>,
    /// items delivered after the first error or the end
    pub late: usize,
    /// iteration was given up (more items than lines)
    pub runaway: bool,
    /// header metadata at the end of the iteration, when it differs
    pub header_after: Option<HeaderObs>,
}

impl RunObs {
    pub fn units(&self) -> Vec<&UnitObs> {
        self.items.iter().filter_map(|x| x.as_ref().ok()).collect()
    }
    /// the only error of the run, wherever it surfaced
    pub fn error(&self) -> Option<&ErrObs> {
        self.open.as_ref().or_else(|| self.items.iter().find_map(|x| x.as_ref().err()))
    }
}

pub fn h64<T: Hash>(x: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn notes(v: &[poreader::note::Note]) -> Vec<(bool, String)> {
    v.iter().map(|n| (*n.origin() == Origin::Developer, n.value().to_string())).collect()
}
pub fn comments(v: &[poreader::comment::Comment]) -> Vec<(char, String)> {
    v.iter().map(|n| (n.kind(), n.comment().to_string())).collect()
}

pub fn msg(m: &Message) -> MsgObs {
    let s = |x: Option<&str>| x.map(str::to_string);
    MsgObs {
        simple: m.is_simple(),
        plural: m.is_plural(),
        blank: m.is_blank(),
        id: m.get_id().into(),
        text: m.get_text().into(),
        plural_id: s(m.get_plural_id()),
        texts: COUNTS.iter().map(|&c| s(m.get_plural_text(c))).collect(),
        details: m.plural().map(|p| PluralObs {
            singular: p.singular().into(),
            plural: p.plural().into(),
            first: p.first().into(),
            values: p.values().clone(),
            is_blank: p.is_blank(),
            forms: p.get_forms().map(|f| FormsObs {
                count: f.get_count(),
                definition: f.get_definition().into(),
                formula: f.get_formula().into(),
                index: COUNTS.iter().map(|&c| f.get_value(c)).collect(),
            }),
            get: COUNTS.iter().map(|&c| s(p.get(c))).collect(),
        }),
    }
}

pub fn unit(u: &Unit) -> UnitObs {
    UnitObs {
        context: u.context().map(Into::into),
        message: msg(u.message()),
        prev_context: u.prev_context().map(Into::into),
        prev_message: msg(u.prev_message()),
        flags: u.flags().iter().filter(|f| !f.is_empty()).cloned().collect(),
        notes: notes(u.notes()),
        locations: u.locations().clone(),
        comments: comments(u.comments()),
        state: match u.state() {
            State::Empty => 0,
            State::NeedsWork => 1,
            State::Final => 2,
        },
        translated: u.is_translated(),
        obsolete: u.is_obsolete(),
    }
}

pub fn err(e: &Error) -> ErrObs {
    let (kind, line, io_kind) = match e {
        Error::Io(l, e) => (Kind::Io, *l, format!("{:?}", e.kind())),
        Error::Parse(l, ..) => (Kind::Parse, *l, String::new()),
        Error::Unexpected(l, _) => (Kind::Unexpected, *l, String::new()),
        Error::PluralForms(_) => (Kind::Plural, 0, String::new()),
    };
    ErrObs { kind, line, io_kind, shown: e.to_string() }
}

pub fn head_obs<R: Read>(r: &PoReader<R>) -> HeaderObs {
    HeaderObs {
        props: r.header_properties().iter().filter(|(k, _)| !k.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect(),
        notes: notes(r.header_notes()),
        comments: comments(r.header_comments()),
        lang: r.target_language().to_string(),
    }
}

/// Open, iterate to the end, and ask three more times.
pub fn run_with<R: Read>(p: &PoParser, src: R, max_items: usize) -> RunObs {
    let mut out = RunObs { open: None, header: None, items: vec![], late: 0, runaway: false, header_after: None };
    let mut r = match p.parse(src) {
        Err(e) => {
            out.open = Some(err(&e));
            return out;
        }
        Ok(r) => r,
    };
    let h = head_obs(&r);
    loop {
        match r.next() {
            None => break,
            Some(Ok(u)) => out.items.push(Ok(unit(&u))),
            Some(Err(e)) => {
                out.items.push(Err(err(&e)));
                break;
            }
        }
        if out.items.len() > max_items {
            out.runaway = true;
            break;
        }
    }
    if !out.runaway {
        for _ in 0..3 {
            if r.next().is_some() {
                out.late += 1;
            }
        }
    }
    let h2 = head_obs(&r);
    if h2 != h {
        out.header_after = Some(h2);
    }
    out.header = Some(h);
    out
}

pub fn line_count(b: &[u8]) -> usize {
    b.iter().filter(|&&c| c == b'\n').count() + 1
}

/// Observe the library on `input`; `Err` is a panic.
pub fn observe(input: &[u8]) -> Result<RunObs, String> {
    let p = parser();
    let max = line_count(input) + 2;
    in_impl(input, || run_with(p, input, max))
}

pub fn observe_src<R: Read>(input: &[u8], src: R) -> Result<RunObs, String> {
    let p = parser();
    let max = line_count(input) + 2;
    in_impl(input, || run_with(p, src, max))
}

/// Cumulative abstraction of a run: one state per item delivered.
pub fn run_states(o: &RunObs, mut f: impl FnMut(u64)) {
    let mut h = h64(&(&o.open.as_ref().map(|e| e.kind), &o.header));
    f(h);
    for i in &o.items {
        h = h64(&(h, i));
        f(h);
    }
}
