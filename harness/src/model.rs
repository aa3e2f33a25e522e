//! Reference reader: what the properties say a PO text means.  Written from properties.jsonl, by hand-coded
//! scanning (no regular expressions, no shared code with the library).

use crate::formula::{bang_after_plus, judge, Ast, Verdict};
use crate::obs::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Line {
    Blank,
    Comment(char, String),
    /// obsolete, previous, keyword, text
    Field(bool, bool, String, String),
    Cont(bool, bool, String),
    Bad,
    /// a marked line (`#~`, `#|`) without a string: the properties leave open whether it is a comment or malformed
    Foreign,
    /// a string with an unescaped quote or a lone final backslash: malformed, or the line given here
    Quote(Box<Line>),
}

fn ws(s: &str) -> &str {
    s.trim_start_matches(char::is_whitespace)
}

/// decode the text between quotes; None: unescaped quote or lone final backslash
pub fn unescape(s: &str) -> Option<String> {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return None,
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '"' => out.push('"'),
                '\\' => out.push('\\'),
                c => {
                    out.push('\\');
                    out.push(c);
                }
            },
            c => out.push(c),
        }
    }
    Some(out)
}

/// the same, what is not an escape being kept as it is
pub fn lenient(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some('t') => out.push('\t'),
                Some('"') => out.push('"'),
                Some('\\') => out.push('\\'),
                Some(c) => {
                    out.push('\\');
                    out.push(c);
                }
                None => out.push('\\'),
            },
            c => out.push(c),
        }
    }
    out
}

fn keyword(s: &str) -> Option<(&str, &str)> {
    for k in ["msgctxt", "msgid_plural", "msgid"] {
        if let Some(r) = s.strip_prefix(k) {
            return Some((k, r));
        }
    }
    let r = s.strip_prefix("msgstr")?;
    let Some(t) = r.strip_prefix('[') else { return Some(("msgstr", r)) };
    let d = t.find(']')?;
    let num = &t[..d];
    let ok = num == "0" || (!num.is_empty() && !num.starts_with('0') && num.bytes().all(|c| c.is_ascii_digit()));
    if ok {
        let n = 6 + 1 + d + 1;
        Some((&s[..n], &s[n..]))
    } else {
        None
    }
}

pub fn classify(line: &str) -> Line {
    let s = ws(line);
    if s.is_empty() {
        return Line::Blank;
    }
    let (mut obs, mut prev) = (false, false);
    let mut body = s;
    let mut marked = false;
    if let Some(r) = s.strip_prefix('#') {
        if let Some(r2) = r.strip_prefix('~') {
            obs = true;
            marked = true;
            body = r2;
            if let Some(r3) = r2.strip_prefix('|') {
                prev = true;
                body = r3;
            }
        } else if let Some(r2) = r.strip_prefix('|') {
            prev = true;
            marked = true;
            body = r2;
        } else {
            let mut c = r.chars();
            return match c.next() {
                None => Line::Comment(' ', String::new()),
                Some(k) => Line::Comment(k, ws(c.as_str()).to_string()),
            };
        }
    }
    let foreign = if marked { Line::Foreign } else { Line::Bad };
    let b = ws(body);
    let (kw, rest) = match keyword(b) {
        Some((k, r)) => (Some(k), ws(r)),
        None => (None, b),
    };
    let Some(q) = rest.strip_prefix('"') else { return foreign };
    let q = q.trim_end_matches(char::is_whitespace);
    let Some(q) = q.strip_suffix('"') else { return foreign };
    let line = |text: String| match kw {
        None => Line::Cont(obs, prev, text),
        Some(k) => Line::Field(obs, prev, k.to_string(), text),
    };
    match unescape(q) {
        Some(text) => line(text),
        None => Line::Quote(Box::new(line(lenient(q)))),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Msg {
    Simple(String, Option<String>),
    Plural(String, String, Vec<String>),
}
impl Default for Msg {
    fn default() -> Self {
        Msg::Simple(String::new(), None)
    }
}

/// The content of an entry.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Ent {
    pub ctx: Option<String>,
    pub msg: Msg,
    pub pctx: Option<String>,
    pub pmsg: Msg,
    pub flags: BTreeSet<String>,
    pub notes: Vec<(bool, String)>,
    pub locs: Vec<String>,
    pub comments: Vec<(char, String)>,
    pub obsolete: bool,
}

/// What the header says about plural forms.
#[derive(Clone, Debug)]
pub struct Forms {
    pub count: usize,
    pub definition: String,
    pub formula: String,
    /// None: meaning left open
    pub ast: Option<Ast>,
}

impl Forms {
    /// index for a count below 2^63; None where the property leaves the meaning open
    pub fn index(&self, n: usize) -> Option<Option<usize>> {
        let a = self.ast.as_ref()?;
        let v = a.eval(i64::try_from(n).ok()?);
        Some(if v < 0 || v as u64 >= self.count as u64 { None } else { Some(v as usize) })
    }
}

pub enum FormsVerdict {
    Valid(Forms),
    Reject,
}

/// The value of a Plural-Forms property (trimmed, not empty): every verdict the properties allow; none, if they
/// leave it open altogether.
pub fn judge_forms(def: &str) -> Vec<FormsVerdict> {
    let mut kv: BTreeMap<&str, &str> = BTreeMap::new();
    let mut parts: Vec<&str> = def.split(';').collect();
    let last = parts.pop().unwrap();
    if !last.trim().is_empty() {
        return vec![FormsVerdict::Reject];
    }
    for p in parts {
        if p.trim().is_empty() {
            continue; // `;;`
        }
        let Some((k, v)) = p.split_once('=') else { return vec![FormsVerdict::Reject] };
        let (k, v) = (k.trim(), v.trim());
        if k.is_empty() || k.contains(char::is_whitespace) {
            return vec![FormsVerdict::Reject];
        }
        kv.insert(k, v); // the last one counts
    }
    let mut out = vec![];
    let count = match kv.get("nplurals") {
        None => 2,
        Some(s) => {
            let digits = match s.strip_prefix('+') {
                Some(r) => {
                    out.push(FormsVerdict::Reject);
                    r
                }
                None => s,
            };
            if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
                return vec![FormsVerdict::Reject];
            }
            match digits.parse() {
                Ok(c) => c,
                Err(_) => return vec![], // not representable
            }
        }
    };
    let formula = kv.get("plural").copied().unwrap_or_default();
    let valid = |ast| FormsVerdict::Valid(Forms { count, definition: def.to_string(), formula: formula.to_string(), ast });
    if bang_after_plus(formula) {
        out.push(FormsVerdict::Reject);
    }
    match judge(formula) {
        Verdict::Accept(a) => out.push(valid(Some(a))),
        Verdict::Either(a, b) => {
            out.push(valid(Some(a)));
            out.push(valid(Some(b)));
        }
        Verdict::Reject => out.push(FormsVerdict::Reject),
        Verdict::Open => {
            out.push(FormsVerdict::Reject);
            out.push(valid(None));
        }
    }
    out
}

/// The metadata carried by a header entry's translation.
pub fn props(text: &str) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in text.split('\n') {
        if let Some((k, v)) = l.split_once(':') {
            m.entry(k.trim().into()).or_default().push(v.trim().into());
        }
    }
    m.into_iter().filter(|(k, _)| !k.is_empty()).map(|(k, v)| (k, v.join(" "))).collect()
}

pub fn language(v: Option<&String>) -> String {
    use locale_config::LanguageRange as L;
    match v {
        None => L::invariant().to_string(),
        Some(v) => match L::new(v) {
            Ok(l) => l.to_string(),
            Err(_) => match L::from_unix(v) {
                Ok(l) => l.to_string(),
                Err(_) => L::invariant().to_string(),
            },
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    /// a line that is not PO
    Malformed,
    /// the source failed or is not UTF-8
    Io,
    /// a line that does not fit where it stands
    Misplaced,
    /// an entry other than the header without a source
    EmptySource,
    /// the Plural-Forms property
    Forms,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub why: Why,
    pub line: usize,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub header: HeaderObs,
    pub forms: Option<Forms>,
    /// the catalogue is rejected when opened: a bad first entry (`soft`: may also be reported by the iteration)
    pub open_fail: bool,
    pub soft: bool,
    pub units: Vec<Ent>,
    pub fail: Option<Fail>,
    /// the error stands directly after the last unit (or the header), which therefore may be missing
    pub optional_last: bool,
    /// comments marked `~` or `|` are left open
    pub marked: bool,
}

/// How the points that the properties leave open are read (0: not decided).
#[derive(Clone, Copy, Default, Debug)]
struct Interp {
    foreign: u8, // 1: malformed, 2: a comment
    quote: u8,   // 1: malformed, 2: verbatim
    forms: u8,   // 1..: which verdict
    tail: u8,    // 1: the misplaced line is reported, 2: the error after it
}
enum Need {
    Foreign,
    Quote,
    Forms(u8),
    Tail,
    Never,
}

/// How the input ends.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Eof,
    Io,
}

struct Rd {
    toks: Vec<(usize, Line)>,
    end: (usize, Option<Why>),
    i: usize,
}

enum Step<T> {
    Ok(T),
    Eof,
    Fail(Fail),
}

impl Rd {
    fn peek(&self) -> Option<&(usize, Line)> {
        self.toks.get(self.i)
    }
    /// what stands where something else is expected
    fn misfit<T>(&self) -> Step<T> {
        match self.peek() {
            Some((l, _)) => Step::Fail(Fail { why: Why::Misplaced, line: *l }),
            None => match self.end.1 {
                None => Step::Eof,
                Some(why) => Step::Fail(Fail { why, line: self.end.0 }),
            },
        }
    }
    fn field(&mut self, obs: bool, prev: bool, kw: &str) -> Option<String> {
        let t = match self.peek() {
            Some((_, Line::Field(o, p, k, t))) if *o == obs && *p == prev && k == kw => t.clone(),
            _ => return None,
        };
        self.i += 1;
        let mut s = t;
        while let Some((_, Line::Cont(o, p, t))) = self.peek() {
            if *o != obs || *p != prev {
                break;
            }
            s.push_str(t);
            self.i += 1;
        }
        Some(s)
    }
    fn entry(&mut self, forms: Option<&Forms>) -> Step<(Ent, usize)> {
        let mut e = Ent::default();
        while let Some((_, Line::Comment(k, t))) = self.peek() {
            match k {
                ',' => e.flags.extend(t.split(',').map(|f| f.trim().to_string()).filter(|f| !f.is_empty())),
                ':' => e.locs.extend(t.split_whitespace().map(str::to_string)),
                '.' => e.notes.push((true, t.clone())),
                ' ' => e.notes.push((false, t.clone())),
                '~' => (),
                k => e.comments.push((*k, t.clone())),
            }
            self.i += 1;
        }
        let line = match self.peek() {
            None => return self.misfit(),
            Some((l, Line::Field(o, ..))) => {
                e.obsolete = *o;
                *l
            }
            Some((l, _)) => return Step::Fail(Fail { why: Why::Misplaced, line: *l }),
        };
        let o = e.obsolete;
        e.pctx = self.field(o, true, "msgctxt");
        if let Some(id) = self.field(o, true, "msgid") {
            e.pmsg = match self.field(o, true, "msgid_plural") {
                Some(p) => Msg::Plural(id, p, vec![]),
                None => Msg::Simple(id, None),
            };
        }
        e.ctx = self.field(o, false, "msgctxt");
        let Some(id) = self.field(o, false, "msgid") else { return self.misfit() };
        if let Some(pl) = self.field(o, false, "msgid_plural") {
            let n = forms.map_or(2, |f| f.count);
            let mut v = vec![];
            while v.len() < n {
                match self.field(o, false, &format!("msgstr[{}]", v.len())) {
                    Some(t) => v.push(t),
                    None => break,
                }
            }
            if v.is_empty() {
                return self.misfit();
            }
            e.msg = Msg::Plural(id, pl, v);
        } else {
            match self.field(o, false, "msgstr") {
                Some(t) => e.msg = Msg::Simple(id, Some(t).filter(|t| !t.is_empty())),
                None => return self.misfit(),
            }
        }
        Step::Ok((e, line))
    }
}

/// Split into lines as the library's documentation of physical lines implies: LF or CRLF.
pub fn split_lines(b: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    if v.last() == Some(&&b""[..]) {
        v.pop();
    }
    let terminated = b.last() == Some(&b'\n');
    let n = v.len();
    for (i, l) in v.iter_mut().enumerate() {
        if i + 1 < n || terminated {
            if let Some(r) = l.strip_suffix(b"\r") {
                *l = r;
            }
        }
    }
    v
}

/// What reading `input` must give; None where the properties leave it open.
pub fn read(input: &[u8]) -> Option<Expect> {
    let mut v = readings(input, End::Eof);
    if v.len() == 1 {
        v.pop()
    } else {
        None
    }
}

/// Everything that reading `input` may give, the source ending or failing (`End::Io`) after it; empty: left open.
pub fn readings(input: &[u8], end: End) -> Vec<Expect> {
    let mut out = vec![];
    if readings_from(input, end, Interp::default(), &mut out) {
        out
    } else {
        vec![]
    }
}

fn readings_from(input: &[u8], end: End, i: Interp, out: &mut Vec<Expect>) -> bool {
    match read_as(input, end, i) {
        Ok(x) => {
            out.push(x);
            true
        }
        Err(Need::Foreign) => (1..=2).all(|foreign| readings_from(input, end, Interp { foreign, ..i }, out)),
        Err(Need::Quote) => (1..=2).all(|quote| readings_from(input, end, Interp { quote, ..i }, out)),
        Err(Need::Tail) => (1..=2).all(|tail| readings_from(input, end, Interp { tail, ..i }, out)),
        Err(Need::Forms(n)) => (1..=n).all(|forms| readings_from(input, end, Interp { forms, ..i }, out)),
        Err(Need::Never) => false,
    }
}

fn read_as(input: &[u8], end: End, how: Interp) -> Result<Expect, Need> {
    let mut toks = vec![];
    let mut lines = split_lines(input);
    // a line that the failure cuts short is never seen
    if end == End::Io && input.last().map_or(false, |&c| c != b'\n') {
        lines.pop();
    }
    let mut fin = (lines.len() + 1, if end == End::Io { Some(Why::Io) } else { None });
    for (i, l) in lines.iter().enumerate() {
        let Ok(s) = std::str::from_utf8(l) else {
            fin = (i + 1, Some(Why::Io));
            break;
        };
        match classify(s) {
            Line::Blank => (),
            Line::Foreign if how.foreign == 0 => return Err(Need::Foreign),
            Line::Foreign if how.foreign == 2 => toks.push((i + 1, Line::Comment('~', String::new()))),
            Line::Quote(_) if how.quote == 0 => return Err(Need::Quote),
            Line::Quote(l) if how.quote == 2 => toks.push((i + 1, *l)),
            Line::Bad | Line::Foreign | Line::Quote(_) => {
                fin = (i + 1, Some(Why::Malformed));
                break;
            }
            t => toks.push((i + 1, t)),
        }
    }
    let ends_badly = fin.1.is_some();
    let mut r = Rd { toks, end: fin, i: 0 };
    let mut x = Expect {
        header: HeaderObs { props: BTreeMap::new(), notes: vec![], comments: vec![], lang: language(None) },
        forms: None,
        open_fail: false,
        soft: false,
        units: vec![],
        fail: None,
        optional_last: false,
        marked: how.foreign == 2,
    };
    let mut first = true;
    loop {
        let was_first = first;
        first = false;
        match r.entry(x.forms.as_ref()) {
            Step::Eof => return Ok(x),
            Step::Fail(f) => {
                x.open_fail = was_first;
                x.soft = was_first;
                x.fail = Some(f);
                return Ok(x);
            }
            Step::Ok((e, line)) => {
                // the error comes right after this entry's last line: the entry may be lost to it
                let at_error = ends_badly && r.i == r.toks.len();
                let id = match &e.msg {
                    Msg::Simple(i, _) | Msg::Plural(i, ..) => i,
                };
                if id.is_empty() {
                    if was_first && matches!(e.msg, Msg::Simple(..)) {
                        if let Msg::Simple(_, t) = &e.msg {
                            x.header.props = props(t.as_deref().unwrap_or(""));
                        }
                        x.header.notes = e.notes;
                        x.header.comments = e.comments;
                        x.header.lang = language(x.header.props.get("Language"));
                        if at_error {
                            // the header may be lost to the error
                            x.open_fail = true;
                            x.soft = true;
                            x.fail = Some(Fail { why: r.end.1.unwrap(), line: r.end.0 });
                            return Ok(x);
                        }
                        if let Some(def) = x.header.props.get("Plural-Forms").filter(|d| !d.is_empty()) {
                            let mut v = judge_forms(def);
                            let k = match (v.len(), how.forms) {
                                (0, _) => return Err(Need::Never),
                                (1, _) => 0,
                                (n, 0) => return Err(Need::Forms(n.min(250) as u8)),
                                (_, k) => k as usize - 1,
                            };
                            match v.swap_remove(k) {
                                FormsVerdict::Valid(f) => x.forms = Some(f),
                                FormsVerdict::Reject => {
                                    x.open_fail = true;
                                    x.fail = Some(Fail { why: Why::Forms, line: 0 });
                                    return Ok(x);
                                }
                            }
                        }
                        continue;
                    }
                    x.open_fail = was_first;
                    x.soft = was_first;
                    x.fail = Some(if at_error {
                        // either of the two errors may be reported
                        match how.tail {
                            0 => return Err(Need::Tail),
                            1 => Fail { why: Why::EmptySource, line },
                            _ => Fail { why: r.end.1.unwrap(), line: r.end.0 },
                        }
                    } else {
                        Fail { why: Why::EmptySource, line }
                    });
                    return Ok(x);
                }
                x.units.push(e);
                if at_error {
                    x.optional_last = true;
                }
            }
        }
    }
}

pub fn expect_msg(m: &Msg, forms: Option<&Forms>, o: &MsgObs) -> MsgObs {
    match m {
        Msg::Simple(id, t) => MsgObs {
            simple: !id.is_empty(),
            plural: false,
            blank: t.is_none(),
            id: id.clone(),
            text: t.clone().unwrap_or_default(),
            plural_id: None,
            texts: COUNTS.iter().map(|_| t.clone()).collect(),
            details: None,
        },
        Msg::Plural(id, pl, v) => {
            // where the meaning of the formula is open, take what was observed
            let index: Vec<Option<usize>> = COUNTS
                .iter()
                .enumerate()
                .map(|(i, &n)| match forms {
                    None => None,
                    Some(f) => match f.index(n) {
                        Some(x) => x,
                        None => o.details.as_ref().and_then(|d| d.forms.as_ref()).and_then(|f| f.index[i]),
                    },
                })
                .collect();
            let texts: Vec<Option<String>> = index.iter().map(|i| i.and_then(|i| v.get(i).cloned())).collect();
            MsgObs {
                simple: false,
                plural: true,
                blank: v.iter().all(|t| t.is_empty()),
                id: id.clone(),
                text: v.first().cloned().unwrap_or_default(),
                plural_id: Some(pl.clone()),
                texts: texts.clone(),
                details: Some(PluralObs {
                    singular: id.clone(),
                    plural: pl.clone(),
                    first: v.first().cloned().unwrap_or_default(),
                    values: v.clone(),
                    is_blank: v.iter().all(|t| t.is_empty()),
                    forms: forms.map(|f| FormsObs {
                        count: f.count,
                        definition: f.definition.clone(),
                        formula: f.formula.clone(),
                        index,
                    }),
                    get: texts,
                }),
            }
        }
    }
}

pub fn expect_unit(e: &Ent, forms: Option<&Forms>, o: &UnitObs) -> UnitObs {
    let message = expect_msg(&e.msg, forms, &o.message);
    let state = if e.flags.contains("fuzzy") {
        1
    } else if message.blank {
        0
    } else {
        2
    };
    UnitObs {
        context: e.ctx.clone(),
        prev_context: e.pctx.clone(),
        prev_message: expect_msg(&e.pmsg, forms, &o.prev_message),
        flags: e.flags.clone(),
        notes: e.notes.clone(),
        locations: e.locs.clone(),
        comments: e.comments.clone(),
        state,
        translated: state == 2,
        obsolete: e.obsolete,
        message,
    }
}

/// First difference between two observations, for the report.
pub fn diff(want: &UnitObs, got: &UnitObs) -> Option<String> {
    if want == got {
        return None;
    }
    macro_rules! f {
        ($($n:ident),*) => { $( if want.$n != got.$n { return Some(format!("{} is {:?}, should be {:?}", stringify!($n), got.$n, want.$n)); } )* };
    }
    f!(context, prev_context, flags, notes, locations, comments, state, translated, obsolete, message, prev_message);
    Some("differs".into())
}

fn unmarked(c: &[(char, String)]) -> Vec<(char, String)> {
    c.iter().filter(|c| c.0 != '~' && c.0 != '|').cloned().collect()
}

/// Does the observed run agree with the expectation?  (Line numbers of errors and their kinds are left to the
/// caller, except that an I/O failure is an I/O error and nothing else is.)
pub fn agree(x: &Expect, o: &RunObs) -> Result<(), String> {
    if o.runaway {
        return Err("the reader delivers more items than the input has lines".into());
    }
    if o.late > 0 {
        return Err(format!("{} more item(s) delivered after the end or the error", o.late));
    }
    if let Some(h) = &o.header_after {
        return Err(format!("the header metadata changed during the iteration to {h:?}"));
    }
    let units = o.units();
    let want = &x.units;
    let n_ok = if units.len() == want.len() {
        true
    } else {
        x.optional_last && units.len() + 1 == want.len()
    };
    for (i, u) in units.iter().enumerate() {
        let Some(w) = want.get(i) else {
            return Err(format!("unit {} {:?} should not exist", i + 1, u.message.id));
        };
        let kept;
        let u = if x.marked {
            kept = UnitObs { comments: unmarked(&u.comments), ..(*u).clone() };
            &kept
        } else {
            u
        };
        if let Some(d) = diff(&expect_unit(w, x.forms.as_ref(), u), u) {
            return Err(format!("unit {} ({:?}): {d}", i + 1, u.message.id));
        }
    }
    if !n_ok {
        return Err(format!(
            "{} unit(s) delivered, should be {}{}",
            units.len(),
            want.len(),
            o.error().map(|e| format!(" (error: {})", e.shown)).unwrap_or_default()
        ));
    }
    match (&x.fail, o.error()) {
        (None, None) => (),
        (None, Some(e)) => return Err(format!("unexpected error: {}", e.shown)),
        (Some(f), None) => return Err(format!("no error is reported ({:?} at line {})", f.why, f.line)),
        (Some(f), Some(e)) => {
            if (f.why == Why::Io) != (e.kind == Kind::Io) {
                return Err(format!("a {:?} failure is reported as {}", f.why, e.shown));
            }
        }
    }
    if o.open.is_some() && !x.open_fail {
        // an error right after the first entry may take that entry with it
        if !(x.optional_last && want.len() == 1) {
            return Err("opening fails, though only a later entry is in error".into());
        }
    }
    if o.open.is_none() && x.open_fail && !x.soft {
        return Err("opening succeeds, though it should fail".into());
    }
    if let (Some(h), false) = (&o.header, x.open_fail) {
        let marked = x.marked && HeaderObs { comments: unmarked(&h.comments), ..h.clone() } == x.header;
        if *h != x.header && !marked {
            return Err(format!("the header metadata is {h:?}, should be {:?}", x.header));
        }
    }
    Ok(())
}
