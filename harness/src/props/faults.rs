//! P13–P15: how bytes arrive, what happens when they do not, and arbitrary bytes.

use super::{lines, ramp};
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, End};
use crate::obs::*;
use crate::{broken, ensure};
use poreader::{error::Error, CatalogueReader};
use std::cell::RefCell;
use std::io::{self, Read};
use std::rc::Rc;

fn corpus() -> Vec<Vec<u8>> {
    let m = menu(1);
    let mut v: Vec<Vec<u8>> = vec![
        b"msgid \"a\"\nmsgstr \"b\"\n".to_vec(),
        "msgid \"é\\n\"\r\n\"\u{1F600}\"\r\nmsgstr \"日\"\r\n".as_bytes().to_vec(),
        doc(&[header(&["Language: fr"]), E::simple("k", "l").comment(' ', "note é").comment(',', "fuzzy")]).into_bytes(),
        doc(&[header(&[PF2]), m[30].clone(), m[33].clone()]).into_bytes(),
        b"# c\r\n\r\nmsgid \"a\"\r\nmsgstr \"b\"\r\n\r\n#~ msgid \"o\"\r\n#~ msgstr \"p\"".to_vec(),
        b"msgid \"a\"\nmsgstr \"b\"\n\n# c\njunk\nmsgid \"c\"\nmsgstr \"d\"\n".to_vec(),
        b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgid \"d\"\n".to_vec(),
        b"msgid \"a\"\nmsgstr \"b\"\n\n# c\nmsgid \"\xc3\"\nmsgstr \"d\"\n".to_vec(),
        b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"cut".to_vec(),
        b"".to_vec(),
        b"\n\r\n  \n".to_vec(),
        b"msgid \"\"\nmsgstr \"Plural-Forms: x\\n\"\n".to_vec(),
    ];
    v.push(doc(&menu(2)[..6]).into_bytes());
    v
}

/// A source that delivers pieces, with interruptions in between.
struct Pieces<'a> {
    data: &'a [u8],
    /// ends of the pieces, ascending
    cuts: Vec<usize>,
    pos: usize,
    /// interruptions before every piece
    intr: usize,
    left: usize,
}
impl<'a> Pieces<'a> {
    fn new(data: &'a [u8], cuts: Vec<usize>, intr: usize) -> Self {
        Pieces { data, cuts, pos: 0, intr, left: intr }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.left > 0 {
            self.left -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.left = self.intr;
        let stop = self.cuts.get(self.cuts.partition_point(|&x| x <= self.pos)).copied().unwrap_or(self.data.len());
        let n = (stop - self.pos).min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn deliver(c: &mut Ctx, whole: &RunObs, data: &[u8], cuts: Vec<usize>, intr: usize) -> Res {
    c.compared += 1;
    c.input = data.to_vec();
    c.note = format!("pieces ending at {:?}, {intr} interruption(s) before each: ", &cuts[..cuts.len().min(20)]);
    match observe_src(data, Pieces::new(data, cuts, intr)) {
        Err(p) => broken!("the library {p}"),
        Ok(o) => {
            run_states(&o, |h| c.state(h));
            must(same(whole, &o, true), || format!("{}the reader reports otherwise than for one read", c.note))
        }
    }
}
pub fn whole(c: &mut Ctx, d: &[u8]) -> Result<RunObs, Stop> {
    c.input = d.to_vec();
    match observe(d) {
        Ok(o) => Ok(o),
        Err(p) => broken!("the library {p}"),
    }
}

pub fn p13(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("one or two cuts", 0, "13 catalogues (good, erroneous, not UTF-8, cut, empty), delivered in two pieces cut at any byte, or (those under 200 bytes) three pieces cut at any two bytes, with 0 or 1 interruption before each", |c| {
        let co = corpus();
        let d = c.pick(&co).clone();
        let intr = c.choose(2);
        let w = whole(c, &d)?;
        let a = c.choose(d.len() + 1);
        let b = if d.len() < 200 { a + c.choose(d.len() + 1 - a) } else { a };
        deliver(c, &w, &d, vec![a, b], intr)
    }));
    v.push(space("piece sizes", 0, "the same catalogues in pieces of every size from 1 to 40 and around 64 to 8192, first piece of any smaller size, 0 to 2 interruptions before each", |c| {
        let co = corpus();
        let d = c.pick(&co).clone();
        let r = ramp(40, 8193);
        let k = c.pick(&r[1..]).to_owned();
        if k > d.len() + 2 {
            return Err(Stop::Skip);
        }
        let first = if k <= 8 { c.choose(k) } else { 0 };
        let intr = c.choose(3);
        let w = whole(c, &d)?;
        let mut cuts = vec![];
        let mut x = first;
        while x < d.len() {
            if x > 0 {
                cuts.push(x);
            }
            x += k;
        }
        deliver(c, &w, &d, cuts, intr)
    }));
    let n = if q { 15 } else { 19 };
    v.push(space("every partition", 0, format!("the {n} bytes around a CRLF, a two- and a four-byte character and an escape, cut in every possible way"), move |c| {
        let texts: [&[u8]; 3] = ["msgid \"aé\u{1F600}\\n\"\r\nmsgstr \"x\"\r\n".as_bytes(), b"msgid \"a\"\r\n\r\n#, fuzzy\r\nmsgstr \"x\"\r\n", b"msgid \"a\"\nmsgstr \"b\"\n# c\nmsgid \"\xe2\x82\"\n"];
        let d = texts[c.choose(3)];
        let from = [5, 6, 16][texts.iter().position(|x| *x == d).unwrap()];
        let w = whole(c, d)?;
        let cuts: Vec<usize> = (from..(from + n).min(d.len())).filter(|_| c.flip()).collect();
        deliver(c, &w, d, cuts, 0)
    }));
    v.push(space("interruptions", 0, "interruptions before any subset of the first 12 reads, one piece per line or per 5 bytes", |c| {
        let co = corpus();
        let d = co[[2, 5, 7][c.choose(3)]].clone();
        struct Some12<'a> {
            p: Pieces<'a>,
            plan: Vec<bool>,
            k: usize,
        }
        impl Read for Some12<'_> {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                let k = self.k;
                self.k += 1;
                if self.plan.get(k).copied().unwrap_or(false) {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
                }
                self.p.read(b)
            }
        }
        let w = whole(c, &d)?;
        let cuts: Vec<usize> = if c.flip() { d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 + 1).collect() } else { (1..d.len() / 5).map(|i| i * 5).collect() };
        let plan: Vec<bool> = (0..12).map(|_| c.flip()).collect();
        c.compared += 1;
        c.note = format!("interrupted reads {plan:?}: ");
        match observe_src(&d, Some12 { p: Pieces::new(&d, cuts, 0), plan, k: 0 }) {
            Err(p) => broken!("the library {p}"),
            Ok(o) => {
                run_states(&o, |h| c.state(h));
                must(same(&w, &o, true), || "with interruptions the reader reports otherwise".into())
            }
        }
    }));
    v.push(space("long deliveries", 0, "catalogues of around 2^8 to 2^17 (2^20) bytes, of many entries, one long comment, one long string, many pieces of a string or blank lines, in reads of 1, 2, 3, 5, 64 or 4095 bytes, with 0 or 1 interruption before each: many thousands of reads in a row", |c| {
        let k = 8 + c.choose(if c.thorough() { 13 } else { 10 });
        let n = (1usize << k) + 5;
        let d = match c.choose(6) {
            0 => "msgid \"a\"\nmsgstr \"b\"\n\n".repeat(n / 23),
            1 => format!("# {}\nmsgid \"a\"\nmsgstr \"b\"\n", "x ".repeat(n / 2)),
            2 => format!("msgid \"a\"\nmsgstr \"{}\"\n", "\u{e9}".repeat(n / 2)),
            3 => format!("msgid \"a\"\nmsgstr \"\"\n{}", "\"y\"\r\n".repeat(n / 5)),
            4 => format!("msgid \"a\"\nmsgstr \"b\"\n{}\nmsgid \"c\"\nmsgstr \"d\"\n", " \n".repeat(n / 2)),
            _ => format!("msgid \"a\"\nmsgstr \"b\"\n{}\nmsgid \"c\"\nmsgid \"d\"\n", "#: a.c:1\n".repeat(n / 9)),
        };
        let step = *c.pick(&[1usize, 2, 3, 5, 64, 4095]);
        let intr = c.choose(2);
        if step > 5 && intr > 0 {
            return Err(Stop::Skip);
        }
        let w = whole(c, d.as_bytes())?;
        deliver(c, &w, d.as_bytes(), (1..d.len() / step + 1).map(|i| i * step).filter(|x| *x < d.len()).collect(), intr)
    }));
    fn piecewise(c: &mut Ctx, d: &str, _n: usize) -> Res {
        let crlf = d.replace('\n', "\r\n");
        for d in [d, &crlf] {
            let d = d.as_bytes();
            let w = whole(c, d)?;
            let ends: Vec<usize> = d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
            deliver(c, &w, d, (1..d.len()).collect(), 0)?;
            deliver(c, &w, d, ends.clone(), 1)?;
            deliver(c, &w, d, ends.iter().map(|x| x + 1).collect(), 0)?;
            deliver(c, &w, d, (1..d.len() / 3 + 1).map(|x| x * 3).collect(), 2)?;
        }
        Ok(())
    }
    v.push(lines::sequences("lines of every kind", lines::ALL, 1, if q { 3 } else { 4 }, &["", "msgid \"f\u{e9}\"\nmsgstr \"\u{1F600}\"\n"], &["", "msgid \"t\"\nmsgstr \"\u{65e5}\""], piecewise));
    v.push(space("buffer boundaries", 0, "a catalogue whose construct of interest (CRLF, multi-byte character, escape, keyword, comment, obsolete mark, blank line) stands at every offset from -24 to +8 around 4096, 8192, 16384 and 65536 bytes; delivered at once, in 1000-byte pieces, or cut right there", |c| {
        let base = *c.pick(&[8192usize, 4096, 16384, 65536]);
        let off = c.choose(33) as isize - 24;
        let probe: String = match c.choose(5) {
            0 => "msgid \"id\"\r\nmsgstr \"té\u{1F600}x\\n\"\r\n\r\n".into(),
            1 => "#, fuzzy\n#| msgid \"日本\"\nmsgctxt \"\\\\\"\nmsgid \"y\"\nmsgstr \"z\"\n".into(),
            2 => "#~ msgid \"é\"\n#~ \"é\"\n#~ msgstr \"é\"\n".into(),
            3 => "\r\n\r\n# \u{1F600}\r\nmsgid \"a\"\r\n\"b\"\r\nmsgstr \"c\"".into(),
            _ => "msgid \"long".to_string() + &"é".repeat(40) + "\"\nmsgstr \"x\"\n",
        };
        let pad = (base as isize + off) as usize;
        let mut d = String::from("msgid \"first\"\nmsgstr \"f\"\n");
        while d.len() + 40 < pad {
            d.push_str("# filling the buffer with comments\n");
        }
        let rest = pad - d.len();
        if rest >= 2 {
            d.push('#');
            d.push_str(&"x".repeat(rest - 2));
            d.push('\n');
        } else {
            d.push_str(&"\n".repeat(rest));
        }
        // read as one short entry after the filling
        let o_small = whole(c, format!("msgid \"first\"\nmsgstr \"f\"\n{probe}").as_bytes())?;
        d.push_str(&probe);
        let d = d.into_bytes();
        let w = whole(c, &d)?;
        let strip = |o: &RunObs| {
            o.units()
                .iter()
                .map(|u| {
                    let mut u = (*u).clone();
                    u.notes.retain(|n| !n.1.starts_with("filling"));
                    u.comments.retain(|n| n.0 != 'x' || !n.1.chars().all(|c| c == 'x'));
                    u
                })
                .collect::<Vec<_>>()
        };
        ensure!(strip(&w) == strip(&o_small) && w.error().is_none(), "after {pad} bytes the entry is read otherwise: {:?}", w.error().map(|e| &e.shown));
        let cuts = match c.choose(3) {
            0 => vec![base],
            1 => (1..d.len() / 1000 + 1).map(|i| i * 1000).collect(),
            _ => vec![base - 1, base, base + 1],
        };
        deliver(c, &w, &d, cuts, 1)
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

#[derive(Debug)]
struct Mark(u64);
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "mark {}", self.0)
    }
}
impl std::error::Error for Mark {}

/// Fails once at a given byte, then (if asked again) goes on as if nothing had happened.
struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    step: usize,
    err: Option<io::Error>,
    after: Rc<RefCell<usize>>,
}
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.err.is_none() {
            *self.after.borrow_mut() += 1;
        }
        let stop = if self.err.is_some() {
            if self.pos == self.at {
                return Err(self.err.take().unwrap());
            }
            self.at
        } else {
            self.data.len()
        };
        let n = (stop - self.pos).min(b.len()).min(self.step);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

enum Src {
    Marked(io::ErrorKind),
    Bare(io::ErrorKind),
    Os(i32),
}
impl Src {
    fn make(&self) -> io::Error {
        match self {
            Src::Marked(k) => io::Error::new(*k, Mark(42)),
            Src::Bare(k) => (*k).into(),
            Src::Os(n) => io::Error::from_raw_os_error(*n),
        }
    }
    fn same(&self, e: &io::Error) -> bool {
        match self {
            Src::Marked(k) => e.kind() == *k && e.get_ref().and_then(|x| x.downcast_ref::<Mark>()).map(|m| m.0) == Some(42),
            Src::Bare(k) => e.kind() == *k,
            Src::Os(n) => e.raw_os_error() == Some(*n),
        }
    }
}

/// the source fails after `at` bytes with an error of its own
pub fn failing_at(c: &mut Ctx, d: &[u8], at: usize) -> Res {
    failing(c, d, at, usize::MAX, &Src::Marked(io::ErrorKind::Other))
}
fn failing(c: &mut Ctx, d: &[u8], at: usize, step: usize, src: &Src) -> Res {
    let xs = model::readings(&d[..at], End::Io);
    if xs.is_empty() {
        return Err(Stop::Skip);
    }
    c.input = d.to_vec();
    c.note = format!("source fails after {at} bytes: ");
    let after = Rc::new(RefCell::new(0));
    let r = Failing { data: d, pos: 0, at, step, err: Some(src.make()), after: after.clone() };
    let p = parser();
    let mut own: Option<bool> = None;
    let got = in_impl(d, || {
        let mut out = RunObs { open: None, header: None, items: vec![], late: 0, runaway: false, header_after: None };
        let mut note = |e: &Error| {
            if let Error::Io(_, e) = e {
                own = Some(src.same(e));
            }
        };
        match p.parse(r) {
            Err(e) => {
                note(&e);
                out.open = Some(err(&e));
            }
            Ok(mut r) => {
                out.header = Some(head_obs(&r));
                loop {
                    match r.next() {
                        None => break,
                        Some(Ok(u)) => out.items.push(Ok(unit(&u))),
                        Some(Err(e)) => {
                            note(&e);
                            out.items.push(Err(err(&e)));
                            break;
                        }
                    }
                    if out.items.len() > line_count(d) + 2 {
                        out.runaway = true;
                        break;
                    }
                }
                for _ in 0..3 {
                    if r.next().is_some() {
                        out.late += 1;
                    }
                }
            }
        }
        out
    });
    let o = match got {
        Err(p) => broken!("the library {p}"),
        Ok(o) => o,
    };
    c.compared += 1;
    run_states(&o, |h| c.state(h));
    let note = c.note.clone();
    let after = *after.borrow();
    agreeing(xs, &o, |x, o| {
        let Some(f) = x.fail.as_ref().filter(|f| f.why == model::Why::Io) else { return Ok(()) };
        let e = o.error().unwrap();
        // a complete line that is not UTF-8 comes before the failure of the source
        let text = d[..at].iter().rposition(|&b| b == b'\n').map_or(0, |i| i + 1);
        if std::str::from_utf8(&d[..text]).is_err() {
            if e.io_kind != "InvalidData" {
                return Err(format!("{note}a line that is not UTF-8 is reported as {}", e.shown));
            }
        } else {
            if own != Some(true) {
                return Err(format!("{note}the error reported is not the source's own ({})", e.shown));
            }
            if after != 0 {
                return Err(format!("{note}the source is read again {after} time(s) after its failure"));
            }
        }
        if e.line != f.line {
            return Err(format!("{note}the error is on line {} but reports {}", f.line, e.line));
        }
        Ok(())
    })?;
    Ok(())
}

use std::io::ErrorKind as K;
const KINDS: &[K] = &[
    K::HostUnreachable, K::NetworkUnreachable, K::NetworkDown, K::NotADirectory, K::IsADirectory, K::DirectoryNotEmpty, K::ReadOnlyFilesystem, K::StaleNetworkFileHandle, K::StorageFull, K::NotSeekable, K::QuotaExceeded, K::FileTooLarge, K::ResourceBusy,
    K::ExecutableFileBusy, K::Deadlock, K::TooManyLinks, K::ArgumentListTooLong, K::CrossesDevices, K::InvalidFilename,
    K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::InvalidInput, K::InvalidData, K::TimedOut,
    K::WriteZero, K::Unsupported, K::UnexpectedEof, K::OutOfMemory, K::Other,
];

pub fn p14(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("failures", 0, "13 catalogues, the source failing at every byte (first read included) with one of 5 errors, after reads of any size or of 1 or 7 bytes", |c| {
        let co = corpus();
        let d = c.pick(&co).clone();
        let at = c.choose(d.len() + 1);
        let src = match c.choose(5) {
            0 => Src::Marked(K::Other),
            1 => Src::Marked(K::UnexpectedEof),
            2 => Src::Bare(K::WouldBlock),
            3 => Src::Os(5),
            _ => Src::Marked(K::InvalidData),
        };
        let step = *c.pick(&[usize::MAX, 1, 7]);
        failing(c, &d, at, step, &src)
    }));
    v.push(space("error kinds", 0, "38 kinds of I/O errors, bare or with a payload, and every operating system error from 1 to 133, at 6 places", |c| {
        let k = c.choose(KINDS.len() + 133);
        let src = if k < KINDS.len() { if c.flip() { Src::Bare(KINDS[k]) } else { Src::Marked(KINDS[k]) } } else { Src::Os((k - KINDS.len() + 1) as i32) };
        if matches!(src, Src::Os(libc::EINTR)) {
            return Err(Stop::Skip); // an interrupted read is no failure
        }
        let d = corpus()[2].clone();
        let at = [0, 1, 10, d.len() / 2, d.len() - 3, d.len()][c.choose(6)];
        failing(c, &d, at, usize::MAX, &src)
    }));
    let pairs = if q { 1 } else { 2 };
    v.push(space("menu", 0, "every menu entry after a header, before another entry, the source failing at every line end and next to it", move |c| {
        let m = menu(1);
        let a = c.choose(m.len());
        let mut e = vec![header(&[PF2]), m[a].clone()];
        for i in 0..pairs {
            e.push(m[(a * 7 + 3 + i) % m.len()].clone());
        }
        let d = doc(&e).into_bytes();
        let ends: Vec<usize> = d.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
        let at = *c.pick(&ends) + c.choose(3);
        if at > d.len() {
            return Err(Stop::Skip);
        }
        failing(c, &d, at, usize::MAX, &Src::Marked(K::Other))
    }));
    const BAD: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xf0\x9f\x98", b"\xfe\xff"];
    v.push(space("not UTF-8", 0, "9 ill-formed byte sequences inserted at every byte of 8 catalogues, or (one of them) put in place of it, read at once or byte by byte", |c| {
        let co = corpus();
        let mut d = co[[0, 1, 2, 3, 4, 5, 8, 12][c.choose(8)]].clone();
        let at = c.choose(d.len() + 1);
        let k = c.choose(BAD.len() + 1);
        if k == BAD.len() {
            if at == d.len() {
                return Err(Stop::Skip);
            }
            d[at] = 0xff;
        } else {
            d.splice(at..at, BAD[k].iter().copied());
        }
        let xs = model::readings(&d, End::Eof);
        if xs.is_empty() {
            return Err(Stop::Skip);
        }
        c.input = d.clone();
        let one = c.flip();
        let step: Vec<usize> = if one { (1..d.len()).collect() } else { vec![] };
        let o = match observe_src(&d, Pieces::new(&d, step, 0)) {
            Err(p) => broken!("the library {p}"),
            Ok(o) => o,
        };
        c.compared += 1;
        run_states(&o, |h| c.state(h));
        agreeing(xs, &o, |x, o| {
            let Some(f) = x.fail.as_ref().filter(|f| f.why == model::Why::Io) else { return Ok(()) };
            let e = o.error().unwrap();
            if e.io_kind != "InvalidData" {
                return Err(format!("the error is of kind {}", e.io_kind));
            }
            if e.line != f.line {
                return Err(format!("the error is on line {} but reports {}", f.line, e.line));
            }
            Ok(())
        })
        .map(|_| ())
    }));
    v.push(space("byte classes", 0, "all sequences of 2 bytes from 80 to FF, all of up to 4 bytes at the class boundaries of UTF-8, in a string, in a comment, alone in a line, at the end of a line and in the header: text if they are UTF-8, an error otherwise", move |c| {
        const B: &[u8] = &[0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff];
        let b: Vec<u8> = if c.flip() {
            vec![0x80 + c.choose(0x80) as u8, 0x80 + c.choose(0x80) as u8]
        } else {
            let n = 1 + c.choose(if q { 3 } else { 4 });
            (0..n).map(|_| *c.pick(B)).collect()
        };
        let (a, z): (&[u8], &[u8]) = [
            (&b"msgid \"a"[..], &b"z\"\nmsgstr \"b\"\n"[..]),
            (b"# c", b"\nmsgid \"a\"\nmsgstr \"b\"\n"),
            (b"", b"\nmsgid \"a\"\nmsgstr \"b\"\n"),
            (b"msgid \"a\"\nmsgstr \"b\"", b"\n"),
            (b"msgid \"\"\nmsgstr \"A: ", b"\\n\"\n"),
        ][c.choose(5)];
        let mut d = b"msgid \"first\"\nmsgstr \"F\"\n# next\n".to_vec();
        if a.starts_with(b"msgid \"\"") {
            d.clear();
        }
        d.extend(a);
        d.extend(b);
        d.extend(z);
        d.extend(b"\nmsgid \"last\"\nmsgstr \"L\"\n");
        check_also(c, &d, |x, o| match (&x.fail, o.error()) {
            (Some(f), Some(e)) if f.why == model::Why::Io && (e.line != f.line || e.io_kind != "InvalidData") => Err(format!("{} instead of bytes that are not UTF-8 on line {}", e.shown, f.line)),
            _ => Ok(()),
        })
        .map(|_| ())
    }));
    v.push(space("afterwards", 0, "a source delivering one line (or half, or two) per read, with a failing read or a line that is not UTF-8 at any place, interruptions before it or not: after the error has been reported the source is not read again, whatever is asked", |c| {
        struct Lines {
            pieces: Vec<Vec<u8>>,
            at: usize,
            k: usize,
            fail: bool,
            intr: usize,
            left: usize,
            reads: Rc<RefCell<usize>>,
        }
        impl Read for Lines {
            fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                *self.reads.borrow_mut() += 1;
                if self.left > 0 {
                    self.left -= 1;
                    return Err(K::Interrupted.into());
                }
                self.left = self.intr;
                if self.fail && self.k == self.at {
                    self.fail = false;
                    return Err(io::Error::new(K::TimedOut, Mark(9)));
                }
                let Some(p) = self.pieces.get(self.k) else { return Ok(0) };
                self.k += 1;
                b[..p.len()].copy_from_slice(p);
                Ok(p.len())
            }
        }
        let co = corpus();
        let d = co[[0, 2, 3, 5, 12][c.choose(5)]].clone();
        let mut l: Vec<Vec<u8>> = d.split_inclusive(|&b| b == b'\n').map(|l| l.to_vec()).collect();
        let at = c.choose(l.len());
        let bad = c.flip();
        let intr = c.choose(3);
        if bad {
            l[at].insert(0, 0xff);
        }
        let whole = l.concat();
        let cut = l[..at].concat();
        let pieces: Vec<Vec<u8>> = match c.choose(3) {
            0 => l.clone(),
            1 => l.iter().flat_map(|l| [l[..l.len() / 2].to_vec(), l[l.len() / 2..].to_vec()]).filter(|p| !p.is_empty()).collect(),
            _ => l.chunks(2).map(|c| c.concat()).collect(),
        };
        let at = if bad {
            usize::MAX
        } else {
            let mut n = 0;
            pieces.iter().position(|p| {
                n += p.len();
                n > cut.len()
            })
            .unwrap_or(pieces.len())
        };
        let seen = if bad { whole.clone() } else { pieces[..at.min(pieces.len())].concat() };
        let xs = model::readings(&seen, if bad { End::Eof } else { End::Io });
        if xs.is_empty() {
            return Err(Stop::Skip);
        }
        c.input = whole.clone();
        let reads = Rc::new(RefCell::new(0usize));
        let src = Lines { pieces, at, k: 0, fail: !bad, intr, left: intr, reads: reads.clone() };
        let how = c.choose(3);
        let r = in_impl(&whole, || {
            let mut out = RunObs { open: None, header: None, items: vec![], late: 0, runaway: false, header_after: None };
            let p = parser();
            match p.parse(src) {
                Err(e) => out.open = Some(err(&e)),
                Ok(mut r) => {
                    out.header = Some(head_obs(&r));
                    while let Some(x) = r.next() {
                        let stop = x.is_err();
                        out.items.push(x.map(|u| unit(&u)).map_err(|e| err(&e)));
                        if stop || out.items.len() > 1000 {
                            break;
                        }
                    }
                    if out.error().map_or(false, |e| e.kind == Kind::Io) {
                        let before = *reads.borrow();
                        match how {
                            0 => out.late += (0..3).filter(|_| r.next().is_some()).count(),
                            1 => {
                                let _ = (r.header_properties(), r.size_hint());
                                out.late += r.by_ref().count();
                            }
                            _ => {
                                if r.nth(2).is_some() {
                                    out.late += 1;
                                }
                                drop(r);
                            }
                        }
                        let after = *reads.borrow();
                        if after != before {
                            return Err(format!("after the error the source is read {} more time(s)", after - before));
                        }
                    }
                }
            }
            Ok(out)
        });
        c.compared += 1;
        let o = match r {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(o)) => o,
        };
        run_states(&o, |h| c.state(h));
        agreeing(xs, &o, |x, o| match (&x.fail, o.error()) {
            (Some(f), Some(e)) if f.why == model::Why::Io && e.line != f.line => Err(format!("the error is on line {} but reports {}", f.line, e.line)),
            _ => Ok(()),
        })
        .map(|_| ())
    }));
    v.push(space("far failures", 0, "a failure or a bad byte after 0 to 40 (and up to 3000) entries, around buffer boundaries", |c| {
        let r = ramp(40, 3000);
        let n = *c.pick(&r);
        let mut d = String::new();
        for i in 0..n {
            d.push_str(&format!("msgid \"id{i}\"\nmsgstr \"t{i}\"\n\n"));
        }
        let mut d = d.into_bytes();
        let k = d.len();
        d.extend(b"# c\nmsgid \"last\"\nmsgstr \"x\"\n");
        let off = c.choose(4) * 7;
        if c.flip() {
            failing(c, &d, k + off, usize::MAX, &Src::Marked(K::Other))
        } else {
            d.insert(k + off, 0xff);
            check(c, &d).map(|_| ())
        }
    }));
    v.push(space("far kinds", 0, "each of 38 kinds of I/O errors and 12 errors of the operating system after 1 to 3000 lines of entries, notes or blank lines, at a line's beginning, in its middle, or at its end", |c| {
        let n = *c.pick(&[1usize, 8, 16, 33, 50, 65, 100, 129, 200, 257, 500, 513, 1000, 1025, 3000]);
        let k = c.choose(KINDS.len() + 12);
        let src = match k.checked_sub(KINDS.len()) {
            None => Src::Bare(KINDS[k]),
            Some(k) => Src::Os([libc::EIO, libc::EPIPE, libc::ECONNRESET, libc::ENOSPC, libc::EAGAIN, libc::EBADF, libc::EISDIR, libc::ETIMEDOUT, libc::ENETDOWN, libc::ESTALE, libc::ENOMEM, libc::ENXIO][k]),
        };
        let mut d = String::new();
        let what = c.choose(3);
        for i in 0..n {
            match what {
                0 if i % 3 == 0 => d.push_str(&format!("msgid \"id{i}\"\n")),
                0 if i % 3 == 1 => d.push_str(&format!("msgstr \"t{i}\"\n")),
                1 => d.push_str("# note\n"),
                _ => d.push('\n'),
            }
        }
        if what == 0 && n % 3 == 1 {
            return Err(Stop::Skip);
        }
        let at = d.len() + [0, 5, 13][c.choose(3)];
        d.push_str("msgid \"last\"\nmsgstr \"x\"\n");
        failing(c, d.as_bytes(), at, usize::MAX, &src)
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

/// Use everything there is on whatever comes out.
fn exercise(c: &mut Ctx, d: &[u8]) -> Res {
    c.input = d.to_vec();
    let p = parser();
    let max = line_count(d);
    let r = in_impl(d, || {
        let mut n = 0usize;
        let mut h = 0u64;
        let mut text = String::new();
        use std::fmt::Write as _;
        match p.parse(d) {
            Err(e) => {
                let _ = write!(text, "{e} {e:?}");
                let x: io::Error = e.into();
                let _ = write!(text, "{x}");
            }
            Ok(mut r) => {
                h = h64(&head_obs(&r));
                loop {
                    match r.next() {
                        None => break,
                        Some(Ok(u)) => {
                            n += 1;
                            if d.len() < 4000 {
                                let _ = write!(text, "{u:?}");
                            }
                            let m = u.message().clone();
                            let _ = m == *u.message() && m == *u.prev_message();
                            for k in [0usize, 1, 2, 7, 100, usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, 1 << 62] {
                                if let Some(t) = m.get_plural_text(k) {
                                    h = h.wrapping_mul(31).wrapping_add(t.len() as u64);
                                }
                                if let Some(p) = m.plural() {
                                    if let Some(f) = p.get_forms() {
                                        if let Some(i) = f.get_value(k) {
                                            if i >= f.get_count() {
                                                return Err(format!("the index {i} for {k} is not below the number of forms {}", f.get_count()));
                                            }
                                            h = h.wrapping_mul(31).wrapping_add(i as u64);
                                        }
                                    }
                                }
                            }
                            h = h64(&(h, unit(&u)));
                        }
                        Some(Err(e)) => {
                            n += 1;
                            let _ = write!(text, "{e} {e:?}");
                        }
                    }
                    if n > max {
                        return Err(format!("{n} items are delivered for {max} lines"));
                    }
                }
                for _ in 0..3 {
                    if r.next().is_some() {
                        n += 1;
                    }
                }
                if n > max {
                    return Err(format!("{n} items are delivered for {max} lines"));
                }
            }
        }
        Ok(h64(&(h, n, text.len())))
    });
    c.compared += 1;
    match r {
        Err(p) => broken!("the library {p}"),
        Ok(Err(m)) => broken!("{m}"),
        Ok(Ok(h)) => {
            c.state(h);
            Ok(())
        }
    }
}

/// as a check of an edited catalogue
pub fn wide(c: &mut Ctx, d: &str) -> Res {
    exercise(c, d.as_bytes())
}

pub fn p15(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    const TOK: &[&[u8]] = &[
        b"msgid ", b"\"", b"\n", b"msgstr", b"#", b"~", b"|", b" ", b"[0]", b"_plural", b"msgctxt", b"\\", b"n", b"a", b",", b":", b"\xff", b"\xc3\xa9", b"\r", b"\0", b"[", b"99999999999999999999", b"]",
    ];
    let n = if q { 5 } else { 6 };
    v.push(space("byte tokens", 0, format!("all sequences of up to {n} of 23 tokens (keywords, quotes, marks, bytes that are not UTF-8, NUL, huge numbers), alone or after an entry"), move |c| {
        let after = c.flip();
        let k = c.choose(n + 1);
        let mut d: Vec<u8> = if after { b"msgid \"x\"\nmsgstr \"y\"\n".to_vec() } else { vec![] };
        for _ in 0..k {
            d.extend_from_slice(c.pick(TOK));
        }
        exercise(c, &d)
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("line tokens", 0, format!("all sequences of up to {n} of 10 tokens that make lines"), move |c| {
        let k = c.choose(n + 1);
        let mut d: Vec<u8> = vec![];
        for _ in 0..k {
            d.extend_from_slice(*c.pick(&[&b"msgid \"a\"\n"[..], b"msgid \"\"\n", b"msgstr \"b\"\n", b"msgid_plural \"c\"\n", b"msgstr[0] \"d\"\n", b"\"e\"\n", b"#~ msgid \"f\"\n", b"#| msgid \"g\"\n", b"#", b"\n"]));
        }
        exercise(c, &d)
    }));
    let n = if q { 2 } else { 3 };
    v.push(space("bytes", 0, format!("all byte strings of length up to {n}; every byte after, before and inside each of 12 line fragments"), move |c| {
        if c.flip() {
            let k = c.choose(n + 1);
            let d: Vec<u8> = (0..k).map(|_| c.choose(256) as u8).collect();
            return exercise(c, &d);
        }
        let f = *c.pick(&["msgid \"", "msgid \"a\"\nmsgstr \"b", "# ", "#", "#~", "#|", "#,", "msgid \"a\\", "msgstr[", "msgid \"\"\nmsgstr \"", "", "msgid \"\"\nmsgstr \"Language: "]);
        let b = c.choose(256) as u8;
        let b2 = [b"\"".to_vec(), vec![b], b"\"\n".to_vec()][c.choose(3)].clone();
        let mut d = f.as_bytes().to_vec();
        d.push(b);
        d.extend(b2);
        d.extend(b"\nmsgid \"z\"\nmsgstr \"z\"\n");
        exercise(c, &d)
    }));
    let n = if q { 5 } else { 6 };
    v.push(space("header values", 0, format!("all Plural-Forms, Language and free header texts of up to {n} of 17 tokens (numbers up to 2^64, unbalanced formulas, separators)"), move |c| {
        let key = *c.pick(&["Plural-Forms: ", "Language: ", ""]);
        const T: &[&str] = &["nplurals=", "plural=", ";", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "0", "n", "/", "%", "-", "(", ")", "?", ":", "\\n"];
        let k = c.choose(n + 1);
        let mut x = String::new();
        for _ in 0..k {
            x.push_str(c.pick(T));
        }
        let d = format!("msgid \"\"\nmsgstr \"{key}{x}\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n");
        exercise(c, d.as_bytes())
    }));
    v.push(space("integer extremes", 0, "all expressions (A op B) and (op A) and A ? B : C over 12 extreme operands, 3 numbers of forms, looked up at 12 extreme counts", |c| {
        const O: &[&str] = &["n", "0", "1", "(-1)", "(-n)", "9223372036854775807", "(-9223372036854775807-1)", "(0-n)", "(n/0)", "((0-1)/0)", "(n*n)", "4611686018427387904"];
        let a = *c.pick(O);
        let x = match c.choose(13 + 3) {
            0 => format!("-{a}"),
            1 => format!("!{a}"),
            2 => format!("{a} ? {} : {}", c.pick(O), c.pick(O)),
            k => format!("{a} {} {}", crate::formula::OPS[k - 3].text(), c.pick(O)),
        };
        let n = *c.pick(&["2", "18446744073709551615", "9223372036854775808"]);
        let neg = c.choose(3);
        let x = [x.clone(), format!("-({x})"), format!("-(-({x}))")][neg].clone();
        let d = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n}; plural={x};\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\n");
        exercise(c, d.as_bytes())
    }));
    let big = if q { 300_000 } else { 3_000_000 };
    v.push(space("sizes", 0, format!("25 kinds of bulk (long lines, many lines, many continuations, deep parentheses, long operator chains, huge numbers of forms, long properties), sizes 0..=20, powers of two and round numbers up to {big}"), move |c| {
        let mut r: Vec<usize> = (0..=20).collect();
        let mut k = 32;
        while k < big {
            r.push(k);
            r.push(k * 3 / 2);
            k *= 2;
        }
        r.push(big);
        let n = *c.pick(&r);
        let what = c.choose(28);
        let pf = |x: &str| format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={x};\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\n");
        let d: String = match what {
            0 => format!("msgid \"{}\"\nmsgstr \"x\"\n", "a".repeat(n)),
            1 => format!("msgid \"{}\"\nmsgstr \"x\"\n", "\\".repeat(n)),
            2 => format!("msgid \"{}\"\nmsgstr \"x\"\n", "\\\"".repeat(n)),
            3 => format!("msgid \"a\"\n{}msgstr \"x\"\n", "\"b\"\n".repeat(n)),
            4 => "msgid \"a\"\nmsgstr \"x\"\n".repeat(n.min(100_000)),
            5 => "#, fuzzy\n".repeat(n) + "msgid \"a\"\nmsgstr \"x\"\n",
            6 => format!("#{}\nmsgid \"a\"\nmsgstr \"x\"\n", ", a".repeat(n)),
            7 => "\n".repeat(n),
            8 => " ".repeat(n) + "msgid \"a\"\nmsgstr \"x\"\n",
            9 => "#".repeat(n) + "\nmsgid \"a\"\nmsgstr \"x\"\n",
            10 => "\"".repeat(n) + "\n",
            11 => pf(&format!("{}n{}", "(".repeat(n), ")".repeat(n))),
            12 => pf(&format!("n{}", "+n".repeat(n))),
            13 => pf(&format!("{}n", "!".repeat(n))),
            14 => pf(&format!("{}n", "- ".repeat(n))),
            15 => pf(&format!("{}0", "n?0:".repeat(n))),
            16 => pf(&format!("{}n{}", "-(".repeat(n), ")".repeat(n))),
            17 => pf(&format!("{}0", "n%2 == 1 && ".repeat(n))),
            18 => pf(&"9".repeat(n)),
            19 => pf(&"(".repeat(n)),
            20 => format!("msgid \"\"\nmsgstr \"{}\"\n", "A: b\\n".repeat(n)),
            21 => format!("msgid \"\"\nmsgstr \"Plural-Forms: {}\\n\"\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n", "a=b; ".repeat(n.min(100_000))),
            22 => format!("msgid \"\"\nmsgstr \"Plural-Forms: {}\\n\"\n", "a = ".repeat(n.min(30_000))),
            23 => format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n}; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n\nmsgid \"d\"\nmsgstr \"e\"\n"),
            24 => format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={}; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"c\"\n\nmsgid \"d\"\nmsgid_plural \"e\"\nmsgstr[0] \"f\"\n", (1u128 << (n % 64))),
            25 => format!("msgid \"\"\nmsgstr \"Language: {}\\n\"\n", "a-".repeat(n)),
            26 => pf(&format!("{}1{}", "1+(".repeat(n), ")".repeat(n))),
            _ => format!("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[{}] \"c\"\n", "1".repeat(n.max(1))),
        };
        exercise(c, d.as_bytes())
    }));
    let top = if q { 300 } else { 1100 };
    v.push(space("long lines", 0, format!("26 kinds of lines (malformed, misplaced, comments, fields, header values, formulas) made long by 1- to 4-byte characters: every length 0..={top} and around powers of two and round numbers up to 10000, started at 4 offsets"), move |c| {
        const T: &[&str] = &[
            "%", "junk %", "# %", "#%", "#. %", "#: %", "#, %", "#= %", "#~ %", "#| %", "msgid \"%\"\nmsgstr \"%\"", "msgid \"%", "msgstr \"%\"", "\"%\"", "#~ \"%\"", "msgctxt \"%\"\nmsgid \"\"\nmsgstr \"x\"", "msgid \"a\"\nmsgid_plural \"%\"\nmsgstr[0] \"%\"\nmsgstr[1] \"%\"", "msg% \"x\"", "msgstr[%] \"x\"",
            "H:msgid \"\"\nmsgstr \"%: x\\n\"", "H:msgid \"\"\nmsgstr \"A: %\\n\"", "H:msgid \"\"\nmsgstr \"Language: %\\n\"", "H:msgid \"\"\nmsgstr \"Plural-Forms: %\\n\"", "H:msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=%;\\n\"", "H:msgid \"\"\nmsgstr \"Plural-Forms: nplurals=%;\\n\"", "H:msgid \"\"\nmsgstr \"Plural-Forms: %=1;\\n\"",
        ];
        let t = *c.pick(T);
        let r = ramp(top, 10000);
        let n = *c.pick(&r);
        let ch = *c.pick(&["é", "日", "\u{1F600}", "x", "e\u{301}", "\\n", ", é", ";"]);
        let off = c.choose(4);
        let fill = "abc"[..off.min(3)].to_string() + &ch.repeat(n);
        let (first, t) = match t.strip_prefix("H:") {
            Some(t) => ("", t),
            None => ("msgid \"first\"\nmsgstr \"F\"\n# x\n", t),
        };
        let d = format!("{first}{}\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"d\"\n", t.replace('%', &fill));
        exercise(c, d.as_bytes())
    }));
    v.push(lines::sequences("lines of every kind", lines::ALL, 1, if q { 3 } else { 4 }, lines::STARTS, &["", "msgid \"tail\"\nmsgstr \"T\"\n"], |c, d, _| exercise(c, d.as_bytes())));
    v.push(space("cut or doubled", 0, "8 catalogues with any one byte removed, doubled, or replaced by any of 12 bytes", |c| {
        let co = corpus();
        let mut d = co[[1, 2, 3, 4, 5, 7, 11, 12][c.choose(8)]].clone();
        if d.is_empty() {
            return Err(Stop::Skip);
        }
        let at = c.choose(d.len());
        match c.choose(14) {
            0 => {
                d.remove(at);
            }
            1 => d.insert(at, d[at]),
            k => d[at] = [b'"', b'\n', b'\\', b'#', b' ', 0, 0xff, b'~', b'|', b'[', b'm', b';'][k - 2],
        }
        exercise(c, &d)
    }));
    v
}
