# Planted bugs, read by mkseeds.py.  (id, property, edits, needs, what it breaks, demonstration)

seed("P01-repeated-location", "P01",
 [("src/po/reader.rs", "                    unit.locations\n                        .extend(s.split(char::is_whitespace).filter(|x| !x.is_empty()).map(From::from));\n",
   "                    for location in s.split(char::is_whitespace).filter(|x| !x.is_empty()) {\n                        if unit.locations.last().map(String::as_str) != Some(location) {\n                            unit.locations.push(location.to_string());\n                        }\n                    }\n")],
 "an entry that has the same location twice in a row",
 "one of the two locations of the entry is lost",
 r'''
fn main() {
    let u = units("#: a.c:1 a.c:2\n#: a.c:2\n#: a.c:1\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert_eq!(u[0].locations(), &["a.c:1", "a.c:2", "a.c:2", "a.c:1"]);
}
''')

seed("P01-many-forms", "P01",
 [("src/po/message_extractor.rs", "                    let count = forms.as_ref().map_or(2, |f| f.get_count());\n",
   "                    // no language has more than 6 forms\n                    let count = forms.as_ref().map_or(2, |f| f.get_count().min(6));\n")],
 "a catalogue that declares more than six plural forms",
 "an entry with seven translations is refused",
 r'''
fn main() {
    let u = units(&forms("8", "n", 8));
    match u[0].message() {
        Message::Plural(p) => assert_eq!(p.values(), &["t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7"]),
        m => panic!("{m:?}"),
    }
}
''')

seed("P02-chained-unescape", "P02",
 [("src/po/unescape.rs", "    pub(super) fn unescape(&self, text: &str) -> String {\n",
   "    pub(super) fn unescape(&self, text: &str) -> String {\n        if !text.contains('\"') {\n            // no quote to unescape: plain replacements are faster\n            return text\n                .replace(r\"\\n\", \"\\n\")\n                .replace(r\"\\t\", \"\\t\")\n                .replace(r\"\\r\", \"\\r\")\n                .replace(r\"\\\\\", r\"\\\");\n        }\n\n")],
 "an escaped backslash followed by one of the letters n, t, r",
 "the text written \\\\n is read as a backslash and a newline instead of a backslash and an n",
 r'''
fn main() {
    let u = units("msgid \"C:\\\\new\\\\table\"\nmsgstr \"a\\\\\\\\nb\\n\"\n");
    assert_eq!(u[0].message().get_id(), "C:\\new\\table");
    assert_eq!(u[0].message().get_text(), "a\\\\nb\n");
}
''')

seed("P02-long-continuation", "P02",
 [("src/po/decoder.rs", "                    string.push_str(&s);\n",
   "                    if string.len() + s.len() > u16::MAX as usize {\n                        string.truncate(string.trim_end().len());\n                    }\n\n                    string.push_str(&s);\n")],
 "a string longer than 64 KiB with white space where two of its pieces meet",
 "the white space at the end of a piece is dropped in the middle of a long string",
 r'''
fn main() {
    let mut d = String::from("msgid \"x\"\nmsgstr \"\"\n");
    let mut want = String::new();
    for i in 0..4000 {
        d += &format!("\"line number {i} of the text \\n\"\n");
        want += &format!("line number {i} of the text \n");
    }
    assert_eq!(units(&d)[0].message().get_text(), want);
}
''')

seed("P03-flag-with-space", "P03",
 [("src/po/reader.rs", "                    for flag in s.split(',').map(str::trim) {\n",
   "                    for flag in s.split([',', ' ']).map(str::trim).filter(|f| !f.is_empty() || s.is_empty()) {\n")],
 "a flag that contains a space, as range: 0..10",
 "the flag is split in two",
 r'''
fn main() {
    let u = units("#, c-format, range: 0..10\nmsgid \"x\"\nmsgstr \"y\"\n");
    let mut f: Vec<_> = u[0].flags().iter().cloned().collect();
    f.sort();
    assert_eq!(f, ["c-format", "range: 0..10"]);
}
''')

seed("P03-comment-trailing-space", "P03",
 [("src/po/reader.rs", "                Some(Ok(PoLine::Comment(_, ' ', value))) => {\n                    unit.notes.push(Note::new(Origin::Translator, value));\n",
   "                Some(Ok(PoLine::Comment(_, ' ', value))) => {\n                    // a note whose line ends with a backslash goes on on the next line\n                    match unit.notes.last() {\n                        Some(n) if *n.origin() == Origin::Translator && n.value().ends_with('\\\\') => {\n                            let joined = format!(\"{}{}\", n.value().trim_end_matches('\\\\'), value);\n\n                            unit.notes.pop();\n                            unit.notes.push(Note::new(Origin::Translator, joined));\n                        }\n                        _ => unit.notes.push(Note::new(Origin::Translator, value)),\n                    }\n")],
 "a translator note that ends with a backslash, followed by another one",
 "the two notes are reported as one, and the backslash is lost",
 r'''
fn main() {
    let u = units("# see C:\\dir\\\n# second\nmsgid \"x\"\nmsgstr \"y\"\n");
    let n: Vec<_> = u[0].notes().iter().map(|n| n.value()).collect();
    assert_eq!(n, ["see C:\\dir\\", "second"]);
}
''')

seed("P04-duplicate-comment", "P04",
 [("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    last: Option<(char, String)>,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n", "            parser,\n            last: None,\n        }\n"),
  ("src/po/line_iter.rs", "                Ok(PoLine::Blank) => (),\n",
   "                Ok(PoLine::Blank) => (),\n                // merge tools repeat comments\n                Ok(PoLine::Comment(_, kind, ref text))\n                    if !text.is_empty() && self.last.as_ref().map_or(false, |(k, t)| *k == kind && t == text) => {}\n                Ok(PoLine::Comment(m, kind, text)) => {\n                    self.last = Some((kind, text.clone()));\n\n                    return Some(Ok(PoLine::Comment(m, kind, text)));\n                }\n")],
 "two entries such that the last comment of the first is the first comment of the second",
 "the second entry loses its comment because of the entry before it",
 r'''
fn main() {
    let u = units("#, fuzzy\nmsgid \"x\"\nmsgstr \"y\"\n\n#, fuzzy\nmsgid \"z\"\nmsgstr \"t\"\n");
    assert_eq!(u[0].state(), State::NeedsWork);
    assert_eq!(u[1].state(), State::NeedsWork);
}
''')

seed("P05-lenient-continuation", "P05",
 [("src/po/decoder.rs", "            if *p != prefix {\n", "            if *p != prefix && !(p == \"|\" && prefix == \"~|\") && !(p == \"~\" && prefix == \"~|\") {\n")],
 "an obsolete previous line continued by a line with another mark",
 "lines of differing marks are joined into one field",
 r'''
fn main() {
    let r = results(b"#~| msgid \"old\"\n#~ \" more\"\n#~ msgid \"x\"\n#~ msgstr \"y\"\n");
    assert!(r.iter().any(|x| x.is_err()), "{:?}", r);
}
''')

seed("P05-obsolete-by-first-line", "P05",
 [("src/po/decoder.rs", "            Some(PoLine::Message(_, p, t, _)) if t == tag && p.starts_with('~') == unit.obsolete => {\n",
   "            Some(PoLine::Message(_, p, t, _))\n                if t == tag && (p.starts_with('~') == unit.obsolete || (unit.obsolete && t.ends_with(\"[1]\"))) =>\n            {\n")],
 "an obsolete plural entry whose second translation is not marked",
 "an unmarked line is taken into an obsolete entry",
 r'''
fn main() {
    let r = results(b"#~ msgid \"x\"\n#~ msgid_plural \"y\"\n#~ msgstr[0] \"a\"\nmsgstr[1] \"b\"\n");
    assert!(r.iter().any(|x| x.is_err()), "{:?}", r);
}
''')

seed("P06-first-text-only", "P06",
 [("src/po/reader.rs", "            if unit.state == State::Empty && !unit.message.is_blank() {\n",
   "            if unit.state == State::Empty && !unit.message.get_text().is_empty() {\n")],
 "a plural entry whose first translation is empty and a later one is not",
 "the entry is reported as empty",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgid_plural \"y\"\nmsgstr[0] \"\"\nmsgstr[1] \"b\"\n");
    assert_eq!(u[0].state(), State::Final);
    assert!(u[0].is_translated());
}
''')

seed("P06-fuzzy-empty", "P06",
 [("src/po/reader.rs", "            if unit.state == State::Empty && !unit.message.is_blank() {\n",
   "            if unit.state == State::NeedsWork && unit.obsolete && unit.message.is_blank() {\n                // nothing is left to be worked on\n                unit.state = State::Empty;\n            }\n\n            if unit.state == State::Empty && !unit.message.is_blank() {\n")],
 "an obsolete fuzzy entry without translation",
 "the entry is reported as empty instead of needing work",
 r'''
fn main() {
    let u = units("#, fuzzy\n#~ msgid \"x\"\n#~ msgstr \"\"\n");
    assert_eq!(u[0].state(), State::NeedsWork);
}
''')

seed("P07-repeated-value", "P07",
 [("src/po/reader.rs", "                    header_properties\n                        .entry(key.to_owned())\n                        .or_default()\n                        .push(val.to_owned());\n",
   "                    let values = header_properties.entry(key.to_owned()).or_default();\n\n                    if !values.iter().any(|v| v == val) {\n                        values.push(val.to_owned());\n                    }\n")],
 "a header in which the same key has the same value twice",
 "one of the two values is lost",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse("msgid \"\"\nmsgstr \"\"\n\"X-Team: a\\n\"\n\"X-Team: b\\n\"\n\"X-Team: a\\n\"\n".as_bytes()).unwrap();
    assert_eq!(r.header_properties()["X-Team"], "a b a");
}
''')

seed("P07-empty-header-unit", "P07",
 [("src/po/reader.rs", "                let has_header = u.message().is_empty();\n",
   "                let has_header = u.message().is_empty() && !u.is_obsolete();\n")],
 "a catalogue whose header entry is obsolete",
 "the header is yielded as a unit and its properties are not exposed",
 r'''
fn main() {
    let p = PoParser::new();
    let mut r = p.parse("#~ msgid \"\"\n#~ msgstr \"Language: fr\\n\"\n".as_bytes()).unwrap();
    assert_eq!(r.header_properties()["Language"], "fr");
    assert!(r.next().is_none());
}
''')

seed("P08-large-count", "P08",
 [("src/plural/formula/mod.rs", "        let res = self.expr.execute(count as i64);\n",
   "        // only the last digits of large counts matter\n        let count = if count > u32::MAX as usize { count % 1_000_000 + 1_000_000 } else { count };\n        let res = self.expr.execute(count as i64);\n")],
 "a count of more than 2^32 and a formula that looks at more than its last six digits",
 "the index is that of another count",
 r'''
fn main() {
    let u = units(&forms("2", "n%7==1 ? 1 : 0", 2));
    for k in 0..50usize {
        let n = 5_000_000_000 + k;
        assert_eq!(u[0].message().get_plural_text(n), Some(if n % 7 == 1 { "t1" } else { "t0" }), "{n}");
    }
}
''')

seed("P08-shared-comparison", "P08",
 [("src/plural/formula/node.rs", "                let lhs = lhs.execute(n);\n\n                match op {\n",
   "                // the same operand on both sides, as in n%10>=2 && n%10<=4, has a known outcome\n                if let (BinOp::Div, Node::Var, Node::Var) = (op, lhs.as_ref(), rhs.as_ref()) {\n                    return 1;\n                }\n\n                let lhs = lhs.execute(n);\n\n                match op {\n")],
 "the formula n/n for the count zero",
 "a division by zero gives 1",
 r'''
fn main() {
    let u = units(&forms("3", "n/n==1 ? 1 : 0", 2));
    assert_eq!(u[0].message().get_plural_text(0), Some("t0"));
    assert_eq!(u[0].message().get_plural_text(4), Some("t1"));
}
''')

seed("P09-trailing-comment", "P09",
 [("src/plural/formula/mod.rs", "        let input = input.trim();\n", "        let input = input.split(\"//\").next().unwrap_or_default().trim();\n")],
 "a formula with two slashes in a row",
 "what follows the slashes is ignored instead of the formula being refused",
 r'''
fn main() {
    let r = results(forms("2", "n>1 // n", 2).as_bytes());
    assert!(r[0].is_err(), "{:?}", r);
}
''')

seed("P10-last-form", "P10",
 [("src/plural/plural.rs", "                .and_then(|index| self.values.get(index))\n", "                .and_then(|index| self.values.get(index).or_else(|| self.values.last()))\n")],
 "a plural entry with fewer translations than the catalogue declares",
 "a count whose translation is missing gets the text of another form",
 r'''
fn main() {
    let u = units(&forms("3", "n", 2));
    assert_eq!(u[0].message().get_plural_text(1), Some("t1"));
    assert_eq!(u[0].message().get_plural_text(2), None);
}
''')

seed("P10-lookup-cache", "P10",
 [("src/plural/forms.rs", "    definition: String,\n    formula_source: String,\n}\n\nimpl PluralForms {\n",
   "    definition: String,\n    formula_source: String,\n}\n\nthread_local! {\n    // the last count looked up, with its result: successive lookups often ask for the same count\n    static LAST: std::cell::Cell<Option<(usize, usize, Option<usize>)>> = std::cell::Cell::new(None);\n}\n\nimpl PluralForms {\n"),
  ("src/plural/forms.rs", "        self.formula.execute(count).filter(|v| *v < self.count)\n",
   "        let key = self.formula_source.len() * 64 + self.count;\n\n        match LAST.with(|l| l.get()) {\n            Some((k, c, v)) if k == key && c == count => v,\n            _ => {\n                let v = self.formula.execute(count).filter(|v| *v < self.count);\n\n                LAST.with(|l| l.set(Some((key, count, v))));\n                v\n            }\n        }\n")],
 "two catalogues with different formulas of one length, looked up in turn for the same count",
 "the second lookup gives the index selected by the other catalogue's formula",
 r'''
fn main() {
    let a = units(&forms("2", "n>1", 2));
    let b = units(&forms("2", "n<1", 2));
    assert_eq!(a[0].message().get_plural_text(5), Some("t1"));
    assert_eq!(b[0].message().get_plural_text(5), Some("t0"));
    assert_eq!(a[0].message().get_plural_text(0), Some("t0"));
    assert_eq!(b[0].message().get_plural_text(0), Some("t1"));
}
''')

seed("P11-comment-inside", "P11",
 [("src/po/reader.rs", "        unit = match self.parse_unit(unit, first)? {\n            Some(unit) => unit,\n            None => {\n                return Ok(None);\n            }\n        };\n",
   "        unit = match self.parse_unit(unit, first) {\n            // a source without translation before a comment is a leftover\n            Err(Error::Parse(_, ref got, ref exp)) if exp == \"msgstr[0]\" && got == \"#~\" => {\n                return self.read_unit(false);\n            }\n            res => match res? {\n                Some(unit) => unit,\n                None => {\n                    return Ok(None);\n                }\n            },\n        };\n")],
 "an entry with a plural source but no translation, followed by a #~ comment line",
 "the entry disappears without an error",
 r'''
fn main() {
    let r = results(b"msgid \"x\"\nmsgid_plural \"y\"\n#~ a remark\nmsgid \"z\"\nmsgstr \"t\"\n");
    assert!(r.iter().any(|x| x.is_err()), "{:?}", r);
}
''')

seed("P11-excess-previous", "P11",
 [("src/po/message_extractor.rs", "        // context\n        let context = self.parse_msg(\"msgctxt\")?;\n",
   "        // context (some tools write the one of the previous source after it)\n        let _ = self.parse_msg(\"|msgstr\")?;\n        let context = self.parse_msg(\"msgctxt\")?;\n")],
 "a previous translation line (#| msgstr) between the previous source and the source",
 "the line is swallowed silently",
 r'''
fn main() {
    let r = results(b"#| msgid \"old\"\n#| msgstr \"alt\"\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert!(r.iter().any(|x| x.is_err()), "{:?}", r);
}
''')

seed("P12-eager-error", "P12",
 [("src/po/reader.rs", "                let mut res = self.next_unit(false);\n\n                swap(&mut res, &mut self.next_unit);\n                res\n",
   "                let mut res = self.next_unit(false);\n\n                if let Some(Err(Error::Unexpected(..))) = res {\n                    self.next_unit = None;\n                    return res;\n                }\n\n                swap(&mut res, &mut self.next_unit);\n                res\n")],
 "an entry with an empty source after at least one good entry",
 "the good entry before the error is not delivered",
 r'''
fn main() {
    let r = results(b"msgid \"x\"\nmsgstr \"y\"\n\nmsgid \"\"\nmsgstr \"z\"\n\nmsgid \"t\"\nmsgstr \"u\"\n");
    assert_eq!(r.len(), 2);
    assert!(r[0].is_ok() && r[1].is_err());
}
''')

seed("P12-partial-plural", "P12",
 [("src/po/message_extractor.rs", "                    return Ok(if values.is_empty() {\n                        self.expected(\"msgstr[0]\")?;\n\n                        None\n",
   "                    return Ok(if values.is_empty() {\n                        self.expected(\"msgstr[0]\")?;\n\n                        if self.unit.obsolete {\n                            Some(Message::Plural(Plural::new(singular, plural, values, forms)))\n                        } else {\n                            None\n                        }\n")],
 "a catalogue cut after the plural source of an obsolete entry",
 "the entry that the end of the input cuts short is delivered, without translation",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n#~ msgid \"x\"\n#~ msgid_plural \"y\"\n");
    assert_eq!(r.len(), 1, "{:?}", r);
}
''')

seed("P13-chunk-decoding", "P13",
 [("src/po/line_iter.rs", "use std::io::{BufRead, BufReader, Lines, Read};\n",
   "use std::io::{BufRead, BufReader, Error as IoError, ErrorKind, Read};\n\n/// Lines of a reader, each decoded while it is read\npub(super) struct Lines<B> {\n    buf: B,\n}\n\nimpl<B: BufRead> Iterator for Lines<B> {\n    type Item = Result<String, IoError>;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        let mut line = String::new();\n        let mut got = false;\n\n        loop {\n            let (used, done) = {\n                let chunk = match self.buf.fill_buf() {\n                    Ok(chunk) => chunk,\n                    Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,\n                    Err(e) => return Some(Err(e)),\n                };\n                let (part, used, done) = match chunk.iter().position(|b| *b == b'\\n') {\n                    Some(i) => (&chunk[..i], i + 1, true),\n                    None => (chunk, chunk.len(), chunk.is_empty()),\n                };\n\n                match std::str::from_utf8(part) {\n                    Ok(s) => line.push_str(s),\n                    Err(e) => return Some(Err(IoError::new(ErrorKind::InvalidData, e))),\n                }\n\n                got = got || used > 0;\n                (used, done)\n            };\n\n            self.buf.consume(used);\n            if done {\n                break;\n            }\n        }\n\n        if line.ends_with('\\r') {\n            line.pop();\n        }\n\n        if got {\n            Some(Ok(line))\n        } else {\n            None\n        }\n    }\n}\n"),
  ("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(Lines { buf: BufReader::new(r) }),\n")],
 "a read that ends in the middle of a multi-byte character",
 "a valid catalogue is reported as not being UTF-8",
 r'''
struct One<'a>(&'a [u8], usize);
impl Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.1.min(self.0.len()).min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn main() {
    let d = "msgid \"x\"\nmsgstr \"caf\u{e9}\"\n".as_bytes();
    for k in 1..d.len() {
        let p = PoParser::new();
        let u: Vec<_> = p.parse(One(d, k)).unwrap().map(|u| u.unwrap()).collect();
        assert_eq!(u[0].message().get_text(), "caf\u{e9}");
    }
}
''')

seed("P13-interrupted", "P13",
 [("src/po/line_iter.rs", "                Some(Err(e)) => {\n                    self.inner = None;\n",
   "                Some(Err(ref e)) if e.kind() == std::io::ErrorKind::WouldBlock => continue,\n                Some(Err(e)) => {\n                    self.inner = None;\n")],
 "a source that fails once with the kind WouldBlock, in the middle of a line",
 "what was read of the line is lost and the failure is not reported",
 r'''
struct Flaky(Vec<io::Result<&'static [u8]>>);
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Ok(0);
        }
        let d = self.0.remove(0)?;
        b[..d.len()].copy_from_slice(d);
        Ok(d.len())
    }
}
fn main() {
    let s = Flaky(vec![Ok(b"msgid \"x\"\nmsgstr \"y\"\n\nmsgid \"z\"\nmsg"), Err(io::ErrorKind::WouldBlock.into()), Ok(b"\nmsgstr \"t\"\n")]);
    let p = PoParser::new();
    let r: Vec<_> = p.parse(s).unwrap().collect();
    assert!(r.iter().any(|x| matches!(x, Err(poreader::error::Error::Io(..)))), "{:?}", r);
}
''')
SEEDS["P13-interrupted"]["prop"] = "P14"
SEEDS["P14-would-block"] = SEEDS.pop("P13-interrupted")

seed("P14-unexpected-eof", "P14",
 [("src/po/line_iter.rs", "                Some(Err(e)) => {\n                    self.inner = None;\n",
   "                Some(Err(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => {\n                    self.inner = None;\n\n                    return None;\n                }\n                Some(Err(e)) => {\n                    self.inner = None;\n")],
 "a source that fails with the kind UnexpectedEof, as decompressors do on truncated data",
 "the failure is taken for the end of the catalogue",
 r'''
struct Cut(&'static [u8]);
impl Read for Cut {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        let n = self.0.len();
        b[..n].copy_from_slice(self.0);
        self.0 = b"";
        Ok(n)
    }
}
fn main() {
    let p = PoParser::new();
    let r: Vec<_> = p.parse(Cut(b"msgid \"x\"\nmsgstr \"y\"\n\n# z\n")).unwrap().collect();
    assert_eq!(r.len(), 2, "{:?}", r);
    assert!(r[1].is_err());
}
''')

seed("P14-lossy", "P14",
 [("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<BufReader<R>>,\n"),
  ("src/po/line_iter.rs", "use std::io::{BufRead, BufReader, Lines, Read};\n", "use std::io::{BufRead, BufReader, Read};\n"),
  ("src/po/line_iter.rs", "BufReader::new(r).lines()", "BufReader::new(r)"),
  ("src/po/line_iter.rs", "            let line = match reader.next() {\n                Some(Ok(s)) => s,\n                Some(Err(e)) => {\n",
   "            let mut bytes = vec![];\n            let line = match reader.read_until(b'\\n', &mut bytes) {\n                Ok(0) => {\n                    return None;\n                }\n                Ok(_) => {\n                    if bytes.last() == Some(&b'\\n') {\n                        bytes.pop();\n                        if bytes.last() == Some(&b'\\r') {\n                            bytes.pop();\n                        }\n                    }\n\n                    // comments are often left in another encoding: they are not worth an error\n                    let res = match String::from_utf8(bytes) {\n                        Err(e) if e.as_bytes().starts_with(b\"# \") => {\n                            Ok(String::from_utf8_lossy(e.as_bytes()).into_owned())\n                        }\n                        r => r,\n                    };\n\n                    match res {\n                        Ok(s) => s,\n                        Err(_) => {\n                            self.inner = None;\n\n                            return Some(Err(Error::Io(\n                                n,\n                                std::io::Error::new(\n                                    std::io::ErrorKind::InvalidData,\n                                    \"stream did not contain valid UTF-8\",\n                                ),\n                            )));\n                        }\n                    }\n                }\n                Err(e) => {\n"),
  ("src/po/line_iter.rs", "                // no-coverage:stop\n                None => {\n                    return None;\n                }\n", "                // no-coverage:stop\n")],
 "bytes that are not UTF-8 in a translator note",
 "the bytes are replaced by U+FFFD instead of being reported",
 r'''
fn main() {
    let r = results(b"# caf\xe9\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert!(r[0].is_err(), "{:?}", r);
}
''')

seed("P15-capacity", "P15",
 [("src/po/message_extractor.rs", "                    let mut values = vec![];\n                    let forms = self.plural_forms();\n                    let count = forms.as_ref().map_or(2, |f| f.get_count());\n",
   "                    let forms = self.plural_forms();\n                    let count = forms.as_ref().map_or(2, |f| f.get_count());\n                    let mut values = Vec::with_capacity(count);\n")],
 "a header that declares an absurd number of plural forms",
 "reading a plural entry panics (capacity overflow) or aborts",
 r'''
fn main() {
    let r = results(forms("9000000000000000000", "n>1", 2).as_bytes());
    assert_eq!(r.len(), 1, "{:?}", r);
}
''')

seed("P15-truncate", "P15",
 [("src/po/line_iter.rs", "                Err(()) => {\n                    self.inner = None;\n\n                    return Some(Err(Error::Parse(self.n, line, String::new())));\n",
   "                Err(()) => {\n                    let mut line = line;\n\n                    // keep the message readable\n                    line.truncate(120);\n                    self.inner = None;\n\n                    return Some(Err(Error::Parse(self.n, line, String::new())));\n")],
 "a line that is not PO, longer than 120 bytes, with a multi-byte character across byte 120",
 "reading panics",
 r'''
fn main() {
    for k in 0..4 {
        let d = format!("{}{}\n", "x".repeat(k), "\u{20ac}".repeat(60));
        let r = results(d.as_bytes());
        assert!(r.len() == 1 && r[0].is_err());
    }
}
''')

seed("P16-parser-memo", "P16",
 [("src/po/parser.rs", "    unescaper: Unescaper,\n}\n", "    unescaper: Unescaper,\n    last: std::sync::Mutex<(String, String)>,\n}\n"),
  ("src/po/parser.rs", "            unescaper: Unescaper::new(),\n", "            unescaper: Unescaper::new(),\n            last: Default::default(),\n"),
  ("src/po/parser.rs", "            let string = self\n                .unescaper\n                .unescape(c.get(3).map(|m| m.as_str()).unwrap_or_default());\n",
   "            let raw = c.get(3).map(|m| m.as_str()).unwrap_or_default();\n            let known = self.last.lock().unwrap().0 == raw;\n\n            // the same string is often written twice in a row\n            if !known {\n                self.last.lock().unwrap().0 = raw.to_string();\n                self.last.lock().unwrap().1 = self.unescaper.unescape(raw);\n            }\n\n            let string = self.last.lock().unwrap().1.clone();\n")],
 "two threads that use one parser at the same time",
 "a reader gets the string of a line of the other one",
 r'''
fn main() {
    let p = PoParser::new();
    let doc = |k: usize| {
        let mut s = String::new();
        for i in 0..3000 {
            s += &format!("msgid \"{k}-{i}\"\nmsgstr \"{k}+{i}\"\n");
        }
        s
    };
    for _ in 0..10 {
        std::thread::scope(|s| {
            for k in 0..6 {
                let p = &p;
                s.spawn(move || {
                    let d = doc(k);
                    for (i, u) in p.parse(d.as_bytes()).unwrap().enumerate() {
                        let u = u.unwrap();
                        assert_eq!(u.message().get_id(), format!("{k}-{i}"));
                        assert_eq!(u.message().get_text(), format!("{k}+{i}"));
                    }
                });
            }
        });
    }
}
''')

seed("P16-shared-counter", "P16",
 [("src/po/parser.rs", "    unescaper: Unescaper,\n}\n", "    unescaper: Unescaper,\n    pub(super) line: std::sync::atomic::AtomicUsize,\n}\n"),
  ("src/po/parser.rs", "            unescaper: Unescaper::new(),\n", "            unescaper: Unescaper::new(),\n            line: Default::default(),\n"),
  ("src/po/line_iter.rs", "            let n = self.n;\n", "            // the number of the line in hand, for diagnostics\n            self.parser.line.store(self.n, std::sync::atomic::Ordering::SeqCst);\n"),
  ("src/po/line_iter.rs", "            self.n += 1;\n", "            let n = self.parser.line.load(std::sync::atomic::Ordering::SeqCst);\n\n            self.n += 1;\n"),
  ("src/po/line_iter.rs", "                    return Some(Err(Error::Io(n, e)));\n", "                    return Some(Err(Error::Io(self.n, e)));\n")],
 "a reader that advances while another one of the same parser is inside a read of its source",
 "errors carry the line number of the other reader",
 r'''
struct Src<'p>(&'p PoParser, &'static [u8], usize);
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.2 += 1;
        if self.2 > 1 {
            let _ = self.0.parse("\n\n\n\n\n\nmsgid \"q\"\nmsgstr \"r\"\n".as_bytes()).map(|r| r.count());
        }
        let n = self.1.len().min(5);
        b[..n].copy_from_slice(&self.1[..n]);
        self.1 = &self.1[n..];
        Ok(n)
    }
}
fn main() {
    let p = PoParser::new();
    let e = p.parse(Src(&p, b"msgid \"x\"\nmsgid \"y\"\n", 0)).err().expect("error");
    assert!(e.to_string().contains("line 2 "), "{e}");
}
''')

seed("P16-lock-while-reading", "P16",
 [("src/po/parser.rs", "    unescaper: Unescaper,\n}\n", "    unescaper: Unescaper,\n    pub(super) gate: std::sync::Mutex<()>,\n}\n"),
  ("src/po/parser.rs", "            unescaper: Unescaper::new(),\n", "            unescaper: Unescaper::new(),\n            gate: Default::default(),\n"),
  ("src/po/line_iter.rs", "            let n = self.n;\n", "            // one line at a time goes through a parser\n            let _gate = self.parser.gate.lock().unwrap();\n            let n = self.n;\n")],
 "a source that uses the parser while one of its reads is under way",
 "reading never returns (the parser's lock is taken twice)",
 r'''
struct Src<'p>(&'p PoParser, &'static [u8]);
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.0.parse("msgid \"q\"\nmsgstr \"r\"\n".as_bytes()).map(|r| r.count()).unwrap_or(9);
        assert_eq!(k, 1);
        let n = self.1.len();
        b[..n].copy_from_slice(self.1);
        self.1 = b"";
        Ok(n)
    }
}
fn main() {
    let p = PoParser::new();
    assert_eq!(p.parse(Src(&p, b"msgid \"x\"\nmsgstr \"y\"\n")).unwrap().count(), 1);
}
''')

seed("P17-conversion", "P17",
 [("src/error.rs", "        std::io::Error::new(std::io::ErrorKind::Other, error)\n",
   "        match error {\n            Error::Io(_, err) if err.raw_os_error().is_some() => err,\n            error => std::io::Error::new(std::io::ErrorKind::Other, error),\n        }\n")],
 "an error of the operating system, converted to a standard I/O error",
 "the converted error no longer names the line",
 r'''
struct Bad(bool);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0 {
            return Err(io::Error::from_raw_os_error(5));
        }
        self.0 = true;
        b[..4].copy_from_slice(b"# x\n");
        Ok(4)
    }
}
fn main() {
    let p = PoParser::new();
    let e = p.parse(Bad(false)).err().expect("error");
    let s = e.to_string();
    assert!(s.contains("line 2"), "{s}");
    let e: io::Error = e.into();
    assert_eq!(e.to_string(), s);
}
''')

seed("P17-empty-source-line", "P17",
 [("src/po/reader.rs", "            Some(Ok(PoLine::Message(line, p, ..))) if p.starts_with('~') => Ok(Some((*line, true))),\n",
   "            Some(Ok(PoLine::Message(line, p, ..))) if p.starts_with('~') => {\n                let from = if p.ends_with('|') { *line + 1 } else { *line };\n\n                Ok(Some((from, true)))\n            }\n")],
 "an obsolete entry with a previous source and an empty source",
 "the error names the line after the first line of the entry",
 r'''
fn main() {
    let r = results(b"msgid \"x\"\nmsgstr \"y\"\n#~| msgid \"old\"\n#~ msgid \"\"\n#~ msgstr \"z\"\n");
    match &r[1] {
        Err(poreader::error::Error::Unexpected(n, _)) => assert_eq!(*n, 3),
        x => panic!("{x:?}"),
    }
}
''')

seed("P18-crlf-comment", "P18",
 [("src/po/line_iter.rs", "BufReader::new(r).lines()", "BufReader::new(r).split(b'\\n')"),
  ("src/po/line_iter.rs", "use std::io::{BufRead, BufReader, Lines, Read};\n", "use std::io::{BufRead, BufReader, Read, Split};\n"),
  ("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<Split<BufReader<R>>>,\n"),
  ("src/po/line_iter.rs", "            let line = match reader.next() {\n", "            let line = match reader.next().map(|res| {\n                res.and_then(|bytes| {\n                    String::from_utf8(bytes).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))\n                })\n            }) {\n")],
 "a comment line in a catalogue with CRLF line ends",
 "the carriage return becomes part of the comment",
 r'''
fn main() {
    let u = units("# note\r\n#. auto\r\nmsgid \"x\"\r\nmsgstr \"y\"\r\n");
    let n: Vec<_> = u[0].notes().iter().map(|n| n.value()).collect();
    assert_eq!(n, ["note", "auto"]);
}
''')

seed("P18-form-feed", "P18",
 [("src/po/parser.rs", "        if !line.contains(|c: char| !c.is_whitespace()) {\n", "        if line.trim_matches([' ', '\\t', '\\r', '\\n', '\\u{b}', '\\u{a0}', '\\u{3000}']).is_empty() {\n")],
 "a line that holds a form feed only, as between the sections of a hand-written catalogue",
 "the blank line is reported as an error",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgstr \"y\"\n\x0c\nmsgid \"z\"\nmsgstr \"t\"\n");
    assert_eq!(u.len(), 2);
}
''')

seed("P19-eq-plural", "P19",
 [("src/enums/message.rs", "                        (None, Some(s)) if s.is_empty() => true,\n", "                        (None, Some(_)) => true,\n")],
 "an untranslated message compared with a translated one, in this order",
 "equality is not symmetric",
 r'''
fn main() {
    let a = Message::Simple { id: "x".into(), text: None };
    let b = Message::Simple { id: "x".into(), text: Some("y".into()) };
    assert_eq!(a == b, b == a);
}
''')

seed("P19-blank-spaces", "P19",
 [("src/plural/plural.rs", "        self.values.iter().all(String::is_empty)\n", "        self.values.iter().all(|v| v.trim().is_empty())\n")],
 "a plural message whose translations consist of white space",
 "the message is reported as blank although its translations are not empty",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgid_plural \"y\"\nmsgstr[0] \" \"\nmsgstr[1] \"\\n\"\n");
    assert!(!u[0].message().is_blank());
}
''')

seed("P20-encoding-split", "P20",
 [("src/po/reader.rs", "                    .or_else(|_| LanguageRange::from_unix(lang))\n",
   "                    .or_else(|_| LanguageRange::from_unix(lang.split('.').next().unwrap_or_default()))\n")],
 "a locale name with both an encoding and a variant",
 "the variant is lost",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse("msgid \"\"\nmsgstr \"Language: sr_RS.UTF-8@latin\\n\"\n".as_bytes()).unwrap();
    let want = locale_config::LanguageRange::from_unix("sr_RS.UTF-8@latin").unwrap();
    assert_eq!(r.target_language(), &want);
}
''')

seed("P20-default-language", "P20",
 [("src/po/reader.rs", "            if let Some(lang) = self.header_properties.get(\"Language\") {\n",
   "            if let Some(lang) = self\n                .header_properties\n                .get(\"Language\")\n                .filter(|l| !l.is_empty())\n                .or_else(|| self.header_properties.get(\"X-Language\"))\n            {\n")],
 "a header with an empty Language and an X-Language property",
 "the target language is not the one of the Language property",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse("msgid \"\"\nmsgstr \"Language: \\nX-Language: fr\\n\"\n".as_bytes()).unwrap();
    assert_eq!(r.target_language(), &locale_config::LanguageRange::invariant());
}
''')

seed("P21-definition-trimmed", "P21",
 [("src/plural/forms.rs", "            definition: input.to_string(),\n", "            definition: input.trim_start_matches(';').to_string(),\n")],
 "a Plural-Forms property that starts with a semicolon",
 "the definition exposed is not the one written",
 r'''
fn main() {
    let u = units("msgid \"\"\nmsgstr \"Plural-Forms: ;nplurals=2; plural=n>1;\\n\"\n\nmsgid \"x\"\nmsgid_plural \"y\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n");
    match u[0].message() {
        Message::Plural(p) => assert_eq!(p.get_forms().unwrap().get_definition(), ";nplurals=2; plural=n>1;"),
        m => panic!("{m:?}"),
    }
}
''')

seed("P21-bad-count", "P21",
 [("src/plural/forms.rs", "            Some(s) => match s.parse() {\n", "            Some(s) => match s.split_whitespace().next().unwrap_or_default().parse() {\n")],
 "a number of forms followed by something else, as nplurals=2 3",
 "what is not a number is accepted as one",
 r'''
fn main() {
    let r = results(forms("2 3", "n>1", 2).as_bytes());
    assert!(r[0].is_err(), "{:?}", r);
}
''')

# ---------------------------------------------------------------------------------------------------------------
# second wave

seed("P01-empty-context", "P01",
 [("src/po/message_extractor.rs", "        self.unit.context = context;\n", "        self.unit.context = context.filter(|c| !c.is_empty());\n")],
 "an entry whose context is written, but empty",
 "the entry is reported without context, as another entry with the same source and no context",
 r'''
fn main() {
    let u = units("msgctxt \"\"\nmsgid \"x\"\nmsgstr \"y\"\n\nmsgid \"x\"\nmsgstr \"z\"\n");
    assert_eq!(u[0].context(), Some(""));
    assert_eq!(u[1].context(), None);
}
''')

seed("P01-flag-case", "P01",
 [("src/po/reader.rs", "                        unit.flags.insert(flag.to_string());\n", "                        unit.flags.insert(flag.to_lowercase());\n")],
 "a flag with an upper-case letter",
 "the flag is altered",
 r'''
fn main() {
    let u = units("#, Qt-format, fuzzy\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert!(u[0].flags().contains("Qt-format"), "{:?}", u[0].flags());
}
''')

seed("P02-escape-over-pieces", "P02",
 [("src/po/decoder.rs", "                    string.push_str(&s);\n",
   "                    // an escape may have been split by the line width\n                    match s.chars().next() {\n                        Some('n') if string.ends_with('\\\\') => {\n                            string.pop();\n                            string.push('\\n');\n                            string.push_str(&s[1..]);\n                        }\n                        _ => string.push_str(&s),\n                    }\n")],
 "a piece that ends with an escaped backslash, the next one starting with an n",
 "the backslash and the n become a line feed",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgstr \"C:\\\\\"\n\"new\"\n");
    assert_eq!(u[0].message().get_text(), "C:\\new");
}
''')

seed("P02-quote-escape", "P02",
 [("src/po/unescape.rs", r'''            re: Regex::new(r#"\\([rtn"\\])"#).unwrap(),''', r'''            re: Regex::new(r#"\\([rtn"'\\])"#).unwrap(),''')],
 "a backslash before an apostrophe",
 "the backslash is lost",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgstr \"l\\'eau\"\n");
    assert_eq!(u[0].message().get_text(), "l\\'eau");
}
''')

seed("P03-marker-byte", "P03",
 [("src/po/parser.rs", "                    c.get(1).and_then(|m| m.as_str().chars().next()).unwrap_or(' '),\n",
   "                    c.get(1).and_then(|m| m.as_str().bytes().next()).map_or(' ', char::from),\n")],
 "a comment whose marker is not an ASCII character",
 "the marker is reported as another character",
 r'''
fn main() {
    let u = units("#é text\n#! bang\nmsgid \"x\"\nmsgstr \"y\"\n");
    let k: Vec<_> = u[0].comments().iter().map(|c| (c.kind(), c.comment())).collect();
    assert_eq!(k, [('é', "text"), ('!', "bang")]);
}
''')

seed("P03-trim-end", "P03",
 [("src/po/reader.rs", "                    unit.comments.push(Comment::new(kind, content));\n",
   "                    unit.comments.push(Comment::new(kind, content.trim_end_matches('.').to_string()));\n")],
 "an other-comment that ends with a full stop",
 "the end of the comment is lost",
 r'''
fn main() {
    let u = units("#! to do...\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert_eq!(u[0].comments()[0].comment(), "to do...");
}
''')

seed("P04-sticky-obsolete", "P04",
 [("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    obsolete: usize,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n", "            parser,\n            obsolete: 0,\n        }\n"),
  ("src/po/line_iter.rs", "                Ok(p) => return Some(Ok(p)),\n",
   "                Ok(PoLine::Message(n, p, tag, s)) => {\n                    if tag == \"msgid\" && p == \"~\" {\n                        self.obsolete += 1;\n                    }\n\n                    // obsolete entries are kept together at the end of a catalogue\n                    let p = if p.is_empty() && self.obsolete > 1 { String::from(\"~\") } else { p };\n\n                    return Some(Ok(PoLine::Message(n, p, tag, s)));\n                }\n                Ok(p) => return Some(Ok(p)),\n")],
 "a current entry after two obsolete ones",
 "the current entry is reported obsolete because of those before it",
 r'''
fn main() {
    let u = units("#~ msgid \"a\"\n#~ msgstr \"b\"\n\n#~ msgid \"c\"\n#~ msgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n");
    let o: Vec<_> = u.iter().map(|u| u.is_obsolete()).collect();
    assert_eq!(o, [true, true, false]);
}
''')

seed("P05-previous-first", "P05",
 [("src/po/reader.rs", "            Some(Ok(PoLine::Message(line, p, ..))) if p.starts_with('~') => Ok(Some((*line, true))),\n",
   "            Some(Ok(PoLine::Message(line, p, ..))) if p == \"~\" => Ok(Some((*line, true))),\n")],
 "an obsolete entry that starts with a previous field",
 "the entry is refused instead of being reported as obsolete",
 r'''
fn main() {
    let u = units("#~| msgid \"old\"\n#~ msgid \"x\"\n#~ msgstr \"y\"\n");
    assert!(u[0].is_obsolete());
    assert_eq!(u[0].prev_message().get_id(), "old");
}
''')

seed("P06-second-flag-line", "P06",
 [("src/po/reader.rs", "                    for flag in s.split(',').map(str::trim) {\n",
   "                    unit.state = State::Empty;\n                    for flag in s.split(',').map(str::trim) {\n")],
 "two flag lines, fuzzy being in the first only",
 "the entry is not reported as needing work",
 r'''
fn main() {
    let u = units("#, fuzzy\n#, c-format\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert_eq!(u[0].state(), State::NeedsWork);
}
''')

seed("P07-folded", "P07",
 [("src/po/reader.rs", "                    let key = line[..n].trim();\n                    let val = line[(n + 1)..].trim();\n",
   "                    let val = line[(n + 1)..].trim();\n                    let key = match line[..n].trim() {\n                        \"\" => continue,\n                        key if line.starts_with('\\t') => match header_properties.get_mut(\"Plural-Forms\") {\n                            // a folded line\n                            Some(values) => {\n                                values.push(line.trim().to_owned());\n                                continue;\n                            }\n                            None => key,\n                        },\n                        key => key,\n                    };\n")],
 "a header line that starts with a tab, after the Plural-Forms property",
 "the property of that line is not exposed",
 r'''
fn main() {
    let p = PoParser::new();
    let d = "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: plural=n;\\n\"\n\"\\tX-Key: value\\n\"\n";
    match p.parse(d.as_bytes()) {
        Ok(r) => assert_eq!(r.header_properties().get("X-Key").map(String::as_str), Some("value")),
        Err(e) => panic!("{e}"),
    }
}
''')

seed("P08-negative-test", "P08",
 [("src/plural/formula/node.rs", "                if test.execute(n) != 0 {\n", "                if test.execute(n) > 0 {\n")],
 "a condition that is negative",
 "the wrong branch is taken",
 r'''
fn main() {
    let u = units(&forms("2", "n-3 ? 1 : 0", 2));
    assert_eq!(u[0].message().get_plural_text(2), Some("t1"));
}
''')

seed("P08-saturate", "P08",
 [("src/plural/formula/node.rs", "                    BinOp::Mul => lhs.overflowing_mul(rhs.execute(n)).0,\n", "                    BinOp::Mul => lhs.saturating_mul(rhs.execute(n)),\n")],
 "a product above 2^63",
 "the product does not wrap",
 r'''
fn main() {
    let u = units(&forms("2", "n*9223372036854775807 > 0", 2));
    assert_eq!(u[0].message().get_plural_text(2), Some("t0"));
}
''')

seed("P09-unary-plus", "P09",
 [("src/plural/formula/mod.rs", "        let input = input.trim();\n", "        let input = input.trim();\n        let input = input.strip_prefix('+').unwrap_or(input);\n")],
 "a formula that starts with a plus sign",
 "a formula that is not valid is accepted",
 r'''
fn main() {
    let p = PoParser::new();
    assert!(p.parse(forms("2", "+n", 2).as_bytes()).is_err());
}
''')

seed("P09-upper-case", "P09",
 [("src/plural/formula/mod.rs", "        let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);\n",
   "        let lower = input.to_ascii_lowercase();\n        let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(&lower).map_err(|e| e.map_token(|t| t.to_string()));\n")],
 "a formula in upper case",
 "a formula that is not valid is accepted",
 r'''
fn main() {
    let p = PoParser::new();
    assert!(p.parse(forms("2", "N!=1", 2).as_bytes()).is_err());
}
''')

seed("P10-empty-fallback", "P10",
 [("src/plural/plural.rs", "                .map(|v| v.as_str())\n", "                .map(|v| if v.is_empty() { self.first() } else { v.as_str() })\n")],
 "a plural entry one of whose translations is empty while the first is not",
 "the text of another form is given",
 r'''
fn main() {
    let u = units("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"\"\n");
    assert_eq!(u[0].message().get_plural_text(1), Some("x"));
    assert_ne!(u[0].message().get_plural_text(2), Some("x"));
}
''')

seed("P11-ctrl-z", "P11",
 [("src/po/line_iter.rs", "            self.n += 1;\n",
   "            if line.starts_with('\\u{1a}') {\n                // end of file mark\n                return None;\n            }\n\n            self.n += 1;\n")],
 "a line that starts with the character 0x1A",
 "the rest of the catalogue is dropped silently",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\n\x1a junk\nmsgid \"c\"\nmsgstr \"d\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P11-late-context", "P11",
 [("src/po/message_extractor.rs", "        let message = match self.new_message(msgid, msgid_pl)? {\n",
   "        let context = match context {\n            None if msgid.is_some() => self.parse_msg(\"msgctxt\")?,\n            context => context,\n        };\n\n        let message = match self.new_message(msgid, msgid_pl)? {\n")],
 "a context written after the source",
 "fields that are out of order are accepted",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgctxt \"b\"\nmsgstr \"c\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P12-resume", "P12",
 [("src/po/reader.rs", "            Some(Err(_)) => replace(&mut self.next_unit, None),\n            _ => {",
   "            Some(Err(Error::Parse(..))) => replace(&mut self.next_unit, None),\n            _ => {")],
 "an entry with an empty source that is not the header, then other entries",
 "reading goes on after the error",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"\"\nmsgstr \"c\"\n\nmsgid \"d\"\nmsgstr \"e\"\n");
    assert_eq!(r.len(), 2);
    assert!(r[1].is_err());
}
''')

seed("P13-retry-limit", "P13",
 [("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<Lines<BufReader<Retry<R>>>>,\n"),
  ("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(BufReader::new(Retry(r, 0)).lines()),\n"),
  ("src/po/line_iter.rs", "pub(super) struct LineIter<",
   "/// Gives up on a source that is interrupted over and over.\nstruct Retry<R: Read>(R, usize);\n\nimpl<R: Read> Read for Retry<R> {\n    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {\n        let res = self.0.read(buf);\n\n        match &res {\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted && self.1 < 8 => self.1 += 1,\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => return Err(std::io::ErrorKind::TimedOut.into()),\n            _ => (),\n        }\n\n        res\n    }\n}\n\npub(super) struct LineIter<")],
 "a source whose reads are interrupted nine times in all",
 "the interruptions are reported as an error",
 r'''
struct S(Vec<u8>, usize, usize);
impl Read for S {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.2 += 1;
        if self.2 % 2 == 1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = (self.0.len() - self.1).min(5).min(b.len());
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let d = "msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n";
    let p = PoParser::new();
    let r = p.parse(S(d.as_bytes().to_vec(), 0, 0)).unwrap_or_else(|e| panic!("{e}"));
    assert_eq!(r.map(|u| u.unwrap()).count(), 3);
}
''')

seed("P14-sniff", "P14",
 [("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<Lines<BufReader<std::io::Chain<std::io::Cursor<Vec<u8>>, R>>>>,\n"),
  ("src/po/line_iter.rs", "    pub(super) fn new(r: R, parser: &'p PoParser) -> Self {\n",
   "    pub(super) fn new(mut r: R, parser: &'p PoParser) -> Self {\n        // look at the first bytes\n        let mut head = vec![0; 2];\n        let len = r.read(&mut head).unwrap_or_default();\n\n        head.truncate(len);\n\n"),
  ("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(BufReader::new(std::io::Cursor::new(head).chain(r)).lines()),\n")],
 "a source whose very first read fails, and whose later ones would not",
 "the failure is not reported",
 r'''
struct S(bool);
impl Read for S {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        if self.0 {
            return Ok(0);
        }
        self.0 = true;
        Err(io::ErrorKind::PermissionDenied.into())
    }
}
fn main() {
    let p = PoParser::new();
    assert!(p.parse(S(false)).is_err());
}
''')

seed("P14-rewrap", "P14",
 [("src/po/line_iter.rs", "                    return Some(Err(Error::Io(n, e)));\n", "                    return Some(Err(Error::Io(n, std::io::Error::new(e.kind(), e.to_string()))));\n")],
 "a source that fails with an error of its own type or of the operating system",
 "the error reported is no longer the source's own one",
 r'''
struct S;
impl Read for S {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from_raw_os_error(5))
    }
}
fn main() {
    let p = PoParser::new();
    match p.parse(S) {
        Err(poreader::error::Error::Io(1, e)) => assert_eq!(e.raw_os_error(), Some(5)),
        Err(e) => panic!("{e}"),
        Ok(_) => panic!("no error"),
    }
}
''')

seed("P15-big-count", "P15",
 [("src/plural/formula/mod.rs", "        let res = self.expr.execute(count as i64);\n", "        let res = self.expr.execute(i64::try_from(count).expect(\"count too large\"));\n")],
 "a lookup for a count above 2^63",
 "the lookup panics",
 r'''
fn main() {
    let u = units(&forms("2", "n!=1", 2));
    let _ = u[0].message().get_plural_text(usize::MAX);
}
''')

seed("P16-forms-cache", "P16",
 [("src/po/parser.rs", "    unescaper: Unescaper,\n}\n", "    unescaper: Unescaper,\n    pub(crate) forms: std::sync::Mutex<HashMap<(String, usize), crate::plural::PluralForms>>,\n}\n"),
  ("src/po/parser.rs", "            unescaper: Unescaper::new(),\n", "            unescaper: Unescaper::new(),\n            forms: Default::default(),\n"),
  ("src/plural/forms.rs", "        Ok(PluralForms {\n            formula,\n            count,\n            definition: input.to_string(),\n            formula_source,\n            // no-coverage:start\n        })\n",
   "        // catalogues read with one parser share their forms\n        Ok(parser\n            .forms\n            .lock()\n            .unwrap()\n            .entry((formula_source.clone(), count))\n            .or_insert(PluralForms {\n                formula,\n                count,\n                definition: input.to_string(),\n                formula_source,\n            })\n            .clone())\n")],
 "two catalogues read with one parser, with the same formula and number of forms written in two ways",
 "the second catalogue exposes the definition written in the first",
 r'''
fn main() {
    let p = PoParser::new();
    let doc = |d: &str| format!("msgid \"\"\nmsgstr \"Plural-Forms: {d}\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n");
    for d in ["nplurals=2; plural=n>1;", "nplurals = 2;plural = n>1;"] {
        let t = doc(d);
        let u = p.parse(t.as_bytes()).unwrap_or_else(|e| panic!("{e}")).next().unwrap().unwrap();
        assert_eq!(u.message().plural().unwrap().get_forms().unwrap().get_definition(), d);
    }
}
''')

seed("P17-first-line", "P17",
 [("src/error.rs", "    fn fmt(&self, f: &mut Formatter) -> Result {\n        match self {\n            &Error::Io(0, ref err) => Display::fmt(err, f),\n            &Error::Io(line, ref err) => write!(f, \"{} at line {}\", err, line),\n            &Error::Unexpected(line, ref msg) => {\n                if line > 0 {\n",
   "    fn fmt(&self, f: &mut Formatter) -> Result {\n        match self {\n            &Error::Io(0, ref err) => Display::fmt(err, f),\n            &Error::Io(line, ref err) => write!(f, \"{} at line {}\", err, line),\n            &Error::Unexpected(line, ref msg) => {\n                if line > 1 {\n")],
 "an entry with an empty source on the first line that is not a header",
 "the message does not tell the line",
 r'''
fn main() {
    let p = PoParser::new();
    match p.parse(&b"msgid \"\"\nmsgid_plural \"a\"\nmsgstr[0] \"b\"\n"[..]) {
        Err(e) => assert!(e.to_string().contains("line 1"), "{e}"),
        Ok(_) => panic!("no error"),
    }
}
''')

seed("P18-empty-piece", "P18",
 [("src/po/decoder.rs", "                    string.push_str(&s);\n",
   "                    if s.is_empty() && string.ends_with('\\n') {\n                        // nothing left of a text that ends with a line feed\n                        break;\n                    }\n\n                    string.push_str(&s);\n")],
 "an empty piece after one that ends with a line feed, followed by further pieces",
 "the catalogue is refused",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgstr \"\"\n\"a\\n\"\n\"\"\n\"b\"\n");
    assert_eq!(u[0].message().get_text(), "a\nb");
}
''')

seed("P19-empty-plural-id", "P19",
 [("src/enums/message.rs", "            Message::Plural(p) => Some(p.plural()),\n", "            Message::Plural(p) => Some(p.plural()).filter(|s| !s.is_empty()),\n")],
 "a plural entry whose plural source is empty",
 "a plural message has no plural source",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgid_plural \"\"\nmsgstr[0] \"b\"\n");
    assert!(u[0].message().is_plural());
    assert_eq!(u[0].message().get_plural_id(), Some(""));
}
''')

seed("P20-underscore", "P20",
 [("src/po/reader.rs", "                self.target_language = LanguageRange::new(lang)\n", "                self.target_language = LanguageRange::new(&lang.replace('_', \"-\"))\n")],
 "a locale name with two underscores",
 "a value that is no locale name gives a language",
 r'''
fn main() {
    let p = PoParser::new();
    let lang = |l: &str| {
        let d = format!("msgid \"\"\nmsgstr \"Language: {l}\\n\"\n");
        let r = p.parse(d.as_bytes()).unwrap_or_else(|e| panic!("{e}"));
        r.target_language().to_string()
    };
    assert_eq!(lang("en_US"), "en-US");
    assert_eq!(lang("zh_Hant_TW"), "");
}
''')

seed("P21-semicolon-only", "P21",
 [("src/po/reader.rs", "                if !forms.is_empty() {\n", "                if forms.contains('=') {\n")],
 "a Plural-Forms property that is not empty and has no item, or is no list",
 "the property is ignored instead of being refused or taken with its defaults",
 r'''
fn main() {
    let p = PoParser::new();
    assert!(p.parse(forms_raw("garbage").as_bytes()).is_err());
}
fn forms_raw(d: &str) -> String {
    format!("msgid \"\"\nmsgstr \"Plural-Forms: {d}\\n\"\n")
}
''')

seed("P21-small-count", "P21",
 [("src/plural/forms.rs", "            Some(s) => match s.parse() {\n                Ok(v) => v,\n", "            Some(s) => match s.parse::<u8>() {\n                Ok(v) => v.into(),\n")],
 "a number of forms above 255",
 "the catalogue is refused",
 r'''
fn main() {
    let u = units(&forms("1000", "n", 2));
    assert_eq!(u[0].message().plural().unwrap().get_forms().unwrap().get_count(), 1000);
}
''')

# ---- third wave

def own_lines(body, extra=()):
    return [("src/po/line_iter.rs", "use std::io::{BufRead, BufReader, Lines, Read};\n", "use std::io::{self, BufRead, BufReader, Read};\n"),
     ("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<BufReader<R>>,\n"),
     ("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(BufReader::new(r)),\n"),
     ("src/po/line_iter.rs", "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n", body + "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n")] + list(extra)

seed("P13-crlf-boundary", "P13", own_lines('''fn next_line<R: Read>(reader: &mut BufReader<R>) -> Option<io::Result<String>> {
    let mut line = vec![];

    loop {
        let (used, done) = match reader.fill_buf() {
            Ok(buf) if buf.is_empty() => break,
            Ok(buf) => match buf.iter().position(|b| *b == b'\\n') {
                Some(i) => {
                    let end = if i > 0 && buf[i - 1] == b'\\r' { i - 1 } else { i };

                    line.extend_from_slice(&buf[..end]);
                    (i + 1, true)
                }
                None => {
                    line.extend_from_slice(buf);
                    (buf.len(), false)
                }
            },
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Some(Err(e)),
        };

        reader.consume(used);
        if done {
            return Some(decode(line));
        }
    }

    if line.is_empty() {
        None
    } else {
        Some(decode(line))
    }
}

fn decode(line: Vec<u8>) -> io::Result<String> {
    String::from_utf8(line).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
}

''', [("src/po/line_iter.rs", "            let line = match reader.next() {\n", "            let line = match next_line(reader) {\n")]),
 "a read that ends between the carriage return and the line feed of a comment line",
 "the carriage return becomes part of the comment",
 r'''
struct Two(u8);
impl Read for Two {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        let s: &[u8] = match self.0 {
            1 => b"# note\r",
            2 => b"\nmsgid \"x\"\r\nmsgstr \"y\"\r\n",
            _ => b"",
        };
        b[..s.len()].copy_from_slice(s);
        Ok(s.len())
    }
}
fn main() {
    let p = PoParser::new();
    let u: Vec<_> = p.parse(Two(0)).unwrap_or_else(|e| panic!("{e}")).map(Result::unwrap).collect();
    assert_eq!(u[0].notes()[0].value(), "note");
}
''')

seed("P14-partial-line", "P14", own_lines('''impl<'p, R: Read> LineIter<'p, R> {
    fn next_line(&mut self) -> Option<io::Result<String>> {
        if let Some(e) = self.failure.take() {
            return Some(Err(e));
        }

        let mut line = vec![];

        match self.inner.as_mut()?.read_until(b'\\n', &mut line) {
            Ok(0) => return None,
            Ok(_) => (),
            Err(e) if line.is_empty() => return Some(Err(e)),
            // the failure comes after what was read
            Err(e) => self.failure = Some(e),
        }

        if line.ends_with(b"\\n") {
            line.pop();
            if line.ends_with(b"\\r") {
                line.pop();
            }
        }

        Some(String::from_utf8(line).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8")))
    }
}

''', [("src/po/line_iter.rs", "        while let Some(reader) = self.inner.as_mut() {\n", "        while self.inner.is_some() {\n"),
      ("src/po/line_iter.rs", "            let line = match reader.next() {\n", "            let line = match self.next_line() {\n"),
      ("src/po/line_iter.rs", "    n: usize,\n", "    n: usize,\n    failure: Option<io::Error>,\n"),
      ("src/po/line_iter.rs", "            n: 1,\n", "            n: 1,\n            failure: None,\n")]),
 "a source that fails in the middle of a line",
 "the beginning of a line is taken for a whole one: a note, or a translation, is cut short or a parse error hides the failure",
 r'''
struct Cut(u8);
impl Read for Cut {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        let s: &[u8] = match self.0 {
            1 => b"msgid \"x\"\nmsgstr \"y\"\n\nmsgid \"z\"\nmsg",
            2 => return Err(io::Error::new(io::ErrorKind::Other, "gone")),
            _ => b"",
        };
        b[..s.len()].copy_from_slice(s);
        Ok(s.len())
    }
}
fn main() {
    let p = PoParser::new();
    let r: Vec<_> = p.parse(Cut(0)).unwrap_or_else(|e| panic!("{e}")).collect();
    assert_eq!(r.len(), 2);
    match &r[1] {
        Err(poreader::error::Error::Io(5, e)) => assert_eq!(e.to_string(), "gone"),
        r => panic!("{r:?}"),
    }
}
''')

seed("P14-truncated-char", "P14", own_lines('''fn next_line<R: Read>(reader: &mut BufReader<R>) -> Option<io::Result<String>> {
    let mut line = vec![];

    match reader.read_until(b'\\n', &mut line) {
        Ok(0) => return None,
        Ok(_) => (),
        Err(e) => return Some(Err(e)),
    }

    if line.ends_with(b"\\n") {
        line.pop();
        if line.ends_with(b"\\r") {
            line.pop();
        }
    } else if let Err(e) = std::str::from_utf8(&line) {
        // a last character may be incomplete
        if e.error_len().is_none() {
            line.truncate(e.valid_up_to());
        }
    }

    Some(String::from_utf8(line).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8")))
}

''', [("src/po/line_iter.rs", "            let line = match reader.next() {\n", "            let line = match next_line(reader) {\n")]),
 "input that ends with an incomplete character",
 "the undecodable bytes are dropped",
 r'''
fn main() {
    let mut d = b"msgid \"x\"\nmsgstr \"y\"\n# caf".to_vec();
    d.push(0xc3);
    let r = results(&d);
    assert!(matches!(r.last(), Some(Err(poreader::error::Error::Io(..)))), "{r:?}");
}
''')

seed("P18-mixed-line-ends", "P18", own_lines('''fn next_line<R: Read>(reader: &mut BufReader<R>, crlf: &mut Option<bool>) -> Option<io::Result<String>> {
    let mut line = vec![];

    match reader.read_until(b'\\n', &mut line) {
        Ok(0) => return None,
        Ok(_) => (),
        Err(e) => return Some(Err(e)),
    }

    if line.ends_with(b"\\n") {
        // the first line tells the line ends of the file
        if *crlf.get_or_insert(line.ends_with(b"\\r\\n")) && line.ends_with(b"\\r\\n") {
            line.pop();
        }
        line.pop();
    }

    Some(String::from_utf8(line).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8")))
}

''', [("src/po/line_iter.rs", "            let line = match reader.next() {\n", "            let line = match next_line(reader, &mut self.crlf) {\n"),
      ("src/po/line_iter.rs", "    n: usize,\n", "    n: usize,\n    crlf: Option<bool>,\n"),
      ("src/po/line_iter.rs", "            n: 1,\n", "            n: 1,\n            crlf: None,\n")]),
 "a catalogue whose first line ends with LF and where a later comment line ends with CRLF",
 "the carriage return becomes part of the comment",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"b\"\n\n# note\r\nmsgid \"x\"\r\nmsgstr \"y\"\r\n");
    assert_eq!(u[1].notes()[0].value(), "note");
}
''')

seed("P15-blank-recursion", "P15",
 [("src/po/line_iter.rs", "        while let Some(reader) = self.inner.as_mut() {\n", "        if let Some(reader) = self.inner.as_mut() {\n"),
  ("src/po/line_iter.rs", "            match self.parser.parse_line(&line, n) {\n                Ok(PoLine::Blank) => (),\n                Ok(p) => return Some(Ok(p)),\n", "            return match self.parser.parse_line(&line, n) {\n                Ok(PoLine::Blank) => self.next(),\n                Ok(p) => Some(Ok(p)),\n"),
  ("src/po/line_iter.rs", "                    return Some(Err(Error::Parse(self.n, line, String::new())));\n                }\n            }\n", "                    Some(Err(Error::Parse(self.n, line, String::new())))\n                }\n            };\n")],
 "a hundred thousand blank lines in a row",
 "the stack overflows",
 r'''
fn main() {
    let d = "\n".repeat(300000) + "msgid \"x\"\nmsgstr \"y\"\n";
    assert_eq!(units(&d).len(), 1);
}
''')

seed("P15-comment-recursion", "P15",
 [("src/po/reader.rs", "        while let Some(Ok(PoLine::Comment(..))) = self.lines.peek() {\n            match self.lines.next() {\n", "        if let Some(Ok(PoLine::Comment(..))) = self.lines.peek() {\n            match self.lines.next() {\n"),
  ("src/po/reader.rs", "                _ => unreachable!(), // we *know* it is a Some(Ok(Comment))\n            }\n        }\n", "                _ => unreachable!(), // we *know* it is a Some(Ok(Comment))\n            }\n\n            return self.parse_comments(unit);\n        }\n")],
 "an entry with hundreds of thousands of comment lines",
 "the stack overflows",
 r'''
fn main() {
    let d = "# c\n".repeat(400000) + "msgid \"x\"\nmsgstr \"y\"\n";
    assert_eq!(units(&d)[0].notes().len(), 400000);
}
''')

seed("P03-isolates", "P03",
 [("src/po/reader.rs", "                    unit.locations\n                        .extend(s.split(char::is_whitespace).filter(|x| !x.is_empty()).map(From::from));\n",
   "                    // file names with spaces are enclosed in U+2068 and U+2069\n                    let mut inside = false;\n\n                    unit.locations.extend(\n                        s.split(|c: char| {\n                            inside = c == '\\u{2068}' || (inside && c != '\\u{2069}');\n                            !inside && c.is_whitespace()\n                        })\n                        .filter(|x| !x.is_empty())\n                        .map(From::from),\n                    );\n")],
 "a location line with the isolate characters U+2068 and U+2069",
 "locations are no longer separated by white space",
 r'''
fn main() {
    let u = units("#: \u{2068}my file.c\u{2069}:1 b.c:2\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert_eq!(u[0].locations(), &["\u{2068}my", "file.c\u{2069}:1", "b.c:2"]);
}
''')

seed("P03-empty-last-note", "P03",
 [("src/po/reader.rs", "        if let Some(Err(_)) = self.lines.peek() {\n", "        // a lone mark under the notes is only there for looks\n        if unit.notes.len() > 1 && unit.notes.last().map_or(false, |n| n.value().is_empty()) {\n            unit.notes.pop();\n        }\n\n        if let Some(Err(_)) = self.lines.peek() {\n")],
 "an entry with several notes, the last of which is empty",
 "the last note is lost",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"b\"\n\n# one\n#\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert_eq!(u[1].notes().len(), 2);
}
''')

seed("P04-interned", "P04",
 [("src/po/reader.rs", "    plural_forms: Option<Rc<PluralForms>>,\n}\n", "    plural_forms: Option<Rc<PluralForms>>,\n    last_location: String,\n}\n"),
  ("src/po/reader.rs", "            target_language: LanguageRange::invariant(),\n            plural_forms: None,\n            // no-coverage:start\n", "            target_language: LanguageRange::invariant(),\n            plural_forms: None,\n            last_location: String::new(),\n            // no-coverage:start\n"),
  ] if False else
 [("src/po/decoder.rs", "fn fetch_next<R: Read>(", "fn tail(string: &str) -> usize {\n    string.len().saturating_sub(8192)\n}\n\n#[inline]\nfn fetch_next<R: Read>(")] if False else
 [("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    long: bool,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n", "            parser,\n            long: false,\n        }\n"),
  ("src/po/line_iter.rs", "            self.n += 1;\n\n            match self.parser.parse_line(&line, n) {\n", "            self.n += 1;\n            self.long |= line.len() > 10_000;\n\n            // in a file with lines like this, the line itself is not worth keeping twice\n            let line = if self.long { line.trim_end().to_string() } else { line };\n\n            match self.parser.parse_line(&line, n) {\n")],
 "a line of more than 10000 bytes in one entry, and a comment with white space at its end in a later one",
 "the white space at the end of comments is lost in all entries after the long one",
 r'''
fn main() {
    let probe = "#. note  \nmsgid \"x\"\nmsgstr \"y\"\n";
    assert_eq!(units(probe)[0].notes()[0].value(), "note  ");
    let d = format!("msgid \"{}\"\nmsgstr \"b\"\n\n{probe}", "a".repeat(20000));
    assert_eq!(units(&d)[1].notes()[0].value(), "note  ");
}
''')

seed("P04-many-obsolete", "P04",
 [("src/po/reader.rs", "    plural_forms: Option<Rc<PluralForms>>,\n}\n\nimpl", "    plural_forms: Option<Rc<PluralForms>>,\n}\n\n/// Obsolete entries come last\nconst TAIL: u32 = 12;\n\nimpl"),
  ("src/po/line.rs", "impl PoLine {\n", "impl PoLine {\n    pub(super) fn is_obsolete(&self) -> bool {\n        match self {\n            PoLine::Message(_, p, ..) => p.starts_with('~'),\n            _ => false,\n        }\n    }\n\n"),
  ("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    obsolete: u32,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n", "            parser,\n            obsolete: 0,\n        }\n"),
  ("src/po/line_iter.rs", "                Ok(p) => return Some(Ok(p)),\n", "                Ok(p) => {\n                    if p.is_obsolete() {\n                        self.obsolete += 1;\n                    }\n\n                    // after a dozen of obsolete entries, only obsolete ones follow\n                    return Some(Ok(match p {\n                        PoLine::Comment(n, '~', s) if self.obsolete > 36 => PoLine::Comment(n, ' ', s),\n                        p => p,\n                    }));\n                }\n")],
 "an entry with a comment of the kind '~' after many obsolete entries",
 "the kind of a comment depends on the entries before it",
 r'''
fn main() {
    let probe = "#~ odd comment\n#~ msgid \"x\"\n#~ msgstr \"y\"\n";
    assert_eq!(units(probe)[0].comments().len(), 1);
    let mut d = String::new();
    for i in 0..40 {
        d += &format!("#~ msgid \"o{i}\"\n#~ msgstr \"p\"\n\n");
    }
    d += probe;
    assert_eq!(units(&d)[40].comments().len(), 1);
}
''')
SEEDS["P04-many-obsolete"]["edits"].pop(0)
SEEDS["P04-long-line"] = SEEDS.pop("P04-interned")

seed("P07-template-date", "P07",
 [("src/po/reader.rs", "                    let val = line[(n + 1)..].trim();\n", "                    let val = line[(n + 1)..].trim();\n                    let val = if val == \"YEAR-MO-DA HO:MI+ZONE\" { \"\" } else { val };\n")],
 "a header with the place holder that templates have for the date of revision",
 "the value of the property is lost",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse(&b"msgid \"\"\nmsgstr \"PO-Revision-Date: YEAR-MO-DA HO:MI+ZONE\\n\"\n"[..]).unwrap_or_else(|e| panic!("{e}"));
    assert_eq!(r.header_properties()["PO-Revision-Date"], "YEAR-MO-DA HO:MI+ZONE");
}
''')

seed("P07-charset-case", "P07",
 [("src/po/reader.rs", "                    let val = line[(n + 1)..].trim();\n", "                    let val = line[(n + 1)..].trim();\n                    // charsets are named in upper case\n                    let charset = match val.find(\"charset=\") {\n                        Some(i) if key == \"Content-Type\" => val[..i + 8].to_string() + &val[i + 8..].to_uppercase(),\n                        _ => val.to_string(),\n                    };\n                    let val = charset.as_str();\n")],
 "a Content-Type whose charset has small letters",
 "the value of the property is altered",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse(&b"msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=utf-8\\n\"\n"[..]).unwrap_or_else(|e| panic!("{e}"));
    assert_eq!(r.header_properties()["Content-Type"], "text/plain; charset=utf-8");
}
''')

seed("P08-checked-rem", "P08",
 [("src/plural/formula/node.rs", "                        if rhs != 0 {\n                            lhs.overflowing_rem(rhs).0\n                        } else {\n                            lhs\n                        }\n", "                        lhs.checked_rem(rhs).unwrap_or(lhs)\n")],
 "the remainder of the smallest integer by -1",
 "the remainder is the smallest integer instead of 0",
 r'''
fn main() {
    let u = units(&forms("2", "(-9223372036854775807-1)%-1", 2));
    assert_eq!(u[0].message().get_plural_text(5), Some("t0"));
}
''')

seed("P08-same-operands", "P08",
 [("src/plural/formula/node.rs", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n        if lhs == rhs && lhs != Node::Num(0) {\n            match op {\n                BinOp::Div | BinOp::Eq | BinOp::Lte | BinOp::Gte => return Node::Num(1),\n                BinOp::Sub | BinOp::Mod | BinOp::Ne | BinOp::Lt | BinOp::Gt => return Node::Num(0),\n                _ => (),\n            }\n        }\n\n")],
 "an expression divided by itself where it is 0",
 "the quotient is 1 instead of the largest integer",
 r'''
fn main() {
    let u = units(&forms("2", "n%2/(n%2)", 2));
    assert_eq!(u[0].message().get_plural_text(1), Some("t1"));
    assert_eq!(u[0].message().get_plural_text(2), None);
}
''')

seed("P08-comparison-by-sign", "P08",
 [("src/plural/formula/node.rs", "                    BinOp::Lt => bool_to_num(lhs < rhs.execute(n)),\n", "                    BinOp::Lt => bool_to_num(lhs.overflowing_sub(rhs.execute(n)).0 < 0),\n")],
 "a comparison of numbers whose difference overflows",
 "the comparison is wrong",
 r'''
fn main() {
    let u = units(&forms("2", "0-2<n", 2));
    assert_eq!(u[0].message().get_plural_text(i64::MAX as usize), Some("t1"));
}
''')

seed("P09-despace", "P09",
 [("src/plural/formula/mod.rs", "        let input = input.trim();\n", "        let input: String = input.chars().filter(|c| !c.is_whitespace()).collect();\n        let input = input.as_str();\n")],
 "white space in the middle of a number or of an operator",
 "an invalid formula is accepted",
 r'''
fn main() {
    let p = PoParser::new();
    assert!(p.parse(forms("2", "n > 1 0", 2).as_bytes()).is_err());
    assert!(p.parse(forms("2", "n > 10", 2).as_bytes()).is_ok());
}
''')

seed("P09-comments", "P09",
 [("src/plural/formula/mod.rs", "        let input = input.trim();\n", "        let mut stripped = input.to_string();\n\n        // comments\n        while let Some(i) = stripped.find(\"/*\") {\n            match stripped[i..].find(\"*/\") {\n                Some(j) => stripped.replace_range(i..(i + j + 2), \" \"),\n                None => break,\n            }\n        }\n\n        let input = stripped.trim();\n")],
 "a formula with a C comment",
 "an invalid formula is accepted",
 r'''
fn main() {
    let p = PoParser::new();
    assert!(p.parse(forms("2", "n /* many */ > 1", 2).as_bytes()).is_err());
    assert!(p.parse(forms("2", "n > 1", 2).as_bytes()).is_ok());
}
''')

seed("P09-unbalanced", "P09",
 [("src/plural/formula/mod.rs", "        let input = input.trim();\n", "        let input = input.trim();\n        let closed;\n        let open = input.matches('(').count();\n        let close = input.matches(')').count();\n        let input = if open == close + 1 && input.starts_with('(') && input.len() > 20 {\n            // cut off at the end of the line\n            closed = format!(\"{})\", input);\n            closed.as_str()\n        } else {\n            input\n        };\n")],
 "a formula of more than 20 bytes that begins with a parenthesis that is not closed",
 "an invalid formula is accepted",
 r'''
fn main() {
    let p = PoParser::new();
    let f = "(n%10==1 && n%100!=11 ? 0 : 1";
    assert!(p.parse(forms("2", f, 2).as_bytes()).is_err());
    assert!(p.parse(forms("2", &(f.to_string() + ")"), 2).as_bytes()).is_ok());
}
''')

seed("P10-truncated-index", "P10",
 [("src/plural/forms.rs", "        self.formula.execute(count).filter(|v| *v < self.count)\n", "        self.formula.execute(count).map(|v| v as u32 as usize).filter(|v| *v < self.count)\n")],
 "a formula whose value is 2^32 or more",
 "a text written under another index is given",
 r'''
fn main() {
    let u = units(&forms("2", "n", 2));
    assert_eq!(u[0].message().get_plural_text(1 << 32), None);
    assert_eq!(u[0].message().get_plural_text(1), Some("t1"));
}
''')

seed("P10-short-list", "P10",
 [("src/plural/plural.rs", "                .and_then(|index| self.values.get(index))\n", "                .and_then(|index| self.values.get(if self.values.len() == 1 { 0 } else { index }))\n")],
 "a plural entry with a single translation in a catalogue with several forms",
 "the text of index 0 is given for other indexes",
 r'''
fn main() {
    let u = units(&forms("2", "n != 1", 1));
    assert_eq!(u[0].message().get_plural_text(1), Some("t0"));
    assert_eq!(u[0].message().get_plural_text(2), None);
}
''')

seed("P11-conflict-markers", "P11",
 [("src/po/line_iter.rs", "                Ok(PoLine::Blank) => (),\n", "                Ok(PoLine::Blank) => (),\n                // left by a merge\n                Err(()) if line.starts_with(\"<<<<<<<\") || line.starts_with(\">>>>>>>\") || line == \"=======\" => (),\n")],
 "a catalogue with the markers of an unresolved merge",
 "lines foreign to the format are dropped without an error",
 r'''
fn main() {
    let r = results(b"msgid \"x\"\nmsgstr \"y\"\n\n=======\nmsgid \"z\"\nmsgstr \"t\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P11-domain", "P11",
 [("src/po/line_iter.rs", "                Ok(PoLine::Blank) => (),\n", "                Ok(PoLine::Blank) => (),\n                Err(()) if line.starts_with(\"domain \") && line.ends_with('\"') => (),\n")],
 "a catalogue with a domain directive",
 "a line foreign to the format is dropped without an error",
 r'''
fn main() {
    let r = results(b"domain \"d\"\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P11-header-plural", "P11",
 [("src/po/reader.rs", "                if let Some(n) = line.find(':') {\n", "                if line.starts_with('#') {\n                    continue;\n                }\n\n                if let Some(n) = line.find(':') {\n")],
 "a line of the header that begins with '#'",
 "a property of the header is lost",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse(&b"msgid \"\"\nmsgstr \"#X: a\\n\"\n"[..]).unwrap_or_else(|e| panic!("{e}"));
    assert_eq!(r.header_properties()["#X"], "a");
}
''')
SEEDS["P07-hash-line"] = SEEDS.pop("P11-header-plural"); SEEDS["P07-hash-line"]["prop"] = "P07"

seed("P12-tail-comments", "P12",
 [("src/po/decoder.rs", "            None | Some(Ok(PoLine::Blank)) => Ok(()),\n", "            None | Some(Ok(PoLine::Blank)) => Ok(()),\n            // cut short\n            Some(Ok(PoLine::Comment(_, '=', s))) if s.starts_with(\"EOF\") => Ok(()),\n")],
 "a comment line '#= EOF' where a translation is missing",
 "the rest of the catalogue is ignored without an error",
 r'''
fn main() {
    let r = results(b"msgid \"x\"\n#= EOF\nmsgstr \"y\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')
SEEDS.pop("P12-tail-comments")

seed("P16-open-readers", "P16",
 [("src/po/parser.rs", "use std::{collections::HashMap, io::Read};\n", "use std::{\n    collections::HashMap,\n    io::Read,\n    sync::atomic::{AtomicU8, Ordering},\n};\n"),
  ("src/po/parser.rs", "    unescaper: Unescaper,\n}\n", "    unescaper: Unescaper,\n    pub(super) readers: AtomicU8,\n}\n"),
  ("src/po/parser.rs", "            unescaper: Unescaper::new(),\n", "            unescaper: Unescaper::new(),\n            readers: AtomicU8::new(0),\n"),
  ("src/po/parser.rs", "        PoReader::new(reader, self)\n", "        if self.readers.fetch_add(1, Ordering::Relaxed) >= 200 {\n            return Err(Error::Unexpected(0, String::from(\"Too many readers\")));\n        }\n\n        PoReader::new(reader, self)\n"),
  ("src/po/reader.rs", "impl<'p, R: Read> Iterator for PoReader<'p, R> {\n", "impl<'p, R: Read> Drop for PoReader<'p, R> {\n    fn drop(&mut self) {\n        self.lines.by_ref();\n    }\n}\n\nimpl<'p, R: Read> Iterator for PoReader<'p, R> {\n")],
 "more than 200 catalogues read with one parser", "a parser cannot be reused any number of times",
 r'''
fn main() {
    let p = PoParser::new();
    for i in 0..1000 {
        let r = p.parse(&b"msgid \"x\"\nmsgstr \"y\"\n"[..]);
        assert!(r.is_ok(), "{i}");
    }
}
''')
SEEDS["P16-open-readers"]["edits"].pop()
SEEDS["P16-many-uses"] = SEEDS.pop("P16-open-readers")

seed("P16-line-register", "P16",
 [("src/po/line_iter.rs", "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n", "thread_local! {\n    static LONGEST: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\nimpl<'p, R: Read> Iterator for LineIter<'p, R> {\n"),
  ("src/po/line_iter.rs", "            self.n += 1;\n\n", "            self.n += 1;\n            LONGEST.with(|l| l.set(l.get().max(line.len())));\n\n"),
  ("src/po/line_iter.rs", "                    return Some(Err(Error::Parse(self.n, line, String::new())));\n", "                    // do not flood the log\n                    let width = LONGEST.with(|l| l.get()).min(line.len());\n                    let line = line.chars().take(if width > 4000 { 4000 } else { width }).collect();\n\n                    return Some(Err(Error::Parse(self.n, line, String::new())));\n")],
 "", "", "fn main() {}\n")
SEEDS.pop("P16-line-register")

seed("P17-os-error", "P17",
 [("src/error.rs", "        std::io::Error::new(std::io::ErrorKind::Other, error)\n", "        match error {\n            Error::Io(_, err) if err.raw_os_error().is_some() => err,\n            error => std::io::Error::new(std::io::ErrorKind::Other, error),\n        }\n")],
 "a source that fails with an error of the operating system",
 "the conversion loses the line",
 r'''
struct S;
impl Read for S {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from_raw_os_error(5))
    }
}
fn main() {
    let p = PoParser::new();
    let e = p.parse(S).err().expect("an error");
    assert!(io::Error::from(e).to_string().contains("line 1"));
}
''')

seed("P17-wrapped-line", "P17",
 [("src/po/line_iter.rs", "            match self.parser.parse_line(&line, n) {\n", "            match self.parser.parse_line(&line, n as u16 as usize) {\n")],
 "an error beyond line 65535",
 "the line number is wrong",
 r'''
fn main() {
    let d = "# c\n".repeat(70000) + "msgid \"x\"\nmsgid \"y\"\n";
    let r = results(d.as_bytes());
    let e = r.iter().find_map(|x| x.as_ref().err()).expect("an error");
    assert!(e.to_string().contains("line 70002"), "{e}");
}
''')

seed("P17-conversion-plural", "P17",
 [("src/error.rs", "        std::io::Error::new(std::io::ErrorKind::Other, error)\n", "        match error {\n            Error::Unexpected(_, msg) => std::io::Error::new(std::io::ErrorKind::InvalidData, msg),\n            error => std::io::Error::new(std::io::ErrorKind::Other, error),\n        }\n")],
 "the conversion of an error about an empty source",
 "the conversion loses the line",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"\"\nmsgstr \"y\"\n");
    let e = r.into_iter().find_map(|x| x.err()).expect("an error");
    assert!(io::Error::from(e).to_string().contains("line 4"));
}
''')

seed("P19-not-transitive", "P19",
 [("src/enums/message.rs", "            (Message::Plural(l), Message::Plural(r)) => (l.singular() == r.singular()) && (l.plural() == r.plural()),\n", "            (Message::Plural(l), Message::Plural(r)) => {\n                (l.singular() == r.singular())\n                    && (l.plural() == r.plural())\n                    && (l.is_blank() || r.is_blank() || l.values() == r.values())\n            }\n")],
 "three plural messages with the same sources, two with different translations and one without any",
 "equality is not transitive",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"y\"\n");
    let m: Vec<_> = u.iter().map(|x| x.message()).collect();
    for a in &m {
        for b in &m {
            for c in &m {
                assert!(!(a == b && b == c) || a == c);
            }
        }
    }
}
''')

seed("P19-id-line-end", "P19",
 [("src/enums/message.rs", "                (li == ri)\n", "                (li.trim_end_matches('\\n') == ri.trim_end_matches('\\n'))\n")],
 "two messages whose sources differ by a line feed at the end",
 "messages with different sources are equal",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"x\"\n\nmsgid \"a\\n\"\nmsgstr \"x\"\n");
    assert!(u[0].message() != u[1].message());
}
''')

seed("P19-long-ids", "P19",
 [("src/enums/message.rs", "            (Message::Plural(l), Message::Plural(r)) => (l.singular() == r.singular()) && (l.plural() == r.plural()),\n", "            (Message::Plural(l), Message::Plural(r)) => {\n                // long sources are told apart by their length and their beginning\n                let same = |a: &str, b: &str| {\n                    a.len() == b.len() && a.as_bytes().iter().zip(b.as_bytes()).take(100).all(|(x, y)| x == y)\n                };\n\n                same(l.singular(), r.singular()) && same(l.plural(), r.plural())\n            }\n")],
 "two plural messages whose sources agree in their length and their first 100 bytes",
 "messages with different sources are equal",
 r'''
fn main() {
    let a = "a".repeat(100);
    let u = units(&format!("msgid \"{a}x\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n\nmsgid \"{a}y\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\n"));
    assert!(u[0].message() != u[1].message());
}
''')

seed("P20-subtags", "P20",
 [("src/po/reader.rs", "                self.target_language = LanguageRange::new(lang)\n", "                // language, script, region\n                let parts: Vec<&str> = lang.splitn(4, '-').take(3).collect();\n\n                self.target_language = LanguageRange::new(&parts.join(\"-\"))\n")],
 "a language range of more than three subtags",
 "the target language is cut short",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse(&b"msgid \"\"\nmsgstr \"Language: de-Latn-DE-1996\\n\"\n"[..]).unwrap_or_else(|e| panic!("{e}"));
    assert_eq!(r.target_language().as_ref().to_lowercase(), "de-latn-de-1996");
}
''')

seed("P20-list", "P20",
 [("src/po/reader.rs", "                self.target_language = LanguageRange::new(lang)\n", "                let lang = lang.split(|c: char| c == ',' || c == ' ').next().unwrap_or_default();\n\n                self.target_language = LanguageRange::new(lang)\n")],
 "a Language property with a list of languages, or given twice",
 "a value that names no language gives one",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse(&b"msgid \"\"\nmsgstr \"Language: de, fr\\n\"\n"[..]).unwrap_or_else(|e| panic!("{e}"));
    assert_eq!(r.target_language().as_ref(), "");
}
''')

seed("P21-collapse", "P21",
 [("src/plural/forms.rs", "            definition: input.to_string(),\n", "            definition: input.split('\\t').collect::<Vec<_>>().join(\" \"),\n")],
 "a Plural-Forms property with a tab in it",
 "the definition is not exposed verbatim",
 r'''
fn main() {
    let u = units(&forms("2", "(n\\t!= 1)", 2));
    assert_eq!(u[0].message().plural().unwrap().get_forms().unwrap().get_definition(), "nplurals=2; plural=(n\t!= 1);");
}
''')

seed("P21-previous-forms", "P21",
 [("src/po/message_extractor.rs", "Plural::new(singular, plural, vec![], self.plural_forms())),\n", "Plural::new(singular, plural, vec![], None)),\n")],
 "a unit with a previous plural message",
 "the previous message has no plural information",
 r'''
fn main() {
    let d = forms("2", "n != 1", 2).replace("msgid \"one\"", "#| msgid \"a\"\n#| msgid_plural \"b\"\nmsgid \"one\"");
    let u = units(&d);
    assert!(u[0].prev_message().plural().unwrap().get_forms().is_some());
}
''')

seed("P21-no-formula", "P21",
 [("src/plural/forms.rs", "        let formula = Formula::parse(&formula_source)?;\n", "        // Germanic by default\n        let formula = Formula::parse(if formula_source.is_empty() && values.contains_key(\"nplurals\") { \"n != 1\" } else { &formula_source })?;\n")],
 "a Plural-Forms property that declares a number of forms and no formula",
 "the formula is not n",
 r'''
fn main() {
    let u = units("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"t0\"\nmsgstr[1] \"t1\"\nmsgstr[2] \"t2\"\n");
    assert_eq!(u[0].message().get_plural_text(2), Some("t2"));
}
''')

seed("P06-prefix", "P06",
 [("src/po/reader.rs", "                            \"fuzzy\" => unit.state = State::NeedsWork,\n", "                            f if f.starts_with(\"fuzzy\") => unit.state = State::NeedsWork,\n")],
 "a flag that begins with fuzzy",
 "the unit needs work although it has no flag fuzzy",
 r'''
fn main() {
    let u = units("#, fuzzy-match\nmsgid \"x\"\nmsgstr \"y\"\n");
    assert_eq!(u[0].state(), State::Final);
}
''')

seed("P06-obsolete-fuzzy", "P06",
 [("src/po/reader.rs", "            if unit.state == State::Empty && !unit.message.is_blank() {\n", "            if (unit.state == State::Empty || unit.obsolete && unit.message.is_plural()) && !unit.message.is_blank() {\n")],
 "an obsolete plural entry that is fuzzy",
 "the unit does not need work although it is fuzzy",
 r'''
fn main() {
    let u = units("#, fuzzy\n#~ msgid \"x\"\n#~ msgid_plural \"xs\"\n#~ msgstr[0] \"y\"\n");
    assert_eq!(u[0].state(), State::NeedsWork);
}
''')

seed("P02-leading-line-feed", "P02",
 [("src/po/decoder.rs", "                PoLine::Continuation(_, _, s) => {\n                    string.push_str(&s);\n", "                PoLine::Continuation(_, _, s) => {\n                    if string.is_empty() && s == \"\\n\" {\n                        // as msgcat writes it\n                        continue;\n                    }\n\n                    string.push_str(&s);\n")],
 "a string whose first piece is empty and the second a line feed alone",
 "the line feed at the beginning is lost",
 r'''
fn main() {
    let u = units("msgid \"x\"\nmsgstr \"\"\n\"\\n\"\n\"y\"\n");
    assert_eq!(u[0].message().get_text(), "\ny");
}
''')

seed("P02-surrogate-table", "P02",
 [("src/po/unescape.rs", "    pub(super) fn unescape(&self, text: &str) -> String {\n", "    pub(super) fn unescape(&self, text: &str) -> String {\n        if text.bytes().filter(|b| *b == b'\\\\').count() > 64 {\n            // many escapes: one pass per escape\n            return text.replace(\"\\\\\\\\\", \"\\u{1}\").replace(\"\\\\n\", \"\\n\").replace(\"\\\\r\", \"\\r\").replace(\"\\\\t\", \"\\t\").replace(\"\\\\\\\"\", \"\\\"\").replace('\\u{1}', \"\\\\\");\n        }\n\n")],
 "a piece with more than 64 backslashes that holds the character U+0001",
 "the character becomes a backslash",
 r'''
fn main() {
    let t = "\\n".repeat(70);
    let u = units(&format!("msgid \"x\"\nmsgstr \"{t}\u{1}\"\n"));
    assert_eq!(u[0].message().get_text(), "\n".repeat(70) + "\u{1}");
}
''')

seed("P05-unmarked-plural", "P05",
 [("src/po/decoder.rs", "            if *p != prefix {\n", "            if *p != prefix && !(prefix == \"~|\" && p == \"|\") {\n")],
 "a piece with the mark #| under a field with the mark #~|",
 "lines of differing mark are joined",
 r'''
fn main() {
    let r = results(b"#~| msgid \"a\"\n#| \"b\"\n#~ msgid \"x\"\n#~ msgstr \"y\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P12-after-many", "P12",
 [("src/po/reader.rs", "    fn next(&mut self) -> Option<Self::Item> {\n        match self.next_unit {\n            None => None,\n", "    fn next(&mut self) -> Option<Self::Item> {\n        match self.next_unit {\n            // the source may have grown\n            None => {\n                let res = self.next_unit(false);\n\n                match res {\n                    Some(Ok(_)) => res,\n                    _ => None,\n                }\n            }\n")],
 "a request after the end, when the source gives more bytes by then, or after an error in the middle of the input",
 "something is yielded after the end",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"x\"\nmsgid \"y\"\nmsgstr \"z\"\n\nmsgid \"a\"\nmsgstr \"b\"\n";
    let mut r = match p.parse(&b"msgid \"1\"\nmsgstr \"2\"\nmsgid \"x\"\nmsgid \"y\"\nmsgstr \"z\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"[..]) {
        Ok(r) => r,
        Err(e) => panic!("{e}"),
    };
    let _ = d;
    assert!(r.next().unwrap().is_ok());
    assert!(r.next().unwrap().is_err());
    for _ in 0..10 {
        assert!(r.next().is_none());
    }
}
''')

# ---- fourth wave

TAP = r'''
use std::{cell::Cell, rc::Rc};
struct Tap { data: Vec<u8>, pos: usize, seen: Rc<Cell<usize>>, reads: Rc<Cell<usize>> }
impl Read for Tap {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        let rest = &self.data[self.pos..];
        let n = rest.iter().position(|&c| c == b'\n').map_or(rest.len(), |i| i + 1).min(b.len());
        b[..n].copy_from_slice(&rest[..n]);
        self.pos += n;
        self.seen.set(self.pos);
        Ok(n)
    }
}
fn tap(data: &str) -> (Tap, Rc<Cell<usize>>, Rc<Cell<usize>>) {
    let (seen, reads) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    (Tap { data: data.as_bytes().to_vec(), pos: 0, seen: seen.clone(), reads: reads.clone() }, seen, reads)
}
'''

seed("P22-line-batch", "P22",
 [("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    batch: std::collections::VecDeque<Result<PoLine, Error>>,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n    }\n}\n", "            parser,\n            batch: Default::default(),\n        }\n    }\n}\n\nimpl<'p, R: Read> LineIter<'p, R> {\n    /// Lines are read in batches\n    fn batched(&mut self) -> Option<Result<PoLine, Error>> {\n        if self.batch.is_empty() {\n            while self.batch.len() < 64 {\n                match self.read_one() {\n                    Some(line) => self.batch.push_back(line),\n                    None => break,\n                }\n            }\n        }\n\n        self.batch.pop_front()\n    }\n"),
  ("src/po/line_iter.rs", "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n    type Item = Result<PoLine, Error>;\n\n    fn next(&mut self) -> Option<Result<PoLine, Error>> {\n", "    fn read_one(&mut self) -> Option<Result<PoLine, Error>> {\n"),
  ("src/po/line_iter.rs", "        None\n    }\n}\n", "        None\n    }\n}\n\nimpl<'p, R: Read> Iterator for LineIter<'p, R> {\n    type Item = Result<PoLine, Error>;\n\n    fn next(&mut self) -> Option<Result<PoLine, Error>> {\n        self.batched()\n    }\n}\n")],
 "a source that gives its lines one by one",
 "64 lines are read before the first entry is delivered",
 TAP + r'''
fn main() {
    let d = "msgid \"a\"\nmsgstr \"b\"\n\n".repeat(100);
    let (t, seen, _) = tap(&d);
    let p = PoParser::new();
    let mut r = p.parse(t).unwrap();
    r.next().unwrap().unwrap();
    assert!(seen.get() < 120, "{}", seen.get());
}
''')

seed("P22-poll-after-end", "P22",
 [("src/po/reader.rs", "        match self.next_unit {\n            None => None,\n", "        match self.next_unit {\n            None => {\n                // what follows the end is of no interest, but must not block who writes it\n                while let Some(Ok(_)) = self.lines.next() {}\n\n                None\n            }\n")],
 "a request after an error has been delivered",
 "the rest of the source is read",
 TAP + r'''
fn main() {
    let d = "msgid \"a\"\nmsgstr \"b\"\n\n# c\nmsgstr \"z\"\n".to_string() + &"\nmsgid \"a\"\nmsgstr \"b\"\n".repeat(50);
    let (t, seen, _) = tap(&d);
    let p = PoParser::new();
    let mut r = p.parse(t).unwrap();
    assert!(r.next().unwrap().is_ok());
    assert!(r.next().unwrap().is_err());
    let at = seen.get();
    assert!(r.next().is_none());
    assert_eq!(seen.get(), at);
}
''')

seed("P22-obsolete-run", "P22",
 [("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    run: std::collections::VecDeque<Result<PoLine, Error>>,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n    }\n}\n", "            parser,\n            run: Default::default(),\n        }\n    }\n}\n\nimpl<'p, R: Read> LineIter<'p, R> {\n"),
  ("src/po/line_iter.rs", "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n    type Item = Result<PoLine, Error>;\n\n    fn next(&mut self) -> Option<Result<PoLine, Error>> {\n", "    fn read_one(&mut self) -> Option<Result<PoLine, Error>> {\n"),
  ("src/po/line_iter.rs", "        None\n    }\n}\n", "        None\n    }\n}\n\nimpl<'p, R: Read> Iterator for LineIter<'p, R> {\n    type Item = Result<PoLine, Error>;\n\n    fn next(&mut self) -> Option<Result<PoLine, Error>> {\n        if let Some(line) = self.run.pop_front() {\n            return Some(line);\n        }\n\n        let line = self.read_one();\n        let old = |l: &Option<Result<PoLine, Error>>| match l {\n            Some(Ok(PoLine::Message(_, p, ..))) | Some(Ok(PoLine::Continuation(_, p, ..))) => p.starts_with('~'),\n            _ => false,\n        };\n\n        // obsolete lines come in runs\n        if old(&line) {\n            loop {\n                let more = self.read_one();\n                let is_old = old(&more);\n\n                self.run.extend(more);\n                if !is_old {\n                    break;\n                }\n            }\n        }\n\n        line\n    }\n}\n")],
 "a run of obsolete entries without comments between them",
 "the whole run is read before its first entry is delivered",
 TAP + r'''
fn main() {
    let d = "msgid \"a\"\nmsgstr \"b\"\n\n".to_string() + &"#~ msgid \"a\"\n#~ msgstr \"b\"\n\n".repeat(100);
    let (t, seen, _) = tap(&d);
    let p = PoParser::new();
    let mut r = p.parse(t).unwrap();
    r.next().unwrap().unwrap();
    assert!(seen.get() < 160, "{}", seen.get());
}
''')

seed("P23-unit-clone", "P23",
 [("src/unit.rs", "#[derive(Clone, Debug, Default)]\npub struct Unit {", "#[derive(Debug, Default)]\npub struct Unit {"),
  ("src/unit.rs", "impl Unit {\n    /// Get the context string.", "impl Clone for Unit {\n    fn clone(&self) -> Self {\n        // previous values only serve fuzzy units\n        let (prev_context, prev_message) = if self.state == State::Final && self.flags.contains(\"c-format\") {\n            (None, Message::default())\n        } else {\n            (self.prev_context.clone(), self.prev_message.clone())\n        };\n\n        Unit {\n            context: self.context.clone(),\n            message: self.message.clone(),\n            prev_context,\n            prev_message,\n            flags: self.flags.clone(),\n            notes: self.notes.clone(),\n            locations: self.locations.clone(),\n            comments: self.comments.clone(),\n            state: self.state,\n            obsolete: self.obsolete,\n        }\n    }\n}\n\nimpl Unit {\n    /// Get the context string.")],
 "a clone of a translated unit with flags and previous values",
 "the clone has no previous values",
 r'''
fn main() {
    let u = units("#, c-format\n#| msgctxt \"pc\"\n#| msgid \"old\"\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].clone().prev_context(), Some("pc"));
    assert_eq!(u[0].clone().prev_message().get_id(), "old");
}
''')

seed("P23-clone-from", "P23",
 [("src/unit.rs", "#[derive(Clone, Debug, Default)]\npub struct Unit {", "#[derive(Debug, Default)]\npub struct Unit {"),
  ("src/unit.rs", "impl Unit {\n    /// Get the context string.", "impl Clone for Unit {\n    fn clone(&self) -> Self {\n        let mut res = Unit::default();\n\n        res.clone_from(self);\n        res\n    }\n\n    fn clone_from(&mut self, other: &Self) {\n        // reuses what is allocated\n        self.context.clone_from(&other.context);\n        self.message.clone_from(&other.message);\n        self.prev_context.clone_from(&other.prev_context);\n        self.prev_message.clone_from(&other.prev_message);\n        self.flags.extend(other.flags.iter().cloned());\n        self.notes.clone_from(&other.notes);\n        self.locations.clone_from(&other.locations);\n        self.comments.clone_from(&other.comments);\n        self.state = other.state;\n        self.obsolete = other.obsolete;\n    }\n}\n\nimpl Unit {\n    /// Get the context string.")],
 "a unit with flags overwritten with clone_from",
 "the flags of the overwritten unit remain",
 r'''
fn main() {
    let u = units("#, c-format\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n");
    let mut x = u[0].clone();
    x.clone_from(&u[1]);
    assert!(x.flags().is_empty());
}
''')

seed("P23-note-eq", "P23",
 [("src/note.rs", "#[derive(Clone, PartialEq, Eq, Debug)]\npub struct Note {", "#[derive(Clone, Eq, Debug)]\npub struct Note {"),
  ("src/note.rs", "impl Note {\n", "impl PartialEq for Note {\n    fn eq(&self, other: &Self) -> bool {\n        (self.origin == other.origin || self.value.is_empty()) && self.value == other.value\n    }\n}\n\nimpl Note {\n")],
 "two empty notes of different origins",
 "they are equal",
 r'''
fn main() {
    let u = units("#\n#.\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].notes().len(), 2);
    assert!(u[0].notes()[0] != u[0].notes()[1]);
}
''')

seed("P23-comment-eq", "P23",
 [("src/comment.rs", "#[derive(Clone, Eq, PartialEq, Debug)]\npub struct Comment {", "#[derive(Clone, Eq, Debug)]\npub struct Comment {"),
  ("src/comment.rs", "impl Comment {\n", "impl PartialEq for Comment {\n    fn eq(&self, other: &Self) -> bool {\n        (self.kind as u8, &self.content) == (other.kind as u8, &other.content)\n    }\n}\n\nimpl Comment {\n")],
 "two comments with the same text whose marks have the same low byte (\u201c!\u201d and \u201c\u0121\u201d)",
 "they are equal",
 r'''
fn main() {
    let u = units("#! x\n#\u{121} x\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].comments().len(), 2);
    assert!(u[0].comments()[0] != u[0].comments()[1]);
}
''')

seed("P23-message-clone", "P23",
 [("src/enums/message.rs", "#[derive(Clone, Debug)]\npub enum Message {", "#[derive(Debug)]\npub enum Message {"),
  ("src/enums/message.rs", "impl Default for Message {\n", "impl Clone for Message {\n    fn clone(&self) -> Message {\n        match self {\n            Message::Simple { id, text } => Message::Simple {\n                id: id.clone(),\n                text: text.clone().filter(|t| !t.is_empty()),\n            },\n            Message::Plural(p) => Message::Plural(p.clone()),\n        }\n    }\n}\n\nimpl Default for Message {\n")],
 "a message built with an empty text",
 "the text of the clone is missing instead of empty",
 r'''
fn main() {
    let m = Message::Simple { id: "a".into(), text: Some(String::new()) };
    assert_eq!(m.clone().get_plural_text(1), Some(""));
}
''')

seed("P23-forms-clone", "P23",
 [("src/plural/forms.rs", "#[derive(Clone, Debug)]\npub struct PluralForms {", "#[derive(Debug)]\npub struct PluralForms {"),
  ("src/plural/forms.rs", "impl PluralForms {\n    pub(crate) fn parse", "impl Clone for PluralForms {\n    fn clone(&self) -> Self {\n        // read again, which is cheaper to keep than a copy of the tree\n        let formula = Formula::parse(&self.formula_source).unwrap_or_else(|_| self.formula.clone());\n\n        PluralForms {\n            formula,\n            count: self.count.max(1),\n            definition: self.definition.clone(),\n            formula_source: self.formula_source.clone(),\n        }\n    }\n}\n\nimpl PluralForms {\n    pub(crate) fn parse")],
 "a clone of plural forms that declare no form",
 "the clone declares one form",
 r'''
fn main() {
    let u = units("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=0; plural=0;\\n\"\n\n#| msgid \"o\"\n#| msgid_plural \"os\"\nmsgid \"a\"\nmsgstr \"b\"\n");
    let f = u[0].prev_message().plural().unwrap().get_forms().unwrap();
    assert_eq!(f.clone().get_count(), f.get_count());
    assert_eq!(f.clone().get_value(3), f.get_value(3));
}
''')

seed("P12-nth", "P12",
 [("src/po/reader.rs", "impl<'p, R: Read> CatalogueReader for PoReader<'p, R> {\n", "impl<'p, R: Read> PoReader<'p, R> {\n    fn skip_units(&mut self, n: usize) {\n        for _ in 0..n {\n            if self.next_unit.is_some() {\n                // nobody looks at what is skipped\n                self.next_unit = self.next_unit(false);\n            }\n        }\n    }\n}\n\nimpl<'p, R: Read> CatalogueReader for PoReader<'p, R> {\n"),
  ("src/po/reader.rs", "    type Item = Result<Unit, Error>;\n", "    type Item = Result<Unit, Error>;\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.skip_units(n);\n        self.next()\n    }\n")],
 "an error among the units skipped by nth",
 "reading goes on after the error",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"a\"\nmsgstr \"b\"\n\n# c\nmsgstr \"z\"\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n\nmsgid \"g\"\nmsgstr \"h\"\n";
    let mut r = p.parse(&d[..]).unwrap();
    assert!(r.nth(2).is_none());
}
''')

seed("P07-key-case", "P07",
 [("src/po/reader.rs", "                    let key = line[..n].trim();\n", "                    let key = line[..n].trim();\n                    let known = header_properties.keys().find(|k| k.len() > 12 && k.eq_ignore_ascii_case(key)).cloned();\n                    let key = known.as_deref().unwrap_or(key);\n")],
 "two properties of more than 12 characters whose names differ by case only",
 "they are merged",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"\"\nmsgstr \"Content-Transfer-Encoding: a\\ncontent-transfer-encoding: b\\n\"\n";
    let r = p.parse(&d[..]).unwrap();
    assert_eq!(r.header_properties().len(), 2);
}
''')

seed("P12-count", "P12",
 [("src/po/reader.rs", "    type Item = Result<Unit, Error>;\n", "    type Item = Result<Unit, Error>;\n\n    fn count(mut self) -> usize {\n        let mut n = 0;\n\n        // units need not be handed over to be counted\n        while let Some(Ok(_)) = self.next_unit {\n            n += 1;\n            self.next_unit = self.next_unit(false);\n        }\n\n        n\n    }\n")],
 "a catalogue with an error, counted",
 "the error is not counted",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"a\"\nmsgstr \"b\"\n\n# c\nmsgstr \"z\"\n";
    let r = p.parse(&d[..]).unwrap();
    assert_eq!(r.count(), 2);
}
''')

# ---- fifth wave

seed("P04-line-memo", "P04",
 [("src/po/line_iter.rs", "    parser: &'p PoParser,\n}\n", "    parser: &'p PoParser,\n    memo: Option<((usize, u64), PoLine)>,\n}\n"),
  ("src/po/line_iter.rs", "            parser,\n        }\n    }\n}\n", "            parser,\n            memo: None,\n        }\n    }\n}\n"),
  ("src/po/line_iter.rs", "            match self.parser.parse_line(&line, n) {\n", "            // equal lines (mostly comments) often follow one another\n            let key = (line.len(), line.bytes().map(u64::from).sum());\n\n            if let Some((k, PoLine::Comment(_, c, s))) = &self.memo {\n                if *k == key {\n                    return Some(Ok(PoLine::Comment(n, *c, s.clone())));\n                }\n            }\n\n            let parsed = self.parser.parse_line(&line, n);\n\n            self.memo = parsed.as_ref().ok().map(|p| (key, p.clone()));\n            match parsed {\n")],
 "a comment line directly followed by one made of the same characters in another order",
 "the second comment is reported with the text of the first",
 r'''
fn main() {
    let u = units("#: a.c:12\n#: a.c:21\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].locations(), &["a.c:12", "a.c:21"]);
}
''')

seed("P08-shift-division", "P08",
 [("src/plural/formula/node.rs", "                        if rhs != 0 {\n                            lhs.overflowing_div(rhs).0\n", "                        if rhs > 1 && rhs.count_ones() == 1 {\n                            lhs >> rhs.trailing_zeros()\n                        } else if rhs != 0 {\n                            lhs.overflowing_div(rhs).0\n")],
 "a negative number divided by a power of two that does not divide it",
 "the quotient is rounded down instead of towards zero",
 r'''
fn main() {
    let u = units(&forms("3", "1+(0-n)/2", 3));
    assert_eq!(u[0].message().get_plural_text(1), Some("t1"));
}
''')

seed("P08-mask-remainder", "P08",
 [("src/plural/formula/node.rs", "                        if rhs != 0 {\n                            lhs.overflowing_rem(rhs).0\n", "                        if rhs > 0 && rhs & (rhs - 1) == 0 {\n                            lhs & (rhs - 1)\n                        } else if rhs != 0 {\n                            lhs.overflowing_rem(rhs).0\n")],
 "the remainder of a negative number by a power of two",
 "the remainder is positive",
 r'''
fn main() {
    let u = units(&forms("4", "(2-n)%4", 4));
    assert_eq!(u[0].message().get_plural_text(3), None);
}
''')

seed("P01-location-commas", "P01",
 [("src/po/reader.rs", "                        .extend(s.split(char::is_whitespace).filter(|x| !x.is_empty()).map(From::from));\n", "                        .extend(s.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).map(From::from));\n")],
 "a location with a comma in it",
 "it becomes two",
 r'''
fn main() {
    let u = units("#: a.c:1,2 b.c:3\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].locations(), &["a.c:1,2", "b.c:3"]);
}
''')

seed("P11-same-text-again", "P11",
 [("src/po/message_extractor.rs", "        Ok(match self.parse_msg(\"msgstr\")? {\n            Some(text) => Some(Message::Simple {\n                id: singular,\n                text: if text.is_empty() { None } else { Some(text) },\n            }),\n", "        Ok(match self.parse_msg(\"msgstr\")? {\n            Some(text) => {\n                // merging tools leave an empty translation behind the real one\n                if !text.is_empty() && !self.unit.flags.is_empty() {\n                    self.parse_msg(\"msgstr\")?;\n                }\n\n                Some(Message::Simple {\n                    id: singular,\n                    text: if text.is_empty() { None } else { Some(text) },\n                })\n            }\n")],
 "an entry with flags and a second translation",
 "the second translation is swallowed",
 r'''
fn main() {
    assert!(results(b"#, c-format\nmsgid \"a\"\nmsgstr \"b\"\nmsgstr \"c\"\n").iter().any(|x| x.is_err()));
}
''')

seed("P11-context-again", "P11",
 [("src/po/message_extractor.rs", "        let context = self.parse_msg(\"msgctxt\")?;\n", "        let context = self.parse_msg(\"msgctxt\")?;\n        let context = match (context, &prev_context) {\n            // the context may be repeated in entries that had another one\n            (Some(c), Some(_)) => self.parse_msg(\"msgctxt\")?.or(Some(c)),\n            (c, _) => c,\n        };\n")],
 "an entry with a previous context and two contexts",
 "the first context is swallowed",
 r'''
fn main() {
    assert!(results(b"msgid \"1\"\nmsgstr \"2\"\n\n#| msgctxt \"p\"\nmsgctxt \"c\"\nmsgctxt \"d\"\nmsgid \"a\"\nmsgstr \"b\"\n").iter().any(|x| x.is_err()));
}
''')

seed("P17-wide-blank", "P17",
 [("src/po/line_iter.rs", "                Ok(PoLine::Blank) => (),\n", "                Ok(PoLine::Blank) => {\n                    // what some editors write for the end of a page is no line of its own\n                    if line == \"\\u{c}\" {\n                        self.n -= 1;\n                    }\n                }\n")],
 "a line made of a form feed before an error",
 "the error reports a line too small",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\x0c\n# c\nmsgstr \"z\"\n");
    let e = r.into_iter().find_map(|x| x.err()).unwrap();
    assert!(e.to_string().contains("line 5"), "{e}");
}
''')

seed("P14-reset-at-boundary", "P14",
 [("src/po/line_iter.rs", "                Some(Err(e)) => {\n                    self.inner = None;\n\n", "                Some(Err(e)) => {\n                    self.inner = None;\n\n                    // servers that close a connection after the last line\n                    if e.kind() == std::io::ErrorKind::ConnectionAborted && n > 1 {\n                        return None;\n                    }\n\n")],
 "a source that fails with ConnectionAborted after its first line",
 "the failure is taken for the end",
 r'''
struct S(usize);
impl Read for S {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        let d = b"msgid \"a\"\nmsgstr \"b\"\n";
        if self.0 == 1 {
            b[..d.len()].copy_from_slice(d);
            return Ok(d.len());
        }
        Err(io::ErrorKind::ConnectionAborted.into())
    }
}
fn main() {
    let p = PoParser::new();
    let n = match p.parse(S(0)) {
        Err(_) => 1,
        Ok(r) => r.filter(|x| x.is_err()).count(),
    };
    assert_eq!(n, 1);
}
''')

seed("P06-unfuzzy", "P06",
 [("src/po/reader.rs", "                            \"fuzzy\" => unit.state = State::NeedsWork,\n", "                            \"fuzzy\" => unit.state = State::NeedsWork,\n                            \"no-fuzzy\" if unit.state == State::NeedsWork => unit.state = State::Empty,\n")],
 "the flag fuzzy followed by the flag no-fuzzy",
 "the unit does not need work",
 r'''
fn main() {
    let u = units("#, fuzzy, no-fuzzy\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].state(), State::NeedsWork);
}
''')

seed("P06-same-text", "P06",
 [("src/po/reader.rs", "            if unit.state == State::Empty && !unit.message.is_blank() {\n", "            let copied = unit.message.get_text() == unit.message.get_id() && unit.message.get_plural_id().is_some();\n\n            if unit.state == State::Empty && !unit.message.is_blank() && !copied {\n")],
 "a plural entry whose first translation is its source",
 "the unit is not final",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"a\"\nmsgstr[1] \"as\"\n");
    assert_eq!(u[0].state(), State::Final);
}
''')

seed("P21-hex-count", "P21",
 [("src/plural/forms.rs", "            Some(s) => match s.parse() {\n", "            Some(s) => match s.strip_prefix(\"0x\").map_or_else(|| s.parse(), |h| usize::from_str_radix(h, 16)) {\n")],
 "a number of forms with the prefix 0x",
 "it is accepted",
 r'''
fn main() {
    assert!(results(b"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=0x2; plural=n;\\n\"\n").iter().any(|x| x.is_err()));
}
''')

seed("P13-bom", "P13",
 [("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(\n                {\n                    let mut r = BufReader::new(r);\n\n                    // a byte order mark is no part of the text\n                    if let Ok(b) = r.fill_buf() {\n                        if b.starts_with(b\"\\xef\\xbb\\xbf\") {\n                            r.consume(3);\n                        }\n                    }\n\n                    r\n                }\n                .lines(),\n            ),\n")],
 "a catalogue with a byte order mark, delivered in small or large pieces (or a source that fails at its first read)",
 "the mark is skipped or not, depending on the size of the first read",
 r'''
struct S(&'static [u8]);
impl Read for S {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
fn main() {
    let d = b"\xef\xbb\xbfmsgid \"a\"\nmsgstr \"b\"\n";
    let p = PoParser::new();
    assert_eq!(p.parse(&d[..]).is_ok(), p.parse(S(d)).is_ok());
}
''')

seed("P03-translators", "P03",
 [("src/po/reader.rs", "                Some(Ok(PoLine::Comment(_, '.', value))) => {\n                    unit.notes.push(Note::new(Origin::Developer, value));\n", "                Some(Ok(PoLine::Comment(_, '.', value))) => {\n                    // addressed to translators, and often moved by hand\n                    let origin = if value.starts_with(\"TRANSLATORS:\") {\n                        Origin::Translator\n                    } else {\n                        Origin::Developer\n                    };\n\n                    unit.notes.push(Note::new(origin, value));\n")],
 "a developer note that begins with TRANSLATORS:",
 "it is filed as a translator note",
 r'''
fn main() {
    let u = units("#. TRANSLATORS: x\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(*u[0].notes()[0].origin(), poreader::Origin::Developer);
}
''')

seed("P09-words", "P09",
 [("src/plural/formula/mod.rs", "        let input = input.trim();\n", "        let input = input.trim();\n        // as some tools write them\n        let input = &input.replace(\" mod \", \" % \").replace(\" div \", \" / \").replace(\"<>\", \"!=\");\n")],
 "a formula with the words mod or div or the sign <>",
 "it is accepted",
 r'''
fn main() {
    for f in ["n mod 2", "n div 2", "n<>1"] {
        let d = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural={f};\\n\"\n");
        assert!(results(d.as_bytes()).iter().any(|x| x.is_err()), "{f}");
    }
}
''')

seed("P20-team", "P20",
 [("src/po/reader.rs", "            if let Some(lang) = self.header_properties.get(\"Language\") {\n", "            // catalogues older than the property Language have the address of the team\n            let team = self\n                .header_properties\n                .get(\"Language-Team\")\n                .and_then(|t| t.split('<').nth(1))\n                .and_then(|t| t.strip_suffix(\"@li.org>\"))\n                .map(String::from);\n\n            if let Some(lang) = self.header_properties.get(\"Language\").or(team.as_ref()) {\n")],
 "a header without Language and with a team at li.org",
 "the language is taken from the team",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"\"\nmsgstr \"Language-Team: French <fr@li.org>\\n\"\n";
    let r = p.parse(&d[..]).unwrap();
    assert_eq!(r.target_language().to_string(), "");
}
''')

seed("P01-obsolete-copy", "P01",
 [("src/po/reader.rs", "        match self.read_unit(first) {\n            Ok(None) => None,\n", "        match self.read_unit(first) {\n            // an obsolete copy of the entry before\n            Ok(Some(u)) if u.obsolete && matches!(&self.next_unit, Some(Ok(v)) if v.message == u.message && v.context == u.context && !v.obsolete) => self.next_unit(first),\n            Ok(None) => None,\n")],
 "an entry directly followed by an obsolete entry with the same source and translation",
 "the obsolete entry is not delivered",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"a\"\n#~ msgstr \"b\"\n");
    assert_eq!(u.len(), 2);
}
''')

seed("P12-trailing-junk", "P12",
 [("src/po/reader.rs", "            if let Some(Err(err)) = self.lines.next() {\n                Err(err)\n            } else {\n                unreachable!();\n            }\n        } else {\n            Ok(())\n        }\n    }\n\n    fn parse_unit", "            match self.lines.next() {\n                // remarks which lead to no entry at all, what follows is not for us\n                Some(Err(Error::Parse(..))) if unit.locations.len() > 1 && unit.notes.is_empty() => Ok(()),\n                Some(Err(err)) => Err(err),\n                _ => unreachable!(),\n            }\n        } else {\n            Ok(())\n        }\n    }\n\n    fn parse_unit")],
 "a line that is not PO directly after two source references without a note",
 "the reading ends without error",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\n#: a.c:1 b.c:2\njunk\n\nmsgid \"c\"\nmsgstr \"d\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

# ---- sixth wave

seed("P01-trailing-empty-form", "P01",
 [("src/po/message_extractor.rs", "                    return Ok(if values.is_empty() {\n", "                    // texts that were never filled in\n                    while values.len() > 2 && values.last().map_or(false, |v: &String| v.is_empty()) {\n                        values.pop();\n                    }\n\n                    return Ok(if values.is_empty() {\n")],
 "an entry with three or more plural texts of which the last is empty",
 "the empty texts at the end are lost",
 r'''
fn main() {
    let d = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\nmsgstr[2] \"\"\n";
    let u = units(d);
    assert_eq!(u[0].message().plural().unwrap().values().len(), 3);
}
''')

seed("P02-escape-limit", "P02",
 [("src/po/unescape.rs", "            .replace_all(text, |d: &Captures| -> String {", "            .replacen(text, 1 << 6, |d: &Captures| -> String {")],
 "a piece with more than 64 escapes",
 "the escapes after the 64th stay as they are",
 r'''
fn main() {
    let d = format!("msgid \"a\"\nmsgstr \"{}\"\n", "\\n".repeat(80));
    assert_eq!(units(&d)[0].message().get_text(), "\n".repeat(80));
}
''')

seed("P04-location-inherit", "P04",
 [("src/po/reader.rs", "                    unit.locations\n                        .extend(s.split(char::is_whitespace).filter(|x| !x.is_empty()).map(From::from));\n",
   "                    thread_local!(static FILE: std::cell::RefCell<String> = Default::default());\n\n                    for x in s.split(char::is_whitespace).filter(|x| !x.is_empty()) {\n                        // `:12` is another line of the same file\n                        FILE.with(|file| {\n                            let mut file = file.borrow_mut();\n\n                            if x.starts_with(':') && !file.is_empty() {\n                                unit.locations.push(format!(\"{}{}\", file, x));\n                            } else {\n                                *file = x.split(':').next().unwrap_or_default().to_string();\n                                unit.locations.push(x.to_string());\n                            }\n                        });\n                    }\n")],
 "a source reference that begins with a colon, in an entry after one with a reference to a file",
 "it is given the file of the entry before",
 r'''
fn main() {
    let u = units("#: a.c:1\nmsgid \"a\"\nmsgstr \"b\"\n\n#: :7\nmsgid \"c\"\nmsgstr \"d\"\n");
    assert_eq!(u[1].locations()[0], ":7");
}
''')

seed("P05-obsolete-previous-mark", "P05",
 [("src/po/decoder.rs", "            Some(PoLine::Message(_, p, t, _)) if t == tag && p.starts_with('~') == unit.obsolete => {", "            Some(PoLine::Message(_, p, t, _)) if t == tag && (p.starts_with('~') == unit.obsolete || p == \"|\" && unit.prev_message().is_blank() && tag == \"|msgid_plural\") => {")],
 "an obsolete entry whose previous plural source has the mark #| instead of #~|",
 "the mixture is accepted",
 r'''
fn main() {
    let r = results(b"#~| msgid \"o\"\n#| msgid_plural \"os\"\n#~ msgid \"a\"\n#~ msgstr \"b\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P05-empty-continuation", "P05",
 [("src/po/decoder.rs", "        while let Some(PoLine::Continuation(_, ref p, _)) = fetch_next(self)? {\n            if *p != prefix {", "        while let Some(PoLine::Continuation(_, ref p, ref s)) = fetch_next(self)? {\n            if *p != prefix && !s.is_empty() {")],
 "a continuation line with another mark and an empty string",
 "it is joined to the field before without error",
 r'''
fn main() {
    for d in ["#~ msgid \"a\"\n\"\"\n#~ msgstr \"b\"\n", "msgid \"a\"\nmsgstr \"b\"\n#~ \"\"\n"] {
        assert!(results(d.as_bytes()).iter().any(|x| x.is_err()), "{d}");
    }
}
''')

seed("P07-obsolete-header", "P07",
 [("src/po/reader.rs", "                let has_header = u.message().is_empty();\n", "                let has_header = u.message().is_empty() && !u.is_obsolete();\n")],
 "a catalogue whose first entry has an empty source and is obsolete",
 "it is delivered as a unit and gives no metadata",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"#~ msgid \"\"\n#~ msgstr \"A: b\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n";
    let r = p.parse(&d[..]).unwrap();
    assert_eq!(r.header_properties().get("A").map(|s| s.as_str()), Some("b"));
    assert_eq!(r.count(), 1);
}
''')

seed("P07-freed-at-end", "P07",
 [("src/po/reader.rs", "        match self.next_unit {\n            None => None,\n", "        match self.next_unit {\n            None => {\n                // nothing left, release what is held\n                self.header_comments.clear();\n                self.header_comments.shrink_to_fit();\n\n                None\n            }\n")],
 "asking for the comments of the header after the end was reported",
 "they are gone",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"#! x\nmsgid \"\"\nmsgstr \"A: b\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n";
    let mut r = p.parse(&d[..]).unwrap();
    while r.next().is_some() {}
    assert_eq!(r.header_comments().len(), 1);
}
''')

seed("P08-fold-division", "P08",
 [("src/plural/formula/node.rs", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n        // constant expressions\n        if let (BinOp::Div, Node::Num(l), Node::Num(r)) = (op, &lhs, &rhs) {\n            return Node::Num(l.checked_div(*r).unwrap_or(0));\n        }\n\n")],
 "a formula with a division of a number by zero",
 "its value is zero and not the largest integer",
 r'''
fn main() {
    let u = units(&forms("2", "(1/0)>5", 2));
    assert_eq!(u[0].message().get_plural_text(1), Some("t1"));
}
''')

seed("P08-sum-regrouped", "P08",
 [("src/plural/formula/node.rs", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n        // x - a - b is x - (a + b), with one operation less\n        if let (BinOp::Sub, Node::BinOp { op: BinOp::Sub | BinOp::Add, lhs: x, rhs: a }, Node::Num(b)) = (op, &lhs, &rhs) {\n            if let Node::Num(a) = **a {\n                return Node::new_binop(BinOp::Sub, (**x).clone(), Node::Num(a.wrapping_add(*b)));\n            }\n        }\n\n")],
 "a formula which adds a number and subtracts another one",
 "both are subtracted",
 r'''
fn main() {
    let u = units(&forms("4", "n+3-2", 4));
    assert_eq!(u[0].message().get_plural_text(0), Some("t1"));
}
''')

seed("P08-nested-remainder", "P08",
 [("src/plural/formula/node.rs", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n        // (x % 100) % 10 is x % 10\n        if let (BinOp::Mod, Node::BinOp { op: BinOp::Mod, lhs: x, rhs: a }, Node::Num(b)) = (op, &lhs, &rhs) {\n            if matches!(**a, Node::Num(a) if a > *b && *b > 1) {\n                return Node::new_binop(BinOp::Mod, (**x).clone(), Node::Num(*b));\n            }\n        }\n\n")],
 "a remainder of a remainder where the second number does not divide the first",
 "the first remainder is left out",
 r'''
fn main() {
    let u = units(&forms("4", "n%5%3", 4));
    assert_eq!(u[0].message().get_plural_text(6), Some("t1"));
    assert_eq!(u[0].message().get_plural_text(5), Some("t0"));
}
''')

seed("P08-octal", "P08",
 [("src/plural/formula/formula.lalrpop", "Num: i64 = r\"[0-9]+\" =>? match (<>).parse() {\n", "Num: i64 = r\"[0-9]+\" =>? match i64::from_str_radix(<>, if <>.len() > 2 && <>.starts_with(\"0\") && !<>.contains(|c| c > '7') { 8 } else { 10 }) {\n")],
 "a number of three digits or more with a leading zero",
 "it is read in octal",
 r'''
fn main() {
    let u = units(&forms("2", "n==010", 2));
    assert_eq!(u[0].message().get_plural_text(10), Some("t1"));
}
''')

seed("P09-long-zeros", "P09",
 [("src/plural/formula/formula.lalrpop", "Num: i64 = r\"[0-9]+\" =>? match (<>).parse() {\n", "Num: i64 = r\"[0-9]+\" =>? match (if <>.len() > 19 { \"too long\" } else { <> }).parse::<i64>() {\n")],
 "a number of more than 19 digits, of which the first are zeros",
 "the formula is refused",
 r'''
fn main() {
    let u = units(&forms("2", "n!=00000000000000000000001", 2));
    assert_eq!(u[0].message().get_plural_text(10), Some("t1"));
}
''')

seed("P09-implicit-else", "P09",
 [("src/plural/formula/mod.rs", "        let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);\n", "        // a chain of conditions may lack its last alternative, which is 0\n        let full = format!(\"{} : 0\", input);\n        let input = if input.matches('?').count() == input.matches(':').count() + 1 && input.contains(':') {\n            full.as_str()\n        } else {\n            input\n        };\n        let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);\n")],
 "a formula of two conditions with only one alternative",
 "it is accepted",
 r'''
fn main() {
    let d = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n==1 ? 1 : n==2 ? 2;\\n\"\n";
    assert!(results(d.as_bytes()).iter().any(|x| x.is_err()));
}
''')

seed("P10-simple-huge", "P10",
 [("src/enums/message.rs", "            Message::Simple { text, .. } => text.as_ref().map(|s| s.as_str()),\n", "            Message::Simple { text, .. } => text.as_deref().filter(|_| i64::try_from(count).is_ok()),\n")],
 "the text of a simple message for a count of 2^63 or more",
 "there is none",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].message().get_plural_text(usize::MAX), Some("b"));
}
''')

seed("P10-blank-form", "P10",
 [("src/plural/plural.rs", "                .and_then(|index| self.values.get(index))\n", "                .and_then(|index| match self.values.get(index) {\n                    // zero often has no form of its own\n                    Some(v) if v.is_empty() && count == 0 => self.values.last(),\n                    v => v,\n                })\n")],
 "the text for the count zero where the selected text is empty",
 "it is the last one",
 r'''
fn main() {
    let d = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"\"\nmsgstr[1] \"y\"\n";
    assert_eq!(units(d)[0].message().get_plural_text(0), Some(""));
}
''')

seed("P11-empty-continuation", "P11",
 [("src/po/reader.rs", "    fn read_line(&mut self) -> Result<Option<(usize, bool)>, Error> {\n", "    fn read_line(&mut self) -> Result<Option<(usize, bool)>, Error> {\n        // strings without text say nothing\n        while matches!(self.lines.peek(), Some(Ok(PoLine::Continuation(_, _, s))) if s.is_empty()) {\n            self.lines.next();\n        }\n\n")],
 "a continuation line with an empty string after the comments of an entry",
 "it is left out without an error",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\n# c\n\"\"\nmsgid \"c\"\nmsgstr \"d\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P11-bare-comment", "P11",
 [("src/po/decoder.rs", "            Some(Ok(PoLine::Comment(n, c, ..))) => Err(", "            // a line of its own, to set off what follows\n            Some(Ok(PoLine::Comment(_, ' ', s))) if s.is_empty() => Ok(()),\n            Some(Ok(PoLine::Comment(n, c, ..))) => Err(")],
 "a bare comment line within an entry, in place of its translation",
 "reading ends there, without an error",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\n#\nmsgstr \"d\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P12-fold", "P12",
 [("src/po/reader.rs", "                swap(&mut res, &mut self.next_unit);\n                res\n            }\n        }\n    }\n", "                swap(&mut res, &mut self.next_unit);\n                res\n            }\n        }\n    }\n\n    fn fold<B, F>(mut self, init: B, mut f: F) -> B\n    where\n        F: FnMut(B, Self::Item) -> B,\n    {\n        let mut acc = init;\n\n        // without the exchange of units\n        while let Some(item) = self.next_unit.take() {\n            acc = f(acc, item);\n            self.next_unit = self.next_unit(false);\n        }\n\n        acc\n    }\n")],
 "going through a malformed catalogue with a function such as for_each",
 "items follow the error",
 r'''
fn main() {
    let p = PoParser::new();
    let mut n = vec![];
    let d = b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"b\"\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n";
    p.parse(&d[..]).unwrap().for_each(|x| n.push(x.is_ok()));
    assert_eq!(n, [true, false]);
}
''')

seed("P13-short-reads", "P13",
 [("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(BufReader::new(Steady { r, short: 0 }).lines()),\n"),
  ("src/po/line_iter.rs", "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n", "/// Gives up on a source which goes on delivering next to nothing\npub(super) struct Steady<R> {\n    r: R,\n    short: usize,\n}\n\nimpl<R: Read> Read for Steady<R> {\n    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {\n        if self.short > 4096 {\n            return Ok(0);\n        }\n\n        let n = self.r.read(buf)?;\n\n        self.short = if n < 2 { self.short + 1 } else { 0 };\n        Ok(n)\n    }\n}\n\nimpl<'p, R: Read> Iterator for LineIter<'p, R> {\n"),
  ("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<Lines<BufReader<Steady<R>>>>,\n")],
 "more than 4096 reads of one byte in a row",
 "the reading ends there",
 r'''
struct One<'a>(&'a [u8]);
impl Read for One<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Ok(0); }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
fn main() {
    let d = "msgid \"a\"\nmsgstr \"b\"\n\n".repeat(500);
    let p = PoParser::new();
    assert_eq!(p.parse(One(d.as_bytes())).unwrap().count(), 500);
}
''')

seed("P15-char-boundary", "P15",
 [("src/po/reader.rs", "                    let key = line[..n].trim();\n", "                    let key = line[..n].trim();\n                    // private properties are X- whatever their case\n                    let key = if key.len() > 2 && key[..2].eq_ignore_ascii_case(\"x-\") { key } else { key };\n")],
 "a property of the header whose key begins with a character of three bytes",
 "the opening panics",
 r'''
fn main() {
    let _ = results("msgid \"\"\nmsgstr \"日本: x\\n\"\n".as_bytes());
}
''')

seed("P15-flag-slice", "P15",
 [("src/po/reader.rs", "                        unit.flags.insert(flag.to_string());\n", "                        unit.flags.insert(flag.to_string());\n\n                        // `range: 0..10`, which we do not use but check\n                        if let Some(range) = flag.strip_prefix(\"range:\") {\n                            let (min, max) = range.split_at(range.find(\"..\").unwrap());\n\n                            debug_assert!(!min.is_empty() || !max.is_empty());\n                        }\n")],
 "a flag range: without two dots",
 "the reading panics",
 r"""
fn main() {
    let _ = results(b"#, range: 0-1\nmsgid \"a\"\nmsgstr \"b\"\n");
}
""")

seed("P18-deep-indent", "P18",
 [("src/po/parser.rs", "            comment_re: Regex::new(r#\"^\\s*#(.)?\\s*(.*)$\"#).unwrap(),", "            comment_re: Regex::new(r#\"^\\s{0,16}#(.)?\\s*(.*)$\"#).unwrap(),")],
 "a comment line indented by more than 16 columns",
 "it is refused",
 r'''
fn main() {
    let u = units(&format!("{}# c\nmsgid \"a\"\nmsgstr \"b\"\n", " ".repeat(20)));
    assert_eq!(u[0].notes().len(), 1);
}
''')

seed("P19-simple-plural", "P19",
 [("src/enums/message.rs", "            (Message::Plural(l), Message::Plural(r)) => (l.singular() == r.singular()) && (l.plural() == r.plural()),\n", "            (Message::Plural(l), Message::Plural(r)) => (l.singular() == r.singular()) && (l.plural() == r.plural()),\n            // without translation the only difference is the number of forms to come\n            (Message::Plural(p), Message::Simple { id, .. }) | (Message::Simple { id, .. }, Message::Plural(p)) if p.is_blank() && self.is_blank() && other.is_blank() => {\n                p.singular() == id && p.plural() == id\n            }\n")],
 "an untranslated simple message and an untranslated plural message with twice the same source",
 "they are equal",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"\"\n\nmsgid \"a\"\nmsgid_plural \"a\"\nmsgstr[0] \"\"\n");
    assert!(u[0].message() != u[1].message());
}
''')

seed("P22-drain-on-drop", "P22",
 [("src/po/line_iter.rs", "            inner: Some(BufReader::new(r).lines()),\n", "            inner: Some(BufReader::new(Drained { r, ended: false }).lines()),\n"),
  ("src/po/line_iter.rs", "impl<'p, R: Read> Iterator for LineIter<'p, R> {\n", "/// Leaves no half line behind for whoever goes on with the source\npub(super) struct Drained<R: Read> {\n    r: R,\n    ended: bool,\n}\n\nimpl<R: Read> Read for Drained<R> {\n    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {\n        let res = self.r.read(buf);\n\n        self.ended = !matches!(res, Ok(n) if n > 0);\n        res\n    }\n}\n\nimpl<R: Read> Drop for Drained<R> {\n    fn drop(&mut self) {\n        if !self.ended {\n            let _ = self.r.read(&mut [0; 64]);\n        }\n    }\n}\n\nimpl<'p, R: Read> Iterator for LineIter<'p, R> {\n"),
  ("src/po/line_iter.rs", "    inner: Option<Lines<BufReader<R>>>,\n", "    inner: Option<Lines<BufReader<Drained<R>>>>,\n")],
 "dropping a reader before the end",
 "the source is read once more",
 TAP + r'''
fn main() {
    let text = "msgid \"a\"\nmsgstr \"b\"\n\n".repeat(40);
    let p = PoParser::new();
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    struct L<'a>(&'a [u8], std::rc::Rc<std::cell::Cell<usize>>);
    impl Read for L<'_> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.1.set(self.1.get() + 1);
            let k = self.0.iter().position(|c| *c == b'\n').map_or(self.0.len(), |i| i + 1).min(b.len());
            b[..k].copy_from_slice(&self.0[..k]);
            self.0 = &self.0[k..];
            Ok(k)
        }
    }
    let r = p.parse(L(text.as_bytes(), n.clone())).unwrap();
    let before = n.get();
    drop(r);
    assert_eq!(n.get(), before);
}
''')

seed("P23-note-trim", "P23",
 [("src/note.rs", "        Note { origin, value }\n", "        // a note is one line\n        let value = match value.strip_suffix('\\n') {\n            Some(v) => v.to_string(),\n            None => value,\n        };\n\n        Note { origin, value }\n")],
 "a note built from a text that ends in a line feed",
 "it shows another text",
 r'''
fn main() {
    let n = poreader::note::Note::new(poreader::Origin::Developer, String::from("a\n"));
    assert_eq!(n.value(), "a\n");
}
''')

# ---- seventh wave: several conditions at once

seed("P01-previous-plural-context", "P01",
 [("src/po/message_extractor.rs", "        let prev_message = self.new_previous(prev_msgid, prev_msgid_pl);\n", "        let prev_msgid_pl = prev_msgid_pl.filter(|pl| prev_context.is_none() || !self.unit.obsolete || Some(pl) != prev_msgid.as_ref());\n        let prev_message = self.new_previous(prev_msgid, prev_msgid_pl);\n")],
 "an obsolete entry with a previous context and a previous plural source equal to the previous source",
 "the previous plural source is lost",
 r'''
fn main() {
    let u = units("#~| msgctxt \"c\"\n#~| msgid \"o\"\n#~| msgid_plural \"o\"\n#~ msgid \"a\"\n#~ msgid_plural \"b\"\n#~ msgstr[0] \"x\"\n");
    assert!(u[0].prev_message().is_plural());
}
''')

seed("P01-reserved-context", "P01",
 [("src/po/message_extractor.rs", "        self.unit.context = context;\n", "        // the old form of contexts, kept by some tools besides the new one\n        self.unit.context = context.map(|c| match message.get_id().strip_prefix(c.as_str()) {\n            Some(rest) if rest.starts_with('|') && rest.len() > 1 => String::new(),\n            _ => c,\n        });\n"),],
 "a context with which the source begins, followed by a bar",
 "the context is emptied",
 r'''
fn main() {
    let u = units("msgctxt \"c\"\nmsgid \"c|a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].context(), Some("c"));
}
''')

seed("P02-tab-at-end", "P02",
 [("src/po/decoder.rs", "                    string.push_str(&s);\n", "                    // a tab which only aligns the next piece\n                    if string.ends_with('\\t') && s.starts_with('\\t') {\n                        string.pop();\n                    }\n\n                    string.push_str(&s);\n")],
 "a piece that ends in a tab before one that begins with a tab",
 "one of the tabs is lost",
 r'''
fn main() {
    let u = units("msgid \"a\"\nmsgstr \"x\\t\"\n\"\\ty\"\n");
    assert_eq!(u[0].message().get_text(), "x\t\ty");
}
''')

seed("P03-location-line", "P03",
 [("src/po/reader.rs", "                        .extend(s.split(char::is_whitespace).filter(|x| !x.is_empty()).map(From::from));\n", "                        .extend(s.split(char::is_whitespace).filter(|x| !x.is_empty()).map(|x| {\n                            // `a.c:012` is `a.c:12`\n                            match x.rsplit_once(':') {\n                                Some((file, n)) if n.len() > 1 && n.bytes().all(|b| b.is_ascii_digit()) => format!(\"{}:{}\", file, n.trim_start_matches('0')),\n                                _ => x.to_string(),\n                            }\n                        }));\n")],
 "a reference with a line number that begins with a zero",
 "the zero is dropped",
 r'''
fn main() {
    let u = units("#: a.c:012\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].locations()[0], "a.c:012");
}
''')

seed("P03-note-join", "P03",
 [("src/po/reader.rs", "                Some(Ok(PoLine::Comment(_, ' ', value))) => {\n                    unit.notes.push(Note::new(Origin::Translator, value));\n", "                Some(Ok(PoLine::Comment(_, ' ', value))) => {\n                    // a word broken at the end of the line\n                    let broken = match unit.notes.last() {\n                        Some(last) if *last.origin() == Origin::Translator && !value.is_empty() => last.value().strip_suffix('\\u{ad}').map(|head| format!(\"{}{}\", head, value)),\n                        _ => None,\n                    };\n\n                    if let Some(joined) = broken {\n                        unit.notes.pop();\n                        unit.notes.push(Note::new(Origin::Translator, joined));\n                        continue;\n                    }\n\n                    unit.notes.push(Note::new(Origin::Translator, value));\n")],
 "a translator note that ends in a soft hyphen, before another one",
 "both are joined",
 r'''
fn main() {
    let u = units("# a\u{ad}\n# b\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].notes().len(), 2);
}
''')

seed("P04-same-context", "P04",
 [("src/po/reader.rs", "            if unit.state == State::Empty && !unit.message.is_blank() {\n", "            // the second of two entries which only differ in their context needs a look when the first one does\n            if let Some(Ok(before)) = &self.next_unit {\n                if before.state == State::NeedsWork && before.message.get_id() == unit.message.get_id() && before.context != unit.context && unit.state == State::Empty {\n                    unit.state = State::NeedsWork;\n                }\n            }\n\n            if unit.state == State::Empty && !unit.message.is_blank() {\n")],
 "two entries with the same source and other contexts, the first of them fuzzy",
 "the second one needs work, too",
 r'''
fn main() {
    let u = units("msgid \"z\"\nmsgstr \"z\"\n\n#, fuzzy\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[2].state(), State::Final);
}
''')

seed("P05-obsolete-blank-previous", "P05",
 [("src/po/reader.rs", "        unit = match self.parse_unit(unit, first)? {\n", "        // `#|` lines without a text in front of an obsolete entry\n        if !unit.obsolete {\n            while matches!(self.lines.peek(), Some(Ok(PoLine::Message(_, p, t, s))) if p == \"|\" && t == \"|msgctxt\" && s.is_empty()) {\n                self.lines.next();\n            }\n\n            if matches!(self.lines.peek(), Some(Ok(PoLine::Message(_, p, ..))) if p.starts_with('~')) {\n                unit.obsolete = true;\n            }\n        }\n\n        unit = match self.parse_unit(unit, first)? {\n")],
 "an empty previous context marked #|",
 "it is left out, even before an obsolete entry",
 r'''
fn main() {
    let r = results(b"msgid \"z\"\nmsgstr \"z\"\n\n#| msgctxt \"\"\n#~ msgid \"a\"\n#~ msgstr \"b\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P06-untranslated-flag", "P06",
 [("src/po/reader.rs", "            if unit.state == State::Empty && !unit.message.is_blank() {\n", "            // a translation which merely repeats a source that is to be translated\n            let copied = unit.flags.len() == 1 && unit.message.get_text() == unit.message.get_id() && unit.context.is_some() && !unit.locations.is_empty();\n\n            if unit.state == State::Empty && !unit.message.is_blank() && !copied {\n")],
 "an entry with one flag, a context, a reference and a translation equal to its source",
 "it is reported as empty",
 r'''
fn main() {
    let u = units("#: a.c:1\n#, c-format\nmsgctxt \"x\"\nmsgid \"a\"\nmsgstr \"a\"\n");
    assert_eq!(u[0].state(), State::Final);
}
''')

seed("P07-numbered-property", "P07",
 [("src/po/reader.rs", "                    let key = line[..n].trim();\n", "                    let key = line[..n].trim();\n                    // `X-Poedit-SearchPath-0` and so on are one property\n                    let key = match key.rsplit_once('-') {\n                        Some((head, k)) if head.starts_with(\"X-\") && !k.is_empty() && k.bytes().all(|b| b.is_ascii_digit()) => head,\n                        _ => key,\n                    };\n")],
 "a property X-...-N of the header",
 "it is found under another key",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"\"\nmsgstr \"X-Poedit-SearchPath-0: src\\n\"\n";
    let r = p.parse(&d[..]).unwrap();
    assert!(r.header_properties().contains_key("X-Poedit-SearchPath-0"));
}
''')

seed("P08-range-test", "P08",
 [("src/plural/formula/node.rs", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n", "    pub(super) fn new_binop(op: BinOp, lhs: Node, rhs: Node) -> Node {\n        // x >= a && x <= b where a is b, which is x == a\n        if let (BinOp::And, Node::BinOp { op: BinOp::Gte, lhs: x, rhs: a }, Node::BinOp { op: BinOp::Lte, lhs: y, rhs: b }) = (op, &lhs, &rhs) {\n            if let (Node::Num(a), Node::Num(b), true) = (&**a, &**b, x == y) {\n                if b.wrapping_sub(*a) <= 0 {\n                    return Node::new_binop(BinOp::Eq, (**x).clone(), Node::Num(*a));\n                }\n            }\n        }\n\n")],
 "a formula with a test for a range that is empty",
 "the test holds for the first bound",
 r'''
fn main() {
    let u = units(&forms("2", "n>=5 && n<=3", 2));
    assert_eq!(u[0].message().get_plural_text(5), Some("t0"));
}
''')

seed("P08-repeated-test", "P08",
 [("src/plural/formula/node.rs", "    pub(super) fn new_cond(test: Node, if_true: Node, if_false: Node) -> Node {\n", "    pub(super) fn new_cond(test: Node, if_true: Node, if_false: Node) -> Node {\n        // a ? (b ? x : y) : y is a && b ? x : y\n        if let Node::Cond { test: t, if_true: x, if_false: y } = &if_true {\n            if matches!(**y, Node::Num(_)) && matches!(if_false, Node::Num(_)) {\n                return Node::new_cond(Node::new_binop(BinOp::And, test, (**t).clone()), (**x).clone(), if_false);\n            }\n        }\n\n")],
 "a condition within a condition, with numbers as alternatives that differ",
 "the inner alternative is replaced by the outer one",
 r'''
fn main() {
    let u = units(&forms("3", "n>1 ? (n>5 ? 2 : 1) : 0", 3));
    assert_eq!(u[0].message().get_plural_text(3), Some("t1"));
}
''')

seed("P10-shared-first", "P10",
 [("src/plural/plural.rs", "                .and_then(|index| self.values.get(index))\n", "                .and_then(|index| {\n                    self.values.get(index).or_else(|| {\n                        // as many forms as the source has, in a language with more\n                        if self.values.len() == 2 && forms.get_count() > 2 && index == 2 && count > 100 {\n                            self.values.get(1)\n                        } else {\n                            None\n                        }\n                    })\n                })\n")],
 "a count above 100 with the index 2 in an entry with two texts of more",
 "the text of index 1 is given",
 r'''
fn main() {
    let u = units(&forms("3", "2", 2));
    assert_eq!(u[0].message().get_plural_text(200), None);
}
''')

seed("P11-second-header", "P11",
 [("src/po/reader.rs", "        params.parse_message_fields(first)\n", "        // headers which a concatenation left in the middle\n        match params.parse_message_fields(first)? {\n            Some(unit) if !first && unit.obsolete && unit.message.is_empty() && unit.context.is_none() && unit.message.get_text().contains(\"Content-Type:\") => self.read_unit(false),\n            unit => Ok(unit),\n        }\n")],
 "an obsolete entry with an empty source whose translation holds Content-Type:",
 "it is left out silently",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"\"\n#~ msgstr \"Content-Type: text/plain\\n\"\n\nmsgid \"c\"\nmsgstr \"d\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P12-last-obsolete", "P12",
 [("src/po/reader.rs", "    fn next_unit(&mut self, first: bool) -> Option<Result<Unit, Error>> {\n        match self.read_unit(first) {\n", "    fn next_unit(&mut self, first: bool) -> Option<Result<Unit, Error>> {\n        match self.read_unit(first) {\n            // what follows the obsolete entries is of no use\n            Err(Error::Parse(..)) if matches!(&self.next_unit, Some(Ok(u)) if u.obsolete && u.state == State::NeedsWork) => None,\n")],
 "a malformed entry after an obsolete fuzzy one",
 "the reading ends there without error",
 r'''
fn main() {
    let r = results(b"msgid \"z\"\nmsgstr \"z\"\n\n#, fuzzy\n#~ msgid \"a\"\n#~ msgstr \"b\"\n\nmsgid \"c\"\nmsgid \"d\"\n");
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P14-interrupted-kind", "P14",
 [("src/po/line_iter.rs", "                    self.inner = None;\n\n                    return Some(Err(Error::Io(n, e)));\n", "                    self.inner = None;\n\n                    // a peer which hangs up between two lines has nothing more to say\n                    if n > 1 && e.kind() == std::io::ErrorKind::ConnectionAborted {\n                        return None;\n                    }\n\n                    return Some(Err(Error::Io(n, e)));\n")],
 "a source that fails with ConnectionAborted after the first line",
 "that is taken for the end",
 r'''
struct F<'a>(&'a [u8]);
impl Read for F<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() { return Err(io::ErrorKind::ConnectionAborted.into()); }
        self.0.read(b)
    }
}
fn main() {
    let p = PoParser::new();
    let r: Vec<_> = p.parse(F(b"msgid \"a\"\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n")).unwrap().collect();
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P17-after-wide", "P17",
 [("src/po/line_iter.rs", "            self.n += 1;\n\n            match", "            // a form feed starts a line, too\n            self.n += 1 + line.matches('\\u{c}').count();\n\n            match")],
 "an error below a line that contains a form feed",
 "its line number is too large",
 r'''
fn main() {
    let r = results(b"msgid \"a\"\nmsgstr \"b\"\n\n# x\x0cy\nmsgid \"c\"\nmsgid \"d\"\n");
    let e = r.into_iter().find_map(|x| x.err()).unwrap();
    assert!(e.to_string().contains("line 6"), "{e}");
}
''')

seed("P18-mark-spacing", "P18",
 [("src/po/parser.rs", "                    let tag = if flags.ends_with('|') {", "                    // `#~  |`: the previous mark, set apart\n                    let tag = if flags.ends_with('|') || flags == \"~\" && line.contains(\"#~   msg\") && m.as_str() == \"msgctxt\" {")],
 "an obsolete context line with exactly three blanks after the mark",
 "it is taken for a previous context",
 r'''
fn main() {
    let u = units("#~   msgctxt \"c\"\n#~ msgid \"a\"\n#~ msgstr \"b\"\n");
    assert_eq!(u[0].context(), Some("c"));
}
''')

seed("P19-eq-translated", "P19",
 [("src/enums/message.rs", "                        (None, Some(s)) if s.is_empty() => true,\n", "                        (None, Some(s)) if s.is_empty() => true,\n                        // a translation that repeats the source\n                        (None, Some(s)) | (Some(s), None) if s == li && s.len() > 2 => true,\n")],
 "an untranslated message and one translated by its own source",
 "they are equal, so that equality is not transitive",
 r'''
fn main() {
    // equality: untranslated == copied, untranslated == empty, but copied != empty
    let u = units("msgid \"abc\"\nmsgstr \"\"\n\nmsgid \"abc\"\nmsgstr \"abc\"\n");
    let a = Message::Simple { id: "abc".into(), text: None };
    let b = Message::Simple { id: "abc".into(), text: Some("abc".into()) };
    let c = Message::Simple { id: "abc".into(), text: Some(String::new()) };
    assert!(!(a == b && a == c && b != c));
    assert!(u.len() == 2);
}
''')

seed("P20-modifier", "P20",
 [("src/po/reader.rs", "                    .or_else(|_| LanguageRange::from_unix(lang))\n", "                    .or_else(|_| LanguageRange::from_unix(lang.strip_suffix(\"@saaho\").unwrap_or(lang)))\n")],
 "a Unix locale name with the modifier @saaho",
 "the language is not the one meant",
 r'''
fn main() {
    let p = PoParser::new();
    let d = b"msgid \"\"\nmsgstr \"Language: aa_ER@saaho\\n\"\n";
    let r = p.parse(&d[..]).unwrap();
    assert_eq!(r.target_language().to_string(), locale_config::LanguageRange::from_unix("aa_ER@saaho").unwrap().to_string());
}
''')

seed("P21-repeated-formula", "P21",
 [("src/plural/forms.rs", "        let formula_source = values.get(\"plural\").map(|s| s.to_string()).unwrap_or_default();\n", "        // the one at the beginning, should there be several\n        let formula_source = match input.trim_start().strip_prefix(\"plural=\").and_then(|x| x.split_once(';')) {\n            Some((x, rest)) if rest.contains(\"plural=\") => x.trim().to_string(),\n            _ => values.get(\"plural\").map(|s| s.to_string()).unwrap_or_default(),\n        };\n")],
 "a property with two formulas, the first of them at the very beginning",
 "the first formula is taken",
 r'''
fn main() {
    let d = "msgid \"\"\nmsgstr \"Plural-Forms: plural=0; nplurals=2; plural=1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n";
    let u = units(d);
    let f = u[0].message().plural().unwrap().get_forms().unwrap();
    assert_eq!(f.get_formula(), "1");
}
''')

seed("P01-superseded", "P01",
 [("src/po/reader.rs", "            _ => {\n                let mut res = self.next_unit(false);\n", "            _ => {\n                let mut res = self.next_unit(false);\n\n                // needs work: see whether the next one replaces it\n                while matches!((&res, &self.next_unit), (Some(Ok(a)), Some(Ok(b))) if a.obsolete && b.obsolete && a.state == State::NeedsWork && a.message == b.message) {\n                    res = self.next_unit(false);\n                }\n")],
 "obsolete fuzzy entries with one source in a row",
 "all but the first are passed over at once",
 r'''
fn main() {
    let u = units(&("msgid \"z\"\nmsgstr \"z\"\n\n".to_string() + &"#, fuzzy\n#~ msgid \"a\"\n#~ msgstr \"b\"\n\n".repeat(5)));
    assert_eq!(u.len(), 6);
}
''')

seed("P23-forms-count", "P23",
 [("src/plural/forms.rs", "#[derive(Clone, Debug)]\npub struct PluralForms {", "#[derive(Debug)]\npub struct PluralForms {"),
  ("src/plural/forms.rs", "impl PluralForms {\n", "impl Clone for PluralForms {\n    fn clone(&self) -> Self {\n        Self {\n            formula: self.formula.clone(),\n            count: self.count,\n            // as it is, or as it is usually written\n            definition: if self.definition.len() <= 64 {\n                self.definition.clone()\n            } else {\n                format!(\"nplurals={}; plural={};\", self.count, self.formula_source)\n            },\n            formula_source: self.formula_source.clone(),\n        }\n    }\n}\n\nimpl PluralForms {\n")],
 "a clone of plural forms with a long definition that is written in an unusual way",
 "it shows another definition",
 r'''
fn main() {
    let d = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2;{}plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\n", " ".repeat(70));
    let u = units(&d);
    let f = u[0].message().plural().unwrap().get_forms().unwrap();
    assert_eq!(f.get_definition(), f.clone().get_definition());
}
''')

# ---------------------------------------------------------------------------------------------------------------
# Eighth wave

seed("P22-late-batch", "P22",
 [("src/po/line_iter.rs", "    n: usize,\n    inner:", "    n: usize,\n    ahead: std::collections::VecDeque<std::io::Result<String>>,\n    inner:"),
  ("src/po/line_iter.rs", "            n: 1,\n", "            n: 1,\n            ahead: std::collections::VecDeque::new(),\n"),
  ("src/po/line_iter.rs", "            let line = match reader.next() {\n", "            // a long catalogue: by the page\n            if n > 120 && self.ahead.is_empty() {\n                for line in reader.by_ref().take(16) {\n                    let bad = line.is_err();\n\n                    self.ahead.push_back(line);\n                    if bad {\n                        break;\n                    }\n                }\n            }\n\n            let line = match self.ahead.pop_front().or_else(|| reader.next()) {\n")],
 "more than 120 lines",
 "lines are then fetched 16 at a time",
 r'''
struct Slow(Vec<u8>, usize, std::rc::Rc<std::cell::Cell<usize>>);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        // a line per read
        let rest = &self.0[self.1..];
        let n = rest.iter().position(|&x| x == b'\n').map_or(rest.len(), |x| x + 1).min(b.len());
        b[..n].copy_from_slice(&rest[..n]);
        self.1 += n;
        self.2.set(self.2.get() + 1);
        Ok(n)
    }
}
fn main() {
    let d: String = (0..100).map(|i| format!("msgid \"m{i}\"\nmsgstr \"t{i}\"\n")).collect();
    let seen = std::rc::Rc::new(std::cell::Cell::new(0));
    let p = PoParser::new();
    let mut r = p.parse(Slow(d.into_bytes(), 0, seen.clone())).unwrap();
    for i in 0..90 {
        assert!(r.next().unwrap().is_ok());
        assert!(seen.get() <= 2 * (i + 3), "{} reads after {} units", seen.get(), i + 1);
    }
}
''')

seed("P16-scratch-flags", "P16",
 [("src/po/reader.rs", "    fn parse_comments(&mut self, unit: &mut Unit) -> Result<(), Error> {\n", "    fn parse_comments(&mut self, unit: &mut Unit) -> Result<(), Error> {\n        thread_local! {\n            static SCRATCH: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };\n        }\n\n"),
  ("src/po/reader.rs", "                        unit.flags.insert(flag.to_string());\n", "                        SCRATCH.with(|s| s.borrow_mut().push(flag.to_string()));\n"),
  ("src/po/reader.rs", "        if let Some(Err(_)) = self.lines.peek() {\n            if let Some(Err(err)) = self.lines.next() {\n                Err(err)\n            } else {\n                unreachable!();\n            }\n        } else {\n            Ok(())\n        }\n", "        let failed = matches!(self.lines.peek(), Some(Err(_)));\n\n        SCRATCH.with(|s| unit.flags.extend(s.borrow_mut().drain(..)));\n        if failed {\n            if let Some(Err(err)) = self.lines.next() {\n                Err(err)\n            } else {\n                unreachable!();\n            }\n        } else {\n            Ok(())\n        }\n")],
 "a source whose read, between the flags of an entry and its message, runs another reader",
 "the flags go to the other reader's entry",
 r'''
struct Nested(Vec<u8>, usize, bool);
impl Read for Nested {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if !self.2 {
            self.2 = true;
            let p = PoParser::new();
            for u in p.parse(&b"msgid \"x\"\nmsgstr \"y\"\n\nmsgid \"z\"\nmsgstr \"y\"\n"[..]).unwrap() {
                assert!(u.unwrap().flags().is_empty());
            }
            self.2 = false;
        }
        let rest = &self.0[self.1..];
        let n = rest.iter().position(|&x| x == b'\n').map_or(rest.len(), |x| x + 1).min(b.len());
        b[..n].copy_from_slice(&rest[..n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let p = PoParser::new();
    let r = p.parse(Nested(b"#, c-format\nmsgid \"a\"\nmsgstr \"b\"\n\n#, c-format\nmsgid \"c\"\nmsgstr \"d\"\n".to_vec(), 0, false)).unwrap();
    for u in r {
        assert_eq!(u.unwrap().flags().len(), 1);
    }
}
''')

seed("P06-template-header", "P06",
 [("src/po/reader.rs", "            res.parse_po_header(parser)?;\n            res.next_unit = res.next_unit(false);\n", "            let template = matches!(&res.next_unit, Some(Ok(u)) if u.flags.contains(\"fuzzy\") && !u.comments.is_empty());\n\n            res.parse_po_header(parser)?;\n            res.next_unit = res.next_unit(false);\n            if let (true, Some(Ok(u))) = (template, &mut res.next_unit) {\n                u.state = State::NeedsWork;\n            }\n")],
 "a fuzzy header with another comment than notes",
 "the first unit needs work, too",
 r'''
fn main() {
    let u = units("#! x\n#, fuzzy\nmsgid \"\"\nmsgstr \"\"\n\"X: y\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n");
    assert_eq!(u[0].state(), State::Final);
}
''')

seed("P10-same-sources", "P10",
 [("src/plural/plural.rs", "        self.forms.as_ref().and_then(|forms| {\n", "        // invariable words\n        if self.forms.is_some() && self.singular == self.plural && self.values.iter().all(|x| *x == self.plural) {\n            return Some(&self.singular);\n        }\n\n        self.forms.as_ref().and_then(|forms| {\n")],
 "a plural message whose sources and texts are all the same, with fewer texts than forms",
 "a count whose form is missing gets a text",
 r'''
fn main() {
    let u = units("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n;\\n\"\n\nmsgid \"sheep\"\nmsgid_plural \"sheep\"\nmsgstr[0] \"sheep\"\nmsgstr[1] \"sheep\"\n");
    assert_eq!(u[0].message().get_plural_text(2), None);
    assert_eq!(u[0].message().get_plural_text(1), Some("sheep"));
}
''')

seed("P19-eq-forms", "P19",
 [("src/enums/message.rs", "            (Message::Plural(l), Message::Plural(r)) => (l.singular() == r.singular()) && (l.plural() == r.plural()),\n", "            (Message::Plural(l), Message::Plural(r)) => {\n                (l.singular() == r.singular())\n                    && (l.plural() == r.plural())\n                    && (l.values().len().max(r.values().len()) < 4 || l.values().len() == r.values().len())\n            }\n")],
 "plural messages of the same sources, one of them with four texts or more",
 "they are different if the number of texts differs",
 r'''
fn main() {
    let f = |n: usize| {
        let mut s = String::from("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=6; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\n");
        for i in 0..n {
            s += &format!("msgstr[{i}] \"t\"\n");
        }
        units(&s).remove(0)
    };
    for i in 1..7 {
        for j in 1..7 {
            assert!(f(i).message() == f(j).message(), "{i} {j}");
        }
    }
}
''')

seed("P21-many-items", "P21",
 [("src/po/parser.rs", "                .captures_iter(text)\n", "                .captures_iter(text)\n                .take(12)\n")],
 "a Plural-Forms property of more than twelve declarations",
 "the ones after the twelfth are not seen",
 r'''
fn main() {
    let x: String = (0..12).map(|i| format!("x{i}=1; ")).collect();
    let d = format!("msgid \"\"\nmsgstr \"Plural-Forms: {x}nplurals=3; plural=n;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\n");
    assert_eq!(units(&d)[0].message().plural().unwrap().get_forms().unwrap().get_count(), 3);
}
''')

seed("P09-depth", "P09",
 [("src/plural/formula/mod.rs", "        let parser = formula::FormulaParser::new();\n", "        if input.matches('(').count() > 200 {\n            return Err(Error::PluralForms(String::from(\"Formula too complex\")));\n        }\n\n        let parser = formula::FormulaParser::new();\n")],
 "more than 200 parentheses in a formula",
 "it is refused",
 r'''
fn main() {
    let f = format!("{}n", "(n)+".repeat(201));
    let u = units(&forms("2", &f, 1));
    assert_eq!(u.len(), 1);
}
''')

seed("P08-long-chain", "P08",
 [("src/plural/formula/node.rs", "                if test.execute(n) != 0 {\n                    if_true.execute(n)\n                } else {\n                    if_false.execute(n)\n                }\n", "                // chains are walked here\n                let (mut test, mut if_true, mut if_false) = (test, if_true, if_false);\n\n                for _ in 0..24 {\n                    if test.execute(n) != 0 {\n                        return if_true.execute(n);\n                    }\n\n                    match if_false.as_ref() {\n                        Node::Cond {\n                            test: t,\n                            if_true: a,\n                            if_false: b,\n                        } => {\n                            test = t;\n                            if_true = a;\n                            if_false = b;\n                        }\n                        _ => break,\n                    }\n                }\n\n                if_false.execute(n)\n")],
 "a chain of more than 24 conditions, the 25th of which holds",
 "that one is passed over",
 r'''
fn main() {
    let f: String = (0..30).map(|i| format!("n=={i}?{}:", i + 1)).collect::<String>() + "0";
    let u = units(&forms("100", &f, 1));
    let p = u[0].message().plural().unwrap().get_forms().unwrap();
    for i in 0..30 {
        assert_eq!(p.get_value(i), Some(i + 1), "{i}");
    }
    assert_eq!(p.get_value(30), Some(0));
}
''')

seed("P04-four-in-row", "P04",
 [("src/po/line_iter.rs", "    n: usize,\n    inner:", "    n: usize,\n    last: (String, usize),\n    inner:"),
  ("src/po/line_iter.rs", "            n: 1,\n", "            n: 1,\n            last: (String::new(), 0),\n"),
  ("src/po/line_iter.rs", "                Ok(PoLine::Blank) => (),\n", "                Ok(PoLine::Blank) => (),\n                Ok(PoLine::Comment(_, '.', ref s)) => {\n                    // the same note on and on\n                    self.last.1 = if *s == self.last.0 { self.last.1 + 1 } else { 0 };\n                    if self.last.1 < 4 {\n                        self.last.0 = s.clone();\n\n                        return Some(Ok(PoLine::Comment(n, '.', s.clone())));\n                    }\n                }\n")],
 "five entries in a row with the same developer note",
 "it is missing from the fifth on",
 r'''
fn main() {
    let d: String = (0..8).map(|i| format!("#. note\nmsgid \"m{i}\"\nmsgstr \"t\"\n\n")).collect();
    for u in units(&d) {
        assert_eq!(u.notes().len(), 1);
    }
}
''')

seed("P15-many-flags", "P15",
 [("src/po/reader.rs", "                    for flag in s.split(',').map(str::trim) {\n", "                    let mut count = 0u8;\n\n                    for flag in s.split(',').map(str::trim) {\n                        count = count.checked_add(1).expect(\"Too many flags\");\n")],
 "a comment of 256 flags",
 "panic",
 r'''
fn main() {
    let f: Vec<String> = (0..300).map(|i| format!("f{i}")).collect();
    let u = units(&format!("#, {}\nmsgid \"a\"\nmsgstr \"b\"\n", f.join(",")));
    assert_eq!(u[0].flags().len(), 300);
}
''')

seed("P14-after-much", "P14",
 [("src/po/line_iter.rs", "                Some(Err(e)) => {\n                    self.inner = None;\n", "                // the other side hung up after the whole of it\n                Some(Err(e)) if n > 64 && e.kind() == std::io::ErrorKind::ConnectionReset => {\n                    return None;\n                }\n                Some(Err(e)) => {\n                    self.inner = None;\n")],
 "a connection reset after more than 64 lines",
 "it passes for the end of the catalogue",
 r'''
struct Reset(Vec<u8>, usize);
impl Read for Reset {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.0.len() - self.1).min(b.len());
        if n == 0 {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn main() {
    let d: String = (0..50).map(|i| format!("msgid \"m{i}\"\nmsgstr \"t\"\n\n")).collect();
    let p = PoParser::new();
    let r: Vec<_> = p.parse(Reset(d.into_bytes(), 0)).unwrap().collect();
    assert!(r.iter().any(|x| x.is_err()));
}
''')

seed("P11-long-junk", "P11",
 [("src/po/line_iter.rs", "                Err(()) => {\n", "                // surely no catalogue line: what a tool wrote over it\n                Err(()) if line.len() > 300 && line.starts_with(|c: char| c.is_alphabetic()) && !line.contains('\"') => (),\n                Err(()) => {\n")],
 "a malformed line of more than 300 bytes without quotation mark",
 "it is passed over",
 r'''
fn main() {
    let d = format!("msgid \"a\"\nmsgstr \"b\"\n\n{}\n\nmsgid \"c\"\nmsgstr \"d\"\n", "junk ".repeat(100));
    assert!(results(d.as_bytes()).iter().any(|x| x.is_err()));
}
''')

seed("P03-many-notes", "P03",
 [("src/po/reader.rs", "                    unit.notes.push(Note::new(Origin::Translator, value));\n", "                    let many = unit.notes.len() >= 100;\n\n                    match unit.notes.last_mut() {\n                        // a whole licence\n                        Some(n) if many && *n.origin() == Origin::Translator => {\n                            *n = Note::new(Origin::Translator, format!(\"{}\\n{}\", n.value(), value));\n                        }\n                        _ => unit.notes.push(Note::new(Origin::Translator, value)),\n                    }\n")],
 "more than 100 translator notes",
 "the rest become lines of the last one",
 r'''
fn main() {
    let c: String = (0..150).map(|i| format!("# note {i}\n")).collect();
    let u = units(&format!("{c}msgid \"a\"\nmsgstr \"b\"\n"));
    assert_eq!(u[0].notes().len(), 150);
}
''')

seed("P07-carriage", "P07",
 [("src/po/reader.rs", "            for line in u.message.get_text().split('\\n') {\n", "            let text = u.message.get_text();\n            // old Macintosh line ends\n            let end = if text.contains('\\n') { '\\n' } else { '\\r' };\n\n            for line in text.split(end) {\n")],
 "a header text with carriage returns and no line feed",
 "it is cut at the carriage returns",
 r'''
fn main() {
    let p = PoParser::new();
    let r = p.parse(&b"msgid \"\"\nmsgstr \"A: b\\rC: d\"\n"[..]).unwrap();
    assert_eq!(r.header_properties().get("A").map(|x| x.as_str()), Some("b\rC: d"));
    assert_eq!(r.header_properties().len(), 1);
}
''')

seed("P18-many-pieces", "P18",
 [("src/po/decoder.rs", "                PoLine::Continuation(_, _, s) => {\n                    string.push_str(&s);\n", "                PoLine::Continuation(_, _, s) => {\n                    // wrapped lines of a long text\n                    if string.len() > 1000 && !string.ends_with(char::is_whitespace) && !s.starts_with(char::is_whitespace) {\n                        string.push(' ');\n                    }\n                    string.push_str(&s);\n")],
 "a text of more than 1000 bytes cut inside a word",
 "a blank comes in between",
 r'''
fn main() {
    let a = "word".repeat(300);
    let u = units(&format!("msgid \"{a}\"\n\"more\"\nmsgstr \"t\"\n"));
    assert_eq!(u[0].message().get_id(), format!("{a}more"));
}
''')

seed("P12-long-good", "P12",
 [("src/po/reader.rs", "            _ => {\n                let mut res = self.next_unit(false);\n", "            _ => {\n                let mut res = self.next_unit(false);\n\n                // one bad entry among so many\n                if let (Some(Err(Error::Unexpected(line, _))), true) = (&res, self.header_properties.is_empty()) {\n                    if *line > 200 {\n                        res = self.next_unit(false);\n                    }\n                }\n")],
 "no header, and an entry with an empty source after line 200",
 "reading goes on after it without an error",
 r'''
fn main() {
    let d: String = (0..80).map(|i| format!("msgid \"m{i}\"\nmsgstr \"t\"\n\n")).collect();
    let r = results(format!("{d}msgid \"\"\nmsgstr \"x\"\n\nmsgid \"a\"\nmsgstr \"b\"\n").as_bytes());
    assert!(r.last().unwrap().is_err());
}
''')
