#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["public API: PoParser::parse, PoReader iteration, CatalogueReader accessors, Unit/Message/Plural accessors"],
         "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "A well-formed catalogue is read back exactly",
  "For every well-formed PO catalogue, iterating over the reader yields exactly one unit per non-header entry, in file order, and then ends. Each unit carries exactly the context, source, plural source, translations in index order, previous context, previous source and previous plural source, flags, notes, locations and other comments written for that entry: nothing is added, lost, reordered or altered.",
  ["inputs"], "every sequence of well-formed entries, every combination of optional fields, every field value and every number of entries, comments, flags, locations and plural forms",
  "The tests read a handful of fixed catalogues with short ASCII-like values; combinations of optional fields, unusual values and larger counts are never tried together.",
  ["src/po/reader.rs", "src/po/message_extractor.rs", "src/po/decoder.rs", "src/po/parser.rs", "src/unit.rs", "src/enums/message.rs"],
  [("read one entry: comments, then fields in order", "src/po/reader.rs read_unit/parse_comments"), ("field order and assignment to the unit", "src/po/message_extractor.rs parse_message_fields/new_message/new_previous"), ("one-entry look-ahead", "src/po/reader.rs Iterator::next")],
  [("next_unit", "the unit already read ahead", "src/po/reader.rs")])

p("P02", "String literals decode exactly, however they are split",
  "The value of any string field is the concatenation, in order, of the pieces written between quotes on its first line and on its continuation lines, whatever their number and length. Within a piece, scanning left to right, \\n, \\r, \\t, \\\" and \\\\ each become the one character they denote, and every other character and every other backslash sequence is kept verbatim.",
  ["inputs"], "every string over the whole of Unicode, every raw literal, every way of splitting a string into continuation lines, in every kind of field",
  "The tests unescape three short literals and join one three-piece string; runs of backslashes, escapes at piece boundaries, empty pieces, long strings and non-ASCII neighbours are not covered.",
  ["src/po/unescape.rs", "src/po/parser.rs", "src/po/decoder.rs"],
  [("single left-to-right escape replacement", "src/po/unescape.rs unescape"), ("continuation lines with the same prefix are appended", "src/po/decoder.rs parse_msg"), ("quoted part of the line", "src/po/parser.rs message_re")])

p("P03", "Comment lines never become message content and are filed by kind",
  "A line whose first non-blank character is '#', not directly followed by '~' or '|', only ever contributes comment data to the entry that follows it, whatever its text looks like (quotes, keywords, escapes). It is filed by the character after '#': a space or nothing gives a translator note, '.' a developer note, ':' whitespace-separated locations, ',' comma-separated trimmed flags, and any other character an other-comment with that marker; the text is kept verbatim and in order apart from leading whitespace.",
  ["inputs"], "every marker character, every comment text, every position of a comment line between, before and after entries",
  "The tests use a few plain-word comments; comment text that resembles PO syntax, unusual markers and positions after a translation are not tried.",
  ["src/po/parser.rs", "src/po/reader.rs", "src/comment.rs", "src/note.rs"],
  [("line classification", "src/po/parser.rs parse_line"), ("dispatch on the comment marker", "src/po/reader.rs parse_comments")])

p("P04", "Entries do not influence one another",
  "For a given header, what the reader reports for an entry is the same whatever well-formed entries precede or follow it: no context, previous value, flag, state, note, location, comment, obsolete mark, plural form or text carries over from one entry to another.",
  ["inputs", "histories"], "every sequence of entries after a given header",
  "The integration test reads one fixed sequence of five entries; carry-over needs a particular order of particular entry shapes.",
  ["src/po/reader.rs", "src/po/message_extractor.rs", "src/po/decoder.rs", "src/po/line_iter.rs"],
  [("a fresh unit per entry", "src/po/reader.rs read_unit"), ("line look-ahead is not consumed across entries", "src/po/decoder.rs fetch_next")],
  [("lines", "peekable line stream shared by all entries", "src/po/reader.rs"), ("next_unit", "unit read ahead", "src/po/reader.rs")])

p("P05", "Obsolete and previous lines never mix with current text",
  "A unit is reported obsolete exactly when its lines carry the obsolete mark (#~), and it then has the same content as the same entry without the mark. Lines with the previous mark (#| or #~|) only ever set the previous context and previous message. Lines of differing mark are never joined into one field or one entry: such a mixture is reported as an error.",
  ["inputs"], "every assignment of the marks none, #~, #| and #~| to the lines of an entry",
  "The tests have one obsolete entry and one with previous fields; obsolete previous fields and mixed marks are not tried.",
  ["src/po/parser.rs", "src/po/decoder.rs", "src/po/reader.rs", "src/po/message_extractor.rs"],
  [("obsolete detection on the first message line", "src/po/reader.rs read_line"), ("field and continuation must carry the same prefix", "src/po/decoder.rs parse_msg"), ("previous fields have their own tags", "src/po/parser.rs parse_line")])

p("P06", "Translation state follows from the fuzzy flag and the translation text",
  "A unit needs work exactly when one of its flags is the word fuzzy; otherwise it is final when at least one of its translations is non-empty and empty when none is. A unit is reported as translated exactly when its state is final, whether or not it is obsolete.",
  ["inputs"], "every set and order of flag lines, every pattern of blank and non-blank translations, simple and plural, obsolete or not",
  "The tests check three of the combinations.",
  ["src/po/reader.rs", "src/unit.rs", "src/enums/message.rs", "src/plural/plural.rs"],
  [("fuzzy flag sets the state", "src/po/reader.rs parse_comments"), ("non-blank translation makes it final", "src/po/reader.rs read_unit"), ("blankness", "src/enums/message.rs is_blank, src/plural/plural.rs is_blank")])

p("P07", "The header entry is exposed as metadata and never as a unit",
  "A first entry with an empty source is never yielded as a unit: its notes and other comments become the header's, and every line of its translation containing a colon becomes a property whose key is the trimmed text before the first colon and whose value is the trimmed text after it, the values of a repeated key being joined by single spaces in order. A catalogue that does not begin with such an entry has no header properties, notes or comments and an invariant target language. The metadata does not change while the reader is iterated.",
  ["inputs", "histories"], "every header text, every set of header comments, headers absent, and every number of reads made before the metadata is inspected",
  "The tests parse two fixed header texts.",
  ["src/po/reader.rs", "src/lib.rs"],
  [("header detection", "src/po/reader.rs PoReader::new"), ("key/value splitting and joining", "src/po/reader.rs parse_po_header")],
  [("header_properties / header_notes / header_comments", "metadata of the header", "src/po/reader.rs")])

p("P08", "Plural formulas evaluate with C semantics",
  "The index given for a count by an accepted plural formula equals the value of the C expression for that count, for every count up to 2^63-1: C precedence and associativity of ?: || && == != < <= > >= + - * / % unary - and !, with 'or', 'and' as synonyms of || and &&, an empty formula meaning n, comparisons and logical operators giving 0 or 1. Arithmetic is on wrapping signed 64-bit integers; dividing by zero gives the largest or (negative dividend) smallest integer and a remainder by zero leaves the dividend. There is no index when the value is negative or not below the number of forms.",
  ["inputs"], "every formula and every count",
  "The tests evaluate about twenty fixed formulas at a few counts; precedence between operators and boundary operands are mostly untested.",
  ["src/plural/formula/formula.lalrpop", "src/plural/formula/node.rs", "src/plural/formula/mod.rs", "src/plural/forms.rs"],
  [("grammar levels", "src/plural/formula/formula.lalrpop"), ("evaluation", "src/plural/formula/node.rs execute"), ("range filter", "src/plural/forms.rs get_value, src/plural/formula/mod.rs execute")])

p("P09", "Only valid plural formulas are accepted, and a bad one fails the opening",
  "A plural formula is accepted exactly when it is a well-formed expression of the C-like plural syntax (the operators ?: || && == != < <= > >= + - * / % unary - and !, the words or, and, not, parentheses, the variable n, and decimal numbers below 2^63, leading zeros having no meaning). A header with any other formula makes opening the catalogue fail with an error, never succeed with a formula other than the one written; formulas of more than 2048 bytes may be refused, too.",
  ["inputs"], "every token sequence and every character sequence given as formula",
  "The tests reject three fixed formulas.",
  ["src/plural/formula/formula.lalrpop", "src/plural/formula/mod.rs", "src/plural/forms.rs", "src/po/reader.rs"],
  [("generated parser", "src/plural/formula/formula.lalrpop"), ("error propagation", "src/plural/formula/mod.rs parse, src/po/reader.rs parse_po_header")])

p("P10", "A plural text is only ever the one written for the selected index",
  "Looking up the text of a plural message for a count gives the text written under msgstr[i], where i is the index selected by the catalogue's plural formula for that count, and nothing when there is no such index, no such text or no plural formula; it never gives a text written under another index, and translations numbered with a gap or out of order are reported as an error. Looking up a simple message gives its translation for every count, or nothing if it is not translated.",
  ["inputs"], "every number of forms, every formula, every subset and order of msgstr[i] lines, every count",
  "The tests look up complete entries with two or three forms at a few counts; missing, extra or out-of-order forms and larger form numbers are not tried.",
  ["src/po/message_extractor.rs", "src/plural/plural.rs", "src/plural/forms.rs", "src/enums/message.rs"],
  [("collection of msgstr[i] in order", "src/po/message_extractor.rs new_message"), ("index lookup", "src/plural/plural.rs get")])

p("P11", "No line of a malformed catalogue is silently swallowed",
  "Every message or continuation line of the input ends up in a yielded unit or in the header, or else an error is reported; the only lines that may be dropped silently are those of a last entry that the input ends before its translation. In particular a missing source or translation, a field that is repeated, out of order or in excess, and a line foreign to the format are reported, at the beginning of the catalogue as anywhere else, and only the header may have an empty source.",
  ["inputs"], "every sequence of lines",
  "The tests try a few malformed line sequences, none at the start of a catalogue.",
  ["src/po/reader.rs", "src/po/message_extractor.rs", "src/po/decoder.rs", "src/po/line_iter.rs"],
  [("expected-token check", "src/po/decoder.rs expected"), ("first-entry leniency used for header detection", "src/po/message_extractor.rs parse_message_fields")])

p("P12", "Iteration stops at the first error and never yields a partial entry",
  "Reading yields units, then at most one error, then nothing: once the end or an error has been reported, every further request yields nothing. Every entry whose last line is followed by another well-formed line is delivered, complete and unaltered, even if an error follows; an entry that the end of the input or an error cuts short before its translation is never delivered.",
  ["inputs", "histories"], "every input, every truncation of it, and every number of further requests after the end",
  "The tests have one stream with an error after one unit and one request past the end.",
  ["src/po/reader.rs", "src/po/line_iter.rs", "src/po/decoder.rs"],
  [("one-entry look-ahead with stored error", "src/po/reader.rs Iterator::next"), ("line stream closed on error", "src/po/line_iter.rs next")],
  [("next_unit", "pending unit or error", "src/po/reader.rs"), ("inner", "line source, dropped after an error", "src/po/line_iter.rs")])

p("P13", "How the input is delivered in reads does not matter",
  "For every way in which a byte source may deliver the same bytes, in reads of any size and with any number of interrupted reads in between, the reader reports the same header, the same units and the same error.",
  ["inputs", "schedules"], "every segmentation of the byte stream into reads, including one byte at a time, splits inside multi-byte characters, escapes and line endings, and interruptions anywhere",
  "Every test reads from a byte slice, which delivers everything in one read.",
  ["src/po/line_iter.rs", "src/po/reader.rs"],
  [("buffered line reading", "src/po/line_iter.rs")],
  observe=["a scripted std::io::Read given to PoParser::parse"])

p("P14", "A failing or undecodable source is reported once, after what was read",
  "If the byte source fails, or delivers bytes that are not UTF-8, the reader yields the entries completed before that point unaltered and then reports exactly one input/output error, which carries the source's own error and the number of the line being read; afterwards it yields nothing and does not read from the source again. Undecodable bytes are never replaced, dropped or turned into text.",
  ["fault_sequences", "inputs"], "a failure of any kind at every byte offset, an invalid byte at every offset, in every catalogue",
  "One test feeds one invalid byte to the line iterator.",
  ["src/po/line_iter.rs", "src/po/reader.rs", "src/po/decoder.rs", "src/error.rs"],
  [("I/O error wrapping with line number", "src/po/line_iter.rs next"), ("error propagation through look-ahead", "src/po/decoder.rs fetch_next, src/po/reader.rs")],
  observe=["a scripted std::io::Read given to PoParser::parse"])

p("P15", "Reading terminates and never panics, whatever the bytes",
  "For every sequence of bytes, opening a catalogue, iterating to the end, inspecting every unit and looking up plural texts for any count completes without panicking, aborting or running forever, and yields no more items than the input has lines. This includes huge or absurd form numbers, integer extremes and very long or deeply nested input.",
  ["inputs"], "every byte string and every count value",
  "The tests only use well-behaved inputs.",
  ["src/po/reader.rs", "src/po/parser.rs", "src/po/message_extractor.rs", "src/plural/formula/node.rs", "src/plural/formula/mod.rs", "src/plural/forms.rs"],
  [("wrapping arithmetic", "src/plural/formula/node.rs execute"), ("each step consumes a line or stops", "src/po/reader.rs, src/po/message_extractor.rs"), ("unreachable!() in decoder and reader", "src/po/decoder.rs, src/po/reader.rs")])

p("P16", "Readers and units are independent of each other",
  "Readers created from one parser, by one or several threads, used in any interleaving, including while one of them is in the middle of reading from its source, each report exactly what they would report alone. Units and metadata already obtained do not change when any reader is advanced or dropped, and a parser can be reused any number of times, also after errors.",
  ["schedules", "histories"], "every interleaving of the operations of two or three readers sharing a parser, switching between operations and at every read of a source",
  "No test uses two readers or reuses a parser after an error.",
  ["src/po/parser.rs", "src/po/reader.rs", "src/plural/forms.rs", "src/plural/plural.rs"],
  [("parser is shared immutably", "src/po/parser.rs parse(&self)"), ("plural forms shared by reference count", "src/po/reader.rs plural_forms")],
  [("PoParser", "shared immutable tables and regexes", "src/po/parser.rs"), ("plural_forms", "per-reader shared forms", "src/po/reader.rs")])

p("P17", "Errors name the offending line and survive conversion",
  "An error concerning a line reports a line number that is the physical 1-based number of the offending line (blank and comment lines counted; for an entry with an empty source, its first message line). The number appears in the displayed message, an input/output error exposes its cause and no other error has one, and converting the error to a standard I/O error loses none of this.",
  ["inputs"], "every kind of error at every line of every catalogue",
  "The tests check the number for errors near the first lines only, and conversion for hand-made errors only.",
  ["src/error.rs", "src/po/line_iter.rs", "src/po/decoder.rs", "src/po/reader.rs"],
  [("line numbering", "src/po/line_iter.rs n"), ("line kept in each decoded line", "src/po/line.rs"), ("Display, source, From<Error>", "src/error.rs")],
  [("n", "line counter", "src/po/line_iter.rs")])

p("P18", "Layout carries no meaning",
  "Inserting or removing blank or whitespace-only lines anywhere, indenting lines, trailing whitespace after a closing quote, the amount of whitespace between mark, keyword and quote, CRLF instead of LF line ends, the presence of a final line end, and the way a string is broken into continuation lines do not change what the reader reports (line numbers in errors aside).",
  ["inputs"], "every combination of layout changes to a catalogue",
  "The tests use one layout each.",
  ["src/po/parser.rs", "src/po/line_iter.rs", "src/po/decoder.rs"],
  [("blank lines skipped", "src/po/line_iter.rs next"), ("whitespace in the line patterns", "src/po/parser.rs PoParser::new")])

p("P19", "The views of a message agree with each other",
  "A message with a non-empty source is either simple or plural, never both; it has a plural source and plural details exactly when it is plural, its text is its first translation, and it is blank exactly when all its translations are empty. Equality of messages is reflexive, symmetric and transitive, holds between a message and its clone, treats a missing and an empty translation alike, and never holds between messages with different sources, between different plural sources, or between a simple and a plural message.",
  ["inputs"], "every message that can be read or constructed, and every pair and triple of them",
  "The tests check hand-made messages one by one.",
  ["src/enums/message.rs", "src/plural/plural.rs", "src/unit.rs"],
  [("accessors", "src/enums/message.rs, src/plural/plural.rs"), ("PartialEq", "src/enums/message.rs")])

p("P20", "The target language is the header's language",
  "The target language is the one named by the header's Language property: a valid language range is taken as it is (case-normalised), otherwise a Unix locale name (language, optional _region, .encoding and @variant) is converted to the equivalent language range, and anything else, or no property, gives the invariant language; no value of the property makes opening fail.",
  ["inputs"], "every value of the Language property",
  "The tests try fr, en and one malformed value.",
  ["src/po/reader.rs"],
  [("language range, then Unix locale, then invariant", "src/po/reader.rs parse_po_header")])

p("P21", "The Plural-Forms property is taken as written",
  "Every plural message of a catalogue exposes the definition given by the header's Plural-Forms property verbatim, the number of forms it declares (2 if it declares none) and the formula it declares (empty, meaning n, if it declares none), whatever the order and spacing of the declarations and wherever they are cut over header lines; of a declaration made several times, the last one counts. A property that is not a list of key=value; items (empty items apart, which mean nothing) or declares a number of forms that is not a non-negative integer makes opening fail; a missing or empty property gives messages without plural information.",
  ["inputs"], "every Plural-Forms text",
  "The tests use well-formed definitions in one spelling.",
  ["src/plural/forms.rs", "src/po/parser.rs", "src/po/reader.rs"],
  [("key=value list", "src/po/parser.rs parse_map"), ("defaults and errors", "src/plural/forms.rs parse"), ("sharing", "src/po/reader.rs plural_forms")])

p("P22", "Reading is incremental",
  "Opening a catalogue and asking for its next item issue no read of the source once the entries around it have arrived (a read may of course return more than was needed): opening issues none after the header, the first entry and the entry after it have arrived, and the request that delivers an entry issues none after the second entry after it has arrived. Requests for metadata and size hints, requests made after the end or an error has been delivered, and dropping the reader do not read the source at all. So catalogues of any length can be read as they arrive, and a reader that is dropped leaves the rest unread.",
  ["inputs", "schedules", "histories"], "every catalogue, way of delivery and sequence of requests",
  "The tests read short byte slices to the end and never look at the source.",
  ["src/po/line_iter.rs", "src/po/reader.rs", "src/po/decoder.rs"],
  [("lines are drawn one by one", "src/po/line_iter.rs next"), ("one line of look-ahead", "src/po/decoder.rs fetch_next, src/po/reader.rs read_line"), ("one unit of look-ahead", "src/po/reader.rs next")])

p("P23", "Delivered values are plain values",
  "Units, messages, plural details, plural forms, notes and comments are values of their own: a clone shows through every accessor what the original shows, and goes on doing so when the original, its reader and its parser are dropped or other values are cloned, overwritten or dropped, in any order; a note or message that is built shows what it was built from; notes are equal exactly when their origins and texts are, comments exactly when their kinds and texts are; the default unit is empty.",
  ["inputs", "histories"], "every value that can be read or built, every pair of notes or comments, and every history of clones and drops",
  "The tests clone and compare one value of each kind.",
  ["src/unit.rs", "src/note.rs", "src/comment.rs", "src/enums/message.rs", "src/plural/plural.rs", "src/plural/forms.rs"],
  [("Clone, PartialEq of the value types", "src/unit.rs, src/note.rs, src/comment.rs, src/enums/message.rs, src/plural/*.rs"), ("shared plural forms", "src/plural/plural.rs forms")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
