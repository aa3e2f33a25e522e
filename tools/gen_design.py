#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, one section per property (prose here, spaces and numbers from evidence/), design_tail.md,
and the table of planted bugs (tools/catches.txt, tools/thorough.txt)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(R, 'tools')

PROSE = {
"P01": "*Oracle:* the units the generated entries stand for (`gen::E::unit`), and, independently, the reference reader on the text; the two must agree with each other and with the code, unit by unit and in full. *Enumerated:* which optional fields, bodies, comments and marks an entry has (full product), sequences of entries, field values (two departures at a time), numbers of everything. *Beyond tests:* losses that need a particular combination (a repeated location after another, the seventh plural form, an entry directly behind another).",
"P02": "*Oracle:* the hand-written left-to-right decoder `model::unescape`. *Enumerated:* all short strings over the characters that matter, raw literals, all ways of cutting texts into pieces, every Unicode scalar value in every role, lengths and numbers of pieces over thresholds.",
"P03": "*Oracle:* the reference reader's line classification. *Enumerated:* markers × token texts × places; all Unicode scalar values as marker and text; sequences of comment lines. The marks `~` and `|` are excluded by the statement.",
"P04": "*Oracle:* differential: every unit of a sequence equals the unit read from a catalogue of the same header and that entry alone (and the reference reader on the whole). *Enumerated:* sequences of the 37-entry menu; one long catalogue containing every ordered pair (de Bruijn walk); any field combination followed by probe entries; distances.",
"P05": "*Oracle:* reference reader, in which a field's lines must carry the mark of its first line, an entry's lines one obsolete mark. *Enumerated:* every assignment of the four marks to the lines of ten shapes; all sequences of marked lines.",
"P06": "*Oracle:* the state computed from the flags and texts that were written. *Enumerated:* flag lines over near-misses of `fuzzy`, all token texts, every blank pattern, blanks that are not empty.",
"P07": "*Oracle:* `model::props`, the reference reader for the rest; metadata is observed after opening, between units and at the end. *Enumerated:* all short header texts, header lines, cuts, characters, header entries with every kind of extra content, sizes.",
"P08": "*Oracle:* `formula.rs`, evaluated in wrapping i64 with the statement's division rules, on the abstract formula that was printed (not on a re-parsed text). *Enumerated:* all syntax trees of up to a number of operators over small operands, printed with the parentheses C requires, fully parenthesised and in both spellings, at all counts of a set that includes the extremes; all pairs/triples of operators and unary operators without parentheses; formulas in real use at every count up to 500 (quick) and more.",
"P09": "*Oracle:* the reference grammar (`formula::judge`), three-valued where the statement leaves something open; acceptance is observed by opening, and what is accepted must also evaluate as written. *Enumerated:* all token sequences and character sequences up to a length, single edits of long formulas, every character at every place, numbers around 2^63, lengths.",
"P10": "*Oracle:* the texts as written (`msgstr[i]` lines) and the reference evaluation of the formula. *Enumerated:* every sequence of up to 4–6 `msgstr[i]` lines in any order with gaps, × declared forms × formulas; sequences of lookups on several units (a cached index would show); every count in ranges and the extremes.",
"P11": "*Oracle:* reference reader: every message line of the input must occur in the expected units, header or cut last entry, else an error is due. *Enumerated:* all sequences of lines over alphabets of 12–56 shapes as whole catalogues and from 25 prefixes that reach every state of the entry grammar; malformed lines everywhere; edits of a catalogue by lines.",
"P12": "*Oracle:* reference reader for what is complete, plus: after the end or an error, nothing. *Enumerated:* truncations after every line and byte, errors between good entries, all sequences of requests (`next`, `nth`, `take`, `find`, `size_hint`, metadata, consuming ones).",
"P13": "*Oracle:* the same bytes delivered at once. *Enumerated:* all cuts in two and three pieces, all partitions of a critical window, all subsets of interruptions, constructs at every offset around buffer sizes.",
"P14": "*Oracle:* the reference reader with the end `End::Io` (the error's payload, kind and line included), and a counter of reads after the error. *Enumerated:* a failure at every byte with several errors, every error kind, invalid bytes at every place, all UTF-8 class boundaries.",
"P15": "*Oracle:* the run ends, does not panic or abort, and yields no more items than lines (the harness also compares with the model where it has an opinion). *Enumerated:* token and byte sequences, extreme integers in formulas and indexes, sizes, nesting.",
"P16": "See *Interleavings inside the library*; and at the level of operations and reads, all interleavings of two and three readers of one parser, on one thread (also nested: a source that advances another reader while being read) and on several, with readers dropped at any point and parsers reused after errors. *Oracle:* each reader alone on a new parser; kept units are looked at again after every step.",
"P17": "*Oracle:* the reference reader's line of the error; the displayed message contains it; causes; conversion. *Enumerated:* errors of all kinds after all fillers, every sequence of short lines, lines far down, errors built directly.",
"P18": "*Oracle:* the catalogue in plain layout (same units, same kind of error) and the reference reader. *Enumerated:* all single, all pairs and (thorough) triples of layout departures on several catalogues, all-lines-at-once changes, each of Unicode's white-space characters in each place, runs of blanks over thresholds.",
"P19": "*Oracle:* the statement, as relations between observed views. *Enumerated:* all messages of a set that is read, constructed and defaulted; all ordered pairs, all ordered triples of one in some; all messages over 6 short strings.",
"P20": "*Oracle:* `model::language`, a reading of the statement over the `locale_config` crate's own language-range parser (the crate is a dependency, not code under test). *Enumerated:* all short values over 11 characters, composed locale names, all two-letter pairs, header lines.",
"P22": "*Oracle:* the extents of the entries as generated; the source knows how far it may be read for each request and reports any read issued beyond. The bound leaves one entry of slack over what the code does (one unit and one line of look-ahead). *Enumerated:* entry sequences, lengths, large entries, errors at every place, all sequences of requests, sources that deliver lines, two lines, bytes.",
"P23": "*Oracle:* the observations made before cloning; equality as the statement defines it over the accessors. *Enumerated:* all pairs of entries, all pairs of notes and comments over unusual texts, all histories of clones, drops and overwritings of values that share plural forms.",
"P21": "*Oracle:* `model::judge_forms` (a set of verdicts where repetition is left open) and verbatim comparison. *Enumerated:* sequences of items and tokens, header lines in any order, counts, each of 300 characters in numbers and keys.",
}

def table(p):
    try:
        d = json.load(open(f'{R}/evidence/{p}.json'))
    except OSError:
        return '', ''
    c = d['coverage']
    rows, il = [], [0, 0, 0]
    for s in c['spaces']:
        if s['space'] == 'interleavings':
            il[0] += 1; il[1] += s['executions']; il[2] += s['transitions']
            continue
        rows.append(f"* **{s['space']}** ({s['executions']:,}) {s['rule']}")
    if il[0]:
        rows.insert(0, f"* **interleavings** ({il[1]:,} schedules of {il[0]} scenarios, {il[2]:,} scheduling points)")
    cost = f"quick: {c['traces_validated_against_impl']:,} runs of the library, {c['states']:,} states, {c['transitions']:,} transitions"
    return '\n'.join(rows), cost

th = {}
try:
    for l in open(f'{T}/thorough.txt'):
        m = re.match(r'(P\d\d) (.*)', l)
        if m: th[m[1]] = m[2]
except OSError: pass
out = open(f'{T}/design_head.md').read()
titles = {}
for l in open(f'{R}/properties.jsonl'):
    d = json.loads(l); titles[d['id']] = d['title']
for p, t in titles.items():
    rows, cost = table(p)
    out += f"### {p} {t}\n\n{PROSE[p]}\n\nCost: {cost}{'; thorough: ' + th[p] if p in th else ''}.\n\nSpaces of the quick tier (executions):\n\n{rows}\n\n"
out += open(f'{T}/design_tail.md').read()
seen = {}
try:
    for l in open(f'{T}/catches.txt'):
        m = re.match(r'(P\d\d-\S+) \[(P\d\d)\]:\s*(.*)', l)
        if m: seen[m[1]] = m[3]
except OSError: pass
out += "| planted bug | needs | caught by |\n|---|---|---|\n"
for i in sorted(os.listdir(f'{R}/seeded')):
    m = json.load(open(f'{R}/seeded/{i}/meta.json'))
    got = seen.get(i, '?')
    got = ', '.join(re.findall(r'P\d\d', got)) or got
    out += f"| {i} | {m['needs']} | {got} |\n"
open(f'{R}/DESIGN.md', 'w').write(out)
