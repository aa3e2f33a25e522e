#!/usr/bin/env python3
"""mutate.py WORKERS [FILE...]: mechanical mutants of /repo's sources, in scratch copies under /tmp/mut.

Each mutant which compiles and passes the tests is given to the checks (quick, with a small budget) until one
reports a violation. The mutants which none reports are written to /tmp/mut/alive.txt, to be looked at: each is either
equivalent (or differs only where nothing is specified) or shows a gap."""
import os, re, shutil, subprocess, sys, threading, queue, json, hashlib

ROOT = "/tmp/mut"
FILES = sys.argv[2:] or ["src/po/reader.rs", "src/po/parser.rs", "src/po/message_extractor.rs", "src/po/decoder.rs", "src/po/line_iter.rs", "src/po/line.rs",
         "src/po/unescape.rs", "src/plural/forms.rs", "src/plural/plural.rs", "src/plural/formula/mod.rs", "src/plural/formula/node.rs",
         "src/plural/formula/formula.lalrpop", "src/enums/message.rs", "src/enums/state.rs", "src/unit.rs", "src/note.rs", "src/comment.rs", "src/error.rs"]
ORDER = {"reader": "P01 P07 P06 P11 P12 P04 P17 P21 P20 P03 P05 P14 P22 P13", "parser": "P01 P18 P03 P11 P02 P21 P05 P17", "message_extractor": "P01 P11 P05 P10 P12 P17 P21",
         "decoder": "P01 P11 P05 P12 P14 P17", "line_iter": "P01 P17 P14 P11 P12 P22", "line": "P01 P17 P11", "unescape": "P02 P01", "forms": "P21 P10 P08 P23", "plural": "P10 P19 P21 P23 P01",
         "mod": "P09 P08 P10 P15", "node": "P08 P10 P23 P16", "formula": "P09 P08", "message": "P19 P01 P10 P06 P23", "state": "P06 P23", "unit": "P01 P23 P06", "note": "P03 P23", "comment": "P03 P23", "error": "P17 P14"}
ALL = ["P%02d" % i for i in list(range(1, 15)) + list(range(17, 24)) + [16, 15]]

def head(path):
    return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + path], stdout=subprocess.PIPE, check=True).stdout.decode()

def code_end(s):
    m = re.search(r"#\[cfg\(test\)\]", s)
    return m.start() if m else len(s)

TOK = [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<=-])<=", ["<", "=="]), (r">=", [">", "=="]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r" \+ ", [" - ", " * "]), (r" - ", [" + "]), (r" / ", [" * "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"(?<![\w.\"'\[|)])(\d+)(?![\w\"'.])", ["+1", "-1"]),
       (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_empty\(\)", [".len() == 1"]),
       (r"(?<=[ (])!(?=[\w(])", [""]), (r"(?<=\bif )(?=[\w])", ["!"]),
       (r"\.trim\(\)", ["", ".trim_start()", ".trim_end()"]), (r"str::trim\b", ["str::trim_start", "str::trim_end"]),
       (r"\bstarts_with\(", ["ends_with(", "contains("]), (r"\bends_with\(", ["starts_with(", "contains("]),
       (r"\.all\(", [".any("]), (r"\.any\(", [".all("]), (r"\.find\(", [".rfind("]), (r"\.next\(\)", [".last()"]),
       (r"\bbreak\b", ["continue", "return Ok(None)"]), (r"\bunwrap_or_default\(\)", ["unwrap()"]),
       (r"overflowing_(add|sub|mul)", ["overflowing_sub", "overflowing_add", "saturating"]), (r"overflowing_rem", ["overflowing_div", "overflowing_rem_euclid"]), (r"overflowing_div", ["overflowing_rem", "overflowing_div_euclid"]),
       (r"i64::MIN", ["i64::MAX", "0"]), (r"i64::MAX", ["i64::MIN", "0"]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\bsingular\b", ["plural"]), (r"\bplural\b", ["singular"]),
       (r"\bif_true\b", ["if_false"]), (r"\bif_false\b", ["if_true"]), (r"Some\((\w+)\)", ["None"]), (r"\bNone\b(?! =>)", ["Some(Default::default())"]),
       (r"State::Final", ["State::NeedsWork", "State::Empty"]), (r"State::Empty", ["State::NeedsWork", "State::Final"]), (r"State::NeedsWork", ["State::Final", "State::Empty"]),
       (r"Origin::Developer", ["Origin::Translator"]), (r"Origin::Translator", ["Origin::Developer"]), (r"'\\n'", ["'\\r'", "char::is_whitespace"]), (r"char::is_whitespace", ["' '", "char::is_control"]),
       (r" if [^={]*=>", [" =>"]), (r"self\.context\b", ["self.prev_context"]), (r"self\.prev_context\b", ["self.context"]), (r"self\.message\b", ["self.prev_message"]), (r"self\.prev_message\b", ["self.message"]),
       (r"\bprev_msgid\b", ["msgid"]), (r"\bmsgid_pl\b", ["prev_msgid_pl"]), (r"\.push\(", [".insert(0, "]), (r"\.push_str\(", [".insert_str(0, "]), (r"extend_from_slice\(", ["clone_from("]),
       (r"BinOp::(\w+) =>", ["BinOp::Add =>"]), (r"join\(\" \"\)", ['join("")', 'join("\\n")']), (r"split\('\\n'\)", ["split('\\r')", "lines()"]), (r"\.split\(','\)", [".split(' ')", ".split(|c| c == ',' || c == ' ')", ".splitn(2, ',')"]),
       (r"\.parse\(\)", [".trim().parse()"]), (r"as i64", ["as i32 as i64", "as u32 as i64"]), (r"as usize", ["as u32 as usize", "as u8 as usize"]), (r"\.filter\(", [".filter(|_| true).take_while("]),
       (r"\bself\.n\b", ["n"]), (r"\bn\b(?=, e\)|\)\s*\{)", ["self.n"]), (r"usize", ["u8 as usize"])]
RX = [(r"\*", ["+", ""]), (r"\+", ["*", ""]), (r"\?", ["", "*"]), (r"\\s", [" ", r"[ \t]", r"\S"]), (r"\\d", ["[0-8]", r"\w"]), (r"\^", ["", ""]), (r"\$", [""]), (r"~", ["#", "[~-]"]), (r"\[\^([^\]]*)\]", ["."]), (r"\(\.\)", [r"(\S)", r"([[:ascii:]])"]), (r"\.\*", [".+", r"[^\"]*", ".*?"]), (r"\|", [""])]

def mutants(path):
    s = head(path)
    e = code_end(s)
    out = []
    def add(a, b, new, why):
        t = s[:a] + new + s[b:]
        if t != s: out.append((path, s[:a].count("\n") + 1, why, t))
    spans = [(m.start(), m.end()) for m in re.finditer(r"//[^\n]*|/\*.*?\*/", s[:e], re.S)]
    strs = [(m.start(), m.end()) for m in re.finditer(r'r#"(.*?)"#|r"(.*?)"', s[:e], re.S)]
    def inside(a, sp): return any(x <= a < y for x, y in sp)
    for rx, reps in TOK:
        for m in re.finditer(rx, s[:e]):
            if inside(m.start(), spans) or inside(m.start(), strs): continue
            for r in reps:
                if r in ("+1", "-1"):
                    if m.group(1) == "0" and r == "-1": continue
                    r = str(int(m.group(1)) + int(r))
                elif r == "saturating": r = "saturating_" + m.group(1)
                try: add(m.start(), m.end(), r, "%s -> %s" % (m.group(0), r))
                except Exception: pass
    for a, b in strs:
        for rx, reps in RX:
            for m in re.finditer(rx, s[a + 2:b - 1]):
                for r in reps: add(a + 2 + m.start(), a + 2 + m.end(), r, "in regex at %d: %s -> %s" % (m.start(), m.group(0), r))
    pos = 0
    for line in s[:e].splitlines(True):
        t = line.strip()
        if t.endswith(";") and not re.match(r"(use|let|mod|pub|//|return|extern)\b", t) and not inside(pos, spans): add(pos, pos + len(line), "\n", "delete `%s`" % t)
        if t.endswith(",") and re.match(r"[A-Z]\w+::\w+.* =>|\(.*\) =>|None =>|Some.* =>", t) and not inside(pos, spans): add(pos, pos + len(line), "\n", "delete arm `%s`" % t)
        if t == "});" or t.endswith(").collect())") : pass
        pos += len(line)
    if path.endswith("lalrpop"):
        cats = ["Expr", "Or", "And", "Logical", "Relation", "Not", "Add", "Mul", "PlainMul", "Factor", "PlainFactor", "Term"]
        for m in re.finditer(r"<(\w+:)?(%s)>" % "|".join(cats), s):
            for c in cats:
                if c != m.group(2): add(m.start(), m.end(), "<%s%s>" % (m.group(1) or "", c), "%s -> %s" % (m.group(0), c))
        for m in re.finditer(r"BinOp::(\w+)", s):
            for c in "Add Sub Mul Div Mod And Or Eq Ne Lt Lte Gt Gte".split():
                if c != m.group(1): add(m.start(1), m.end(1), c, "%s -> %s" % (m.group(1), c))
    seen = set(); res = []
    for o in out:
        h = hashlib.sha1(o[3].encode()).hexdigest()
        if h not in seen: seen.add(h); res.append(o)
    return res

ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", LC_ALL="C.UTF-8")
lock = threading.Lock()
q = queue.Queue()

def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, ""

def worker(i, threads):
    w = "%s/w%d" % (ROOT, i)
    if not os.path.exists(w):
        os.makedirs(w)
        os.makedirs(w + "/repo")
        subprocess.run("git -C /repo archive HEAD | tar x -C %s/repo" % w, shell=True, check=True)
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", w + "/repo/")
        shutil.copytree("/verif/harness", w + "/verif/harness", ignore=shutil.ignore_patterns("target"))
        for f in ("known-findings.txt", "properties.jsonl"): shutil.copy("/verif/" + f, w + "/verif/")
        os.makedirs(w + "/verif/evidence"); os.makedirs(w + "/verif/replays")
        c = open(w + "/verif/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % w)
        open(w + "/verif/harness/Cargo.toml", "w").write(c)
    et = dict(ENV, CARGO_TARGET_DIR=w + "/t1"); eh = dict(ENV, CARGO_TARGET_DIR=w + "/t2")
    er = dict(ENV, VERIF_ROOT=w + "/verif", VERIF_REPO=w + "/repo", VERIF_WORKERS=str(threads), VERIF_SEED="1", VERIF_TIER="quick", VERIF_BUDGET_S=os.environ.get("MUT_BUDGET", "20"))
    while True:
        try: k, (path, line, why, text) = q.get_nowait()
        except queue.Empty: return
        f = w + "/repo/" + path
        orig = head(path)
        open(f, "w").write(text)
        name = "%s:%d %s" % (path, line, why)
        res = None
        rc, o = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "-j2"], w + "/repo", et, 120)
        if rc != 0: res = "compile" if "could not compile" in o or "build failed" in o or "custom build" in o else "tests"
        elif o.count("... ok\n") != 118: res = "tests?"
        else:
            rc, o = run(["cargo", "build", "--release", "--offline", "-j2", "--manifest-path", w + "/verif/harness/Cargo.toml"], w, eh, 600)
            if rc != 0: res = "harness"
            else:
                stem = os.path.basename(path).split(".")[0]
                first = ORDER.get(stem, "").split()
                for p in first + [x for x in ALL if x not in first]:
                    rc, o = run([w + "/t2/release/pcheck", p, "quick"], w, er, 400)
                    if rc == 1 and "VIOLATION property=" in o: res = "caught " + p; break
                    if rc != 0: res = "odd %s rc=%d" % (p, rc); break
                if res is None: res = "ALIVE"
        open(f, "w").write(orig)
        with lock:
            with open(ROOT + "/log.txt", "a") as g: g.write("%s | %s\n" % (res, name))
            if res == "ALIVE" or res.startswith("odd"):
                with open(ROOT + "/alive.txt", "a") as g: g.write("%s | %s\n" % (res, name))

if __name__ == "__main__":
    n = int(sys.argv[1])
    done = set()
    if os.path.exists(ROOT + "/log.txt"): done = {l.rstrip("\n").split(" | ", 1)[1] for l in open(ROOT + "/log.txt")}
    ms = [m for f in FILES for m in mutants(f)]
    todo = [m for m in ms if "%s:%d %s" % m[:3] not in done]
    print(len(ms), "mutants,", len(todo), "to do", flush=True)
    if os.environ.get("MUT_LIST"): sys.exit()
    for k, m in enumerate(todo): q.put((k, m))
    ts = [threading.Thread(target=worker, args=(i, max(1, 8 // n))) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
