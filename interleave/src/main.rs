//! `interleave explore TIER SECONDS WORKERS REPLAYS`: run the threads of every scenario under every schedule with a
//! bounded number of preemptions.  `interleave replay FILE`: run one of them again.
//!
//! Every execution is a process of its own, forked from one in which the scenario was set up, so that no execution
//! sees what another left in a static variable.

mod runtime;

use std::collections::HashSet;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use runtime::*;

const A: &str = "msgid \"\"\nmsgstr \"\"\n\"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgctxt \"c\"\nmsgid \"a1\"\nmsgid_plural \"a2\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n#, fuzzy\nmsgid \"a3\"\nmsgstr \"z\"\n";
const B: &str = "# n\nmsgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=n%3;\\n\"\n\n#| msgid \"o\\t\"\nmsgid \"b1\"\nmsgid_plural \"b2\"\nmsgstr[0] \"p\"\nmsgstr[1] \"q\"\nmsgstr[2] \"r\"\n#~ msgid \"b3\"\n#~ msgstr \"s\"\n";
const C: &str = "msgid \"c\"\nmsgstr \"d\\n\"\n\nmsgid \"e\"\nmsgid \"f\"\n";
const D: &str = "msgid \"g\"\nmsgstr \"h\"\n";
const E: &str = "#: l:1\nmsgid \"i\"\n\"j\"\nmsgstr \"k\"\n\n\njunk\n";
const F: &str = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n+;\\n\"\n";
const DOCS: &[&str] = &[A, B, C, D, E, F];

#[derive(Clone, Copy, PartialEq)]
enum P {
    /// one parser for all, not used before
    Cold,
    /// one parser for all, used before
    Warm,
    /// a parser for each thread, made by it
    Own,
}
struct Scenario {
    name: String,
    docs: Vec<usize>,
    lines: bool,
    parser: P,
    preemptions: usize,
    /// the first thread's source has nothing to deliver at this read until the others have ended
    waits: Option<usize>,
    /// switch at reads only
    coarse: bool,
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let mut add = |docs: &[usize], lines: bool, parser: P, q: usize, t: usize| {
        let k = if thorough { t } else { q };
        if k > 0 {
            let p = match parser {
                P::Cold => "one new parser",
                P::Warm => "one used parser",
                P::Own => "own parsers",
            };
            let names: String = docs.iter().map(|&d| (b'A' + d as u8) as char).collect();
            v.push(Scenario {
                name: format!("{names}, {}, {p}", if lines { "by line" } else { "at once" }),
                docs: docs.to_vec(),
                lines,
                parser,
                preemptions: k,
                waits: None,
                coarse: false,
            });
        }
    };
    add(&[0, 1], true, P::Cold, 1, 2);
    add(&[3, 2], true, P::Cold, 2, 3);
    add(&[2, 4], true, P::Cold, 2, 3);
    add(&[4, 3], true, P::Warm, 2, 4);
    add(&[3, 3], false, P::Warm, 3, 5);
    add(&[0, 5], true, P::Warm, 1, 3);
    add(&[1, 2], true, P::Warm, 1, 3);
    add(&[3, 4, 2], true, P::Cold, 1, 2);
    add(&[3, 5], true, P::Own, 1, 2);
    add(&[0, 0], true, P::Cold, 0, 2);
    add(&[1, 0], false, P::Own, 0, 1);
    add(&[0, 1, 3], true, P::Cold, 0, 1);
    // every schedule that switches at reads
    for (docs, deep) in [(&[3usize, 2] as &[usize], false), (&[2, 4], false), (&[4, 4], false), (&[3, 3, 5], true), (&[3, 5, 2], true), (&[3, 4, 5], true), (&[3, 2, 3], true)] {
        if thorough || !deep {
            let names: String = docs.iter().map(|&d| (b'A' + d as u8) as char).collect();
            v.push(Scenario {
                name: format!("{names}, by line, one new parser, all schedules of the reads"),
                docs: docs.to_vec(),
                lines: true,
                parser: P::Cold,
                preemptions: 1000,
                waits: None,
                coarse: true,
            });
        }
    }
    // a source that is fed by what the other threads do
    for (docs, reads) in [(&[3usize, 4] as &[usize], 3), (&[2, 0], 6), (&[0, 1], 14), (&[4, 3, 2], 4)] {
        for k in 0..reads {
            if thorough || k % 3 == 0 || docs[0] == 3 {
                let names: String = docs.iter().map(|&d| (b'A' + d as u8) as char).collect();
                v.push(Scenario {
                    name: format!("{names}, by line, one new parser, read {k} of the first waits for the end of the others"),
                    docs: docs.to_vec(),
                    lines: true,
                    parser: P::Cold,
                    preemptions: if thorough { 1 } else { 0 },
                    waits: Some(k),
                    coarse: false,
                });
            }
        }
    }
    v
}

struct Src {
    d: &'static [u8],
    lines: bool,
    k: usize,
    waits: Option<usize>,
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        point_off(0x5000);
        if self.waits == Some(self.k) {
            on(false);
            wait_others();
            on(true);
        }
        self.k += 1;
        let mut n = if self.lines { self.d.iter().position(|&x| x == b'\n').map_or(self.d.len(), |i| i + 1) } else { self.d.len() };
        n = n.min(b.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}

fn map<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

/// Run `f` in a child process; `Err`: how it died.
fn child(f: impl FnOnce()) -> Result<(), String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            f();
            libc::_exit(0);
        }
        wait_for(pid)
    }
}
fn wait_for(pid: i32) -> Result<(), String> {
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        return Err(match s {
            libc::SIGALRM => "does not end".to_string(),
            s => format!("died of signal {s}"),
        });
    }
    match libc::WEXITSTATUS(st) {
        0 => Ok(()),
        x => Err(format!("exit status {x}")),
    }
}

struct SendPtr(*const poreader_parser::T);
mod poreader_parser {
    pub type T = drive::Parser;
}
unsafe impl Send for SendPtr {}

/// One execution, in this (forked) process.
fn execute(sc: &Scenario, plan: &[(usize, usize)], parser: Option<&'static drive::Parser>, want: &[String], sh: *mut Shared) {
    unsafe {
        libc::alarm(40);
    }
    let n = sc.docs.len();
    set_coarse(sc.coarse);
    start(n, plan.to_vec(), sh);
    let got: &'static Mutex<Vec<String>> = Box::leak(Box::new(Mutex::new(vec![String::new(); n])));
    let mut hs = vec![];
    for (i, &d) in sc.docs.iter().enumerate() {
        let p = parser.map(|p| SendPtr(p));
        let lines = sc.lines;
        let waits = sc.waits.filter(|_| i == 0);
        hs.push(std::thread::spawn(move || {
            enter(i);
            let src = Box::new(Src { d: DOCS[d].as_bytes(), lines, k: 0, waits });
            let p = p;
            on(true);
            let r = catch_unwind(AssertUnwindSafe(|| match &p {
                Some(p) => drive::read(unsafe { &*p.0 }, src),
                None => drive::read(&drive::parser(), src),
            }));
            on(false);
            got.lock().unwrap()[i] = r.unwrap_or_else(|_| "panicked".into());
            leave();
        }));
    }
    run();
    for h in hs {
        let _ = h.join();
    }
    let got = got.lock().unwrap();
    for (i, &d) in sc.docs.iter().enumerate() {
        if got[i] != want[d] {
            let t = format!("thread {i} reports {} -- alone it reports {}", got[i], want[d]);
            fail(sh, &t);
            return;
        }
    }
}
fn fail(sh: *mut Shared, text: &str) {
    unsafe {
        let sh = &mut *sh;
        let n = text.len().min(sh.text.len());
        sh.text[..n].copy_from_slice(&text.as_bytes()[..n]);
        sh.text_len.store(n, SeqCst);
        sh.verdict.store(4, SeqCst);
    }
}

struct Out {
    broken: Option<String>,
    steps: usize,
    hash: u64,
}
fn attempt(sc: &Scenario, plan: &[(usize, usize)], parser: Option<&'static drive::Parser>, want: &[String], sh: *mut Shared) -> Out {
    let s = unsafe { &mut *sh };
    s.verdict.store(0, SeqCst);
    s.steps.store(0, SeqCst);
    s.text_len.store(0, SeqCst);
    s.hash.store(0, SeqCst);
    let r = child(|| execute(sc, plan, parser, want, sh));
    let text = String::from_utf8_lossy(&s.text[..s.text_len.load(SeqCst)]).into_owned();
    let broken = match (r, s.verdict.load(SeqCst)) {
        (Err(m), _) => Some(format!("the process {m}")),
        (_, 1) => None,
        (_, 0) => Some("the process ended early".into()),
        (_, _) => Some(text),
    };
    Out { broken, steps: s.steps.load(SeqCst), hash: s.hash.load(SeqCst) }
}

#[repr(C)]
struct Counters {
    runs: AtomicU64,
    steps: AtomicU64,
    distinct: AtomicU64,
    depth: AtomicUsize,
    capped: AtomicU32,
    stop: AtomicU32,
}

type Plan = Vec<(usize, usize)>;
/// The plans that add one decision to `plan`, whose execution is in `sh`.
fn children(plan: &Plan, cost: usize, sc: &Scenario, sh: *mut Shared, steps: usize) -> Vec<(Plan, usize)> {
    let s = unsafe { &*sh };
    let from = plan.last().map_or(0, |x| x.0 + 1);
    let mut v = vec![];
    for i in from..steps {
        let [_, mask, forced, to] = s.trace[i];
        let c = cost + (forced == 0) as usize;
        if c > sc.preemptions {
            continue;
        }
        for t in 0..sc.docs.len() {
            if mask & (1 << t) != 0 && t != to as usize {
                let mut p = plan.clone();
                p.push((i, t));
                v.push((p, c));
            }
        }
    }
    v
}

fn setup(sc: &Scenario) -> Option<&'static drive::Parser> {
    if sc.parser == P::Own {
        return None;
    }
    let p: &'static drive::Parser = Box::leak(Box::new(drive::parser()));
    set_region(p as *const _ as usize, std::mem::size_of::<drive::Parser>());
    if sc.parser == P::Warm {
        for d in DOCS {
            let _ = catch_unwind(AssertUnwindSafe(|| drive::read(p, Box::new(d.as_bytes()))));
        }
    }
    Some(p)
}

/// What each catalogue gives to a process that reads nothing else.
fn alone() -> Vec<String> {
    DOCS.iter()
        .map(|d| {
            let sh: *mut Shared = map();
            let r = child(|| {
                unsafe {
                    libc::alarm(40);
                }
                let x = catch_unwind(AssertUnwindSafe(|| drive::read(&drive::parser(), Box::new(d.as_bytes())))).unwrap_or_else(|_| "panicked".into());
                fail(sh, &x);
            });
            let s = unsafe { &*sh };
            let t = String::from_utf8_lossy(&s.text[..s.text_len.load(SeqCst)]).into_owned();
            match r {
                Ok(()) => t,
                Err(m) => format!("the process {m}"),
            }
        })
        .collect()
}

fn explore(sc: &Scenario, k: usize, want: &[String], workers: usize, end: Instant, dir: &str) -> bool {
    let t0 = Instant::now();
    let cs: *mut Counters = map();
    let c = unsafe { &*cs };
    let written: *mut Written = map();
    set_written(written);
    // the process in which the scenario is set up
    let r = child(|| {
        let parser = setup(sc);
        let sh: *mut Shared = map();
        let report = |plan: &Plan, what: &str| {
            if c.stop.swap(1, SeqCst) == 0 {
                let path = format!("{dir}/P16-interleaving.txt");
                let plan: String = plan.iter().map(|(a, b)| format!("{a}:{b} ")).collect();
                let text = format!(
                    "property: P16\nscenario: {k}\ntier: {}\nplan: {plan}\nwhat: {}\nthreads: {} (the plan gives, for a step of the execution, the thread that goes on)\ncatalogues:\n{}\n",
                    if std::env::args().nth(2).as_deref() == Some("thorough") { "thorough" } else { "quick" },
                    what.replace('\n', "\\n"),
                    sc.name,
                    sc.docs.iter().map(|&d| DOCS[d]).collect::<Vec<_>>().join("=====\n")
                );
                let _ = std::fs::write(&path, text);
                println!("BROKEN {path} {}: {}", sc.name, what.replace('\n', "\\n"));
            }
        };
        // run without preemption first, so that written variables are known
        let mut first = attempt(sc, &[], parser, want, sh);
        if first.broken.is_none() {
            first = attempt(sc, &[], parser, want, sh);
        }
        c.runs.fetch_add(1, SeqCst);
        c.steps.fetch_add(first.steps as u64, SeqCst);
        c.distinct.fetch_add(1, SeqCst);
        c.depth.fetch_max(first.steps, SeqCst);
        if let Some(m) = first.broken {
            report(&vec![], &m);
            return;
        }
        let roots = children(&vec![], 0, sc, sh, first.steps);
        let mut pids = vec![];
        for w in 0..workers {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                let sh: *mut Shared = map();
                let mut seen: HashSet<u64> = HashSet::new();
                seen.insert(first.hash);
                let mut stack: Vec<(Plan, usize)> = roots.iter().skip(w).step_by(workers).cloned().collect();
                stack.reverse();
                while let Some((plan, cost)) = stack.pop() {
                    if c.stop.load(Relaxed) != 0 {
                        break;
                    }
                    if Instant::now() > end {
                        c.capped.store(1, SeqCst);
                        break;
                    }
                    let o = attempt(sc, &plan, parser, want, sh);
                    c.runs.fetch_add(1, SeqCst);
                    c.steps.fetch_add(o.steps as u64, SeqCst);
                    c.depth.fetch_max(o.steps, SeqCst);
                    if seen.insert(o.hash) {
                        c.distinct.fetch_add(1, SeqCst);
                    }
                    if let Some(m) = o.broken {
                        report(&plan, &m);
                        break;
                    }
                    stack.extend(children(&plan, cost, sc, sh, o.steps));
                }
                unsafe { libc::_exit(0) }
            }
            pids.push(pid);
        }
        for p in pids {
            if let Err(m) = wait_for(p) {
                println!("HARNESS a worker {m}");
            }
        }
    });
    if let Err(m) = r {
        println!("HARNESS scenario {}: {m}", sc.name);
    }
    println!(
        "SPACE {}|{}|{}|{}|{}|{}|{}|{:.2}",
        sc.name,
        sc.preemptions,
        c.runs.load(SeqCst),
        c.steps.load(SeqCst),
        c.distinct.load(SeqCst),
        c.depth.load(SeqCst),
        c.capped.load(SeqCst) == 0,
        t0.elapsed().as_secs_f64()
    );
    c.stop.load(SeqCst) == 0
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("replay") {
        let text = std::fs::read_to_string(&args[1]).unwrap_or_default();
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        let all = scenarios(get("tier:") == "thorough");
        let sc = &all[get("scenario:").parse::<usize>().unwrap_or(0).min(all.len() - 1)];
        let plan: Plan = get("plan:").split_whitespace().filter_map(|x| x.split_once(':')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect();
        let want = alone();
        set_written(map());
        let parser = setup(sc);
        let sh = map();
        attempt(sc, &[], parser, &want, sh);
        let o = attempt(sc, &plan, parser, &want, sh);
        let s = unsafe { &*sh };
        for i in 0..o.steps {
            let [f, m, forced, to] = s.trace[i];
            if f != to {
                println!("step {i}: thread {f} -> thread {to} (able to run: {m:04b}{})", if forced != 0 { ", no choice of its own" } else { "" });
            }
        }
        println!("{}: {}", sc.name, o.broken.clone().unwrap_or("as alone".into()));
        std::process::exit(o.broken.is_some() as i32);
    }
    let thorough = args.get(1).map(|s| s.as_str()) == Some("thorough");
    let secs: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(60);
    let workers: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = args.get(4).cloned().unwrap_or_else(|| "/verif/replays".into());
    let end = Instant::now() + Duration::from_secs(secs);
    let want = alone();
    let all = scenarios(thorough);
    for (k, sc) in all.iter().enumerate() {
        let left = end.saturating_duration_since(Instant::now());
        let share = if k + 1 == all.len() { left } else { left.mul_f64(0.4) };
        if !explore(sc, k, &want, workers, Instant::now() + share, &dir) {
            break;
        }
    }
}
