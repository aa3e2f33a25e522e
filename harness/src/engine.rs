//! Stateless explicit-state explorer.
//!
//! A `Space` is a closed system: a driver function in which every open decision (which input, which environment
//! answer, which operation, which thread runs next) is taken with `Ctx::choose` (full branching) or `Ctx::dev`
//! (a departure from the default, counted against the space's deviation bound).  The explorer runs the driver to
//! completion for every sequence of choices, depth first, on several workers; a run is identified by its choices
//! and can be replayed from them.

use poreader::PoParser;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub enum Stop {
    /// the choices do not describe a case of the space
    Skip,
    /// the property is broken
    Broken(String),
    /// the harness itself went wrong (never a verdict)
    Harness(String),
}
pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! broken {
    ($($a:tt)*) => { return Err($crate::engine::Stop::Broken(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Stop::Broken(format!($($a)*))) } };
}

#[derive(Clone, Copy)]
struct Point {
    choice: u32,
    arity: u32,
}

/// Distinct states and outcomes are counted up to this number per worker (the count is then a lower bound).
const MAX_SEEN: usize = 4_000_000;

pub struct Ctx<'a> {
    prefix: &'a [u32],
    trace: Vec<Point>,
    devs: usize,
    dev_bound: usize,
    states: &'a mut HashSet<u64>,
    outcome: u64,
    /// what was fed to the system in this run (for the replay artefact)
    pub input: Vec<u8>,
    pub note: String,
    findings: Vec<(&'static str, String)>,
    diverged: bool,
    /// number of implementation runs compared with an oracle in this execution
    pub compared: u64,
    pub tier: Tier,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl<'a> Ctx<'a> {
    fn point(&mut self, arity: usize) -> usize {
        assert!(arity > 0, "choice point without alternatives");
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        let c = if c >= arity {
            self.diverged = true;
            0
        } else {
            c
        };
        self.trace.push(Point { choice: c as u32, arity: arity as u32 });
        c
    }
    /// Free choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        self.point(n)
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.choose(xs.len())]
    }
    /// Alternative 0 is the default; every other one uses up one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        let open = self.devs < self.dev_bound;
        let c = self.point(if open { n } else { 1 });
        if c != 0 {
            self.devs += 1;
        }
        c
    }
    pub fn dev_pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.dev(xs.len())]
    }
    pub fn devs_left(&self) -> usize {
        self.dev_bound - self.devs
    }
    /// Record that the system was seen in this (canonically hashed) state.
    pub fn state(&mut self, h: u64) {
        if self.states.len() < MAX_SEEN {
            self.states.insert(h);
        }
        self.outcome = self.outcome.rotate_left(5) ^ h;
    }
    /// A failure that may be listed in the known-findings file.
    pub fn finding(&mut self, id: &'static str, what: String) {
        self.findings.push((id, what));
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

thread_local! {
    static PARSER: Cell<Option<&'static PoParser>> = const { Cell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// The worker's parser, shared by all its executions (a parser is meant to be reused).
pub fn parser() -> &'static PoParser {
    PARSER.with(|p| match p.get() {
        Some(x) => x,
        None => {
            let x: &'static PoParser = Box::leak(Box::new(PoParser::new()));
            p.set(Some(x));
            x
        }
    })
}
pub fn fresh_parser() {
    PARSER.with(|p| p.set(None))
}

// ---------------------------------------------------------------------------------------------------------------
// Calls into the implementation: panics, aborts and hangs are attributed to it only inside `in_impl`.

const SLOTS: usize = 128;
struct Slot {
    since_ms: AtomicU64,
    input: AtomicPtr<u8>,
    len: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { since_ms: AtomicU64::new(0), input: AtomicPtr::new(std::ptr::null_mut()), len: AtomicUsize::new(0) };
static SLOT_TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(100);
static CRASH_PATH: Mutex<String> = Mutex::new(String::new());
static CRASH_PATH_C: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CRASH_LINE_C: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static CRASH_LINE_LEN: AtomicUsize = AtomicUsize::new(0);
static T0: Mutex<Option<Instant>> = Mutex::new(None);

fn now_ms() -> u64 {
    let mut t = T0.lock().unwrap();
    let t0 = *t.get_or_insert_with(Instant::now);
    t0.elapsed().as_millis() as u64 + 1
}
static COARSE: AtomicU64 = AtomicU64::new(1);

/// Slots: workers have 0.., threads scheduled by a worker have 16 + 4 * (the worker's)..
pub fn set_slot(n: usize) {
    SLOT.with(|s| s.set(n % SLOTS));
}
pub fn my_slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS);
        }
        s.get()
    })
}

/// Run `f` (which calls the code under test), `input` being what it is fed.
/// A panic inside becomes `Err(message)`.
pub fn in_impl<T>(input: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = &SLOT_TABLE[my_slot()];
    slot.input.store(input.as_ptr() as *mut u8, SeqCst);
    slot.len.store(input.len(), SeqCst);
    slot.since_ms.store(COARSE.load(Relaxed), SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    slot.since_ms.store(0, SeqCst);
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let at = PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        format!("panicked: {m} {at}")
    })
}

extern "C" fn on_abort(_: libc::c_int) {
    unsafe {
        let id = SLOT.with(|s| s.get());
        if id != usize::MAX && SLOT_TABLE[id].since_ms.load(SeqCst) != 0 {
            let path = CRASH_PATH_C.load(SeqCst);
            if !path.is_null() {
                let fd = libc::open(path as *const libc::c_char, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
                if fd >= 0 {
                    libc::write(fd, SLOT_TABLE[id].input.load(SeqCst) as *const libc::c_void, SLOT_TABLE[id].len.load(SeqCst));
                    libc::close(fd);
                }
                libc::write(1, CRASH_LINE_C.load(SeqCst) as *const libc::c_void, CRASH_LINE_LEN.load(SeqCst));
                libc::_exit(1);
            }
        }
        libc::_exit(4);
    }
}

pub fn install(property: &str, dir: &str, hang_s: u64) {
    now_ms();
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let path = format!("{dir}/{property}-crash.po");
    *CRASH_PATH.lock().unwrap() = path.clone();
    CRASH_PATH_C.store(Box::leak(format!("{path}\0").into_boxed_str()).as_mut_ptr(), SeqCst);
    let line: &'static mut str = Box::leak(
        format!("\nthe process aborted inside the code under test (stack overflow or abort); input in the replay file\nVIOLATION property={property} replay={path}\n").into_boxed_str(),
    );
    CRASH_LINE_LEN.store(line.len(), SeqCst);
    CRASH_LINE_C.store(line.as_mut_ptr(), SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
    }
    let property = property.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = now_ms();
        COARSE.store(now, Relaxed);
        for s in SLOT_TABLE.iter() {
            let t = s.since_ms.load(SeqCst);
            if t != 0 && now > t + hang_s * 1000 {
                let path = CRASH_PATH.lock().unwrap().clone();
                // the input buffer is alive as long as the call is running
                let data = unsafe { std::slice::from_raw_parts(s.input.load(SeqCst), s.len.load(SeqCst)) }.to_vec();
                if s.since_ms.load(SeqCst) != t {
                    continue;
                }
                let _ = std::fs::write(&path, data);
                println!("a call into the code under test has not returned for {hang_s} s; input in the replay file");
                println!("VIOLATION property={property} replay={path}");
                unsafe { libc::_exit(1) };
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------

pub type Driver = Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>;
pub struct Space {
    pub name: &'static str,
    pub rule: String,
    pub dev_bound: usize,
    pub driver: Driver,
}
pub fn space(name: &'static str, dev_bound: usize, rule: impl Into<String>, f: impl Fn(&mut Ctx) -> Res + Sync + Send + 'static) -> Space {
    Space { name, rule: rule.into(), dev_bound, driver: Box::new(f) }
}

pub struct Failure {
    pub what: String,
    pub choices: Vec<u32>,
    pub input: Vec<u8>,
    pub note: String,
    pub space: &'static str,
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub compared: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub harness: Vec<String>,
    pub findings: Vec<(&'static str, String)>,
    pub finding_count: u64,
    pub capped: bool,
}

struct Queue {
    q: Mutex<(Vec<Vec<u32>>, usize)>, // tasks, busy workers
    cv: Condvar,
    hungry: AtomicUsize,
}

fn show(input: &[u8]) -> String {
    let s = String::from_utf8_lossy(input);
    let mut out = String::new();
    for c in s.chars().take(300) {
        out.push(c);
    }
    if s.chars().count() > 300 {
        let _ = write!(out, "... ({} bytes)", input.len());
    }
    out
}

pub fn run_one<'a>(
    sp: &Space,
    prefix: &'a [u32],
    states: &'a mut HashSet<u64>,
    tier: Tier,
) -> (Ctx<'a>, Result<(), Stop>) {
    let mut ctx = Ctx {
        prefix,
        trace: Vec::new(),
        devs: 0,
        dev_bound: sp.dev_bound,
        states,
        outcome: 0,
        input: Vec::new(),
        note: String::new(),
        findings: Vec::new(),
        diverged: false,
        compared: 0,
        tier,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (sp.driver)(&mut ctx)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let at = PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
            Err(Stop::Harness(format!("harness panic: {m} {at}")))
        }
    };
    let r = if ctx.diverged { Err(Stop::Harness("divergence while replaying a prefix".into())) } else { r };
    (ctx, r)
}

pub fn explore(sp: &Space, tier: Tier, workers: usize, deadline: Instant) -> Report {
    let queue = Queue { q: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), hungry: AtomicUsize::new(0) };
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Report::default());
    std::thread::scope(|s| {
        for w in 0..workers {
            let (queue, stop, total) = (&queue, &stop, &total);
            s.spawn(move || {
                set_slot(w);
                let mut rep = Report::default();
                loop {
                    let task = {
                        let mut g = queue.q.lock().unwrap();
                        queue.hungry.fetch_add(1, SeqCst);
                        let t = loop {
                            if stop.load(SeqCst) {
                                break None;
                            }
                            if let Some(t) = g.0.pop() {
                                g.1 += 1;
                                break Some(t);
                            }
                            if g.1 == 0 {
                                break None;
                            }
                            g = queue.cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                        };
                        queue.hungry.fetch_sub(1, SeqCst);
                        t
                    };
                    let Some(task) = task else { break };
                    dfs(sp, tier, task, queue, stop, deadline, &mut rep);
                    queue.q.lock().unwrap().1 -= 1;
                    queue.cv.notify_all();
                }
                queue.cv.notify_all();
                let mut t = total.lock().unwrap();
                t.executions += rep.executions;
                t.compared += rep.compared;
                t.skipped += rep.skipped;
                t.transitions += rep.transitions;
                if t.states.is_empty() {
                    t.states = rep.states;
                } else {
                    t.states.extend(rep.states);
                }
                if t.outcomes.is_empty() {
                    t.outcomes = rep.outcomes;
                } else {
                    t.outcomes.extend(rep.outcomes);
                }
                t.max_depth = t.max_depth.max(rep.max_depth);
                t.samples.extend(rep.samples);
                t.failures.extend(rep.failures);
                t.harness.extend(rep.harness);
                t.findings.extend(rep.findings);
                t.finding_count += rep.finding_count;
                t.capped |= rep.capped;
            });
        }
    });
    total.into_inner().unwrap()
}

fn dfs(sp: &Space, tier: Tier, root: Vec<u32>, queue: &Queue, stop: &AtomicBool, deadline: Instant, rep: &mut Report) {
    let min = root.len();
    let mut prefix = root;
    let mut common = min.saturating_sub(1); // part of the path already counted
    let mut steps = 0u64;
    // alternatives given away to other workers: points below this index are closed
    let mut closed = min;
    loop {
        if stop.load(Relaxed) {
            return;
        }
        steps += 1;
        if steps % 64 == 0 && Instant::now() > deadline {
            rep.capped = true;
            stop.store(true, SeqCst);
            return;
        }
        let mut states = std::mem::take(&mut rep.states);
        let (ctx, r) = run_one(sp, &prefix, &mut states, tier);
        let Ctx { trace, outcome, input, note, findings, compared, .. } = ctx;
        rep.states = states;
        rep.compared += compared;
        rep.max_depth = rep.max_depth.max(trace.len());
        rep.transitions += trace.len().saturating_sub(common) as u64;
        match r {
            Ok(()) => {
                rep.executions += 1;
                if rep.outcomes.len() < MAX_SEEN {
                    rep.outcomes.insert(outcome);
                }
                let e = rep.executions;
                if e <= 2 || (e.is_power_of_two() && rep.samples.len() < 12) {
                    rep.samples.push(format!("{}{}", note, show(&input)));
                }
                for f in findings {
                    rep.finding_count += 1;
                    if rep.findings.iter().filter(|x| x.0 == f.0).count() < 2 {
                        rep.findings.push(f);
                    }
                }
            }
            Err(Stop::Skip) => rep.skipped += 1,
            Err(Stop::Broken(what)) => {
                rep.executions += 1;
                rep.failures.push(Failure { what, choices: trace.iter().map(|p| p.choice).collect(), input, note, space: sp.name });
                stop.store(true, SeqCst);
                return;
            }
            Err(Stop::Harness(what)) => {
                rep.harness.push(format!("{}: {what}; choices {:?}", sp.name, trace.iter().map(|p| p.choice).collect::<Vec<_>>()));
                stop.store(true, SeqCst);
                return;
            }
        }
        // donate the shallowest open branch when somebody is idle
        if queue.hungry.load(Relaxed) > 0 {
            let from = closed.max(min);
            if let Some(i) = (from..trace.len()).find(|&i| trace[i].choice + 1 < trace[i].arity) {
                let mut g = queue.q.lock().unwrap();
                if g.0.len() < 256 {
                    for alt in (trace[i].choice + 1..trace[i].arity).rev() {
                        let mut t: Vec<u32> = trace[..i].iter().map(|p| p.choice).collect();
                        t.push(alt);
                        g.0.push(t);
                    }
                    closed = i + 1;
                    drop(g);
                    queue.cv.notify_all();
                }
            }
        }
        // next in depth-first order
        let from = closed.max(min);
        let Some(i) = (from..trace.len()).rev().find(|&i| trace[i].choice + 1 < trace[i].arity) else { return };
        prefix.clear();
        prefix.extend(trace[..i].iter().map(|p| p.choice));
        prefix.push(trace[i].choice + 1);
        common = i;
    }
}
