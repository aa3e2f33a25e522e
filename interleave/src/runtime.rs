//! The runtime the instrumented code calls into: every atomic operation of the library (locks, once cells and
//! reference counts that are inlined into it included) is a scheduling point, and a plain access to a variable that
//! several threads can reach and that something writes is one, too.  Futex waits are replaced by the scheduler's own.
#![allow(clippy::missing_safety_doc, non_snake_case)]

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAXT: usize = 4;
pub const MAX_STEPS: usize = 60_000;
const FAIR: usize = 3_000;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked(usize, bool),
    TimedOut,
    /// until all others have ended
    Patient,
    Done,
}

/// What happened, shared with the exploring process.
#[repr(C)]
pub struct Shared {
    /// 0 running, 1 finished, 2 deadlock, 3 endless, 4 the library panicked or reported something else
    pub verdict: AtomicU32,
    pub steps: AtomicUsize,
    pub text_len: AtomicUsize,
    /// hash of the sequence of points
    pub hash: AtomicU64,
    /// per step: who ran, who could run (bits), forced, whom it was given to
    pub trace: [[u8; 4]; MAX_STEPS],
    pub text: [u8; 16384],
}

struct Sched {
    n: usize,
    st: [St; MAXT],
    plan: Vec<(usize, usize)>,
    pos: usize,
    step: usize,
    alone: usize,
    hash: u64,
    shared: *mut Shared,
}
static mut S: Option<Sched> = None;
static GO: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
static ACTIVE: AtomicBool = AtomicBool::new(false);
static REGION: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    // only ever touched by the thread that has the baton
    unsafe { S.as_mut().unwrap() }
}

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}

/// Addresses seen to be written (shared by all exploring processes).
pub struct Written {
    pub n: AtomicUsize,
    pub at: [AtomicUsize; 512],
}
static WRITTEN: std::sync::atomic::AtomicPtr<Written> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

pub fn set_written(w: *mut Written) {
    WRITTEN.store(w, SeqCst);
}
pub fn set_region(at: usize, len: usize) {
    REGION[0].store(at, SeqCst);
    REGION[1].store(at + len, SeqCst);
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
fn wake(i: usize) {
    GO[i].store(1, SeqCst);
    unsafe {
        raw(libc::SYS_futex, GO[i].as_ptr() as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 64, 0, 0, 0);
    }
}
fn wait(i: usize) {
    while GO[i].swap(0, SeqCst) == 0 {
        unsafe {
            raw(libc::SYS_futex, GO[i].as_ptr() as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, 0, 0, 0, 0);
        }
    }
}

pub fn start(n: usize, plan: Vec<(usize, usize)>, shared: *mut Shared) {
    unsafe {
        S = Some(Sched { n, st: [St::Done; MAXT], plan, pos: 0, step: 0, alone: 0, hash: 0, shared });
    }
    for i in 0..n {
        s().st[i] = St::Ready;
    }
    ACTIVE.store(true, SeqCst);
}
/// Give the baton to the first thread and wait until all are done.
pub fn run() {
    let t = s().choose(MAXT, true, 0);
    wake(t.unwrap());
    wait(MAXT);
}
/// A thread waits for its first turn.
pub fn enter(i: usize) {
    ME.with(|m| m.set(i));
    wait(i);
}
pub fn on(x: bool) {
    ON.with(|o| o.set(x));
}
pub fn leave() {
    on(false);
    let me = ME.with(|m| m.get());
    s().st[me] = St::Done;
    match s().choose(me, true, 0x1000) {
        Some(t) => wake(t),
        None => {
            if s().st.iter().all(|x| *x == St::Done) {
                s().publish(1, "");
                wake(MAXT)
            } else {
                s().stuck()
            }
        }
    }
}

impl Sched {
    pub fn publish(&mut self, verdict: u32, text: &str) {
        unsafe {
            let sh = &mut *self.shared;
            let b = text.as_bytes();
            let n = b.len().min(sh.text.len());
            sh.text[..n].copy_from_slice(&b[..n]);
            sh.text_len.store(n, SeqCst);
            sh.steps.store(self.step.min(MAX_STEPS), SeqCst);
            sh.hash.store(self.hash, SeqCst);
            sh.verdict.store(verdict, SeqCst);
        }
    }
    fn stuck(&mut self) -> ! {
        // threads of its own could still wake one up
        let tasks = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
        let v = if tasks > self.n + 1 { 1 } else { 2 };
        self.publish(v, &format!("no thread can go on: {:?}", &self.st[..self.n]));
        unsafe { libc::_exit(0) }
    }
    /// Decide who goes on at this step; `from` is who was running, `forced` if it cannot (or need not) go on itself.
    fn choose(&mut self, from: usize, forced: bool, kind: u64) -> Option<usize> {
        let mut mask = 0u8;
        let ended = (0..self.n).filter(|&i| !matches!(self.st[i], St::Done | St::Patient)).count() == 0;
        for i in 0..self.n {
            if matches!(self.st[i], St::Ready | St::TimedOut) || (ended && self.st[i] == St::Patient) {
                mask |= 1 << i;
            }
        }
        if mask == 0 {
            return None;
        }
        let step = self.step;
        self.step += 1;
        if step >= MAX_STEPS - 1 {
            self.publish(3, "the threads do not come to an end");
            unsafe { libc::_exit(0) }
        }
        let after = |k: usize, n: usize| (1..=n).map(|d| (k + d) % n).find(|&i| mask & (1 << i) != 0);
        let mut to = if !forced && mask & (1 << from) != 0 { from } else { after(if from >= self.n { self.n - 1 } else { from }, self.n).unwrap() };
        while self.pos < self.plan.len() && self.plan[self.pos].0 < step {
            self.pos += 1;
        }
        let mut fair = forced;
        if self.pos < self.plan.len() && self.plan[self.pos].0 == step {
            let t = self.plan[self.pos].1;
            if t < self.n && mask & (1 << t) != 0 {
                to = t;
            }
            self.pos += 1;
        } else if !forced && self.alone >= FAIR {
            // somebody may be waiting for another thread without saying so
            to = after(from, self.n).unwrap();
            fair = true;
        }
        if to == from {
            self.alone += 1
        } else {
            self.alone = 0
        }
        self.hash = (self.hash.rotate_left(5) ^ (to as u64 + 1) ^ (kind << 8)).wrapping_mul(0x9E3779B97F4A7C15);
        unsafe {
            (*self.shared).trace[step] = [from as u8, mask, fair as u8, to as u8];
        }
        Some(to)
    }
}

static COARSE: AtomicBool = AtomicBool::new(false);
/// Only the reads of the sources are scheduling points.
pub fn set_coarse(x: bool) {
    COARSE.store(x, SeqCst);
}

/// A scheduling point of a controlled thread.
pub fn point(kind: u64) {
    if !ON.with(|o| o.get()) || (kind != 0x5000 && COARSE.load(Relaxed)) {
        return;
    }
    let me = ME.with(|m| m.get());
    on(false);
    let t = s().choose(me, false, kind).unwrap();
    if t != me {
        wake(t);
        wait(me);
    }
    on(true);
}
/// The same, from code that is not instrumented (a source being read).
pub fn point_off(kind: u64) {
    let was = ON.with(|o| o.replace(true));
    point(kind);
    on(was);
}
/// Give the baton away although one could go on.
fn yield_() {
    let me = ME.with(|m| m.get());
    on(false);
    let t = s().choose(me, true, 0x2000).unwrap();
    if t != me {
        wake(t);
        wait(me);
    }
    on(true);
}

/// A source that has nothing to deliver before all other threads have ended.
pub fn wait_others() {
    let me = ME.with(|m| m.get());
    s().st[me] = St::Patient;
    match s().choose(me, true, 0x6000) {
        Some(t) if t == me => (),
        Some(t) => {
            wake(t);
            wait(me);
        }
        None => s().stuck(),
    }
    s().st[me] = St::Ready;
}

fn watched(a: usize) -> bool {
    let lo = &raw const __data_start as usize;
    let hi = &raw const _end as usize;
    (a >= lo && a < hi) || (a >= REGION[0].load(Relaxed) && a < REGION[1].load(Relaxed))
}
fn plain(a: usize, write: bool) {
    if !ON.with(|o| o.get()) || !watched(a) {
        return;
    }
    let w = unsafe { &*WRITTEN.load(Relaxed) };
    let n = w.n.load(Relaxed).min(512);
    let known = w.at[..n].iter().any(|x| x.load(Relaxed) == a);
    if write && !known {
        let i = w.n.fetch_add(1, SeqCst);
        if i < 512 {
            w.at[i].store(a, SeqCst);
        }
    }
    if write || known {
        point(0x100 + write as u64);
    }
}
fn range(a: usize, n: usize, write: bool) {
    if n > 0 {
        plain(a, write);
    }
}

// ---------------------------------------------------------------------------------------------------------------
// futex

unsafe fn set_errno(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && ACTIVE.load(Relaxed) {
        let op = b as i32 & 127;
        if ON.with(|o| o.get()) && (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) {
            let me = ME.with(|m| m.get());
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                return set_errno(libc::EAGAIN);
            }
            on(false);
            s().st[me] = St::Blocked(a as usize, d != 0);
            let t = match s().choose(me, true, 0x3000) {
                Some(t) => t,
                None => match (0..s().n).find(|&i| matches!(s().st[i], St::Blocked(_, true))) {
                    Some(i) => {
                        s().st[i] = St::TimedOut;
                        s().choose(me, true, 0x4000).unwrap()
                    }
                    None => s().stuck(),
                },
            };
            if t != me {
                wake(t);
                wait(me);
            }
            let timed = s().st[me] == St::TimedOut;
            s().st[me] = St::Ready;
            on(true);
            return if timed { set_errno(libc::ETIMEDOUT) } else { 0 };
        }
        if ON.with(|o| o.get()) && (op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET) {
            let mut k = 0;
            for i in 0..s().n {
                if k < c && matches!(s().st[i], St::Blocked(x, _) if x == a as usize) {
                    s().st[i] = St::Ready;
                    k += 1;
                }
            }
            let r = raw(n, a, b, c - k, d, e, f);
            return k + r.max(0);
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32)
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ON.with(|o| o.get()) {
        yield_();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}

// ---------------------------------------------------------------------------------------------------------------
// what the instrumentation calls

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

macro_rules! access {
    ($($r:ident $w:ident),*) => { $(
        #[no_mangle] pub extern "C" fn $r(a: usize) { plain(a, false) }
        #[no_mangle] pub extern "C" fn $w(a: usize) { plain(a, true) }
    )* };
}
access!(__tsan_read1 __tsan_write1, __tsan_read2 __tsan_write2, __tsan_read4 __tsan_write4, __tsan_read8 __tsan_write8, __tsan_read16 __tsan_write16,
    __tsan_unaligned_read1 __tsan_unaligned_write1, __tsan_unaligned_read2 __tsan_unaligned_write2, __tsan_unaligned_read4 __tsan_unaligned_write4,
    __tsan_unaligned_read8 __tsan_unaligned_write8, __tsan_unaligned_read16 __tsan_unaligned_write16,
    __tsan_volatile_read1 __tsan_volatile_write1, __tsan_volatile_read2 __tsan_volatile_write2, __tsan_volatile_read4 __tsan_volatile_write4,
    __tsan_volatile_read8 __tsan_volatile_write8, __tsan_vptr_read __tsan_vptr_write_);
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(a: usize, _: usize) {
    plain(a, true)
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    range(a, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    range(a, n, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, f: *const u8, n: usize) -> *mut u8 {
    range(f as usize, n, false);
    range(d as usize, n, true);
    std::ptr::copy(f, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, f: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, f, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    range(d as usize, n, true);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    point(0x200);
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident $store:ident $swap:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $strong:ident $weak:ident $val:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t { point(1); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) { point(2); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $swap(p: *const $a, v: $t, _: i32) -> $t { point(3); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t { point(4); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t { point(4); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t { point(4); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t { point(4); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t { point(4); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t { point(4); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $strong(p: *const $a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            point(5);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $weak(p: *const $a, c: *mut $t, v: $t, a: i32, b: i32) -> i32 { $strong(p, c, v, a, b) }
        #[no_mangle] pub unsafe extern "C" fn $val(p: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            point(5);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val);
