//! The scheduler: real threads, one running at a time; every switch, stale read and spurious
//! failure is a decision taken from one recorded stream.

use std::sync::atomic::AtomicU32;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use dstcore::core::*;

use crate::mem::*;

extern "C" {
    fn dst_thread(sim: i32, lo: usize, hi: usize);
    fn dst_is_sim() -> i32;
    fn dst_wait(p: *const AtomicU32, v: u32);
    fn dst_wake(p: *const AtomicU32);
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut [u64; 8]) -> i32;
    fn pthread_attr_getstack(attr: *const [u64; 8], addr: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut [u64; 8]) -> i32;
}

const MAIN: usize = NT;
/// One word per thread and one for main. Threads that never finish keep waiting on theirs, so
/// every run has its own.
type Turns = [AtomicU32; NT + 1];
static mut TURN: *const Turns = std::ptr::null();
fn turns() -> &'static Turns {
    unsafe { &*TURN }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Stalled,
    Blocked { addr: usize, timed: bool },
    Done,
    /// Given up: can never finish.
    Stuck,
}

#[derive(Default)]
struct Saved {
    armed: Option<(usize, u32)>,
    cnt: [u32; NF],
    fired: bool,
    fired_kind: usize,
}

pub struct Th {
    pub st: St,
    /// Runs only when every other thread has finished or stopped.
    late: bool,
    /// Own steps since another thread last ran.
    solo: u32,
    /// Own steps inside the current operation.
    points: u32,
    stall_at: Option<u32>,
    ops: u32,
    saved: Saved,
    woke: i32,
    pub what: String,
}

/// The stream of decisions: 0 is the least perturbing choice. Recorded as pairs (number of
/// zeros, choice).
struct Dec {
    replay: Option<Vec<(u32, u32)>>,
    at: usize,
    left: u32,
    rng: Rng,
    rec: Vec<u32>,
    gap: u32,
}

impl Dec {
    fn choose(&mut self, n: usize, permille: u32) -> usize {
        if n <= 1 {
            return 0;
        }
        let c = match &self.replay {
            Some(r) => {
                if self.at >= r.len() {
                    0
                } else if self.left > 0 {
                    self.left -= 1;
                    0
                } else {
                    let c = r[self.at].1 as usize % n;
                    self.at += 1;
                    self.left = r.get(self.at).map_or(0, |x| x.0);
                    c
                }
            }
            None => {
                if self.rng.below(1000) < permille as usize {
                    1 + self.rng.below(n - 1)
                } else {
                    0
                }
            }
        };
        if c == 0 {
            self.gap += 1;
        } else {
            self.rec.push(self.gap);
            self.rec.push(c as u32);
            self.gap = 0;
        }
        c
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub weak: bool,
    /// Report an operation that waits or takes too many own steps.
    pub progress: bool,
    /// Own steps without anybody else running after which a thread is taken to wait.
    pub limit: u32,
    pub cap: u64,
    /// Chances, in 1/1000.
    pub p_atomic: u32,
    pub p_plain: u32,
    pub p_cb: u32,
    pub p_op: u32,
    pub p_stale: u32,
    pub p_weak: u32,
    pub seed: u64,
}

pub struct Sim {
    pub n: usize,
    cur: usize,
    pub th: Vec<Th>,
    dec: Dec,
    pub cfg: Cfg,
    pub steps: u64,
    pub clock: u64,
    pub mem: Mem,
    draining: bool,
    abort: bool,
    weak_row: u32,
    pub seq: u32,
    pub races: bool,
    pub atomics: u64,
    pub plains: u64,
    pub hook_fails: u64,
    pub switches: u64,
}

static mut SIM: Option<Sim> = None;
/// Totals over the process.
pub static mut COUNTS: Vec<(&'static str, u64)> = Vec::new();
static mut LEAKED: u32 = 0;

#[allow(static_mut_refs)]
pub fn count(name: &'static str, n: u64) {
    unsafe {
        match COUNTS.iter_mut().find(|x| x.0 == name) {
            Some(x) => x.1 += n,
            None => COUNTS.push((name, n)),
        }
    }
}
#[allow(static_mut_refs)]
pub fn counts() -> Vec<(&'static str, u64)> {
    unsafe { COUNTS.clone() }
}

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
fn have_sim() -> bool {
    unsafe { SIM.is_some() }
}

pub fn is_sim() -> bool {
    unsafe { dst_is_sim() != 0 }
}

/// The running thread.
pub fn me() -> usize {
    sim().cur
}

fn wait_turn(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        unsafe { dst_wait(w, 0) }
    }
}

/// Give the baton to `next` and, unless this thread is done, wait for it to come back.
fn hand_over(next: usize, wait: bool) {
    let s = sim();
    let old = s.cur;
    let c = cx();
    if old < s.n {
        s.th[old].saved = Saved { armed: c.armed.take(), cnt: c.cnt, fired: c.fired, fired_kind: c.fired_kind };
    }
    if next < s.n {
        let v = std::mem::take(&mut s.th[next].saved);
        c.armed = v.armed;
        c.cnt = v.cnt;
        c.fired = v.fired;
        c.fired_kind = v.fired_kind;
        s.th[next].solo = 0;
    }
    s.cur = next;
    s.switches += 1;
    c.ev(0x5151_0000 + next as u64);
    let w = turns();
    w[next].store(1, Ordering::Release);
    unsafe { dst_wake(&w[next]) }
    if wait {
        wait_turn(&w[old]);
    }
}

impl Sim {
    /// Threads other than the running one that can run, nearest first.
    fn others(&self) -> Vec<usize> {
        let from = if self.cur < self.n { self.cur } else { self.n - 1 };
        let mut v = Vec::new();
        for late in [false, true] {
            for d in 1..=self.n {
                let t = (from + d) % self.n;
                if t != self.cur && self.th[t].st == St::Ready && self.th[t].late == late {
                    v.push(t);
                }
            }
            if !v.is_empty() || (self.cur < self.n && !self.th[self.cur].late && self.th[self.cur].st == St::Ready) {
                break;
            }
        }
        v
    }

    fn state(&self) -> u64 {
        let mut h = self.mem.state();
        for t in &self.th {
            h = mix(h, (t.ops as u64) << 32 | t.points as u64);
            h = mix(
                h,
                match t.st {
                    St::Ready => 0,
                    St::Stalled => 1,
                    St::Blocked { .. } => 2,
                    St::Done => 3,
                    St::Stuck => 4,
                },
            );
        }
        mix(h, self.cur as u64)
    }
}

fn note_state() {
    let c = cx();
    if c.states.len() < 400 {
        let h = sim().state();
        c.states.push(h);
    }
}

/// The running thread cannot go on: let another one run.
fn leave(wait: bool) {
    let s = sim();
    note_state();
    let o = s.others();
    let next = if o.is_empty() {
        MAIN
    } else {
        let p = s.cfg.p_op;
        o[s.dec.choose(o.len(), p)]
    };
    hand_over(next, wait);
}

/// A place where the scheduler may act.
pub fn sched_point(permille: u32, what: u64) {
    let s = sim();
    let t = s.cur;
    s.steps += 1;
    s.clock += 1000;
    cx().ev(0x77 + (t as u64) + (what << 8));
    let th = &mut s.th[t];
    th.points += 1;
    th.solo += 1;
    if !s.draining && th.stall_at.is_some_and(|x| th.points > x) {
        th.stall_at = None;
        th.st = St::Stalled;
        cx().fired_total[F_STALL] += 1;
        cx().tr(|| format!("  thread {t} stops at its step {}", th.points));
        leave(true);
    }
    let s = sim();
    if s.th[t].solo > s.cfg.limit {
        over(t);
    }
    let s = sim();
    if s.steps > s.cfg.cap {
        s.abort = true;
        s.th[t].st = St::Stuck;
        cx().tr(|| format!("  thread {t} never gets on"));
        hand_over(MAIN, true);
    }
    let o = s.others();
    let c = s.dec.choose(1 + o.len(), permille);
    if c > 0 {
        if s.th[t].points > 1 {
            cx().fired_total[F_SWITCH] += 1;
        }
        let n = o[c - 1];
        cx().tr(|| format!("  thread {t} interrupted, thread {n} runs"));
        note_state();
        hand_over(n, true);
        cx().tr(|| format!("  thread {t} runs on"));
    }
}

/// The running thread has gone on for long without anybody else doing anything.
fn over(t: usize) {
    let s = sim();
    if s.cfg.progress {
        let w = s.th[t].what.clone();
        let k = s.cfg.limit;
        cx().viol("progress", format!("{w} by thread {t} is not finished after {k} of its own steps, with no other thread running"));
        s.th[t].st = St::Stuck;
        leave(true);
        return;
    }
    s.th[t].solo = 0;
    let o = s.others();
    if let Some(&n) = o.first() {
        hand_over(n, true);
        return;
    }
    drain();
    let o = sim().others();
    if let Some(&n) = o.first() {
        hand_over(n, true);
    }
}

/// Stopped threads go on.
fn drain() -> bool {
    let s = sim();
    let mut any = false;
    s.draining = true;
    for t in &mut s.th {
        if t.st == St::Stalled {
            t.st = St::Ready;
            any = true;
        }
    }
    any
}

fn timers() -> bool {
    let s = sim();
    for t in &mut s.th {
        if let St::Blocked { timed: true, .. } = t.st {
            t.st = St::Ready;
            t.woke = -110;
            s.clock += 1_000_000_000;
            return true;
        }
    }
    false
}

fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let prev = IN_LIB.replace(false);
    let r = f();
    IN_LIB.set(prev);
    r
}

fn race_check() {
    let s = sim();
    if s.races {
        if let Some(r) = s.mem.race.take() {
            s.races = false;
            let w = s.th[s.cur].what.clone();
            cx().viol(cx().own[0], format!("{r} ({w})"));
        }
    }
}

#[no_mangle]
extern "C" fn dst_access(a: usize, n: usize, write: i32) {
    quiet(|| {
        let s = sim();
        s.plains += 1;
        sched_point(s.cfg.p_plain, 1 + write as u64);
        let s = sim();
        if s.races {
            let t = s.cur;
            s.mem.plain(t, a, n, write != 0);
            race_check();
        }
    })
}

/// An access by code of the caller to memory it got from the library.
pub fn user_access(a: usize, n: usize, write: bool) {
    let s = sim();
    if s.races && n > 0 {
        let t = s.cur;
        s.mem.plain(t, a, n, write);
        race_check();
    }
}

#[no_mangle]
extern "C" fn dst_atomic(kind: i32, a: usize, size: i32, x: u64, y: u64, mo: i32, fmo: i32, _pc: usize) -> u64 {
    quiet(|| {
        sched_point(sim().cfg.p_atomic, 10 + kind as u64);
        sim().atomics += 1;
        do_atomic(Kind::of(kind), a, size as usize, x, y, mo, fmo)
    })
}

fn do_atomic(kind: Kind, a: usize, size: usize, x: u64, y: u64, mo: i32, fmo: i32) -> u64 {
    let s = sim();
    let t = s.cur;
    let p = s.cfg.p_stale;
    let (dec, mem) = (&mut s.dec, &mut s.mem);
    let mut stale = false;
    let r = mem.atomic(t, kind, a, size, x, y, mo, fmo, &mut |n| {
        let c = dec.choose(n, p);
        stale |= c > 0;
        c
    });
    if stale {
        cx().fired_total[F_STALE] += 1;
    }
    cx().ev(mix(r, kind as u64));
    if cx().trace.is_some() {
        let l = ["relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"];
        cx().tr(|| {
            let st = if stale { " (an older value)" } else { "" };
            match kind {
                Kind::Load => format!("  thread {t} atomic load {}: {r}{st}", l[mo as usize]),
                Kind::Store => format!("  thread {t} atomic store {x} {}", l[mo as usize]),
                Kind::Cas => format!("  thread {t} atomic compare-exchange {x} -> {y} {}/{}: {r}{st}", l[mo as usize], l[fmo as usize]),
                k => format!("  thread {t} atomic {k:?} {x} {}: {r}", l[mo as usize]),
            }
        });
    }
    race_check();
    r
}

/// A relaxed-or-stronger access by code of the caller.
pub fn user_atomic(kind: Kind, a: usize, x: u64, mo: i32) -> u64 {
    sched_point(sim().cfg.p_atomic, 30 + kind as u64);
    do_atomic(kind, a, 8, x, 0, mo, 0)
}

pub fn user_fence(mo: i32) {
    sched_point(sim().cfg.p_atomic, 40);
    fence(mo);
}

fn fence(mo: i32) {
    let s = sim();
    let t = s.cur;
    s.mem.fence(t, mo);
    cx().tr(|| format!("  thread {t} fence {mo}"));
    cx().ev(mo as u64);
}

#[no_mangle]
extern "C" fn dst_fence_at(mo: i32) {
    quiet(|| {
        sched_point(sim().cfg.p_atomic, 41);
        fence(mo)
    })
}

#[no_mangle]
extern "C" fn dst_futex_wait(a: usize, val: u32, timed: i32) -> i32 {
    quiet(|| {
        sched_point(sim().cfg.p_atomic, 50);
        if unsafe { (a as *const u32).read_volatile() } != val {
            return -11;
        }
        let s = sim();
        let t = s.cur;
        if s.cfg.progress {
            let w = s.th[t].what.clone();
            cx().viol("progress", format!("{w} by thread {t} goes to sleep until another thread wakes it"));
        }
        cx().tr(|| format!("  thread {t} sleeps"));
        s.th[t].st = St::Blocked { addr: a, timed: timed != 0 };
        s.th[t].woke = 0;
        leave(true);
        sim().th[t].woke
    })
}

#[no_mangle]
extern "C" fn dst_futex_wake(a: usize, n: u32) -> i32 {
    quiet(|| {
        let s = sim();
        let mut k = 0;
        for t in &mut s.th {
            if let St::Blocked { addr, .. } = t.st {
                if addr == a && k < n {
                    t.st = St::Ready;
                    k += 1;
                }
            }
        }
        sched_point(sim().cfg.p_atomic, 51);
        k as i32
    })
}

/// Let another thread run.
pub fn yield_now() {
    dst_yield(0)
}

#[no_mangle]
extern "C" fn dst_yield(ns: u64) {
    quiet(|| {
        sched_point(0, 60);
        let s = sim();
        s.clock += ns;
        let o = s.others();
        if !o.is_empty() {
            let p = s.cfg.p_op;
            let c = s.dec.choose(o.len(), p);
            hand_over(o[c], true);
        }
    })
}

#[no_mangle]
extern "C" fn dst_clock() -> u64 {
    sim().clock
}

#[no_mangle]
extern "C" fn dst_note_alloc(p: usize, n: usize) {
    if have_sim() && is_sim() && !busy() {
        sim().mem.forget(p, n);
    }
}

/// The guarded hook in the library: may this weak compare-exchange fail spuriously?
#[no_mangle]
fn __ordinal_map_sim_weak_fails(expected: usize) -> bool {
    if !is_sim() {
        return false;
    }
    let _o = out();
    quiet(|| {
        sched_point(sim().cfg.p_atomic, 70);
        let s = sim();
        s.hook_fails += 1;
        let p = s.cfg.p_weak;
        // Bounded, as on real hardware: a loop around it ends.
        if s.weak_row >= 3 {
            s.weak_row = 0;
            return false;
        }
        let c = s.dec.choose(2, p);
        if c == 0 {
            s.weak_row = 0;
            return false;
        }
        s.weak_row += 1;
        cx().fired_total[F_WEAK] += 1;
        let t = s.cur;
        cx().tr(|| format!("  thread {t} weak compare-exchange of {expected} fails spuriously"));
        true
    })
}

/// Steps of the running thread inside its operation start from zero.
pub fn begin_op(what: String, stall: Option<u32>) {
    let p = sim().cfg.p_op;
    let s = sim();
    s.th[s.cur].points = 0;
    s.th[s.cur].solo = 0;
    sched_point(p, 80);
    let s = sim();
    let t = &mut s.th[s.cur];
    t.points = 0;
    t.solo = 0;
    t.stall_at = stall;
    t.what = what;
    let c = s.cur;
    s.mem.wlog[c].clear();
    s.mem.rlog[c].clear();
}

pub fn end_op() {
    let s = sim();
    let t = &mut s.th[s.cur];
    t.stall_at = None;
    t.ops += 1;
    t.solo = 0;
    t.points = 0;
    note_state();
}

pub fn now() -> u32 {
    let s = sim();
    s.seq += 1;
    s.seq
}

struct Send2<T>(T);
unsafe impl<T> Send for Send2<T> {}
impl<T> Send2<T> {
    fn get(self) -> T {
        self.0
    }
}

pub struct Report {
    pub sched: Vec<u32>,
    pub time: u64,
    /// Threads that did not finish.
    pub stuck: Vec<usize>,
}

/// Run `n` threads over `body`. `late` threads run when all others have finished or stopped.
pub fn run(n: usize, late: &[usize], cfg: Cfg, replay: &[u32], races: bool, body: Arc<dyn Fn(usize)>) -> Report {
    let replay = if replay.is_empty() {
        None
    } else {
        Some(replay.chunks(2).map(|c| (c[0], c.get(1).copied().unwrap_or(0))).collect::<Vec<_>>())
    };
    let left = replay.as_ref().map_or(0, |r| r[0].0);
    let s = Sim {
        n,
        cur: MAIN,
        th: (0..n)
            .map(|t| Th {
                st: St::Ready,
                late: late.contains(&t),
                solo: 0,
                points: 0,
                stall_at: None,
                ops: 0,
                saved: Saved::default(),
                woke: 0,
                what: String::new(),
            })
            .collect(),
        dec: Dec { replay, at: 0, left, rng: Rng::new(cfg.seed), rec: Vec::new(), gap: 0 },
        cfg,
        steps: 0,
        clock: 0,
        mem: Mem::new(n, cfg.weak),
        draining: false,
        abort: false,
        weak_row: 0,
        seq: 0,
        races,
        atomics: 0,
        plains: 0,
        hook_fails: 0,
        switches: 0,
    };
    unsafe { SIM = Some(s) };
    let w: &'static Turns = Box::leak(Box::new([const { AtomicU32::new(0) }; NT + 1]));
    unsafe { TURN = w };
    let mut hs = Vec::new();
    for t in 0..n {
        let b = Send2(body.clone());
        let h = std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                let b = b.get();
                wait_turn(&w[t]);
                unsafe {
                    let mut at = [0u64; 8];
                    let (mut lo, mut sz) = (0, 0);
                    pthread_getattr_np(pthread_self(), &mut at);
                    pthread_attr_getstack(&at, &mut lo, &mut sz);
                    pthread_attr_destroy(&mut at);
                    dst_thread(1, lo, lo + sz);
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(t)));
                if let Err(e) = r {
                    if !e.is::<dstcore::run::GiveUp>() {
                        let m = take_last_panic();
                        let class = cx().own[0];
                        cx().viol(class, format!("the answers of the library cannot be followed: {m}"));
                    }
                }
                unsafe { dst_thread(0, 0, 0) };
                drop(b);
                sim().th[t].st = St::Done;
                leave(false);
            })
            .unwrap();
        hs.push(h);
    }
    // The saved state of every thread starts empty; main has its own.
    let c = cx();
    let mine = Saved { armed: c.armed.take(), cnt: c.cnt, fired: c.fired, fired_kind: c.fired_kind };
    loop {
        let s = sim();
        let o = s.others();
        if !s.abort && !o.is_empty() {
            let p = s.cfg.p_op;
            let k = s.dec.choose(o.len(), p);
            hand_over(o[k], true);
            continue;
        }
        if s.abort || !(drain() || timers()) {
            break;
        }
    }
    let c = cx();
    c.armed = mine.armed;
    c.cnt = mine.cnt;
    c.fired = mine.fired;
    c.fired_kind = mine.fired_kind;
    let s = sim();
    let mut stuck = Vec::new();
    for (t, h) in hs.into_iter().enumerate() {
        if s.th[t].st == St::Done {
            h.join().unwrap();
        } else {
            stuck.push(t);
            std::mem::forget(h);
            unsafe {
                LEAKED += 1;
                if LEAKED > 500 {
                    dstcore::run::STOP.store(true, Ordering::Relaxed);
                }
            }
        }
    }
    if !stuck.is_empty() {
        // They keep what they hold.
        std::mem::forget(body);
        count("threads_given_up", stuck.len() as u64);
    }
    if stuck.is_empty() {
        drop(unsafe { Box::from_raw(w as *const Turns as *mut Turns) });
    }
    let s = unsafe {
        #[allow(static_mut_refs)]
        SIM.take().unwrap()
    };
    let mut sched = s.dec.rec;
    if sched.is_empty() {
        sched = vec![0, 0];
    }
    count("scheduler_steps", s.steps);
    count("library_atomic_operations", s.atomics);
    count("library_memory_accesses", s.plains);
    count("context_switches", s.switches);
    count("weak_exchange_calls", s.hook_fails);
    count("writes_by_unobserved_code", s.mem.foreign);
    Report { sched, time: s.steps, stuck }
}
