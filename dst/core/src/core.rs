//! Simulation context: event log, fault injection points, ledger of live values and keys,
//! the allocator seam, and the boundary between harness code and library code.

use std::alloc::GlobalAlloc;
use std::alloc::Layout;
use std::alloc::System;
use std::cell::Cell;
use std::panic::catch_unwind;
use std::panic::AssertUnwindSafe;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index drawn from integer weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        unreachable!()
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    z = (z ^ (z >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    z ^ (z >> 29)
}

// Fault kinds (indices into counters).
pub const F_ORD: usize = 0; // key encoding panics
pub const F_FROM: usize = 1; // key decoding panics
pub const F_CLONE: usize = 2; // value clone panics
pub const F_DEFAULT: usize = 3; // value default panics
pub const F_DROP: usize = 4; // value destructor panics
pub const F_CB: usize = 5; // user closure panics
pub const F_ERR: usize = 6; // user closure returns an error
pub const F_SRC: usize = 7; // source iterator panics
pub const F_EOF: usize = 8; // source iterator ends early
pub const F_FMTV: usize = 9; // element formatting returns an error
pub const F_FMTP: usize = 10; // element formatting panics
pub const F_WRITE: usize = 11; // writer fails
pub const F_ALLOC: usize = 12; // nth allocation fails
pub const F_OUTAGE: usize = 13; // every allocation of the operation fails
pub const F_ABANDON: usize = 14; // iterator dropped with items left
pub const F_FORGET: usize = 15; // iterator leaked
pub const F_BYZ: usize = 16; // key implementation misbehaves
pub const F_STALL: usize = 17; // thread stopped forever inside an operation
pub const F_SWITCH: usize = 18; // forced context switch inside an operation
pub const F_STALE: usize = 19; // stale value read
pub const F_WEAK: usize = 20; // weak compare-exchange fails spuriously
pub const F_REENTER: usize = 21; // re-entrant call from a callback
pub const F_KDROP: usize = 22; // key destructor panics (unused slot kept for replay stability)
pub const NF: usize = 23;

pub const FAULT_NAMES: [&str; NF] = [
    "key_encode_panic",
    "key_decode_panic",
    "clone_panic",
    "default_panic",
    "destructor_panic",
    "closure_panic",
    "closure_error",
    "source_panic",
    "source_early_end",
    "element_format_error",
    "element_format_panic",
    "writer_error",
    "allocation_failure",
    "allocator_outage",
    "iterator_abandoned",
    "iterator_forgotten",
    "misbehaving_key",
    "thread_stopped",
    "preemption_inside_operation",
    "stale_read",
    "spurious_weak_failure",
    "reentrant_call",
    "key_destructor_panic",
];

pub struct Viol {
    pub class: &'static str,
    pub msg: String,
}

pub struct Cx {
    pub hash: u64,
    pub steps: u64,
    pub trace: Option<Vec<String>>,
    pub viols: Vec<Viol>,
    pub foreign: u64,
    pub own: &'static [&'static str],
    // ledger
    pub vals: Vec<u8>,
    pub live: i64,
    pub zlive: i64,
    pub keys: Vec<u8>,
    pub klive: i64,
    pub made_defaults: Vec<u32>,
    pub next_pay: u32,
    // faults
    pub armed: Option<(usize, u32)>,
    pub cnt: [u32; NF],
    pub fired: bool,
    pub fired_kind: usize,
    pub fired_total: [u64; NF],
    pub drop_panicked: bool,
    // misbehaving keys
    pub byz: Option<Rng>,
    pub byz_pct: usize,
    pub states: Vec<u64>,
}

static mut CX: Option<Cx> = None;

/// The single simulation context. Only the thread holding the baton (or the only thread) runs.
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Cx {
    unsafe { CX.as_mut().unwrap() }
}

#[allow(static_mut_refs)]
pub fn reset_cx(own: &'static [&'static str], trace: bool) {
    RETRY.set(false);
    unsafe {
        let fired_total = CX.as_ref().map_or([0; NF], |c| c.fired_total);
        CX = Some(Cx {
            hash: 0x1234_5678,
            steps: 0,
            trace: if trace { Some(Vec::new()) } else { None },
            viols: Vec::new(),
            foreign: 0,
            own,
            vals: Vec::new(),
            live: 0,
            zlive: 0,
            keys: Vec::new(),
            klive: 0,
            made_defaults: Vec::new(),
            next_pay: 1,
            armed: None,
            cnt: [0; NF],
            fired: false,
            fired_kind: 0,
            fired_total,
            drop_panicked: false,
            byz: None,
            byz_pct: 0,
            states: Vec::new(),
        });
    }
}

impl Cx {
    pub fn ev(&mut self, x: u64) {
        self.hash = mix(self.hash, x);
        self.steps += 1;
    }
    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let s = f();
            t.push(s);
        }
    }
    /// Record a violation of the property being checked; violations of other classes are
    /// counted but belong to other properties' checks.
    pub fn viol(&mut self, class: &'static str, msg: String) {
        let own = self.own.contains(&class);
        self.tr(|| format!("  !! {}{class}: {msg}", if own { "" } else { "(foreign) " }));
        if own {
            if self.viols.len() < 20 {
                self.viols.push(Viol { class, msg });
            }
        } else {
            self.foreign += 1;
        }
    }
    pub fn owns(&self, class: &str) -> bool {
        self.own.contains(&class)
    }
    pub fn pay(&mut self) -> u32 {
        let p = self.next_pay;
        self.next_pay += 1;
        p
    }
    pub fn arm(&mut self, fault: Option<(usize, u32)>) {
        self.armed = fault;
        self.cnt = [0; NF];
        self.fired = false;
        ALLOC_FAILED.set(0);
        if let Some((k, n)) = fault {
            if k == F_ALLOC {
                ALLOC_CNT.set(0);
                ALLOC_ARM.set(n);
            }
            if k == F_OUTAGE {
                OUTAGE.set(true);
            }
        }
    }
    pub fn disarm(&mut self) {
        self.armed = None;
        ALLOC_ARM.set(u32::MAX);
        OUTAGE.set(false);
    }
}

pub struct Injected;

/// A fault point: returns true when the armed fault fires here.
pub fn point(kind: usize) -> bool {
    let c = cx();
    c.ev(1000 + kind as u64);
    let n = c.cnt[kind];
    if IN_CALL.get() > 0 {
        c.cnt[kind] += 1;
    }
    if let Some((k, nth)) = c.armed {
        if k == kind && n >= nth && !c.fired && IN_CALL.get() > 0 && !std::thread::panicking() {
            c.fired = true;
            c.fired_kind = kind;
            c.fired_total[kind] += 1;
            c.ev(2000 + kind as u64);
            c.tr(|| format!("  * fault {} fires at call {}", FAULT_NAMES[kind], n));
            return true;
        }
    }
    false
}

/// A clone has been made: it has asked each value for one clone.
pub fn judge_clones(entries: usize, byz: bool, what: &str) {
    let made = cx().cnt[F_CLONE] as usize;
    if !byz && made != entries {
        cx().viol("build", format!("{what} of {entries} entries cloned {made} values"));
    }
}

pub fn point_panic(kind: usize) {
    if point(kind) {
        inject_panic();
    }
}

pub fn inject_panic() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}

thread_local! {
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    pub static IN_CALL: Cell<u32> = const { Cell::new(0) };
    pub static ALLOC_FAILED: Cell<u32> = const { Cell::new(0) };
    pub static ALLOC_CNT: Cell<u32> = const { Cell::new(0) };
    pub static ALLOC_ARM: Cell<u32> = const { Cell::new(u32::MAX) };
    pub static OUTAGE: Cell<bool> = const { Cell::new(false) };
    pub static LIB_ALLOCS: Cell<u32> = const { Cell::new(0) };
}

#[cfg(feature = "conc")]
pub fn set_in_lib(v: bool) -> bool {
    crate::seam::in_lib(v);
    IN_LIB.replace(v)
}
#[cfg(not(feature = "conc"))]
pub fn set_in_lib(v: bool) -> bool {
    IN_LIB.replace(v)
}

thread_local! {
    /// Items left in the source of a collection, and how much of it its size hint tells.
    pub static SRC: Cell<(usize, u32)> = const { Cell::new((0, 0)) };
}

/// A true size hint of the source, in one of several degrees of precision.
pub fn src_hint() -> (usize, Option<usize>) {
    let (left, how) = SRC.get();
    match how {
        1 => (left, Some(left)),
        2 => (left / 2, None),
        3 => (0, Some(left + 3)),
        4 => (left, None),
        _ => (0, None),
    }
}

pub fn src_taken() {
    let (left, how) = SRC.get();
    SRC.set((left.saturating_sub(1), how));
}

/// The source may end early when that fault is armed, so the hint must leave room for it.
pub fn src_start(len: usize, how: u32, fault: Option<(usize, u32)>) {
    let how = if fault.is_some_and(|f| f.0 == F_EOF) { how % 2 * 3 } else { how % 5 };
    SRC.set((len, how));
}

thread_local! {
    /// Set while an operation that ran out of memory is made again with memory back.
    pub static RETRY: Cell<bool> = const { Cell::new(false) };
}

/// Whether what goes wrong now follows from memory having run out.
pub fn after_oom() -> bool {
    ALLOC_FAILED.get() > 0 || RETRY.get()
}

/// Guard for code that is the caller's, entered from inside the library (callbacks).
pub struct Out(bool);
pub fn out() -> Out {
    Out(set_in_lib(false))
}
impl Drop for Out {
    fn drop(&mut self) {
        set_in_lib(self.0);
    }
}

#[derive(Debug)]
pub enum Unw {
    /// Unwound because of an injected fault.
    Fault,
    /// Unwound on its own.
    Panic(String),
}
pub type Res<T> = Result<T, Unw>;

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn take_last_panic() -> String {
    LAST_PANIC.take().unwrap_or_else(|| "panic".to_owned())
}

/// Run library code.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> Res<R> {
    let mut r = None;
    let mut f = Some(f);
    lib_dyn(&mut || r = Some((f.take().unwrap())()))?;
    Ok(r.unwrap())
}

fn lib_dyn(f: &mut dyn FnMut()) -> Res<()> {
    IN_CALL.set(IN_CALL.get() + 1);
    let prev = set_in_lib(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_in_lib(prev);
    IN_CALL.set(IN_CALL.get() - 1);
    match r {
        Ok(()) => Ok(()),
        Err(e) => {
            if e.is::<Injected>() {
                Err(Unw::Fault)
            } else {
                let m = LAST_PANIC.take().unwrap_or_else(|| "panic".to_owned());
                cx().tr(|| format!("  panicked: {m}"));
                Err(Unw::Panic(m))
            }
        }
    }
}

pub struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        #[cfg(feature = "conc")]
        let _q = crate::seam::Off::new();
        if fail() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        #[cfg(feature = "conc")]
        crate::seam::note_alloc(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        #[cfg(feature = "conc")]
        let _q = crate::seam::Off::new();
        if fail() {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        #[cfg(feature = "conc")]
        crate::seam::note_alloc(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        #[cfg(feature = "conc")]
        let _q = crate::seam::Off::new();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        #[cfg(feature = "conc")]
        let _q = crate::seam::Off::new();
        if fail() {
            return std::ptr::null_mut();
        }
        let p = System.realloc(p, l, n);
        #[cfg(feature = "conc")]
        crate::seam::note_alloc(p, n);
        p
    }
}

fn fail() -> bool {
    if !IN_LIB.get() {
        return false;
    }
    LIB_ALLOCS.set(LIB_ALLOCS.get() + 1);
    // Failing again while unwinding (or while the message of a panic is put together) would end
    // the process, as it does in any Rust code.
    if std::thread::panicking() {
        return false;
    }
    if OUTAGE.get() {
        ALLOC_FAILED.set(ALLOC_FAILED.get() + 1);
        return true;
    }
    let arm = ALLOC_ARM.get();
    if arm != u32::MAX {
        let n = ALLOC_CNT.get();
        ALLOC_CNT.set(n + 1);
        if n == arm {
            ALLOC_FAILED.set(ALLOC_FAILED.get() + 1);
            return true;
        }
    }
    false
}

pub fn install_hooks() {
    std::alloc::set_alloc_error_hook(|_| {
        let _o = out();
        let c = cx();
        let k = if OUTAGE.get() { F_OUTAGE } else { F_ALLOC };
        c.fired = true;
        c.fired_kind = k;
        c.fired_total[k] += 1;
        c.ev(2000 + k as u64);
        c.tr(|| format!("  * fault {} fires", FAULT_NAMES[k]));
        inject_panic()
    });
    std::panic::set_hook(Box::new(|info| {
        let _o = out();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/repo/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if std::env::var_os("DST_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.set(Some(format!("{msg} at {loc}")));
    }));
}

// ---------------------------------------------------------------- values

pub const TOGGLE: u32 = 1 << 31;

pub trait SimVal: Clone + Default + std::fmt::Debug + 'static {
    const ZST: bool;
    fn mk(pay: u32) -> Self;
    fn pay(&self) -> u32;
    fn set(&mut self, pay: u32);
    fn toggle(&mut self) {
        let p = self.pay();
        self.set(p ^ TOGGLE);
    }
}

const VMAGIC: u64 = 0x5641_4c55_455f_4f4b;

/// A value with identity, registered in the ledger.
pub struct Val<const P: usize> {
    magic: u64,
    id: u32,
    pay: u32,
    pad: [u8; P],
}

impl<const P: usize> Val<P> {
    fn check(&self, what: &str) {
        crate::hook_value(self, what == "write");
        let ok = self.magic == VMAGIC
            && (self.id as usize) < cx().vals.len()
            && cx().vals[self.id as usize] == 1
            && self.pad.iter().all(|&b| b == self.id as u8);
        if !ok {
            cx().viol("mem", format!("{what}: value is not a live value (id {})", self.id));
        }
    }
    fn reg(pay: u32) -> Self {
        let c = cx();
        let id = c.vals.len() as u32;
        c.vals.push(1);
        c.live += 1;
        c.ev(id as u64);
        Val { magic: VMAGIC, id, pay, pad: [id as u8; P] }
    }
}

impl<const P: usize> SimVal for Val<P> {
    const ZST: bool = false;
    fn mk(pay: u32) -> Self {
        Self::reg(pay)
    }
    fn pay(&self) -> u32 {
        self.check("read");
        self.pay
    }
    fn set(&mut self, pay: u32) {
        self.check("write");
        self.pay = pay;
    }
}

impl<const P: usize> Clone for Val<P> {
    fn clone(&self) -> Self {
        let _o = out();
        self.check("clone");
        point_panic(F_CLONE);
        Self::reg(self.pay)
    }
}

impl<const P: usize> Default for Val<P> {
    fn default() -> Self {
        let _o = out();
        point_panic(F_DEFAULT);
        let p = cx().pay();
        cx().made_defaults.push(p);
        Self::reg(p)
    }
}

impl<const P: usize> std::fmt::Debug for Val<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        {
            let _o = out();
            self.check("format");
            point_panic(F_FMTP);
            if point(F_FMTV) {
                return Err(std::fmt::Error);
            }
        }
        val_fmt(self.pay, f)
    }
}

/// The text of a value. The pretty form has several lines, so that whether an outer formatter passes the
/// flag on, and indents what is inside, shows.
pub fn val_fmt(pay: u32, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if f.alternate() {
        return f.debug_struct("V").field("pay", &pay).finish();
    }
    f.write_str("v")?;
    std::fmt::Debug::fmt(&pay, f)
}

impl<const P: usize> Drop for Val<P> {
    fn drop(&mut self) {
        let _o = out();
        let id = self.id as usize;
        let c = cx();
        if self.magic != VMAGIC || id >= c.vals.len() {
            c.viol("mem", format!("garbage dropped as a value (id {id})"));
            return;
        }
        if c.vals[id] != 1 {
            c.viol("drop", format!("value {id} dropped twice"));
            return;
        }
        c.vals[id] = 2;
        c.live -= 1;
        c.ev(id as u64 + 77);
        if point(F_DROP) {
            cx().drop_panicked = true;
            inject_panic();
        }
    }
}

/// Zero-sized value: counted only.
pub struct ZVal(());

impl SimVal for ZVal {
    const ZST: bool = true;
    fn mk(_: u32) -> Self {
        cx().zlive += 1;
        ZVal(())
    }
    fn pay(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
    fn toggle(&mut self) {}
}
impl Clone for ZVal {
    fn clone(&self) -> Self {
        let _o = out();
        point_panic(F_CLONE);
        Self::mk(0)
    }
}
impl Default for ZVal {
    fn default() -> Self {
        let _o = out();
        point_panic(F_DEFAULT);
        cx().made_defaults.push(0);
        Self::mk(0)
    }
}
impl std::fmt::Debug for ZVal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        {
            let _o = out();
            point_panic(F_FMTP);
            if point(F_FMTV) {
                return Err(std::fmt::Error);
            }
        }
        val_fmt(0, f)
    }
}
impl Drop for ZVal {
    fn drop(&mut self) {
        let _o = out();
        cx().zlive -= 1;
        cx().ev(78);
        if point(F_DROP) {
            cx().drop_panicked = true;
            inject_panic();
        }
    }
}

pub fn live_total() -> i64 {
    cx().live + cx().zlive
}

// ---------------------------------------------------------------- tracked tokens inside keys

const KMAGIC: u32 = 0x4b45_5921;

/// Identity of a tracked key.
pub struct Tok {
    magic: u32,
    id: u32,
}

impl Tok {
    pub fn new() -> Tok {
        let c = cx();
        let id = c.keys.len() as u32;
        c.keys.push(1);
        c.klive += 1;
        Tok { magic: KMAGIC, id }
    }
    pub fn check(&self, what: &str) {
        let c = cx();
        if self.magic != KMAGIC || c.keys.get(self.id as usize) != Some(&1) {
            c.viol("mem", format!("{what}: key is not a live key (id {})", self.id));
        }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _o = out();
        let c = cx();
        let id = self.id as usize;
        if self.magic != KMAGIC || id >= c.keys.len() {
            c.viol("mem", format!("garbage dropped as a key (id {id})"));
        } else if c.keys[id] != 1 {
            c.viol("drop", format!("key {id} dropped twice"));
        } else {
            c.keys[id] = 2;
            c.klive -= 1;
            c.ev(79);
        }
    }
}

// ---------------------------------------------------------------- writer

pub struct Writer {
    pub buf: String,
    pub budget: Option<usize>,
    pub failed: bool,
    pub after_fail: bool,
}

impl Writer {
    pub fn new(budget: Option<usize>) -> Writer {
        Writer { buf: String::new(), budget, failed: false, after_fail: false }
    }
}

impl std::fmt::Write for Writer {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _o = out();
        if self.failed {
            self.after_fail = true;
            return Err(std::fmt::Error);
        }
        if let Some(b) = self.budget {
            if self.buf.len() + s.len() > b {
                let mut n = b - self.buf.len();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.buf.push_str(&s[..n]);
                self.failed = true;
                let c = cx();
                c.fired = true;
                c.fired_kind = F_WRITE;
                c.fired_total[F_WRITE] += 1;
                c.ev(2000 + F_WRITE as u64);
                return Err(std::fmt::Error);
            }
        }
        self.buf.push_str(s);
        cx().ev(s.len() as u64);
        Ok(())
    }
}
