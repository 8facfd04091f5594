//! The memory system: per-location histories of atomics, views of the threads (release,
//! acquire, fences, sequential consistency), and a happens-before race detector for plain
//! accesses. Every execution it produces is one the C++/Rust memory model allows.

use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::hash::Hasher;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::Ordering::Relaxed;

pub const NT: usize = 6;
pub type Vc = [u32; NT];

pub const RLX: i32 = 0;
pub const ACQ: i32 = 2;
pub const REL: i32 = 3;
pub const AR: i32 = 4;
pub const SC: i32 = 5;

pub fn is_acq(mo: i32) -> bool {
    matches!(mo, 1 | ACQ | AR | SC)
}
pub fn is_rel(mo: i32) -> bool {
    matches!(mo, REL | AR | SC)
}

fn join_vc(a: &mut Vc, b: &Vc) {
    for i in 0..NT {
        a[i] = a[i].max(b[i]);
    }
}

/// Newest message of every location a thread must not read behind.
pub type View = Vec<u32>;
fn join(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}
fn put(a: &mut View, l: usize, t: u32) {
    if a.len() <= l {
        a.resize(l + 1, 0);
    }
    a[l] = a[l].max(t);
}
fn at(a: &View, l: usize) -> u32 {
    a.get(l).copied().unwrap_or(0)
}

struct Msg {
    val: u64,
    view: View,
    vc: Vc,
}

struct Loc {
    addr: usize,
    size: usize,
    msgs: Vec<Msg>,
}

#[derive(Default, Clone)]
struct Tv {
    cur: View,
    acq: View,
    rel: View,
    vc: Vc,
    acq_vc: Vc,
    rel_vc: Vc,
}

pub struct Snap {
    vc: Vc,
    cur: View,
}

#[derive(Clone, Copy)]
struct Ent {
    mask: u8,
    tid: u8,
    /// 0 plain read, 1 plain write, 2 atomic read, 3 atomic write
    kind: u8,
    clk: u32,
}

#[derive(Default)]
pub struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = (x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
    }
}

pub struct Mem {
    locs: Vec<Loc>,
    th: Vec<Tv>,
    /// What the sequentially consistent fences have seen.
    scf: View,
    /// Newest sequentially consistent write of each location.
    scw: View,
    shadow: HashMap<usize, Vec<Ent>, BuildHasherDefault<H>>,
    /// Loads may return older messages.
    pub weak: bool,
    pub race: Option<String>,
    /// Messages appended by each thread since it last cleared its list: (address, position).
    pub wlog: Vec<Vec<(usize, u32)>>,
    /// And the ones it read.
    pub rlog: Vec<Vec<(usize, u32)>>,
    pub stale: u64,
    pub foreign: u64,
}

unsafe fn peek(a: usize, size: usize) -> u64 {
    match size {
        1 => (a as *const u8).read_volatile() as u64,
        2 => (a as *const u16).read_volatile() as u64,
        4 => (a as *const u32).read_volatile() as u64,
        _ => (a as *const u64).read_volatile(),
    }
}
unsafe fn poke(a: usize, size: usize, v: u64) {
    match size {
        1 => (a as *mut u8).write_volatile(v as u8),
        2 => (a as *mut u16).write_volatile(v as u16),
        4 => (a as *mut u32).write_volatile(v as u32),
        _ => (a as *mut u64).write_volatile(v),
    }
}

/// What an atomic operation does.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Load,
    Store,
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Cas,
}

impl Kind {
    pub fn of(k: i32) -> Kind {
        use Kind::*;
        [Load, Store, Xchg, Add, Sub, And, Or, Xor, Nand, Cas][k as usize]
    }
}

/// The memory system itself is allocating.
static BUSY: AtomicBool = AtomicBool::new(false);
pub fn busy() -> bool {
    BUSY.load(Relaxed)
}
struct Busy(bool);
impl Busy {
    fn new() -> Busy {
        Busy(BUSY.swap(true, Relaxed))
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.store(self.0, Relaxed);
    }
}

impl Mem {
    pub fn new(n: usize, weak: bool) -> Mem {
        let mut th = vec![Tv::default(); n];
        for (i, t) in th.iter_mut().enumerate() {
            t.vc[i] = 1;
        }
        Mem {
            locs: Vec::new(),
            th,
            scf: Vec::new(),
            scw: Vec::new(),
            shadow: HashMap::default(),
            weak,
            race: None,
            wlog: vec![Vec::new(); n],
            rlog: vec![Vec::new(); n],
            stale: 0,
            foreign: 0,
        }
    }

    fn loc(&mut self, addr: usize, size: usize) -> usize {
        let real = unsafe { peek(addr, size) };
        let l = match self.locs.iter().position(|l| l.addr == addr && l.size == size) {
            Some(l) => l,
            None => {
                self.locs.push(Loc { addr, size, msgs: vec![Msg { val: real, view: Vec::new(), vc: [0; NT] }] });
                return self.locs.len() - 1;
            }
        };
        if self.locs[l].msgs.last().unwrap().val != real {
            // Written by code the simulator does not see: nothing is known about its order.
            self.foreign += 1;
            let ts = self.locs[l].msgs.len() as u32;
            let mut view = self.scf.clone();
            join(&mut view, &self.scw);
            let mut vc = [0; NT];
            for t in &self.th {
                join(&mut view, &t.cur);
                join_vc(&mut vc, &t.vc);
            }
            put(&mut view, l, ts);
            for t in &mut self.th {
                put(&mut t.cur, l, ts);
                put(&mut t.acq, l, ts);
            }
            self.locs[l].msgs.push(Msg { val: real, view, vc });
        }
        l
    }

    fn read(&mut self, t: usize, l: usize, ts: u32, mo: i32) -> u64 {
        let m = &self.locs[l].msgs[ts as usize];
        self.rlog[t].push((self.locs[l].addr, ts));
        let tv = &mut self.th[t];
        put(&mut tv.cur, l, ts);
        join(&mut tv.acq, &m.view);
        join_vc(&mut tv.acq_vc, &m.vc);
        if is_acq(mo) {
            join(&mut tv.cur, &m.view);
            join_vc(&mut tv.vc, &m.vc);
        }
        let cur = tv.cur.clone();
        join(&mut tv.acq, &cur);
        let vc = tv.vc;
        join_vc(&mut tv.acq_vc, &vc);
        m.val
    }

    fn write(&mut self, t: usize, l: usize, val: u64, mo: i32, rmw_of: Option<u32>) {
        let ts = self.locs[l].msgs.len() as u32;
        let tv = &mut self.th[t];
        put(&mut tv.cur, l, ts);
        put(&mut tv.acq, l, ts);
        if mo == SC {
            put(&mut self.scw, l, ts);
        }
        let (mut view, mut vc) = if is_rel(mo) { (tv.cur.clone(), tv.vc) } else { (tv.rel.clone(), tv.rel_vc) };
        put(&mut view, l, ts);
        if let Some(p) = rmw_of {
            let m = &self.locs[l].msgs[p as usize];
            join(&mut view, &m.view);
            join_vc(&mut vc, &m.vc);
        }
        let (addr, size) = (self.locs[l].addr, self.locs[l].size);
        self.locs[l].msgs.push(Msg { val, view, vc });
        unsafe { poke(addr, size, val) };
        self.wlog[t].push((addr, ts));
    }

    fn tick(&mut self, t: usize) {
        self.th[t].vc[t] += 1;
    }

    /// What a read may not return anything older than.
    fn floor(&self, t: usize, l: usize, mo: i32) -> u32 {
        let mut lo = at(&self.th[t].cur, l);
        if mo == SC {
            // Sequentially consistent operations take effect in the order they are executed in.
            lo = lo.max(at(&self.scf, l)).max(at(&self.scw, l));
        }
        lo
    }

    /// `pick(n)` chooses one of n candidates, 0 being the newest.
    pub fn atomic(
        &mut self,
        t: usize,
        kind: Kind,
        addr: usize,
        size: usize,
        x: u64,
        y: u64,
        mo: i32,
        fmo: i32,
        pick: &mut dyn FnMut(usize) -> usize,
    ) -> u64 {
        let _b = Busy::new();
        let l = self.loc(addr, size);
        let mask = if size == 8 { u64::MAX } else { (1u64 << (size * 8)) - 1 };
        let (x, y) = (x & mask, y & mask);
        let last = self.locs[l].msgs.len() as u32 - 1;
        self.shadow(t, addr, size, if kind == Kind::Load { 2 } else { 3 });
        let r = match kind {
            Kind::Load => {
                let lo = if self.weak { self.floor(t, l, mo).min(last) } else { last };
                let back = if lo < last { pick((last - lo + 1) as usize) as u32 } else { 0 };
                self.stale += (back > 0) as u64;
                self.read(t, l, last - back, mo)
            }
            Kind::Store => {
                self.write(t, l, x, mo, None);
                0
            }
            Kind::Cas => {
                // A failing exchange is a load of any value other than the expected one.
                let lo = if self.weak { self.floor(t, l, fmo).min(last) } else { last };
                let mut cands = vec![last];
                for ts in (lo..last).rev() {
                    if self.locs[l].msgs[ts as usize].val != x {
                        cands.push(ts);
                    }
                }
                let c = if cands.len() > 1 { pick(cands.len()) } else { 0 };
                let ts = cands[c];
                let m = if self.locs[l].msgs[ts as usize].val == x { mo } else { fmo };
                self.stale += (c > 0) as u64;
                let v = self.read(t, l, ts, m);
                if v == x {
                    self.write(t, l, y, m, Some(ts));
                }
                v
            }
            _ => {
                let v = self.read(t, l, last, mo);
                let n = match kind {
                    Kind::Xchg => x,
                    Kind::Add => v.wrapping_add(x),
                    Kind::Sub => v.wrapping_sub(x),
                    Kind::And => v & x,
                    Kind::Or => v | x,
                    Kind::Xor => v ^ x,
                    _ => !(v & x),
                } & mask;
                self.write(t, l, n, mo, Some(last));
                v
            }
        };
        self.tick(t);
        r
    }

    pub fn fence(&mut self, t: usize, mo: i32) {
        let _b = Busy::new();
        if is_acq(mo) {
            let tv = &mut self.th[t];
            let a = tv.acq.clone();
            join(&mut tv.cur, &a);
            let v = tv.acq_vc;
            join_vc(&mut tv.vc, &v);
        }
        if mo == SC {
            let tv = &mut self.th[t];
            for s in [&self.scf, &self.scw] {
                join(&mut tv.cur, s);
                join(&mut tv.acq, s);
            }
            join(&mut self.scf, &tv.cur);
        }
        if is_rel(mo) {
            let tv = &mut self.th[t];
            tv.rel = tv.cur.clone();
            tv.rel_vc = tv.vc;
        }
        self.tick(t);
    }

    /// What a thread has done so far, for a hand-over outside the library.
    pub fn snapshot(&mut self, t: usize) -> Snap {
        let _b = Busy::new();
        let x = Snap { vc: self.th[t].vc, cur: self.th[t].cur.clone() };
        self.tick(t);
        x
    }
    pub fn learn(&mut self, t: usize, s: &Snap) {
        let _b = Busy::new();
        let tv = &mut self.th[t];
        join_vc(&mut tv.vc, &s.vc);
        join_vc(&mut tv.acq_vc, &s.vc);
        join(&mut tv.cur, &s.cur);
        join(&mut tv.acq, &s.cur);
    }

    pub fn plain(&mut self, t: usize, addr: usize, n: usize, write: bool) {
        self.shadow(t, addr, n, write as u8);
    }

    fn shadow(&mut self, t: usize, addr: usize, n: usize, kind: u8) {
        let _b = Busy::new();
        if self.race.is_some() {
            return;
        }
        let vc = self.th[t].vc;
        let mut a = addr;
        let end = addr + n;
        while a < end {
            let g = a & !7;
            let hi = end.min(g + 8);
            let mask = (((1u32 << (hi - g)) - 1) & !((1u32 << (a - g)) - 1)) as u8;
            let e = self.shadow.entry(g >> 3).or_default();
            for x in e.iter() {
                let clash = match kind {
                    0 => x.kind == 1 || x.kind == 3,
                    1 => true,
                    2 => x.kind == 1,
                    _ => x.kind < 2,
                };
                if clash && x.mask & mask != 0 && x.tid as usize != t && x.clk > vc[x.tid as usize] {
                    let w = ["read", "write", "atomic read", "atomic write"];
                    self.race = Some(format!(
                        "unsynchronized {} by thread {} after {} by thread {} of the same memory",
                        w[kind as usize], t, w[x.kind as usize], x.tid
                    ));
                    return;
                }
            }
            if kind == 1 {
                for x in e.iter_mut() {
                    x.mask &= !mask;
                }
            } else {
                for x in e.iter_mut() {
                    if x.tid as usize == t && x.kind == kind {
                        x.mask &= !mask;
                    }
                }
            }
            e.retain(|x| x.mask != 0);
            e.push(Ent { mask, tid: t as u8, kind, clk: vc[t] });
            a = hi;
        }
    }

    /// The memory is new: nothing that happened to it before matters.
    pub fn forget(&mut self, p: usize, n: usize) {
        if !self.shadow.is_empty() {
            let (lo, hi) = (p >> 3, (p + n + 7) >> 3);
            if hi - lo > self.shadow.len() {
                self.shadow.retain(|k, _| *k < lo || *k >= hi);
            } else {
                for g in lo..hi {
                    self.shadow.remove(&g);
                }
            }
        }
        for l in &mut self.locs {
            if l.addr >= p && l.addr < p + n {
                l.addr = 0;
            }
        }
    }

    /// Hash of histories and views, for the count of distinct states.
    pub fn state(&self) -> u64 {
        let _b = Busy::new();
        let mut h = 99;
        for l in &self.locs {
            for m in &l.msgs {
                h = dstcore::core::mix(h, m.val);
            }
            h = dstcore::core::mix(h, 7777);
        }
        for t in &self.th {
            for x in &t.cur {
                h = dstcore::core::mix(h, *x as u64);
            }
            h = dstcore::core::mix(h, 8888);
        }
        h
    }
}
