//! World "weak": litmus-like programs over atomic ordinals, relaxed cells and fences on the
//! simulated weak memory; finished executions are judged by the memory model with the
//! orderings the caller asked for.

use std::cell::RefCell;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use dstcore::core::*;
use dstcore::ops::*;
use dstcore::run::*;
use dstcore::sets::*;

use crate::atomic::*;
use crate::mem::*;
use crate::mem::Kind;
use crate::rc11;
use crate::rc11::*;
use crate::sim;
use crate::sim::*;

// Operation codes.
const LD: u32 = 0;
const ST: u32 = 1;
const CX: u32 = 2;
const GR: u32 = 3; // the caller's own cell: read
const GW: u32 = 4; // and write
const FE: u32 = 5;
const DB: u32 = 6;

const FENCES: [i32; 4] = [SC, AR, ACQ, REL];
const NG: usize = 2;
const NO: usize = 3;

fn mo(o: Ordering) -> i32 {
    match o {
        Ordering::Relaxed => RLX,
        Ordering::Acquire => ACQ,
        Ordering::Release => REL,
        Ordering::AcqRel => AR,
        _ => SC,
    }
}

struct B<'r> {
    r: &'r mut Rng,
    ops: Vec<Op>,
    next: u32,
    /// Chance, in 1/100, of storing a value that occurs elsewhere.
    again: usize,
}

impl B<'_> {
    fn op(&mut self, t: usize, code: u32, obj: usize, c: u32, o1: usize, o2: usize) -> u32 {
        let v = if matches!(code, ST | CX | GW) {
            if code != GW && self.r.below(100) < self.again {
                // what the exchange expects, or any other
                if code == CX && self.r.chance(1, 2) {
                    c
                } else {
                    self.r.below(self.next as usize) as u32
                }
            } else {
                self.next += 1;
                self.next - 1
            }
        } else {
            0
        };
        self.ops.push(Op { code, a: t as u32, b: v, c, fault: None, script: vec![obj as u32, o1 as u32, o2 as u32] });
        v
    }
    /// Mostly the strong orderings, where a guarantee exists that could be broken.
    fn lo(&mut self) -> usize {
        self.r.weighted(&[3, 4, 2])
    }
    fn ro(&mut self) -> usize {
        self.r.weighted(&[3, 3, 2, 2, 2])
    }
    fn ld(&mut self, t: usize, obj: usize) {
        let o = self.lo();
        self.op(t, LD, obj, 0, o, 0);
    }
    fn st(&mut self, t: usize, obj: usize) -> u32 {
        let o = self.lo();
        self.op(t, ST, obj, 0, o, 0)
    }
    fn cx(&mut self, t: usize, obj: usize, exp: u32) -> u32 {
        let (o1, o2) = (self.lo(), self.ro());
        self.op(t, CX, obj, exp, o1, o2)
    }
    fn gr(&mut self, t: usize, g: usize) {
        self.op(t, GR, g, 0, 0, 0);
    }
    fn gw(&mut self, t: usize, g: usize) -> u32 {
        self.op(t, GW, g, 0, 0, 0)
    }
    fn fe(&mut self, t: usize) {
        let o = self.r.below(4);
        self.op(t, FE, 0, 0, o, 0);
    }
    fn any(&mut self, t: usize) {
        let obj = self.r.below(NO);
        match self.r.weighted(&[4, 4, 4, 2, 2, 1, 1]) {
            0 => self.ld(t, obj),
            1 => {
                self.st(t, obj);
            }
            2 => {
                let e = self.r.below(self.next as usize + 1) as u32;
                let e = if self.r.chance(1, 2) { 0 } else { e };
                self.cx(t, obj, e);
            }
            3 => self.gr(t, obj % NG),
            4 => {
                self.gw(t, obj % NG);
            }
            5 => self.fe(t),
            _ => {
                self.op(t, DB, obj, 0, 0, 0);
            }
        }
    }
}

/// cfg: key, chances (accesses, operations, stale, weak failures), seed, number of the first
/// value, distance between the numbers of two values.
pub fn gen(_: &Prop, world: &str, r: &mut Rng) -> Plan {
    // Mostly enough values for all to differ.
    let ks = keys(if r.chance(1, 6) { 2 } else { 48 });
    let key = *r.pick(&ks);
    let n = reg().keys[key].n;
    let again = *r.pick(&[0, 0, 0, 15, 40, 80]);
    let mut b = B { r, ops: vec![], next: 1, again };
    match b.r.below(13) {
        0 => {
            // message passing by store
            b.gw(0, 0);
            if b.r.chance(1, 4) {
                b.fe(0);
            }
            b.st(0, 0);
            b.ld(1, 0);
            if b.r.chance(1, 4) {
                b.fe(1);
            }
            b.gr(1, 0);
        }
        1 => {
            // message passing by exchange, read by exchange
            b.gw(0, 0);
            let v = b.cx(0, 0, 0);
            let e = *b.r.pick(&[v, 0, 40]);
            b.cx(1, 0, e);
            b.gr(1, 0);
        }
        2 => {
            // a failing exchange acquires by its failure ordering
            b.gw(0, 0);
            b.st(0, 0);
            b.cx(1, 0, 41);
            b.gr(1, 0);
        }
        3 => {
            // store buffering
            b.st(0, 0);
            b.ld(0, 1);
            b.st(1, 1);
            b.ld(1, 0);
        }
        4 => {
            // store buffering by exchanges
            b.cx(0, 0, 0);
            b.cx(0, 1, 42);
            b.cx(1, 1, 0);
            b.cx(1, 0, 43);
        }
        5 => {
            // independent readers of independent writers
            b.st(0, 0);
            b.st(1, 1);
            b.ld(2, 0);
            b.ld(2, 1);
            b.ld(3, 1);
            b.ld(3, 0);
        }
        6 => {
            // write to read causality
            b.gw(0, 0);
            b.st(0, 0);
            b.ld(1, 0);
            b.st(1, 1);
            b.ld(2, 1);
            b.gr(2, 0);
        }
        7 => {
            // release sequence through an exchange
            b.gw(0, 0);
            let v = b.st(0, 0);
            b.cx(1, 0, v);
            b.ld(2, 0);
            b.gr(2, 0);
        }
        8 => {
            // coherence
            b.st(0, 0);
            b.st(0, 0);
            for t in 1..3 {
                for _ in 0..3 {
                    b.ld(t, 0);
                }
            }
        }
        9 => {
            // message passing by an exchange of a value for itself
            b.gw(0, 0);
            let v = b.st(0, 0);
            let (o1, o2) = (b.lo(), b.ro());
            b.ops.push(Op { code: CX, a: 1, b: v, c: v, fault: None, script: vec![0, o1 as u32, o2 as u32] });
            b.gr(1, 0);
        }
        10 => {
            // contended exchanges
            for t in 0..3 {
                b.cx(t, 0, 0);
                let e = b.next - 1;
                b.cx(t, 0, e);
                b.ld(t, 0);
            }
        }
        _ => {
            let n = 2 + b.r.below(3);
            for t in 0..n {
                for _ in 0..1 + b.r.below(5) {
                    b.any(t);
                }
            }
        }
    }
    // A little noise around the shape.
    for _ in 0..b.r.below(3) {
        let t = b.r.below(4);
        b.any(t);
        let o = b.ops.pop().unwrap();
        let at = b.r.below(b.ops.len() + 1);
        b.ops.insert(at, o);
    }
    let ops = b.ops;
    let cfg = vec![
        key as u64,
        *r.pick(&[100, 250, 400]),
        *r.pick(&[300, 500, 700]),
        *r.pick(&[250, 500, 750]),
        *r.pick(&[0, 100, 300]),
        r.u64() >> 16,
        if r.chance(1, 2) { r.below(n.min(8)) as u64 } else { r.below(n) as u64 },
        if r.chance(1, 2) { 1 } else { 1 + r.below((n / 64).max(1)) as u64 },
    ];
    Plan { world: world.to_owned(), cfg, ops, sched: vec![] }
}

struct Shared {
    n: usize,
    objs: Vec<Box<dyn AtomDyn>>,
    cells: Vec<u64>,
    ev: RefCell<Vec<Ev>>,
    ops: Vec<Op>,
    nth: usize,
    fac: AtomFac,
    first: usize,
    dist: usize,
}

impl Shared {
    /// The number of the plan's value v.
    fn enc(&self, v: usize) -> usize {
        ((v % self.n) * self.dist + self.first) % self.n
    }
    fn dec(&self, number: usize) -> usize {
        let d = (number + self.n - self.first) % self.n;
        if d % self.dist == 0 {
            d / self.dist
        } else {
            1_000_000 + d
        }
    }
    fn unwrap(&self, r: Result<usize, Unw>) -> Result<usize, Unw> {
        r.map(|v| self.dec(v))
    }
    /// Position of the value the current operation of thread t wrote into a region.
    fn pos(&self, t: usize, region: (usize, usize)) -> Option<u32> {
        Self::only(&sim().mem.wlog[t], region)
    }
    fn only(log: &[(usize, u32)], region: (usize, usize)) -> Option<u32> {
        let w: Vec<u32> =
            log.iter().filter(|x| x.0 >= region.0 && x.0 < region.0 + region.1).map(|x| x.1).collect();
        if w.len() == 1 {
            Some(w[0])
        } else {
            None
        }
    }

    fn body(&self, t: usize) {
        for op in self.ops.iter().filter(|o| o.a as usize % self.nth == t) {
            self.one(t, op);
        }
    }

    fn one(&self, t: usize, op: &Op) {
        let g = |i: usize| op.script.get(i).copied().unwrap_or(0) as usize;
        let (obj, gi) = (g(0) % NO, g(0) % NG);
        let a = &self.objs[obj];
        let (lo, so, ro, fo) = (LOADS[g(1) % 3], STORES[g(1) % 3], RMWS[g(2) % 5], LOADS[g(1) % 3]);
        let (b, c) = (op.b as usize % self.n, op.c as usize % self.n);
        let fm = FENCES[g(1) % 4];
        let push = |kind, loc: usize, mo, rval: usize, wval: usize, pos, name: String| {
            cx().tr(|| format!("thread {t} {name}"));
            cx().ev(mix(rval as u64, loc as u64));
            let region = if loc < NO { self.objs[loc].region() } else { (&self.cells[loc.saturating_sub(NO) % NG] as *const u64 as usize, 8) };
            let hint = if matches!(kind, Ek::Read | Ek::Rmw) { Self::only(&sim().mem.rlog[t], region) } else { None };
            self.ev.borrow_mut().push(Ev { th: Some(t), kind, loc, mo, rval: rval as u64, wval: wval as u64, pos, hint, name: format!("{name} by thread {t}") });
        };
        let bad = |u: Unw, what: &str| {
            if let Unw::Panic(m) = u {
                cx().viol("order", format!("{what} panicked: {m}"));
            }
        };
        begin_op(String::new(), None);
        match op.code {
            LD => match self.unwrap(a.load_o(lo)) {
                Ok(v) => push(Ek::Read, obj, mo(lo), v, 0, None, format!("load of ordinal {obj}, {lo:?}: {v}")),
                Err(u) => bad(u, "load"),
            },
            DB => {
                let mut w = Writer::new(None);
                if let Ok(Ok(())) = a.debug(&mut w, false) {
                    let v = (0..self.n.min(64)).find(|&v| format!("{:?}", dstcore::iters::KD(self.fac.kf, self.enc(v))) == w.buf);
                    match v {
                        Some(v) => push(Ek::Read, obj, RLX, v, 0, None, format!("debug of ordinal {obj}: {v}")),
                        None => cx().viol("order", format!("debug gives {}, which was never stored", w.buf)),
                    }
                }
            }
            ST => match a.store_o(self.enc(b), so) {
                Ok(()) => {
                    let pos = self.pos(t, a.region());
                    push(Ek::Write, obj, mo(so), 0, b, pos, format!("store of {b} to ordinal {obj}, {so:?}"))
                }
                Err(u) => bad(u, "store"),
            },
            CX => {
                let r = a.cas_o(self.enc(c), self.enc(b), ro, fo).map(|r| match r {
                    Ok(v) => Ok(self.dec(v)),
                    Err(v) => Err(self.dec(v)),
                });
                let name = |r: &Result<usize, usize>| format!("compare_exchange({c}, {b}) of ordinal {obj}, {ro:?}/{fo:?}: {r:?}");
                match r {
                    Ok(Ok(v)) => {
                        let pos = self.pos(t, a.region());
                        push(Ek::Rmw, obj, mo(ro), v, b, pos, name(&Ok(v)))
                    }
                    Ok(Err(v)) => push(Ek::Read, obj, mo(fo), v, 0, None, name(&Err(v))),
                    Err(u) => bad(u, "compare_exchange"),
                }
            }
            GR => {
                let p = &self.cells[gi] as *const u64 as usize;
                let v = user_atomic(Kind::Load, p, 0, RLX) as usize;
                push(Ek::Read, NO + gi, RLX, v, 0, None, format!("read of cell {gi}: {v}"))
            }
            GW => {
                let p = &self.cells[gi] as *const u64 as usize;
                user_atomic(Kind::Store, p, b as u64, RLX);
                let pos = self.pos(t, (p, 8));
                push(Ek::Write, NO + gi, RLX, 0, b, pos, format!("write of {b} to cell {gi}"))
            }
            _ => {
                user_fence(fm);
                push(Ek::Fence, 99, fm, 0, 0, None, format!("fence {}", ["seq_cst", "acq_rel", "acquire", "release"][g(1) % 4]))
            }
        }
        end_op();
    }
}

pub fn exec(_: &Prop, plan: &Plan) -> (Vec<u32>, u64) {
    let g = |i: usize| plan.cfg.get(i).copied().unwrap_or(0);
    let fac = reg().keys[g(0) as usize].atom;
    let nth = plan.ops.iter().map(|o| o.a as usize + 1).max().unwrap_or(1).clamp(1, 4);
    cx().tr(|| format!("weak over {}, {nth} threads", reg().keys[g(0) as usize].name));
    let first = g(6) as usize % fac.n;
    let dist = (g(7) as usize).clamp(1, (fac.n / 64).max(1));
    let mut objs = Vec::new();
    for _ in 0..NO {
        match (fac.new)(first % fac.n) {
            Ok(o) => objs.push(o),
            Err(u) => {
                cx().viol("order", format!("new failed: {u:?}"));
                return (vec![0, 0], 0);
            }
        }
    }
    let sh = Arc::new(Shared {
        n: fac.n,
        objs,
        cells: vec![0; NG],
        ev: RefCell::new(Vec::new()),
        ops: plan.ops.clone(),
        nth,
        fac,
        first,
        dist,
    });
    let cfg = sim::Cfg {
        weak: true,
        progress: false,
        limit: 2000,
        cap: 30_000,
        p_atomic: g(1) as u32,
        p_plain: g(1) as u32,
        p_cb: 0,
        p_op: g(2) as u32,
        p_stale: g(3) as u32,
        p_weak: g(4) as u32,
        seed: g(5),
    };
    let b = sh.clone();
    let rep = sim::run(nth, &[], cfg, &plan.sched, true, Arc::new(move |t| b.body(t)));
    if !rep.stuck.is_empty() {
        return (rep.sched, rep.time);
    }
    let mut ev = Vec::new();
    for loc in 0..NO + NG {
        ev.push(Ev { th: None, kind: Ek::Write, loc, mo: RLX, rval: 0, wval: 0, pos: Some(0), hint: None, name: "the first value".to_owned() });
    }
    ev.extend(sh.ev.borrow().iter().cloned());
    // What everybody left behind.
    for (loc, o) in sh.objs.iter().enumerate() {
        match sh.unwrap(o.load_o(Ordering::SeqCst)) {
            Ok(v) => ev.push(Ev {
                th: Some(END),
                kind: Ek::Read,
                loc,
                mo: RLX,
                rval: v as u64,
                wval: 0,
                pos: None,
                hint: ev.iter().filter(|e| e.loc == loc).filter_map(|e| e.pos).max(),
                name: format!("the last value of ordinal {loc}, {v}"),
            }),
            Err(u) => cx().viol("order", format!("load at the end failed: {u:?}")),
        }
    }
    if ev.len() <= 64 {
        count("executions_checked", 1);
        match rc11::check(&ev) {
            Verdict::Allowed => {}
            Verdict::Open => count("executions_left_open", 1),
            Verdict::Broken(m) => {
                let l: Vec<String> = ev.iter().filter(|e| e.th.is_some()).map(|e| e.name.clone()).collect();
                cx().viol("order", format!("{m}; {}", l.join("; ")));
            }
        }
    }
    (rep.sched, rep.time)
}
