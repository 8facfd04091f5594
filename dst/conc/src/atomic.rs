//! Worlds "atomic" (linearizability) and "stall" (progress): threads operating on one or two
//! atomic ordinals, interrupted at every memory access and conversion, stopped forever,
//! re-entering from the key's own code, with conversions that panic.

use std::cell::Cell;
use std::cell::RefCell;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use dstcore::core::*;
use dstcore::iters::*;
use dstcore::ops::*;
use dstcore::reg::*;
use dstcore::run::*;
use dstcore::sets::*;

use crate::lin::linearizable;
use crate::lin::Act;
use crate::lin::Call;
use crate::lin::Out;
use crate::sim;
use crate::sim::*;

pub const LOADS: [Ordering; 3] = [Ordering::SeqCst, Ordering::Acquire, Ordering::Relaxed];
pub const STORES: [Ordering; 3] = [Ordering::SeqCst, Ordering::Release, Ordering::Relaxed];
pub const RMWS: [Ordering; 5] =
    [Ordering::SeqCst, Ordering::AcqRel, Ordering::Acquire, Ordering::Release, Ordering::Relaxed];

const NAMES: [&str; 4] = ["load", "store", "compare_exchange", "debug"];

/// Key types with at least `min` values whose code can be followed.
pub fn keys(min: usize) -> Vec<usize> {
    (0..reg().keys.len()).filter(|&i| reg().keys[i].kind != Kind::Byz && reg().keys[i].n >= min).collect()
}

fn permille(r: &mut Rng) -> u64 {
    *r.pick(&[20, 60, 150, 300, 500])
}

/// cfg: key, objects, initial values (2), chances at accesses, callbacks, operations, weak
/// failures, seed of the decisions.
pub fn gen(p: &Prop, world: &str, r: &mut Rng) -> Plan {
    let ks = keys(1);
    // Key types with instrumented conversions are where most can happen.
    let probes: Vec<usize> = ks.iter().copied().filter(|&i| reg().keys[i].name.contains("Probe")).collect();
    let key = if r.chance(2, 3) { *r.pick(&probes) } else { *r.pick(&ks) };
    let n = reg().keys[key].n;
    let nobj = if r.chance(1, 4) { 2 } else { 1 };
    let pool: Vec<u32> = (0..2 + r.below(3)).map(|_| r.below(n) as u32).collect();
    let stall = world == "stall";
    let nth = 2 + r.below(3);
    let w = swarm(r, &[4, 5, 7, 2]);
    let per = 1 + r.below(if nth == 2 { 6 } else { 4 });
    let mut ops = Vec::new();
    let mut stalls = 0;
    for t in 0..nth {
        for _ in 0..1 + r.below(per) {
            let code = r.weighted(&w) as u32;
            let mut fault = None;
            if r.chance(if stall { 2 } else { 1 }, 6) && stalls + 1 < nth {
                fault = Some((F_STALL, r.below(7) as u32));
                stalls += 1;
            } else if r.chance(1, 8) {
                let k = match code {
                    0 => F_FROM,
                    1 => F_ORD,
                    2 => *r.pick(&[F_ORD, F_FROM]),
                    _ => *r.pick(&[F_FROM, F_FMTV, F_FMTP]),
                };
                if p.faults.contains(&k) {
                    fault = Some((k, r.below(3) as u32));
                }
            }
            let mut script = vec![
                r.below(nobj) as u32,
                r.below(3) as u32 * r.below(2) as u32,
                r.below(5) as u32 * r.below(2) as u32,
                r.below(2) as u32,
            ];
            if r.chance(if stall { 2 } else { 1 }, 8) {
                // from a conversion: which one, what, on which values
                script.extend([1 + r.below(3) as u32, r.weighted(&w) as u32, *r.pick(&pool), *r.pick(&pool)]);
            }
            ops.push(Op { code, a: t as u32, b: *r.pick(&pool), c: *r.pick(&pool), fault, script });
        }
    }
    let cfg = vec![
        key as u64,
        nobj as u64,
        *r.pick(&pool) as u64,
        *r.pick(&pool) as u64,
        permille(r),
        permille(r),
        *r.pick(&[100, 300, 600, 800]),
        *r.pick(&[0, 200, 500]),
        r.u64() >> 16,
    ];
    Plan { world: world.to_owned(), cfg, ops, sched: vec![] }
}

struct Shared {
    fac: AtomFac,
    objs: Vec<Box<dyn AtomDyn>>,
    hist: RefCell<Vec<(usize, Call)>>,
    ops: Vec<Op>,
    allowed: RefCell<Vec<Vec<usize>>>,
    panics: RefCell<Vec<String>>,
    nth: usize,
    stall: bool,
    late_done: Cell<bool>,
}

thread_local! {
    /// What the next conversions on this thread should do: (which, operation).
    static REENTER: RefCell<Option<(u32, Op)>> = const { RefCell::new(None) };
    static SHARED: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
}

/// The library has entered the key's own code.
pub fn on_callback(_: u32) {
    if !is_sim() {
        return;
    }
    sched_point(sim().cfg.p_cb, 90);
    let op = REENTER.with(|r| {
        let mut r = r.borrow_mut();
        match &mut *r {
            Some((n, _)) if *n > 0 => {
                *n -= 1;
                None
            }
            _ => r.take(),
        }
    });
    if let Some((_, op)) = op {
        let sh = SHARED.with(|s| s.borrow().clone());
        if let Some(sh) = sh {
            if std::thread::panicking() {
                return;
            }
            cx().fired_total[F_REENTER] += 1;
            sh.one(me(), &op, true);
        }
    }
}

impl Shared {
    fn text(&self, k: usize, alt: bool) -> String {
        // Not a call of the library, even from inside one: no faults here.
        let depth = IN_CALL.replace(0);
        let d = KD(self.fac.kf, k);
        let s = if alt { format!("{d:#?}") } else { format!("{d:?}") };
        IN_CALL.set(depth);
        s
    }

    /// One operation, with its call and return noted.
    fn one(&self, t: usize, op: &Op, nested: bool) -> Option<Out> {
        let n = self.fac.n;
        let g = |i: usize| op.script.get(i).copied().unwrap_or(0) as usize;
        let obj = g(0) % self.objs.len();
        let a = &self.objs[obj];
        let (k, k2) = (op.b as usize % n, op.c as usize % n);
        let code = op.code as usize % 4;
        let alt = g(3) & 1 == 1;
        let (lo, so, ro, fo) = (LOADS[g(1) % 3], STORES[g(1) % 3], RMWS[g(2) % 5], LOADS[g(1) % 3]);
        let what = match code {
            0 => format!("load({lo:?})"),
            1 => format!("store({k}, {so:?})"),
            2 => format!("compare_exchange({k}, {k2}, {ro:?}, {fo:?})"),
            _ => "debug".to_owned(),
        };
        if !nested {
            let stall = op.fault.filter(|f| f.0 == F_STALL).map(|f| f.1);
            begin_op(what.clone(), stall);
            cx().arm(op.fault.filter(|f| f.0 != F_STALL));
            let re = g(4);
            if re > 0 {
                let mut script = op.script[..4].to_vec();
                script[0] = obj as u32;
                let inner = Op { code: g(5) as u32, b: g(6) as u32, c: g(7) as u32, script, ..Op::default() };
                REENTER.with(|r| *r.borrow_mut() = Some((re as u32 - 1, inner)));
            }
        }
        match code {
            1 => self.allowed.borrow_mut()[obj].push(k),
            2 => self.allowed.borrow_mut()[obj].push(k2),
            _ => {}
        }
        let act = match code {
            1 => Act::Store(k),
            2 => Act::Cas(k, k2),
            _ => Act::Load,
        };
        let inv = now();
        let at = self.hist.borrow().len();
        self.hist.borrow_mut().push((obj, Call { th: t, act, out: Out::Unknown, inv, ret: u32::MAX }));
        let nest = if nested { " (from a conversion)" } else { "" };
        cx().tr(|| format!("thread {t} calls {what} on object {obj}{nest}"));
        let mut text = None;
        let out = match code {
            0 => a.load_o(lo).map(|v| Out::Val(vec![v])),
            1 => a.store_o(k, so).map(|_| Out::Done),
            2 => a.cas_o(k, k2, ro, fo).map(Out::Cas),
            _ => {
                let mut w = Writer::new(None);
                a.debug(&mut w, alt).map(|r| match r {
                    Err(_) if cx().fired => Out::Unknown,
                    Err(_) => {
                        text = Some("an error".to_owned());
                        Out::Val(vec![])
                    }
                    Ok(()) => {
                        let al = self.allowed.borrow();
                        let vs = al[obj].iter().copied().filter(|&v| self.text(v, alt) == w.buf).collect();
                        text = Some(w.buf);
                        Out::Val(vs)
                    }
                })
            }
        };
        if !nested {
            cx().disarm();
            REENTER.with(|r| *r.borrow_mut() = None);
        }
        let ret = now();
        {
            let mut h = self.hist.borrow_mut();
            h[at].1.ret = ret;
        }
        let res = match out {
            Ok(o) => {
                cx().tr(|| match &text {
                    Some(s) => format!("thread {t} {what} returned {s}{nest}"),
                    None => format!("thread {t} {what} returned {o:?}{nest}"),
                });
                cx().ev(match &o {
                    Out::Val(v) => v.iter().fold(5, |h, x| mix(h, *x as u64)),
                    Out::Cas(Ok(v)) => 1000 + *v as u64,
                    Out::Cas(Err(v)) => 2_000_000 + *v as u64,
                    _ => 1,
                });
                self.hist.borrow_mut()[at].1.out = o.clone();
                Some(o)
            }
            Err(Unw::Fault) => {
                cx().tr(|| format!("thread {t} {what} cut short by the injected panic{nest}"));
                None
            }
            Err(Unw::Panic(m)) => {
                self.panics.borrow_mut().push(format!("{what} panicked: {m}"));
                let class = if self.stall { "progress" } else { "lin" };
                cx().viol(class, format!("{what} panicked: {m}"));
                None
            }
        };
        if !nested {
            end_op();
        }
        res
    }

    fn body(self: &Arc<Self>, t: usize) {
        SHARED.with(|s| *s.borrow_mut() = Some(self.clone()));
        if t < self.nth {
            for op in self.ops.iter().filter(|o| o.a as usize % self.nth == t) {
                self.one(t, op, false);
                if cx().viols.len() > 5 {
                    break;
                }
            }
        } else {
            self.last(t);
            self.late_done.set(true);
        }
        SHARED.with(|s| *s.borrow_mut() = None);
    }

    /// After everybody else has finished or stopped: the ordinal still works.
    fn last(&self, t: usize) {
        let n = self.fac.n;
        for obj in 0..self.objs.len() {
            let mk = |code: u32, b: usize, c: usize| Op {
                code,
                b: b as u32,
                c: c as u32,
                script: vec![obj as u32, 0, 0, 0],
                ..Op::default()
            };
            let v = match self.one(t, &mk(0, 0, 0), false) {
                Some(Out::Val(v)) => v[0],
                _ => continue,
            };
            if !self.stall {
                continue;
            }
            if !self.allowed.borrow()[obj].contains(&v) {
                cx().viol("progress", format!("the ordinal holds {v}, which was neither its first value nor stored"));
            }
            let (x, y) = ((v + 1) % n, (v + 2) % n);
            let want = [
                (mk(1, x, 0), Out::Done),
                (mk(0, 0, 0), Out::Val(vec![x])),
                (mk(2, x, y), Out::Cas(Ok(x))),
                (mk(0, 0, 0), Out::Val(vec![y])),
                (mk(2, x, x), if x == y { Out::Cas(Ok(x)) } else { Out::Cas(Err(y)) }),
            ];
            for (op, w) in want {
                match self.one(t, &op, false) {
                    Some(o) if o == w => {}
                    Some(o) => cx().viol(
                        "progress",
                        format!("with every other thread stopped or finished, {} gives {o:?}, expected {w:?}", NAMES[op.code as usize]),
                    ),
                    None => {}
                }
            }
        }
    }
}

pub fn exec(_: &Prop, plan: &Plan) -> (Vec<u32>, u64) {
    let g = |i: usize| plan.cfg.get(i).copied().unwrap_or(0);
    let fac = reg().keys[g(0) as usize].atom;
    let n = fac.n;
    let nobj = (g(1) as usize).clamp(1, 2);
    let init: Vec<usize> = (0..nobj).map(|i| g(2 + i) as usize % n).collect();
    let nth = plan.ops.iter().map(|o| o.a as usize + 1).max().unwrap_or(1).clamp(1, 4);
    let stall = plan.world == "stall";
    cx().tr(|| format!("{} over {}, {nth} threads, first values {init:?}", plan.world, reg().keys[g(0) as usize].name));
    let mut objs = Vec::new();
    for &v in &init {
        match (fac.new)(v) {
            Ok(o) => objs.push(o),
            Err(u) => {
                cx().viol(if stall { "progress" } else { "lin" }, format!("new({v}) failed: {u:?}"));
                return (vec![0, 0], 0);
            }
        }
    }
    let sh = Arc::new(Shared {
        fac,
        objs,
        hist: RefCell::new(Vec::new()),
        ops: plan.ops.clone(),
        allowed: RefCell::new(init.iter().map(|v| vec![*v]).collect()),
        panics: RefCell::new(Vec::new()),
        nth,
        stall,
        late_done: Cell::new(false),
    });
    let cfg = sim::Cfg {
        weak: false,
        progress: stall,
        limit: 400,
        cap: 30_000,
        p_atomic: g(4) as u32,
        p_plain: g(4) as u32,
        p_cb: g(5) as u32,
        p_op: g(6) as u32,
        p_stale: 0,
        p_weak: g(7) as u32,
        seed: g(8),
    };
    let b = sh.clone();
    let rep = sim::run(nth + 1, &[nth], cfg, &plan.sched, false, Arc::new(move |t| b.body(t)));
    if rep.stuck.is_empty() {
        // Everything has returned: the last value.
        for obj in 0..nobj {
            match sh.objs[obj].load_o(Ordering::SeqCst) {
                Ok(v) => {
                    let mut h = sh.hist.borrow_mut();
                    cx().tr(|| format!("object {obj} holds {v} in the end"));
                    h.push((obj, Call { th: nth, act: Act::Load, out: Out::Val(vec![v]), inv: u32::MAX - 1, ret: u32::MAX - 1 }));
                }
                Err(u) => cx().viol(if stall { "progress" } else { "lin" }, format!("the last load failed: {u:?}")),
            }
        }
    }
    if !stall {
        for obj in 0..nobj {
            let h: Vec<Call> = sh.hist.borrow().iter().filter(|x| x.0 == obj).map(|x| x.1.clone()).collect();
            count("histories_checked", 1);
            if !linearizable(init[obj], &h) {
                let l: Vec<String> = h
                    .iter()
                    .map(|c| format!("[thread {} {:?} -> {:?}, {}..{}]", c.th, c.act, c.out, c.inv, c.ret.min(9999)))
                    .collect();
                cx().viol("lin", format!("no order of the operations explains their results, first value {}: {}", init[obj], l.join(" ")));
            }
        }
    } else if rep.stuck.is_empty() && !sh.late_done.get() {
        cx().viol("progress", "the last thread did not run".to_owned());
    }
    (rep.sched, rep.time)
}
