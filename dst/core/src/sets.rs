//! Sets (growable, array, 64-bit), iterators over all values of a type, and atomic ordinals
//! used by one thread, driven against reference models.

use std::any::Any;
use std::fmt;
use std::sync::atomic::Ordering;


use crate::core::*;
use crate::iters::*;
use crate::ops::*;
use crate::sparse::*;

pub trait SetDyn {
    fn insert(&mut self, k: usize) -> Res<bool>;
    fn contains(&self, k: usize) -> Res<bool>;
    fn iter<'a>(&'a self) -> Option<Res<Box<dyn DynIter<'a> + 'a>>>;
    fn dup(&self) -> Res<Box<dyn SetDyn>>;
    fn dup_from(&mut self, o: &dyn SetDyn) -> Res<()>;
    fn eq(&self, o: &dyn SetDyn) -> Option<Res<bool>>;
    fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result>;
    fn region(&self) -> (usize, usize);
    fn any(&self) -> &dyn Any;
}

pub type KSrc<'s> = dyn FnMut() -> Option<usize> + 's;
#[derive(Clone, Copy)]
pub struct SetFac {
    pub fresh: fn(u32) -> Res<Box<dyn SetDyn>>,
    pub collect: for<'s> fn(&'s mut KSrc<'s>) -> Res<Box<dyn SetDyn>>,
    pub all: Option<fn() -> Res<Box<dyn SetDyn>>>,
    pub n: usize,
    /// Large growable set: allocates on the first insertion.
    pub heap: bool,
    pub kf: KeyFmt,
    pub key_allocs: bool,
    pub byz: bool,
}

struct Slot {
    m: Box<dyn SetDyn>,
    model: Vec<bool>,
    allocated: bool,
}

pub struct SetWorld {
    fac: SetFac,
    p: Prop,
    slots: Vec<Slot>,
    check_pct: usize,
    rng: Rng,
    big: bool,
}

pub const E_OPS: &[&str] = &["insert", "contains", "iter", "clone", "from_iter", "debug", "all", "eq", "new"];
pub const E_W: [usize; 9] = [14, 5, 8, 3, 4, 3, 2, 2, 1];

fn e_faults(code: u32) -> &'static [usize] {
    match E_OPS[code as usize] {
        "insert" => &[F_ORD, F_ALLOC, F_OUTAGE],
        "contains" => &[F_ORD, F_OUTAGE],
        "iter" => &[F_FROM, F_FROM, F_ORD, F_FMTP, F_FMTV, F_OUTAGE],
        "from_iter" => &[F_SRC, F_EOF, F_ORD, F_ALLOC, F_OUTAGE],
        "debug" => &[F_FMTV, F_FMTP, F_FROM, F_ORD, F_WRITE, F_OUTAGE],
        "clone" => &[F_ALLOC, F_OUTAGE],
        _ => &[F_FROM, F_ORD, F_OUTAGE],
    }
}

impl SetWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        let mut ops = gen_ops(r, p, n, E_OPS, &E_W, e_faults);
        if n <= 300 && r.chance(1, 5) {
            fill(r, n, &mut ops);
        }
        ops
    }

    pub fn new(fac: SetFac, p: Prop, seed: u64, pct: usize) -> SetWorld {
        let mut w = SetWorld { fac, p, slots: Vec::new(), check_pct: pct, rng: Rng::new(seed), big: fac.n > 1000 };
        let s = w.fresh_slot(0);
        w.slots.push(s);
        w
    }

    fn fresh_slot(&mut self, how: u32) -> Slot {
        cx().disarm();
        let pct = std::mem::replace(&mut cx().byz_pct, 0);
        let r = (self.fac.fresh)(how);
        cx().byz_pct = pct;
        match r {
            Ok(m) => Slot { m, model: vec![false; self.fac.n], allocated: !self.fac.heap },
            Err(u) => {
                cx().viol("set", format!("new() unwound: {u:?}"));
                crate::give_up("cannot make an empty set")
            }
        }
    }

    fn observe(&mut self, s: usize, k: usize) -> bool {
        match self.slots[s].m.contains(k) {
            Ok(b) => b,
            Err(u) => {
                if after_oom() {
                    cx().viol("alloc", format!("contains({k}) unwound: {u:?}"));
                }
                cx().viol("set", format!("contains({k}) unwound: {u:?}"));
                false
            }
        }
    }

    fn check(&mut self, s: usize, class: &'static str, what: &str) {
        cx().disarm();
        for k in 0..self.fac.n {
            if self.big && k % 64 != 0 && !self.slots[s].model[k] && !self.rng.chance(1, 40) {
                continue;
            }
            let v = self.observe(s, k);
            let e = self.slots[s].model[k];
            if v != e {
                if !self.fac.byz {
                    cx().viol(class, format!("{what}: contains({k}) gives {v}, expected {e}"));
                    if after_oom() {
                        cx().viol("alloc", format!("{what}: contains({k}) gives {v}, expected {e}"));
                    }
                }
                self.slots[s].model[k] = v;
            }
        }
    }

    fn items(&self, s: usize) -> Vec<It> {
        self.slots[s].model.iter().enumerate().filter(|x| *x.1).map(|x| It { k: Some(x.0), v: None }).collect()
    }

    fn full_check(&mut self, s: usize) {
        self.check(s, "set", "contents");
        let items = self.items(s);
        let back = self.rng.chance(1, 2) as u32;
        if let Some(r) = self.slots[s].m.iter() {
            let mut got = Vec::new();
            let r = match r {
                Ok(it) => it.finish(back, 0, &mut |_, x| got.push(x)),
                Err(e) => Err(e),
            };
            if back == 1 {
                got.reverse();
            }
            if r.is_err() || got != items {
                cx().viol("set", format!("iteration gives {:?} ({r:?}), expected {:?}", &got[..got.len().min(70)], &items[..items.len().min(70)]));
            }
        } else {
            // The array set shows its elements in its Debug text only.
            if !self.big {
                let exp = expected_text(DbgKind::Set, self.fac.kf, &items, false);
                let mut w = Writer::new(None);
                let r = self.slots[s].m.debug(&mut w, false);
                if !matches!(r, Ok(Ok(()))) || w.buf != exp {
                    cx().viol("set", format!("elements shown are {:?}, expected {exp:?}", w.buf));
                }
            }
        }
    }

    fn ledger(&mut self, what: &str) {
        if self.fac.byz {
            return;
        }
        let class = self.p.ledger_class(what);
        if cx().klive != 0 {
            let k = cx().klive;
            cx().viol(class, format!("after {what}: {k} keys not dropped exactly once"));
            cx().klive = 0;
        }
    }
}

impl World for SetWorld {
    fn exec(&mut self, op: &Op) {
        let name = E_OPS[op.code as usize % E_OPS.len()];
        let n = self.fac.n;
        let s = op.b as usize % self.slots.len();
        let k = if n == 0 { 0 } else { op.a as usize % n };
        if n == 0 && matches!(name, "insert" | "contains") {
            return;
        }
        cx().ev(op.code as u64 + 300);
        cx().ev(k as u64);
        cx().tr(|| format!("{name} key {k} set {s} c {:x} fault {:?} script {:x?}", op.c, op.fault.map(|f| (FAULT_NAMES[f.0], f.1)), op.script));
        if self.p.resync {
            self.check(s, "set", "contents");
        }
        let ka = self.fac.key_allocs;
        let needs = self.fac.heap && !self.slots[s].allocated || ka;
        let mut oom = false;
        macro_rules! fail {
            ($c:expr, $($a:tt)*) => {{
                let m = format!($($a)*);
                if after_oom() {
                    cx().viol("alloc", m.clone());
                }
                cx().viol($c, m);
            }};
        }
        macro_rules! unwound {
            ($u:expr, $class:expr, $may:expr) => {{
                oom = judge_alloc(name, $may || ka, true);
                if let Unw::Panic(m) = $u {
                    if !(cx().fired && cx().fired_kind == F_BYZ) {
                        fail!($class, "{name}({k}) panicked: {m}");
                    }
                }
            }};
        }
        cx().arm(op.fault);
        match name {
            "insert" => {
                let pre = self.slots[s].model[k];
                match self.slots[s].m.insert(k) {
                    Ok(b) => {
                        if b == pre && !self.fac.byz {
                            fail!("set", "insert({k}) returned {b}, element was there: {pre}");
                        }
                        self.slots[s].model[k] = true;
                        self.slots[s].allocated = true;
                    }
                    Err(u) => {
                        unwound!(u, "set", needs);
                        cx().disarm();
                        let v = self.observe(s, k);
                        if pre && !v {
                            cx().viol("set", format!("a cut-short insert({k}) removed the element"));
                        }
                        if oom && v != pre {
                            cx().viol("alloc", format!("insert({k}) ran out of memory but changed the set"));
                        }
                        self.slots[s].model[k] = v;
                    }
                }
            }
            "contains" => {
                let e = self.slots[s].model[k];
                match self.slots[s].m.contains(k) {
                    Ok(b) if b == e => {}
                    Ok(b) => {
                        if !self.fac.byz {
                            fail!("set", "contains({k}) gives {b}, expected {e}");
                        }
                    }
                    Err(u) => unwound!(u, "set", false),
                }
            }
            "iter" => {
                let items = self.items(s);
                let cfg = SessCfg {
                    what: "set iter",
                    class: "iter",
                    dbg: DbgKind::Keys,
                    kf: self.fac.kf,
                    owned: false,
                    may_forget: !self.fac.byz,
                    big: self.big,
                    no_collect: self.p.id == "C10",
                };
                match self.slots[s].m.iter() {
                    None => {}
                    Some(Ok(it)) => {
                        let o = session(it, &items, &op.script, cfg);
                        if cfg.no_collect && ALLOC_FAILED.get() > 0 && o.faulted && !ka {
                            cx().viol("alloc", "set iteration needs memory but must not".to_owned());
                        }
                    }
                    Some(Err(u)) => {
                        if let Unw::Panic(m) = &u {
                            cx().viol("iter", format!("set iter could not be made: {m}"));
                        }
                        unwound!(u, "set", false);
                    }
                }
            }
            "clone" if op.c >> 8 & 1 == 1 && (op.c >> 4) as usize % 3 < self.slots.len() && (op.c >> 4) as usize % 3 != s => {
                // Over a set that is already there.
                let t = (op.c >> 4) as usize % 3;
                cx().tr(|| format!("  over set {t}"));
                cx().disarm();
                self.check(t, "set", "contents");
                cx().arm(op.fault);
                let (a, b) = pair_mut(&mut self.slots, t, s);
                let r = a.m.dup_from(&*b.m);
                let post = b.model.clone();
                match r {
                    Ok(()) => {
                        a.allocated = !self.fac.heap || b.allocated && (a.allocated || post.contains(&true));
                        a.model = post;
                        self.check(t, "build", "clone_from");
                    }
                    Err(u) => {
                        a.allocated &= b.allocated;
                        unwound!(u, "build", self.fac.heap);
                        let failed = ALLOC_FAILED.get() > 0;
                        cx().disarm();
                        for k in 0..n {
                            let (pre, v) = (self.slots[t].model[k], self.observe(t, k));
                            if v != pre && v != post[k] {
                                cx().viol("set", format!("after a cut-short clone_from, contains({k}) gives {v}, expected {pre} or {}", post[k]));
                            }
                            if failed && v != pre {
                                cx().viol("alloc", format!("clone_from ran out of memory but changed contains({k}) from {pre} to {v}"));
                            }
                            self.slots[t].model[k] = v;
                        }
                    }
                }
                self.check(s, "build", "the source of a clone");
            }
            "clone" => {
                let r = self.slots[s].m.dup();
                match r {
                    Ok(m) => {
                        cx().disarm();
                        let t = (op.c >> 4) as usize % 3;
                        let slot = Slot { m, model: self.slots[s].model.clone(), allocated: !self.fac.heap || self.slots[s].allocated && self.slots[s].model.contains(&true) };
                        if t < self.slots.len() {
                            self.slots[t] = slot;
                        } else {
                            self.slots.push(slot);
                        }
                        let t = t.min(self.slots.len() - 1);
                        self.check(t, "build", "clone");
                    }
                    Err(u) => unwound!(u, "build", self.fac.heap),
                }
                self.check(s, "build", "the source of a clone");
            }
            "from_iter" => {
                let keys: Vec<usize> = source_keys(op, n);
                let mut i = 0;
                src_start(keys.len(), op.c >> 8, op.fault);
                let r = (self.fac.collect)(&mut || {
                    let k = *keys.get(i)?;
                    i += 1;
                    Some(k)
                });
                match r {
                    Ok(m) => {
                        let ended = cx().fired && cx().fired_kind == F_EOF;
                        cx().disarm();
                        let mut model = vec![false; n];
                        for &k in if ended { &keys[..i] } else { &keys[..] } {
                            model[k] = true;
                        }
                        self.slots[s] = Slot { m, model, allocated: !self.fac.heap || i > 0 };
                        self.check(s, "build", "collecting");
                    }
                    Err(u) => unwound!(u, "build", self.fac.heap),
                }
            }
            "debug" => {
                if !self.big {
                    let alt = op.c & 1 == 1;
                    let items = self.items(s);
                    let exp = expected_text(DbgKind::Set, self.fac.kf, &items, alt);
                    let budget = match op.fault {
                        Some((F_WRITE, _)) => Some((op.c >> 3) as usize % (exp.len() + 1)).filter(|b| *b < exp.len()),
                        _ => None,
                    };
                    check_debug("set", &exp, budget, &mut |w| self.slots[s].m.debug(w, alt));
                    oom = judge_alloc(name, ka, ALLOC_FAILED.get() > 0);
                    if cx().fired {
                        cx().disarm();
                        cx().fired = false;
                        check_debug("set", &exp, None, &mut |w| self.slots[s].m.debug(w, alt));
                    }
                }
            }
            "all" => {
                if let Some(all) = self.fac.all {
                    match all() {
                        Ok(m) => {
                            cx().disarm();
                            self.slots[s] = Slot { m, model: vec![true; n], allocated: true };
                            self.check(s, "set", "all()");
                            self.full_check(s);
                        }
                        Err(u) => unwound!(u, "set", false),
                    }
                }
            }
            "eq" => {
                let t = (op.c as usize) % self.slots.len();
                let e = self.slots[s].model == self.slots[t].model;
                match self.slots[s].m.eq(&*self.slots[t].m) {
                    None => {}
                    Some(Ok(b)) => {
                        if b != e && !self.fac.byz {
                            fail!("set", "comparing sets {s} and {t} gives {b}, expected {e}");
                        }
                    }
                    Some(Err(u)) => unwound!(u, "set", false),
                }
            }
            "new" => match (self.fac.fresh)(op.c & 1) {
                Ok(m) => {
                    cx().disarm();
                    self.slots[s] = Slot { m, model: vec![false; n], allocated: !self.fac.heap };
                }
                Err(u) => unwound!(u, "set", false),
            },
            _ => unreachable!(),
        }
        cx().disarm();
        self.ledger(name);
        if oom && self.p.id == "C10" {
            self.check(s, "alloc", "after running out of memory");
            cx().tr(|| "  retry with memory back".to_owned());
            let mut again = op.clone();
            again.fault = None;
            RETRY.set(true);
            self.exec(&again);
            RETRY.set(false);
            return;
        }
        let mut h = self.slots.len() as u64;
        for s in &self.slots {
            for (k, v) in s.model.iter().enumerate() {
                if *v {
                    h = mix(h, k as u64);
                }
            }
        }
        cx().states.push(h);
        if !self.p.resync && self.rng.chance(self.check_pct, 100) {
            for s in 0..self.slots.len() {
                self.full_check(s);
            }
        }
    }

    fn finish(&mut self) {
        if !self.p.resync {
            for s in 0..self.slots.len() {
                self.full_check(s);
            }
        }
        self.slots.clear();
        if self.fac.byz {
            byz_end();
        } else {
            self.ledger("the end");
        }
    }
}

// ---------------------------------------------------------------- all values of a type

#[derive(Clone, Copy)]
pub struct ValuesFac {
    pub all: fn() -> Res<Box<dyn DynIter<'static>>>,
    pub n: usize,
    pub kf: KeyFmt,
    pub key_allocs: bool,
    pub byz: bool,
}


pub struct ValuesWorld {
    pub fac: ValuesFac,
    pub p: Prop,
}

pub const V_OPS: &[&str] = &["values_all"];

fn v_faults(_: u32) -> &'static [usize] {
    &[F_FROM, F_FMTP, F_FMTV, F_OUTAGE]
}

impl ValuesWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        gen_ops(r, p, n, V_OPS, &[1], v_faults)
    }
}

impl World for ValuesWorld {
    fn exec(&mut self, op: &Op) {
        let n = self.fac.n;
        cx().ev(op.code as u64 + 400);
        cx().tr(|| format!("all_values fault {:?} script {:x?}", op.fault.map(|f| (FAULT_NAMES[f.0], f.1)), op.script));
        cx().arm(op.fault);
        let items: Vec<It> = (0..n).map(|k| It { k: Some(k), v: None }).collect();
        let cfg = SessCfg {
            what: "all_values",
            class: "iter",
            dbg: DbgKind::Range(n),
            kf: self.fac.kf,
            owned: false,
            may_forget: false,
            big: n > 1000,
            no_collect: self.p.id == "C10",
        };
        match (self.fac.all)() {
            Ok(it) => {
                let o = session(it, &items, &op.script, cfg);
                if cfg.no_collect && ALLOC_FAILED.get() > 0 && o.faulted && !self.fac.key_allocs {
                    cx().viol("alloc", "iterating over all values needs memory but must not".to_owned());
                }
            }
            Err(u) => cx().viol("iter", format!("all_values() unwound: {u:?}")),
        }
        cx().disarm();
        if cx().klive != 0 && !self.fac.byz {
            let k = cx().klive;
            cx().viol("drop", format!("after iterating: {k} keys not dropped exactly once"));
            cx().klive = 0;
        }
        let h = mix(cx().cnt[F_FROM] as u64, n as u64);
        cx().states.push(h);
    }
    fn finish(&mut self) {
        if self.fac.byz {
            byz_end();
        }
    }
}

// ---------------------------------------------------------------- one thread's atomic ordinals

pub trait AtomDyn {
    fn load_o(&self, o: Ordering) -> Res<usize>;
    fn store_o(&self, k: usize, o: Ordering) -> Res<()>;
    fn cas_o(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Res<Result<usize, usize>>;
    fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result>;
    fn region(&self) -> (usize, usize);
    fn load(&self) -> Res<usize> {
        self.load_o(Ordering::SeqCst)
    }
    fn store(&self, k: usize) -> Res<()> {
        self.store_o(k, Ordering::SeqCst)
    }
    fn cas(&self, a: usize, b: usize) -> Res<Result<usize, usize>> {
        self.cas_o(a, b, Ordering::SeqCst, Ordering::SeqCst)
    }
}


#[derive(Clone, Copy)]
pub struct AtomFac {
    pub new: fn(usize) -> Res<Box<dyn AtomDyn>>,
    pub n: usize,
    pub kf: KeyFmt,
    pub key_allocs: bool,
    pub byz: bool,
}


pub struct AtomWorld {
    fac: AtomFac,
    a: Option<Box<dyn AtomDyn>>,
    v: usize,
}

pub const A_OPS: &[&str] = &["load", "store", "cas", "debug", "new"];

fn a_faults(code: u32) -> &'static [usize] {
    match A_OPS[code as usize] {
        "debug" => &[F_FMTV, F_FMTP, F_FROM, F_WRITE, F_OUTAGE],
        "load" => &[F_FROM, F_OUTAGE],
        "cas" => &[F_ORD, F_FROM, F_OUTAGE],
        _ => &[F_ORD, F_OUTAGE],
    }
}

impl AtomWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        gen_ops(r, p, n, A_OPS, &[3, 4, 4, 3, 1], a_faults)
    }
    pub fn new(fac: AtomFac, _: Prop) -> AtomWorld {
        let pct = std::mem::replace(&mut cx().byz_pct, 0);
        let a = if fac.n == 0 { None } else { (fac.new)(0).ok() };
        cx().byz_pct = pct;
        AtomWorld { fac, a, v: 0 }
    }
}

impl World for AtomWorld {
    fn exec(&mut self, op: &Op) {
        let name = A_OPS[op.code as usize % A_OPS.len()];
        let n = self.fac.n;
        let Some(a) = &self.a else { return };
        let k = op.a as usize % n;
        let k2 = op.c as usize % n;
        cx().ev(op.code as u64 + 500);
        cx().ev(k as u64);
        cx().tr(|| format!("atomic {name} {k} {k2} fault {:?}", op.fault.map(|f| (FAULT_NAMES[f.0], f.1))));
        cx().arm(op.fault);
        let mut cut = None;
        let mut next = self.v;
        let byz = self.fac.byz;
        match name {
            "load" => match a.load() {
                Ok(v) if v == self.v || byz => {}
                Ok(v) => cx().viol("atom", format!("load gives {v}, expected {}", self.v)),
                Err(u) => cut = Some(u),
            },
            "store" => {
                next = k;
                if let Err(u) = a.store(k) {
                    cut = Some(u);
                }
            }
            "cas" => {
                let exp = if k == self.v { Ok(k) } else { Err(self.v) };
                if k == self.v {
                    next = k2;
                }
                match a.cas(k, k2) {
                    Ok(r) if r == exp || byz => {}
                    Ok(r) => cx().viol("atom", format!("compare_exchange gives {r:?}, expected {exp:?}")),
                    Err(u) => cut = Some(u),
                }
            }
            "debug" => {
                let alt = op.c & 1 == 1;
                let exp = {
                    let d = KD(self.fac.kf, self.v);
                    if alt {
                        format!("{d:#?}")
                    } else {
                        format!("{d:?}")
                    }
                };
                let budget = match op.fault {
                    Some((F_WRITE, _)) => Some((op.c >> 3) as usize % (exp.len() + 1)).filter(|b| *b < exp.len()),
                    _ => None,
                };
                check_debug("atomic", &exp, budget, &mut |w| a.debug(w, alt));
                judge_alloc("debug", self.fac.key_allocs, ALLOC_FAILED.get() > 0);
                if cx().fired {
                    cx().disarm();
                    cx().fired = false;
                    check_debug("atomic", &exp, None, &mut |w| a.debug(w, alt));
                }
            }
            _ => match (self.fac.new)(k) {
                Ok(x) => {
                    self.a = Some(x);
                    next = k;
                }
                Err(u) => {
                    judge_alloc("new", self.fac.key_allocs, true);
                    if let Unw::Panic(m) = u {
                        cx().viol("atom", format!("new panicked: {m}"));
                    }
                }
            },
        }
        let was = cut.is_some();
        if let Some(u) = cut {
            judge_alloc(name, self.fac.key_allocs, true);
            if let Unw::Panic(m) = u {
                cx().viol("atom", format!("{name} panicked: {m}"));
            }
        }
        cx().disarm();
        if was {
            let a = self.a.as_ref().unwrap();
            match a.load() {
                Ok(v) if v == self.v || v == next || byz => next = v,
                r => cx().viol("atom", format!("after a cut-short {name}, load gives {r:?}")),
            }
        }
        self.v = next;
        if cx().klive != 0 && !byz {
            let k = cx().klive;
            cx().viol("drop", format!("after {name}: {k} keys not dropped exactly once"));
            cx().klive = 0;
        }
        let h = mix(self.v as u64, n as u64);
        cx().states.push(h);
    }
    fn finish(&mut self) {
        self.a = None;
        if self.fac.byz {
            byz_end();
        }
    }
}

