//! Total maps (heap and array backed) driven against a reference map.

use std::collections::HashMap;
use std::fmt;

use crate::core::*;
use crate::iters::*;
use crate::ops::*;
use crate::sparse::*;

pub type Init<'s> = dyn FnMut(usize) -> u32 + 's;
pub type Tf<'s> = dyn FnMut(usize, u32) -> u32 + 's;
pub type See<'s> = dyn FnMut(usize, u32, u32) + 's;

/// Error value returned by a failing initializer.
pub const ERR_CODE: u32 = 0xe44;

pub trait TotalDyn {
    fn get(&self, k: usize) -> Res<u32>;
    fn get_mut(&mut self, k: usize, how: u32, pay: Option<u32>) -> Res<u32>;
    fn index(&self, k: usize) -> Res<u32>;
    fn insert(&mut self, k: usize, pay: u32) -> Res<u32>;
    fn len(&self) -> Res<(usize, bool)>;
    fn dup(&self) -> Res<Box<dyn TotalDyn>>;
    fn dup_from(&mut self, o: &dyn TotalDyn) -> Res<()>;
    fn any(&self) -> &dyn std::any::Any;
    fn keys<'a>(&self) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn into_keys<'a>(self: Box<Self>) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn iter<'a>(&'a self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn iter_mut<'a>(&'a mut self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn into_iter<'a>(self: Box<Self>) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn into_values(self: Box<Self>) -> Res<Vec<u32>>;
    fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result>;
    fn discard(self: Box<Self>) -> Res<()>;
    fn region(&self) -> (usize, usize);
    /// Hand out every mutable reference, one at a time and all kept.
    fn split_mut<'a>(&'a mut self, how: u32, sink: &mut Split<'_, 'a>) -> Res<()>;
    /// Array-backed only.
    fn map(self: Box<Self>, keyed: bool, f: &mut Tf) -> Option<Res<Box<dyn TotalDyn>>>;
    fn zip(self: Box<Self>, pays: &[u32], see: &mut See, keep: u32) -> Option<Res<Box<dyn TotalDyn>>>;
    fn refs(&self, see: &mut See) -> Option<Res<()>>;
    fn muts(&mut self, see: &mut See) -> Option<Res<()>>;
    fn array(&mut self, toggle: bool) -> Option<Res<Vec<u32>>>;
}


#[derive(Clone, Copy)]
pub struct TotalFac {
    pub try_new: for<'s> fn(&'s mut Init<'s>) -> Res<Result<Box<dyn TotalDyn>, u32>>,
    pub make: for<'s> fn(&'s mut Init<'s>) -> Res<Box<dyn TotalDyn>>,
    pub default: fn() -> Res<Box<dyn TotalDyn>>,
    pub n: usize,
    pub heap: bool,
    pub zst: bool,
    pub kf: KeyFmt,
    pub key_allocs: bool,
    pub byz: bool,
}

struct Slot {
    m: Box<dyn TotalDyn>,
    model: Vec<u32>,
}

pub struct TotalWorld {
    fac: TotalFac,
    p: Prop,
    slots: Vec<Slot>,
    check_pct: usize,
    rng: Rng,
    leak: i64,
    big: bool,
}

pub const T_OPS: &[&str] = &[
    "get", "get_mut", "index", "insert", "len", "clone", "keys", "into_keys", "iter", "iter_mut", "into_iter",
    "into_values", "debug", "try_new", "new", "default", "map", "zip", "as_ref", "as_mut", "array", "drop",
];
pub const T_W: [usize; 22] = [2, 4, 2, 8, 1, 3, 2, 1, 5, 5, 4, 2, 2, 4, 3, 2, 5, 3, 2, 3, 2, 1];

fn t_faults(code: u32) -> &'static [usize] {
    match T_OPS[code as usize] {
        "get" | "get_mut" | "index" | "insert" => &[F_ORD, F_OUTAGE],
        "clone" => &[F_CLONE, F_CLONE, F_ALLOC, F_OUTAGE],
        "keys" | "into_keys" => &[F_FROM, F_FMTP, F_FMTV, F_DROP, F_OUTAGE],
        "iter" | "iter_mut" => &[F_FROM, F_FROM, F_FMTP, F_FMTV, F_OUTAGE],
        "into_iter" => &[F_FROM, F_FROM, F_FMTP, F_FMTV, F_DROP, F_CLONE, F_OUTAGE],
        "debug" => &[F_FMTV, F_FMTP, F_FROM, F_WRITE, F_OUTAGE],
        "try_new" => &[F_CB, F_ERR, F_ERR, F_ERR, F_FROM, F_DROP, F_ALLOC, F_OUTAGE],
        "new" => &[F_CB, F_FROM, F_ALLOC, F_OUTAGE],
        "default" => &[F_DEFAULT, F_FROM, F_ALLOC, F_OUTAGE],
        "map" => &[F_CB, F_CB, F_FROM, F_DROP, F_OUTAGE],
        "zip" => &[F_CB, F_FROM, F_DROP, F_OUTAGE],
        "as_ref" => &[F_FROM, F_ORD, F_OUTAGE],
        "as_mut" => &[F_FROM, F_OUTAGE],
        "drop" | "into_values" => &[F_DROP, F_OUTAGE],
        _ => &[F_OUTAGE],
    }
}

impl TotalWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        gen_ops(r, p, n, T_OPS, &T_W, t_faults)
    }

    pub fn new(fac: TotalFac, p: Prop, seed: u64, pct: usize) -> TotalWorld {
        let mut w = TotalWorld {
            fac,
            p,
            slots: Vec::new(),
            check_pct: pct,
            rng: Rng::new(seed),
            leak: 0,
            big: fac.n > 1000,
        };
        let s = w.fresh_slot();
        w.slots.push(s);
        w
    }

    fn new_pay(&self) -> u32 {
        if self.fac.zst {
            0
        } else {
            cx().pay()
        }
    }

    fn fresh_slot(&mut self) -> Slot {
        cx().disarm();
        for attempt in 0..2 {
            let pct = std::mem::replace(&mut cx().byz_pct, 0);
            let mut model = vec![0; self.fac.n];
            let zst = self.fac.zst;
            let r = (self.fac.make)(&mut |k| {
                let p = if zst { 0 } else { cx().pay() };
                if k < model.len() {
                    model[k] = p;
                }
                p
            });
            cx().byz_pct = pct;
            match r {
                Ok(m) => return Slot { m, model },
                Err(u) => {
                    if attempt == 0 {
                        cx().viol("build", format!("new() unwound: {u:?}"));
                        cx().viol("total", format!("new() unwound: {u:?}"));
                    }
                }
            }
        }
        crate::give_up("cannot make a total map")
    }

    fn observe(&mut self, s: usize, k: usize) -> u32 {
        match self.slots[s].m.get(k) {
            Ok(v) => v,
            Err(u) => {
                if after_oom() {
                    cx().viol("alloc", format!("get({k}) unwound: {u:?}"));
                }
                cx().viol("total", format!("get({k}) unwound: {u:?}"));
                self.slots[s].model[k]
            }
        }
    }

    fn check_contents(&mut self, s: usize, class: &'static str, what: &str) {
        cx().disarm();
        for k in 0..self.fac.n {
            let v = self.observe(s, k);
            let e = self.slots[s].model[k];
            if v != e {
                if !self.fac.byz {
                    cx().viol(class, format!("{what}: key {k} holds {v:?}, expected {e:?}"));
                    if after_oom() {
                        cx().viol("alloc", format!("{what}: key {k} holds {v:?}, expected {e:?}"));
                    }
                }
                self.slots[s].model[k] = v;
            }
        }
    }

    fn full_check(&mut self, s: usize) {
        self.check_contents(s, "total", "get");
        let n = self.fac.n;
        match self.slots[s].m.len() {
            Ok(x) if x == (n, n == 0) => {}
            r => cx().viol("total", format!("len/is_empty give {r:?}, expected {n}")),
        }
        let kind = self.rng.below(3) as u32;
        let items = self.items(s, kind != 2, true);
        let mut got = Vec::new();
        let back = self.rng.chance(1, 2) as u32;
        let r = match self.slots[s].m.iter(kind) {
            Ok(it) => it.finish(back, 0, &mut |_, x| got.push(x)),
            Err(e) => Err(e),
        };
        if back == 1 {
            got.reverse();
        }
        if r.is_err() || got != items {
            let at = got.iter().zip(&items).position(|(a, b)| a != b);
            cx().viol("total", format!("iteration differs ({r:?}) at {at:?}: {} items, expected {}", got.len(), items.len()));
        }
        if n > 0 && !self.big {
            let k = self.rng.below(n);
            let e = self.slots[s].model[k];
            match self.slots[s].m.index(k) {
                Ok(v) if v == e => {}
                r => cx().viol("total", format!("indexing {k} gives {r:?}, expected {e}")),
            }
        }
    }

    fn items(&self, s: usize, keys: bool, vals: bool) -> Vec<It> {
        self.slots[s]
            .model
            .iter()
            .enumerate()
            .map(|(k, &v)| It { k: keys.then_some(k), v: vals.then_some(v) })
            .collect()
    }

    fn ledger(&mut self, what: &str) {
        if self.fac.byz {
            return;
        }
        let class = self.p.ledger_class(what);
        let exp = (self.slots.len() * self.fac.n) as i64 + self.leak;
        let live = live_total();
        if live != exp {
            if !(live > exp && cx().drop_panicked) {
                let w = if live > exp { "leaked" } else { "lost" };
                cx().viol(class, format!("after {what}: {} values {w} ({live} alive, {exp} reachable)", (live - exp).abs()));
            }
            self.leak += live - exp;
        }
        if cx().klive != 0 {
            let k = cx().klive;
            if !cx().drop_panicked {
                cx().viol(class, format!("after {what}: {k} keys not dropped exactly once"));
            }
            cx().klive = 0;
        }
    }

    /// The outcome of constructing a map with the given calls of the user's function.
    fn built(&mut self, s: usize, m: Box<dyn TotalDyn>, model: Vec<u32>, what: &str) {
        cx().disarm();
        let old = std::mem::replace(&mut self.slots[s], Slot { m, model });
        let _ = old.m.discard();
        self.check_contents(s, "build", what);
    }

    fn check_calls(&self, calls: &[usize], complete: bool, what: &str) {
        if self.fac.byz {
            return;
        }
        let mut seen = vec![false; self.fac.n];
        for &k in calls {
            if k >= seen.len() || seen[k] {
                cx().viol("build", format!("{what}: function called for key {k} again or out of range"));
                return;
            }
            seen[k] = true;
        }
        if complete && calls.len() != self.fac.n {
            cx().viol("build", format!("{what}: function called for {} of {} keys", calls.len(), self.fac.n));
        }
    }
}

impl World for TotalWorld {
    fn exec(&mut self, op: &Op) {
        let name = T_OPS[op.code as usize % T_OPS.len()];
        let n = self.fac.n;
        let s = op.b as usize % self.slots.len();
        let k = if n == 0 { 0 } else { op.a as usize % n };
        if n == 0 && matches!(name, "get" | "get_mut" | "index" | "insert") {
            return;
        }
        cx().ev(op.code as u64 + 200);
        cx().ev(k as u64);
        cx().tr(|| format!("{name} key {k} map {s} c {:x} fault {:?} script {:x?}", op.c, op.fault.map(|f| (FAULT_NAMES[f.0], f.1)), op.script));
        if self.p.resync {
            self.check_contents(s, "total", "get");
        }
        let heap = self.fac.heap;
        let ka = self.fac.key_allocs;
        let zst = self.fac.zst;
        let mut oom = false;
        let mut gone = false;
        macro_rules! fail {
            ($c:expr, $($a:tt)*) => {{
                let m = format!($($a)*);
                if after_oom() {
                    cx().viol("alloc", m.clone());
                }
                cx().viol($c, m);
            }};
        }
        macro_rules! unwound {
            ($u:expr, $class:expr, $may:expr) => {{
                oom = judge_alloc(name, $may || ka, true);
                if let Unw::Panic(m) = $u {
                    if !(cx().fired && cx().fired_kind == F_BYZ) {
                        fail!($class, "{name}({k}) panicked: {m}");
                    }
                }
            }};
        }
        // Operations that consume the map work on a clone or on the slot itself.
        let consumes = matches!(name, "into_keys" | "into_iter" | "into_values" | "map" | "zip");
        let spare = (consumes || name == "drop").then(|| self.fresh_slot());
        cx().arm(op.fault);
        match name {
            "get" | "index" => {
                let e = self.slots[s].model[k];
                let m = &self.slots[s].m;
                match if name == "get" { m.get(k) } else { m.index(k) } {
                    Ok(v) if v == e => {}
                    Ok(v) => fail!("total", "{name}({k}) gives {v}, expected {e}"),
                    Err(u) => unwound!(u, "total", false),
                }
            }
            "get_mut" | "insert" => {
                let e = self.slots[s].model[k];
                let pay = self.new_pay();
                let set = name == "insert" || op.c & 2 == 2;
                let m = &mut self.slots[s].m;
                let r = if name == "insert" { m.insert(k, pay) } else { m.get_mut(k, op.c & 1, set.then_some(pay)) };
                match r {
                    Ok(v) => {
                        if v != e {
                            fail!("total", "{name}({k}) returned {v}, expected {e}");
                        }
                        if set {
                            self.slots[s].model[k] = pay;
                        }
                    }
                    Err(u) => {
                        unwound!(u, "total", false);
                        cx().disarm();
                        let v = self.observe(s, k);
                        if v != e && !(set && v == pay) {
                            cx().viol("total", format!("after a cut-short {name}, key {k} holds {v}, expected {e} or {pay}"));
                        }
                        self.slots[s].model[k] = v;
                    }
                }
            }
            "len" => match self.slots[s].m.len() {
                Ok(x) if x == (n, n == 0) => {}
                Ok(x) => fail!("total", "len/is_empty give {x:?}, expected {n}"),
                Err(u) => unwound!(u, "total", false),
            },
            "clone" if op.c >> 8 & 1 == 1 && (op.c >> 4) as usize % 3 < self.slots.len() && (op.c >> 4) as usize % 3 != s => {
                // Over a map that is already there.
                let t = (op.c >> 4) as usize % 3;
                cx().tr(|| format!("  over map {t}"));
                cx().disarm();
                self.check_contents(t, "total", "contents");
                cx().arm(op.fault);
                let (a, b) = pair_mut(&mut self.slots, t, s);
                let r = a.m.dup_from(&*b.m);
                let post = b.model.clone();
                match r {
                    Ok(()) => {
                        a.model = post;
                        cx().disarm();
                        judge_clones(n, self.fac.byz, name);
                        self.check_contents(t, "build", "clone_from");
                    }
                    Err(u) => {
                        unwound!(u, "build", heap && n > 0);
                        let failed = ALLOC_FAILED.get() > 0;
                        cx().disarm();
                        for k in 0..n {
                            let (pre, v) = (self.slots[t].model[k], self.observe(t, k));
                            if v != pre && v != post[k] {
                                cx().viol("total", format!("after a cut-short clone_from, key {k} holds {v}, expected {pre} or {}", post[k]));
                            }
                            if failed && v != pre {
                                cx().viol("alloc", format!("clone_from ran out of memory but changed key {k} from {pre} to {v}"));
                            }
                            self.slots[t].model[k] = v;
                        }
                    }
                }
                self.check_contents(s, "build", "the source of a clone");
            }
            "clone" => {
                let r = self.slots[s].m.dup();
                match r {
                    Ok(m) => {
                        cx().disarm();
                        judge_clones(n, self.fac.byz, name);
                        let t = (op.c >> 4) as usize % 3;
                        let slot = Slot { m, model: self.slots[s].model.clone() };
                        if t < self.slots.len() {
                            let old = std::mem::replace(&mut self.slots[t], slot);
                            let _ = old.m.discard();
                        } else {
                            self.slots.push(slot);
                        }
                        let t = t.min(self.slots.len() - 1);
                        self.check_contents(t, "build", "clone");
                    }
                    Err(u) => unwound!(u, "build", heap && n > 0 && !zst),
                }
                self.check_contents(s, "build", "the source of a clone");
            }
            "keys" | "into_keys" | "iter" | "iter_mut" | "into_iter" => {
                let kind = op.c % 6;
                let (keys, vals, dbg) = match (name, kind) {
                    ("keys" | "into_keys", _) => (true, false, DbgKind::Range(n)),
                    ("iter", 2 | 5) => (false, true, DbgKind::None),
                    ("iter_mut", 1 | 3 | 5) => (false, true, DbgKind::None),
                    _ => (true, true, DbgKind::Pairs),
                };
                let items = self.items(s, keys, vals);
                let cfg = SessCfg {
                    what: match (name, vals, keys) {
                        ("iter", _, true) => "total iter",
                        ("iter", ..) => "total values",
                        ("iter_mut", _, true) => "total iter_mut",
                        ("iter_mut", ..) => "total values_mut",
                        ("keys", ..) => "total keys",
                        ("into_keys", ..) => "total into_keys",
                        _ => "total into_iter",
                    },
                    class: "iter",
                    dbg,
                    kf: self.fac.kf,
                    owned: name == "into_iter",
                    may_forget: !self.fac.byz && self.p.id != "C10",
                    big: self.big,
                    no_collect: self.p.id == "C10",
                };
                let o = {
                let it = match name {
                    "keys" => self.slots[s].m.keys().map(|x| x as Box<dyn DynIter>),
                    "iter" => self.slots[s].m.iter(kind),
                    "iter_mut" => self.slots[s].m.iter_mut(kind),
                    _ => {
                        let old = std::mem::replace(&mut self.slots[s], spare.unwrap());
                        if name == "into_keys" {
                            old.m.into_keys()
                        } else {
                            old.m.into_iter()
                        }
                    }
                };
                match it {
                    Ok(it) => session(it, &items, &op.script, cfg),
                    Err(u) => {
                        if let Unw::Panic(m) = &u {
                            cx().viol("iter", format!("{} could not be made: {m}", cfg.what));
                        }
                        SessOut { faulted: true, lost: matches!(u, Unw::Panic(_)), ..Default::default() }
                    }
                }
                };
                if cfg.no_collect && ALLOC_FAILED.get() > 0 && o.faulted && !(name == "into_iter" && heap) && !ka {
                    cx().viol("alloc", format!("{} needs memory but must not", cfg.what));
                }
                cx().disarm();
                if name == "iter_mut" && !zst {
                    let model = self.slots[s].model.clone();
                    let at: HashMap<u32, usize> = (0..n).rev().map(|k| (model[k], k)).collect();
                    for x in &o.yielded {
                        let k = x.k.or_else(|| at.get(&x.v?).copied());
                        if let Some(k) = k.filter(|k| *k < n) {
                            self.slots[s].model[k] ^= TOGGLE;
                        }
                    }
                    if self.p.id == "C07" && !o.lost {
                        self.check_contents(s, "iter", "after writing through the iterator");
                    }
                }
                if o.forgot {
                    let exp = (self.slots.len() * n) as i64 + self.leak;
                    self.leak += (live_total() - exp).max(0);
                }
            }
            "into_values" => {
                let old = std::mem::replace(&mut self.slots[s], spare.unwrap());
                match old.m.into_values() {
                    Ok(v) => {
                        if v != old.model && !self.fac.byz {
                            fail!("total", "into_values differs from the map: {} values of {n}", v.len());
                        }
                    }
                    Err(u) => unwound!(u, "total", false),
                }
            }
            "debug" => {
                if !self.big {
                    let alt = op.c & 1 == 1;
                    let items = self.items(s, true, true);
                    let exp = expected_text(DbgKind::Map, self.fac.kf, &items, alt);
                    let budget = match op.fault {
                        Some((F_WRITE, _)) => Some((op.c >> 3) as usize % (exp.len() + 1)).filter(|b| *b < exp.len()),
                        _ => None,
                    };
                    check_debug("total map", &exp, budget, &mut |w| self.slots[s].m.debug(w, alt));
                    oom = judge_alloc(name, ka, ALLOC_FAILED.get() > 0);
                    if cx().fired {
                        cx().disarm();
                        cx().fired = false;
                        check_debug("total map", &exp, None, &mut |w| self.slots[s].m.debug(w, alt));
                    }
                }
            }
            "try_new" | "new" => {
                let mut calls: Vec<usize> = Vec::new();
                let mut model = vec![0; n];
                let mut f = |k: usize| {
                    if cx().fired && matches!(cx().fired_kind, F_CB | F_ERR) {
                        cx().viol("build", format!("{name}: function called for key {k} after it failed"));
                    }
                    calls.push(k);
                    let p = if zst { 0 } else { cx().pay() };
                    if k < n {
                        model[k] = p;
                    }
                    p
                };
                let r = if name == "new" { (self.fac.make)(&mut f).map(Ok) } else { (self.fac.try_new)(&mut f) };
                let err = cx().fired && cx().fired_kind == F_ERR;
                cx().tr(|| format!("  called for {:?}", &calls[..calls.len().min(30)]));
                match r {
                    Ok(Ok(m)) => {
                        if err {
                            fail!("build", "try_new succeeded although the function failed");
                        }
                        self.check_calls(&calls, true, name);
                        self.built(s, m, model, name);
                    }
                    Ok(Err(e)) => {
                        self.check_calls(&calls, false, name);
                        let exp = ERR_CODE + calls.last().copied().unwrap_or(0) as u32;
                        if !err || e != exp {
                            fail!("build", "try_new returned error {e:x}, expected {exp:x} (failed: {err})");
                        }
                    }
                    Err(u) => {
                        self.check_calls(&calls, false, name);
                        unwound!(u, "build", heap && n > 0 && !zst);
                    }
                }
            }
            "default" => {
                cx().made_defaults.clear();
                let r = (self.fac.default)();
                let mut made = cx().made_defaults.clone();
                if made.len() > n && !self.fac.byz {
                    fail!("build", "default made {} values for {n} keys", made.len());
                }
                match r {
                    Ok(m) => {
                        cx().disarm();
                        let mut model = Vec::new();
                        for k in 0..n {
                            model.push(m.get(k).unwrap_or(u32::MAX));
                        }
                        let mut got = model.clone();
                        got.sort();
                        made.sort();
                        if got != made && !self.fac.byz {
                            fail!("build", "default map does not hold one default value per key ({} made)", made.len());
                        }
                        self.built(s, m, model, name);
                    }
                    Err(u) => unwound!(u, "build", heap && n > 0 && !zst),
                }
            }
            "map" => {
                let keyed = op.c & 1 == 0;
                let mut calls: Vec<usize> = Vec::new();
                let mut model = vec![0; n];
                let old = std::mem::replace(&mut self.slots[s], spare.unwrap());
                let byz = self.fac.byz;
                let src = old.model;
                let r = old.m.map(keyed, &mut |k, v| {
                    if cx().fired && cx().fired_kind == F_CB {
                        cx().viol("build", format!("{name}: function called for key {k} after it failed"));
                    }
                    let k = if keyed {
                        k
                    } else if zst {
                        calls.len()
                    } else {
                        src.iter().position(|x| *x == v).unwrap_or(usize::MAX)
                    };
                    calls.push(k);
                    let p = if zst { 0 } else { cx().pay() };
                    if k < n {
                        if src[k] != v && !byz {
                            cx().viol("build", format!("map: key {k} came with value {v}, expected {}", src[k]));
                        }
                        model[k] = p;
                    }
                    p
                });
                match r {
                    None => {
                        // Heap maps have no such operation and were dropped: nothing to check.
                        cx().disarm();
                    }
                    Some(Ok(m)) => {
                        self.check_calls(&calls, true, name);
                        self.built(s, m, model, name);
                    }
                    Some(Err(u)) => {
                        self.check_calls(&calls, false, name);
                        unwound!(u, "build", false);
                    }
                }
            }
            "zip" => {
                let pays: Vec<u32> = (0..n).map(|_| self.new_pay()).collect();
                let old = std::mem::replace(&mut self.slots[s], spare.unwrap());
                let src = old.model;
                let byz = self.fac.byz;
                let mut count = 0;
                let mut model = vec![0; n];
                let r = old.m.zip(
                    &pays,
                    &mut |k, a, b| {
                        count += 1;
                        if !byz && (k >= n || a != src[k] || b != pays[k]) {
                            cx().viol("build", format!("zip: key {k} holds ({a}, {b})"));
                        }
                        if k < n {
                            model[k] = if op.c & 1 == 0 { a } else { b };
                        }
                    },
                    op.c,
                );
                match r {
                    None => cx().disarm(),
                    Some(Ok(m)) => {
                        if count != n && !byz {
                            cx().viol("build", format!("zip gave {count} entries of {n}"));
                        }
                        self.built(s, m, model, name);
                    }
                    Some(Err(u)) => unwound!(u, "build", false),
                }
            }
            "as_ref" | "as_mut" => {
                let src = self.slots[s].model.clone();
                let byz = self.fac.byz;
                let mut seen = vec![false; n];
                let mut see = |k: usize, a: u32, _: u32| {
                    if !byz && (k >= n || seen[k] || a != src[k]) {
                        cx().viol("build", format!("{name}: key {k} holds {a}"));
                    }
                    if k < n {
                        seen[k] = true;
                    }
                };
                let r = if name == "as_ref" { self.slots[s].m.refs(&mut see) } else { self.slots[s].m.muts(&mut see) };
                match r {
                    None => {}
                    Some(r) => {
                        if r.is_ok() && seen.iter().any(|x| !x) && !byz {
                            cx().viol("build", format!("{name}: entries are missing"));
                        }
                        if let Err(u) = r {
                            unwound!(u, "build", false);
                        }
                        if name == "as_mut" && !zst {
                            for k in 0..n {
                                if seen[k] {
                                    self.slots[s].model[k] ^= TOGGLE;
                                }
                            }
                        }
                        self.check_contents(s, "build", name);
                    }
                }
            }
            "array" => {
                let toggle = op.c & 1 == 1;
                if let Some(r) = self.slots[s].m.array(toggle) {
                    match r {
                        Ok(v) => {
                            if v != self.slots[s].model && !self.fac.byz {
                                fail!("total", "values_array differs from the map");
                            }
                            if toggle && !zst {
                                for m in self.slots[s].model.iter_mut() {
                                    *m ^= TOGGLE;
                                }
                            }
                        }
                        Err(u) => unwound!(u, "total", false),
                    }
                }
            }
            "drop" => {
                let old = std::mem::replace(&mut self.slots[s], spare.unwrap());
                if let Err(u) = old.m.discard() {
                    unwound!(u, "total", false);
                }
                if self.slots.len() > 1 && op.c & 1 == 1 {
                    gone = true;
                }
            }
            _ => unreachable!(),
        }
        cx().disarm();
        if gone {
            let old = self.slots.remove(s);
            let _ = old.m.discard();
        }
        self.ledger(name);
        if oom && !consumes && name != "drop" && self.p.id == "C10" {
            self.check_contents(s.min(self.slots.len() - 1), "alloc", "after running out of memory");
            cx().tr(|| "  retry with memory back".to_owned());
            let mut again = op.clone();
            again.fault = None;
            RETRY.set(true);
            self.exec(&again);
            RETRY.set(false);
            return;
        }
        let st = mix(op.code as u64, (cx().fired as u64) << 8 | cx().fired_kind as u64 | (n as u64) << 32)
            ^ mix(cx().cnt.iter().fold(0, |h, &c| mix(h, c as u64)), self.slots.len() as u64);
        cx().states.push(st);
        if !self.p.resync && self.rng.chance(self.check_pct, 100) {
            for s in 0..self.slots.len() {
                self.full_check(s);
            }
        }
    }

    fn finish(&mut self) {
        if !self.p.resync {
            for s in 0..self.slots.len() {
                self.full_check(s);
            }
        }
        while let Some(s) = self.slots.pop() {
            if let Err(Unw::Panic(m)) = s.m.discard() {
                cx().viol("total", format!("dropping a map panicked: {m}"));
            }
        }
        if self.fac.byz {
            byz_end();
        } else {
            self.ledger("the end");
        }
    }
}

