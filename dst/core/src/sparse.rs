//! Sparse maps (heap and array backed) driven against a reference map.

use std::collections::HashMap;
use std::fmt;

use crate::core::*;
use crate::iters::*;
use crate::ops::*;

pub struct EntryOut {
    pub occ: bool,
    pub key: usize,
    pub key2: usize,
    pub seen: Option<u32>,
}

pub trait SparseDyn {
    fn get(&self, k: usize) -> Res<Option<u32>>;
    fn get_mut(&mut self, k: usize, pay: Option<u32>) -> Res<Option<u32>>;
    fn contains(&self, k: usize) -> Res<bool>;
    fn len(&self) -> Res<usize>;
    fn is_empty(&self) -> Res<bool>;
    fn insert(&mut self, k: usize, pay: u32) -> Res<Option<u32>>;
    fn entry(&mut self, k: usize, how: u32, pay: u32) -> Res<EntryOut>;
    fn remove(&mut self, k: usize) -> Res<Option<u32>>;
    fn clear(&mut self) -> Res<()>;
    fn retain(&mut self, f: &mut dyn FnMut(usize, u32) -> (bool, Option<u32>)) -> Option<Res<()>>;
    fn dup(&self) -> Res<Box<dyn SparseDyn>>;
    fn dup_from(&mut self, o: &dyn SparseDyn) -> Res<()>;
    fn any(&self) -> &dyn std::any::Any;
    fn iter<'a>(&'a self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn iter_mut<'a>(&'a mut self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn drain<'a>(&'a mut self) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn into_iter<'a>(self: Box<Self>) -> Res<Box<dyn DynIter<'a> + 'a>>;
    fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result>;
    fn discard(self: Box<Self>) -> Res<()>;
    fn region(&self) -> (usize, usize);
    /// Hand out every mutable reference, one at a time and all kept.
    fn split_mut<'a>(&'a mut self, how: u32, sink: &mut Split<'_, 'a>) -> Res<()>;
}

pub type Split<'s, 'a> = dyn FnMut(Option<usize>, &'a mut dyn Cell32) + 's;

/// A value reached through a mutable reference handed out by a container.
pub trait Cell32 {
    fn read(&self) -> u32;
    fn write(&mut self, p: u32);
    fn addr(&self) -> (usize, usize);
}
impl<V: SimVal> Cell32 for V {
    fn read(&self) -> u32 {
        self.pay()
    }
    fn write(&mut self, p: u32) {
        self.set(p)
    }
    fn addr(&self) -> (usize, usize) {
        (self as *const V as usize, std::mem::size_of::<V>())
    }
}

pub type Src<'s> = dyn FnMut() -> Option<(usize, u32)> + 's;

#[derive(Clone, Copy)]
pub struct SparseFac {
    pub fresh: fn(u32) -> Box<dyn SparseDyn>,
    pub collect: for<'s> fn(&'s mut Src<'s>) -> Res<Box<dyn SparseDyn>>,
    pub n: usize,
    pub heap: bool,
    pub zst: bool,
    pub kf: KeyFmt,
    /// Text of keys() of a map without values, for a set of keys.
    pub unit_keys: fn(&[usize], &mut Writer, bool) -> Res<fmt::Result>,
    pub key_allocs: bool,
    pub byz: bool,
}

struct Slot {
    m: Box<dyn SparseDyn>,
    model: Vec<Option<u32>>,
    /// Storage exists (heap maps allocate on the first insertion or entry).
    allocated: bool,
}

pub struct SparseWorld {
    fac: SparseFac,
    p: Prop,
    slots: Vec<Slot>,
    check_pct: usize,
    rng: Rng,
    leak: i64,
    big: bool,
    pool: Vec<u32>,
}

pub const S_OPS: &[&str] = &[
    "insert", "remove", "get", "contains", "get_mut", "len", "entry", "clear", "retain", "clone", "from_iter", "iter",
    "iter_mut", "drain", "into_iter", "debug", "new", "drop",
];
pub const S_W: [usize; 18] = [14, 6, 3, 2, 3, 1, 7, 2, 4, 3, 3, 5, 4, 3, 3, 2, 1, 1];

/// Fault kinds that can fire in an operation.
fn s_faults(code: u32) -> &'static [usize] {
    match S_OPS[code as usize] {
        "insert" => &[F_ORD, F_ALLOC, F_OUTAGE],
        "remove" | "get" | "contains" | "get_mut" => &[F_ORD, F_OUTAGE],
        "len" => &[F_FROM, F_OUTAGE],
        "entry" => &[F_ORD, F_DROP, F_ALLOC, F_OUTAGE],
        "clear" => &[F_FROM, F_DROP, F_OUTAGE],
        "retain" => &[F_CB, F_CB, F_CB, F_FROM, F_DROP, F_OUTAGE],
        "clone" => &[F_CLONE, F_CLONE, F_ALLOC, F_OUTAGE],
        "from_iter" => &[F_SRC, F_EOF, F_ORD, F_DROP, F_ALLOC, F_OUTAGE],
        "iter" => &[F_FROM, F_FROM, F_FMTV, F_FMTP, F_ALLOC, F_OUTAGE],
        "iter_mut" | "drain" => &[F_FROM, F_FROM, F_FMTV, F_FMTP, F_DROP, F_OUTAGE],
        "into_iter" => &[F_FROM, F_FROM, F_FMTV, F_FMTP, F_DROP, F_CLONE, F_OUTAGE],
        "debug" => &[F_FMTV, F_FMTP, F_FROM, F_WRITE, F_OUTAGE],
        "drop" => &[F_DROP, F_OUTAGE],
        _ => &[F_OUTAGE],
    }
}

pub fn focus_weights(base: &[usize], names: &[&str], focus: Focus) -> Vec<usize> {
    base.iter()
        .zip(names)
        .map(|(&w, &n)| match focus {
            Focus::Iter if matches!(n, "iter" | "iter_mut" | "drain" | "into_iter" | "values" | "values_mut" | "keys") => w * 6,
            Focus::Debug if n == "debug" => w * 12,
            Focus::Debug if n.contains("iter") || n == "values_all" => w * 4,
            Focus::Build
                if matches!(n, "clone" | "from_iter" | "try_new" | "map" | "zip" | "as_ref" | "as_mut" | "default") =>
            {
                w * 6
            }
            _ => w,
        })
        .collect()
}

pub fn gen_fault(r: &mut Rng, p: &Prop, pct: usize, kinds: &[usize], n: usize) -> Option<(usize, u32)> {
    if !r.chance(pct, 100) {
        return None;
    }
    let k: Vec<usize> = kinds.iter().copied().filter(|k| p.faults.contains(k)).collect();
    if k.is_empty() {
        return None;
    }
    let k = *r.pick(&k);
    Some((k, if k == F_ALLOC { r.below(3) as u32 } else { gen_nth(r, n) }))
}

pub fn gen_ops(
    r: &mut Rng,
    p: &Prop,
    n: usize,
    names: &'static [&'static str],
    base: &[usize],
    faults: fn(u32) -> &'static [usize],
) -> Vec<Op> {
    let w = swarm(r, &focus_weights(base, names, p.focus));
    let pct = *r.pick(&[0, 10, 30, 60, 60]);
    let big = n > 1000;
    let len = if big {
        2 + r.below(12)
    } else if r.chance(1, 8) {
        40 + r.below(80)
    } else {
        3 + r.below(30)
    };
    let pool = key_pool(r, n);
    let mut ops = Vec::new();
    for _ in 0..len {
        let code = r.weighted(&w) as u32;
        let mut op = Op {
            code,
            a: *r.pick(&pool),
            b: r.below(3) as u32,
            c: r.u64() as u32,
            fault: gen_fault(r, p, pct, faults(code), n),
            script: Vec::new(),
        };
        let name = names[code as usize];
        if name.contains("iter") || matches!(name, "drain" | "values" | "values_mut" | "keys" | "values_all") {
            op.script = if name == "from_iter" {
                let len = match r.below(8) {
                    0 if n <= 1000 => n + r.below(n / 4 + 8),
                    0 | 1 => r.below(2 * n.min(60) + 8),
                    _ => r.below(12),
                };
                if r.chance(1, 4) {
                    // A range of keys.
                    let lo = *r.pick(&pool) as usize;
                    (0..len).map(|i| ((lo + i) % n.max(1)) as u32).collect()
                } else if r.chance(1, 3) {
                    // Runs of one key.
                    (0..len).map(|i| pool[i * pool.len() / len]).collect()
                } else {
                    (0..len).map(|_| *r.pick(&pool)).collect()
                }
            } else {
                gen_script(r, 24)
            };
        }
        ops.push(op);
    }
    ops
}

/// Start with insertions of most of a range of keys, in some order.
pub fn fill(r: &mut Rng, n: usize, ops: &mut Vec<Op>) {
    if n == 0 {
        return;
    }
    let lo = if r.chance(1, 2) { 0 } else { r.below(n) };
    let len = *r.pick(&[n, n, n - 1, n / 2 + 1, 64, 63, 65]);
    let mut keys: Vec<usize> = (0..len.min(n)).map(|i| (lo + i) % n).collect();
    match r.below(4) {
        0 => keys.reverse(),
        1 => {
            for i in (1..keys.len()).rev() {
                keys.swap(i, r.below(i + 1));
            }
        }
        _ => {}
    }
    if r.chance(1, 3) {
        keys.retain(|_| !r.chance(1, 8));
    }
    let new = keys.into_iter().map(|k| Op { code: 0, a: k as u32, b: 0, c: 0, fault: None, script: vec![] });
    ops.splice(0..0, new);
}

/// What a collection is collected from. A type with very many values now and then gives all of them, or all but
/// a few.
pub fn source_keys(op: &Op, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    if n > 1000 && op.c >> 12 & 3 == 0 {
        let gone = [0, 0, 0, 1, 2, 1 << 8, n / 2 - 1, n / 2][op.c as usize >> 16 & 7];
        return (0..n - gone).map(|i| (i + op.a as usize) % n).collect();
    }
    op.script.iter().map(|&x| x as usize % n).collect()
}

/// Two different elements of a slice.
pub fn pair_mut<T>(v: &mut [T], i: usize, j: usize) -> (&mut T, &mut T) {
    assert!(i != j);
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

impl SparseWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        let mut ops = gen_ops(r, p, n, S_OPS, &S_W, s_faults);
        // Start from something: a few insertions first, most of the time.
        if n <= 300 && r.chance(1, 12) {
            fill(r, n, &mut ops);
        } else if r.chance(3, 4) {
            let pool = key_pool(r, n);
            for i in 0..1 + r.below(8) {
                let op = Op { code: 0, a: *r.pick(&pool), b: 0, c: i as u32, fault: None, script: vec![] };
                ops.insert(0, op);
            }
        }
        ops
    }

    pub fn new(fac: SparseFac, p: Prop, seed: u64, pct: usize) -> SparseWorld {
        let mut w = SparseWorld {
            fac,
            p,
            slots: Vec::new(),
            check_pct: pct,
            rng: Rng::new(seed),
            leak: 0,
            big: fac.n > 1000,
            pool: Vec::new(),
        };
        let s = w.fresh_slot(0);
        w.slots.push(s);
        w
    }

    fn fresh_slot(&mut self, how: u32) -> Slot {
        Slot { m: (self.fac.fresh)(how), model: vec![None; self.fac.n], allocated: !self.fac.heap || self.fac.n == 0 }
    }

    /// What the container answers for one key, with no fault active.
    fn observe(&mut self, s: usize, k: usize) -> Option<u32> {
        match self.slots[s].m.get(k) {
            Ok(v) => v,
            Err(u) => {
                if after_oom() {
                    cx().viol("alloc", format!("get({k}) unwound: {u:?}"));
                }
                cx().viol("sparse", format!("get({k}) unwound: {u:?}"));
                None
            }
        }
    }

    fn resync(&mut self, s: usize, class: &'static str) {
        for k in 0..self.fac.n {
            let v = self.observe(s, k);
            if v != self.slots[s].model[k] {
                if after_oom() {
                    cx().viol("alloc", format!("get({k}) gives {v:?}, expected {:?}", self.slots[s].model[k]));
                }
                cx().viol(class, format!("get({k}) gives {v:?}, expected {:?}", self.slots[s].model[k]));
                self.slots[s].model[k] = v;
            }
        }
    }

    /// After an operation that was cut short: each key is as before or as after.
    fn settle_cut(&mut self, s: usize, post: &[Option<u32>], what: &str, strict: &[(usize, Option<u32>)]) {
        cx().disarm();
        let strict: HashMap<usize, Option<u32>> = strict.iter().copied().collect();
        for k in 0..self.fac.n {
            let pre = self.slots[s].model[k];
            let fixed = strict.get(&k).copied();
            if pre == post[k] && fixed.is_none() {
                continue;
            }
            let v = self.observe(s, k);
            let ok = match fixed {
                Some(f) => v == f,
                None => v == pre || v == post[k],
            };
            if !ok {
                let exp = match fixed {
                    Some(f) => format!("{f:?}"),
                    None => format!("{pre:?} or {:?}", post[k]),
                };
                cx().viol("sparse", format!("after a cut-short {what}, key {k} holds {v:?}, expected {exp}"));
            }
            self.slots[s].model[k] = v;
        }
    }

    fn items(&self, s: usize, keys: bool, vals: bool) -> Vec<It> {
        self.slots[s]
            .model
            .iter()
            .enumerate()
            .filter_map(|(k, v)| v.map(|v| It { k: keys.then_some(k), v: vals.then_some(v) }))
            .collect()
    }

    fn full_check(&mut self, s: usize) {
        cx().disarm();
        let n = self.fac.n;
        let keys: Vec<usize> = if self.big {
            let mut v: Vec<usize> = self.pool.iter().map(|&k| k as usize).collect();
            for _ in 0..20 {
                v.push(self.rng.below(n));
            }
            v.extend([0, n - 1]);
            v
        } else {
            (0..n).collect()
        };
        for k in keys {
            let exp = self.slots[s].model[k];
            let v = self.observe(s, k);
            if v != exp {
                cx().viol("sparse", format!("get({k}) gives {v:?}, expected {exp:?}"));
                self.slots[s].model[k] = v;
            }
            let exp = self.slots[s].model[k];
            match self.slots[s].m.contains(k) {
                Ok(b) if b == exp.is_some() => {}
                r => cx().viol("sparse", format!("contains_key({k}) gives {r:?}, expected {}", exp.is_some())),
            }
            match self.slots[s].m.get_mut(k, None) {
                Ok(v) if v == exp => {}
                r => cx().viol("sparse", format!("get_mut({k}) gives {r:?}, expected {exp:?}")),
            }
        }
        let present = self.slots[s].model.iter().flatten().count();
        match self.slots[s].m.len() {
            Ok(l) if l == present => {}
            r => cx().viol("sparse", format!("len gives {r:?}, expected {present}")),
        }
        match self.slots[s].m.is_empty() {
            Ok(l) if l == (present == 0) => {}
            r => cx().viol("sparse", format!("is_empty gives {r:?}, expected {}", present == 0)),
        }
        let kind = self.rng.below(4) as u32;
        let items = self.items(s, kind != 3, kind != 2);
        let mut got = Vec::new();
        let back = self.rng.chance(1, 2) as u32;
        let r = match self.slots[s].m.iter(kind) {
            Ok(it) => it.finish(back, 0, &mut |_, x| got.push(x)),
            Err(e) => Err(e),
        };
        if back == 1 {
            got.reverse();
        }
        if r.is_err() || got != items {
            cx().viol("sparse", format!("iteration gives {got:?} ({r:?}), expected {items:?}"));
        }
    }

    fn ledger(&mut self, what: &str) {
        if self.fac.byz {
            return;
        }
        let class = self.p.ledger_class(what);
        let exp: i64 = self.slots.iter().map(|s| s.model.iter().flatten().count() as i64).sum::<i64>() + self.leak;
        let live = live_total();
        if live != exp {
            if live > exp && cx().drop_panicked {
                // Other values may at worst leak when a destructor panics.
            } else {
                let w = if live > exp { "leaked" } else { "lost" };
                cx().viol(class, format!("after {what}: {} values {w} ({live} alive, {exp} reachable)", (live - exp).abs()));
            }
            self.leak += live - exp;
        }
        if cx().klive != 0 {
            let k = cx().klive;
            if !cx().drop_panicked {
                cx().viol(class, format!("after {what}: {k} keys not dropped exactly once"));
            }
            cx().klive = 0;
        }
    }

    fn hash_state(&self) -> u64 {
        let mut h = 7;
        for s in &self.slots {
            for (k, v) in s.model.iter().enumerate() {
                if v.is_some() {
                    h = mix(h, k as u64);
                }
            }
            h = mix(h, s.allocated as u64 + 0xffff_0000);
        }
        h
    }
}

/// Judge the outcome of an operation under an allocator fault.
/// Returns true when the operation failed for lack of memory.
pub fn judge_alloc(what: &str, may: bool, unwound: bool) -> bool {
    let failed = ALLOC_FAILED.get() > 0;
    if failed && unwound && !may {
        cx().viol("alloc", format!("{what} needs memory but must not"));
    }
    failed && unwound
}

impl World for SparseWorld {
    fn exec(&mut self, op: &Op) {
        let name = S_OPS[op.code as usize % S_OPS.len()];
        let n = self.fac.n;
        let s = op.b as usize % self.slots.len();
        let k = if n == 0 { 0 } else { op.a as usize % n };
        if n == 0 && matches!(name, "insert" | "remove" | "get" | "contains" | "get_mut" | "entry") {
            return;
        }
        if self.big && self.pool.len() < 40 {
            self.pool.push(k as u32);
        }
        cx().ev(op.code as u64 + 100);
        cx().ev(k as u64);
        cx().tr(|| format!("{name} key {k} map {s} c {:x} fault {:?} script {:x?}", op.c, op.fault.map(|f| (FAULT_NAMES[f.0], f.1)), op.script));
        if self.p.resync && (!self.big || op.code == 11) {
            self.resync(s, "sparse");
        }
        let pre_alloc = self.slots[s].allocated;
        let heap = self.fac.heap;
        let needs = heap && !pre_alloc || self.fac.key_allocs;
        let alloc_before: Option<Vec<Option<u32>>> =
            (op.fault.is_some_and(|f| f.0 == F_ALLOC || f.0 == F_OUTAGE)).then(|| self.slots[s].model.clone());
        let mut oom = false;
        let spare = (name == "into_iter").then(|| (self.fac.fresh)(0));
        cx().arm(op.fault);
        macro_rules! fail {
            ($($a:tt)*) => {{
                let m = format!($($a)*);
                if after_oom() {
                    cx().viol("alloc", m.clone());
                }
                cx().viol("sparse", m);
            }};
        }
        macro_rules! unexpected {
            ($m:expr, $post:expr) => {{
                if cx().fired_kind == F_BYZ && cx().fired {
                } else {
                    fail!("{name}({k}) panicked: {}", $m);
                }
                self.settle_cut(s, &$post, name, &[]);
            }};
        }
        match name {
            "insert" | "remove" | "get_mut" | "entry" => {
                let pre = self.slots[s].model[k];
                let pay = if self.fac.zst { 0 } else { cx().pay() };
                let mut post = self.slots[s].model.clone();
                let set = op.c & 1 == 1;
                match name {
                    "insert" => post[k] = Some(pay),
                    "remove" => post[k] = None,
                    "get_mut" => post[k] = pre.map(|p| if set { pay } else { p }),
                    _ => {
                        post[k] = match op.c % 5 {
                            0 => pre.or(Some(pay)),
                            1 => Some(pay),
                            2 => Some(pay),
                            _ => pre,
                        }
                    }
                }
                let m = &mut self.slots[s].m;
                let r: Res<Option<u32>> = match name {
                    "insert" => m.insert(k, pay),
                    "remove" => m.remove(k),
                    "get_mut" => m.get_mut(k, set.then_some(pay)),
                    _ => m.entry(k, op.c, pay).map(|e| {
                        if e.key != k || e.key2 != k {
                            cx().viol("sparse", format!("entry({k}).key() gives {} / {}", e.key, e.key2));
                        }
                        if e.occ != pre.is_some() {
                            cx().viol("sparse", format!("entry({k}) occupied: {}, expected {}", e.occ, pre.is_some()));
                        }
                        let exp = match op.c % 5 {
                            0 => pre.or(Some(pay)),
                            1 => pre.or(Some(pay)),
                            2 => pre,
                            3 => pre,
                            _ => None,
                        };
                        if e.seen != exp {
                            cx().viol("sparse", format!("entry({k}) shows {:?}, expected {exp:?}", e.seen));
                        }
                        pre
                    }),
                };
                let can = matches!(name, "insert" | "entry");
                match r {
                    Ok(v) => {
                        if v != pre {
                            fail!("{name}({k}) returned {v:?}, expected {pre:?}");
                        }
                        self.slots[s].model = post;
                        if can {
                            self.slots[s].allocated = true;
                        }
                    }
                    Err(u) => {
                        oom = judge_alloc(name, can && needs, true);
                        match u {
                            Unw::Fault => self.settle_cut(s, &post, name, &[]),
                            Unw::Panic(m) => unexpected!(m, post),
                        }
                    }
                }
            }
            "get" | "contains" | "len" => {
                let exp = self.slots[s].model[k.min(n.saturating_sub(1))..].first().copied().flatten();
                let count = self.slots[s].model.iter().flatten().count();
                let m = &self.slots[s].m;
                let (r, e): (Res<u64>, u64) = match name {
                    "get" => (m.get(k).map(|v| v.map_or(0, |v| v as u64 + 1)), exp.map_or(0, |v| v as u64 + 1)),
                    "contains" => (m.contains(k).map(|b| b as u64), exp.is_some() as u64),
                    _ if op.c & 1 == 0 => (m.len().map(|l| l as u64), count as u64),
                    _ => (m.is_empty().map(|b| b as u64), (count == 0) as u64),
                };
                match r {
                    Ok(v) if v == e => {}
                    Ok(v) => fail!("{name}({k}) gives {v}, expected {e}"),
                    Err(u) => {
                        oom = judge_alloc(name, self.fac.key_allocs, true);
                        if let Unw::Panic(m) = u {
                            let post = self.slots[s].model.clone();
                            unexpected!(m, post);
                        }
                    }
                }
            }
            "clear" => {
                let post = vec![None; n];
                match self.slots[s].m.clear() {
                    Ok(()) => self.slots[s].model = post,
                    Err(u) => {
                        oom = judge_alloc(name, self.fac.key_allocs, true);
                        match u {
                            Unw::Fault => self.settle_cut(s, &post, name, &[]),
                            Unw::Panic(m) => unexpected!(m, post),
                        }
                    }
                }
            }
            "retain" => {
                let pre = self.slots[s].model.clone();
                let mut calls: Vec<(usize, u32, bool, Option<u32>)> = Vec::new();
                let mask = op.c;
                let zst = self.fac.zst;
                let r = self.slots[s].m.retain(&mut |k, v| {
                    let keep = mix(k as u64, mask as u64) & 3 != 0 || mask % 5 == 0;
                    let set = (!zst && mix(k as u64, mask as u64) & 12 == 0).then(|| v ^ TOGGLE);
                    calls.push((k, v, keep, set));
                    (keep, set)
                });
                let Some(r) = r else {
                    cx().disarm();
                    return;
                };
                let mut post = pre.clone();
                let mut strict = Vec::new();
                let mut seen = vec![false; n];
                for (i, &(k, v, keep, set)) in calls.iter().enumerate() {
                    if k >= n || pre[k] != Some(v) || seen[k] {
                        fail!("retain callback saw key {k} value {v}, entry is {:?} (seen before: {})", pre.get(k), seen.get(k) == Some(&true));
                        continue;
                    }
                    seen[k] = true;
                    post[k] = if keep { set.or(Some(v)) } else { None };
                    // The last call may be the one that was cut short.
                    if i + 1 < calls.len() {
                        strict.push((k, post[k]));
                    } else if r.is_err() {
                        let cut = set.or(Some(v));
                        if cx().fired_kind == F_CB {
                            // The callback did not decide.
                            let got = {
                                cx().disarm();
                                self.slots[s].m.get(k).unwrap_or(None)
                            };
                            if got != cut && got.is_some() {
                                fail!("after a cut-short retain, key {k} holds {got:?}");
                            }
                            strict.push((k, got));
                        } else {
                            // Already decided when a later step was cut short.
                            if keep {
                                strict.push((k, cut));
                            } else {
                                strict.push((k, None));
                            }
                        }
                    }
                }
                match r {
                    Ok(()) => {
                        for k in 0..n {
                            if pre[k].is_some() && !seen[k] {
                                fail!("retain never asked about key {k}");
                            }
                        }
                        self.slots[s].model = post;
                    }
                    Err(u) => {
                        oom = judge_alloc(name, self.fac.key_allocs, true);
                        for k in 0..n {
                            if pre[k].is_some() && !seen[k] {
                                strict.push((k, pre[k]));
                            }
                        }
                        match u {
                            Unw::Fault => self.settle_cut(s, &post, name, &strict),
                            Unw::Panic(m) => unexpected!(m, post),
                        }
                    }
                }
            }
            "clone" if op.c >> 8 & 1 == 1 && (op.c >> 4) as usize % 3 < self.slots.len() && (op.c >> 4) as usize % 3 != s => {
                // Over a map that is already there.
                let t = (op.c >> 4) as usize % 3;
                cx().tr(|| format!("  over map {t}"));
                if self.p.resync {
                    let class = if self.p.id == "C09" { "build" } else { "sparse" };
                    self.resync(t, class);
                    cx().disarm();
                    cx().arm(op.fault);
                }
                let (a, b) = pair_mut(&mut self.slots, t, s);
                let r = a.m.dup_from(&*b.m);
                let post = b.model.clone();
                match r {
                    Ok(()) => {
                        a.allocated = b.allocated && (a.allocated || post.iter().any(|v| v.is_some()));
                        a.model = post;
                        judge_clones(a.model.iter().flatten().count(), self.fac.byz, name);
                        self.full_check_class(t, "build", "clone_from");
                    }
                    Err(u) => {
                        a.allocated &= b.allocated;
                        let failed = judge_alloc(name, heap && n > 0 || self.fac.key_allocs, true);
                        if let Unw::Panic(m) = u {
                            if !(cx().fired && cx().fired_kind == F_BYZ) {
                                fail!("clone_from panicked: {m}");
                                cx().viol("build", "clone_from panicked".to_owned());
                            }
                        }
                        let pre = self.slots[t].model.clone();
                        self.settle_cut(t, &post, "clone_from", &[]);
                        if failed && self.slots[t].model != pre {
                            cx().viol("alloc", "clone_from ran out of memory but changed the map".to_owned());
                        }
                    }
                }
                self.full_check_class(s, "build", "the source of a clone");
            }
            "clone" => {
                let r = self.slots[s].m.dup();
                match r {
                    Ok(m) => {
                        let t = (op.c >> 4) as usize % 3;
                        let slot = Slot { m, model: self.slots[s].model.clone(), allocated: self.slots[s].allocated && self.slots[s].model.iter().any(|v| v.is_some()) || !heap || n == 0 };
                        cx().disarm();
                        judge_clones(slot.model.iter().flatten().count(), self.fac.byz, name);
                        if t < self.slots.len() {
                            let old = std::mem::replace(&mut self.slots[t], slot);
                            let _ = old.m.discard();
                        } else {
                            self.slots.push(slot);
                        }
                        let t = t.min(self.slots.len() - 1);
                        self.full_check_class(t, "build", "clone");
                    }
                    Err(u) => {
                        oom = judge_alloc(name, heap && n > 0 || self.fac.key_allocs, true);
                        if let Unw::Panic(m) = u {
                            let post = self.slots[s].model.clone();
                            unexpected!(m, post);
                            cx().viol("build", "clone panicked".to_owned());
                        }
                    }
                }
                self.full_check_class(s, "build", "the source of a clone");
            }
            "from_iter" => {
                let keys: Vec<usize> = source_keys(op, n);
                let mut i = 0;
                src_start(keys.len(), op.c >> 8, op.fault);
                let mut given: Vec<(usize, u32)> = Vec::new();
                let zst = self.fac.zst;
                let r = (self.fac.collect)(&mut || {
                    let k = *keys.get(i)?;
                    i += 1;
                    let p = if zst { 0 } else { cx().pay() };
                    given.push((k, p));
                    Some((k, p))
                });
                match r {
                    Ok(m) => {
                        let mut model = vec![None; n];
                        for &(k, p) in &given {
                            model[k] = Some(p);
                        }
                        if given.len() < keys.len() && !(cx().fired && cx().fired_kind == F_EOF) {
                            // Later pairs replace earlier ones, so all of them matter.
                            fail!("collecting stopped after {} of {} pairs", given.len(), keys.len());
                            cx().viol("build", format!("collecting stopped after {} of {} pairs", given.len(), keys.len()));
                        }
                        cx().disarm();
                        let slot = Slot { m, model, allocated: !heap || n == 0 || !given.is_empty() };
                        let old = std::mem::replace(&mut self.slots[s], slot);
                        let _ = old.m.discard();
                        self.full_check_class(s, "build", "collecting");
                    }
                    Err(u) => {
                        oom = judge_alloc(name, heap && n > 0 || self.fac.key_allocs, true);
                        if let Unw::Panic(m) = u {
                            if !self.fac.byz {
                                cx().viol("build", format!("collecting panicked: {m}"));
                            }
                        }
                    }
                }
            }
            "iter" | "iter_mut" | "drain" | "into_iter" => {
                let kind = op.c % 4;
                let (keys, vals, dbg) = match (name, kind) {
                    ("iter", 2) => (true, false, DbgKind::None),
                    ("iter", 3) => (false, true, DbgKind::Values),
                    ("iter_mut", 1 | 3) => (false, true, DbgKind::Values),
                    ("drain", _) => (true, true, DbgKind::None),
                    _ => (true, true, DbgKind::Pairs),
                };
                let items = self.items(s, keys, vals);
                let cfg = SessCfg {
                    what: match (name, kind) {
                        ("iter", 0) => "iter",
                        ("iter", 1) => "into_iter of a reference",
                        ("iter", 2) => "keys",
                        ("iter", 3) => "values",
                        ("iter_mut", 0 | 2) => "iter_mut",
                        ("iter_mut", _) => "values_mut",
                        ("drain", _) => "drain",
                        _ => "into_iter",
                    },
                    class: "iter",
                    dbg,
                    kf: self.fac.kf,
                    owned: matches!(name, "drain" | "into_iter"),
                    may_forget: !self.fac.byz && self.p.id != "C10",
                    big: self.big,
                    no_collect: self.p.id == "C10",
                };
                let model = self.slots[s].model.clone();
                let mut slot_m = None;
                let o = {
                let it = match name {
                    "iter" => self.slots[s].m.iter(kind),
                    "iter_mut" => self.slots[s].m.iter_mut(kind),
                    "drain" => self.slots[s].m.drain(),
                    _ => {
                        let m = std::mem::replace(&mut self.slots[s].m, spare.unwrap());
                        slot_m = Some(());
                        m.into_iter()
                    }
                };
                match it {
                    Ok(it) => session(it, &items, &op.script, cfg),
                    Err(u) => {
                        if let Unw::Panic(m) = &u {
                            cx().viol("iter", format!("{} could not be made: {m}", cfg.what));
                        }
                        SessOut { faulted: true, lost: matches!(u, Unw::Panic(_)), ..Default::default() }
                    }
                }
                };
                if cfg.no_collect && ALLOC_FAILED.get() > 0 && o.faulted && !(name == "into_iter" && heap) && !self.fac.key_allocs {
                    cx().viol("alloc", format!("{} needs memory but must not", cfg.what));
                }
                let cut = o.faulted || o.lost;
                cx().disarm();
                match name {
                    "iter_mut" => {
                        let at: HashMap<u32, usize> = (0..n).rev().filter_map(|k| model[k].map(|v| (v, k))).collect();
                        for x in &o.yielded {
                            let k = x.k.or_else(|| at.get(&x.v?).copied());
                            if let Some(k) = k.filter(|k| *k < n) {
                                if let (false, Some(v)) = (self.fac.zst, self.slots[s].model[k]) {
                                    self.slots[s].model[k] = Some(v ^ TOGGLE);
                                }
                            }
                        }
                        if self.p.id == "C07" {
                            for (k, m) in self.slots[s].model.clone().iter().enumerate() {
                                if m.is_some() || model[k].is_some() {
                                    let v = self.observe(s, k);
                                    if v != *m && !o.lost {
                                        cx().viol("iter", format!("{}: key {k} holds {v:?} after writing through the iterator, expected {m:?}", cfg.what));
                                        self.slots[s].model[k] = v;
                                    }
                                }
                            }
                        }
                    }
                    "drain" => {
                        let gone: Vec<(usize, Option<u32>)> =
                            o.yielded.iter().filter_map(|x| x.k.filter(|k| *k < n)).map(|k| (k, None)).collect();
                        let post = vec![None; n];
                        if cut || o.forgot {
                            let before = cx().viols.len();
                            self.settle_cut(s, &post, "drain", &gone);
                            if cx().viols.len() == before && self.p.id == "C08" {
                                for (k, _) in &gone {
                                    if self.slots[s].model[*k].is_some() {
                                        cx().viol("drop", format!("drained key {k} is still in the map"));
                                    }
                                }
                            }
                            if o.forgot {
                                let exp: i64 =
                                    self.slots.iter().map(|s| s.model.iter().flatten().count() as i64).sum::<i64>() + self.leak;
                                self.leak += (live_total() - exp).max(0);
                            }
                        } else {
                            self.slots[s].model = post;
                        }
                    }
                    "into_iter" => {
                        if slot_m.is_some() {
                            self.slots[s].model = vec![None; n];
                            self.slots[s].allocated = !heap || n == 0;
                        }
                        if o.forgot {
                            let exp: i64 =
                                self.slots.iter().map(|s| s.model.iter().flatten().count() as i64).sum::<i64>() + self.leak;
                            self.leak += (live_total() - exp).max(0);
                        }
                    }
                    _ => {}
                }
            }
            "debug" => {
                let alt = op.c & 1 == 1;
                if self.big {
                    cx().disarm();
                    return;
                }
                if op.c & 6 == 6 {
                    // keys() of a map without values
                    let keys: Vec<usize> = (0..n).filter(|&k| self.slots[s].model[k].is_some()).collect();
                    let items: Vec<It> = keys.iter().map(|&k| It { k: Some(k), v: None }).collect();
                    let exp = expected_text(DbgKind::Keys, self.fac.kf, &items, alt);
                    cx().disarm();
                    check_debug("keys", &exp, None, &mut |w| (self.fac.unit_keys)(&keys, w, alt));
                } else {
                    let items = self.items(s, true, true);
                    let exp = expected_text(DbgKind::Map, self.fac.kf, &items, alt);
                    let budget = match op.fault {
                        Some((F_WRITE, _)) => Some((op.c >> 3) as usize % (exp.len() + 1)).filter(|b| *b < exp.len()),
                        _ => None,
                    };
                    check_debug("map", &exp, budget, &mut |w| self.slots[s].m.debug(w, alt));
                    oom = judge_alloc(name, self.fac.key_allocs, ALLOC_FAILED.get() > 0);
                    if cx().fired {
                        cx().disarm();
                        cx().fired = false;
                        check_debug("map", &exp, None, &mut |w| self.slots[s].m.debug(w, alt));
                    }
                }
            }
            "new" => {
                let slot = self.fresh_slot(op.c & 1);
                cx().disarm();
                let old = std::mem::replace(&mut self.slots[s], slot);
                let _ = old.m.discard();
            }
            "drop" => {
                if self.slots.len() > 1 {
                    let old = self.slots.remove(s);
                    match old.m.discard() {
                        Err(Unw::Panic(m)) => fail!("dropping a map panicked: {m}"),
                        Err(Unw::Fault) if ALLOC_FAILED.get() > 0 => {
                            judge_alloc("drop", false, true);
                        }
                        _ => {}
                    }
                }
            }
            _ => unreachable!(),
        }
        cx().disarm();
        self.ledger(name);
        if let (true, Some(pre)) = (oom, alloc_before) {
            if s < self.slots.len() && matches!(name, "insert" | "entry" | "clone" | "from_iter") {
                for (k, m) in pre.iter().enumerate() {
                    if self.big && k % 256 != 0 && k + 1 != n && m.is_none() {
                        continue;
                    }
                    let v = self.observe(s, k);
                    if v != *m {
                        cx().viol("alloc", format!("after {name} ran out of memory, key {k} holds {v:?}, expected {m:?}"));
                        self.slots[s].model[k] = v;
                    }
                }
                cx().tr(|| "  retry with memory back".to_owned());
                let mut again = op.clone();
                again.fault = None;
                RETRY.set(true);
                self.exec(&again);
                RETRY.set(false);
                return;
            }
        }
        let st = self.hash_state();
        cx().states.push(st);
        if self.rng.chance(self.check_pct, 100) && !self.p.resync {
            for s in 0..self.slots.len() {
                self.full_check(s);
            }
        }
    }

    fn finish(&mut self) {
        if !self.p.resync {
            for s in 0..self.slots.len() {
                self.full_check(s);
            }
        }
        while let Some(s) = self.slots.pop() {
            if let Err(Unw::Panic(m)) = s.m.discard() {
                cx().viol("sparse", format!("dropping a map panicked: {m}"));
            }
        }
        if self.fac.byz {
            byz_end();
        } else {
            self.ledger("the end");
        }
    }
}

pub fn byz_end() {
    let l = live_total();
    if l != 0 {
        cx().viol("drop", format!("{l} values left alive after everything was dropped"));
    }
    let k = cx().klive;
    if k != 0 {
        cx().viol("drop", format!("{k} keys left alive after everything was dropped"));
    }
}

impl SparseWorld {
    fn full_check_class(&mut self, s: usize, class: &'static str, what: &str) {
        if self.fac.byz || self.big {
            return;
        }
        cx().disarm();
        for k in 0..self.fac.n {
            let v = self.observe(s, k);
            let e = self.slots[s].model[k];
            if v != e {
                cx().viol(class, format!("{what}: key {k} holds {v:?}, expected {e:?}"));
                if after_oom() {
                    cx().viol("alloc", format!("{what}: key {k} holds {v:?}, expected {e:?}"));
                }
                self.slots[s].model[k] = v;
            }
        }
    }
}

