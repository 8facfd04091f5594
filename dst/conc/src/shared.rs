//! World "shared": threads reading one shared collection, and threads writing through mutable
//! references split off one collection. What concurrent reads return is compared with what the
//! same reads return alone; memory accesses of the library are checked for races.

use std::cell::RefCell;
use std::sync::Arc;

use dstcore::core::*;
use dstcore::iters::*;
use dstcore::ops::*;
use dstcore::reg::*;
use dstcore::run::*;
use dstcore::sets::*;
use dstcore::sparse::*;
use dstcore::total::*;

use crate::mem::Snap;
use crate::sim;
use crate::sim::*;
use crate::traits;

const NAMES: [&str; 9] =
    ["get", "contains", "len", "iterate", "debug", "clone", "clone and change", "clone_from", "compare"];
const W: [usize; 9] = [5, 3, 3, 8, 2, 3, 4, 3, 2];

enum Coll {
    S(Box<dyn SparseDyn>),
    T(Box<dyn TotalDyn>),
    E(Box<dyn SetDyn>),
}

#[derive(Clone, Copy)]
enum Fac {
    S(SparseFac),
    T(TotalFac),
    E(SetFac),
}

impl Fac {
    fn n(&self) -> usize {
        match self {
            Fac::S(f) => f.n,
            Fac::T(f) => f.n,
            Fac::E(f) => f.n,
        }
    }
    fn zst(&self) -> bool {
        match self {
            Fac::S(f) => f.zst,
            Fac::T(f) => f.zst,
            Fac::E(_) => false,
        }
    }
    /// The collection with the given keys present; values are `base` plus the key.
    fn build(&self, on: &[bool], base: u32) -> Res<Coll> {
        let keys = (0..self.n()).filter(|&k| on[k]);
        Ok(match self {
            Fac::S(f) => {
                let mut m = (f.fresh)(0);
                for k in keys {
                    m.insert(k, base + k as u32)?;
                }
                Coll::S(m)
            }
            Fac::T(f) => Coll::T((f.make)(&mut |k| base + k as u32)?),
            Fac::E(f) => {
                let mut m = (f.fresh)(0)?;
                for k in keys {
                    m.insert(k)?;
                }
                Coll::E(m)
            }
        })
    }
}

fn pick_fac(key: usize, kind: u64, variant: u64) -> Option<Fac> {
    let k = &reg().keys[key];
    let v = variant as usize;
    Some(match kind {
        0 => Fac::S(*k.sparse.get(v)?),
        1 => Fac::T(*k.total.get(v)?),
        _ => Fac::E(*k.sets.get(v)?),
    })
}

/// cfg: key, kind, variant, mode (0 read, 1 split, 2 types, 3 one iterator passed around, 4 one copy per
/// thread), share of keys present, seed of the
/// contents, chances at accesses, callbacks and operations, seed of the decisions, how to split.
pub fn gen(_: &Prop, world: &str, r: &mut Rng) -> Plan {
    let mode = match r.below(60) {
        0 => 2,
        1..=30 => 0,
        31..=42 => 1,
        43..=52 => 3,
        _ => 4,
    };
    let kind = if mode == 1 { r.below(2) } else { r.below(3) } as u64;
    let n_fac = |k: &KeyFac| match kind {
        0 => k.sparse.len(),
        1 => k.total.len(),
        _ => k.sets.len(),
    };
    // Mostly few keys: more interleavings per step.
    let small = r.chance(5, 6);
    let ks: Vec<usize> = (0..reg().keys.len())
        .filter(|&i| {
            let k = &reg().keys[i];
            k.kind == Kind::Small && n_fac(k) > 0 && (k.n <= 20) == small
        })
        .collect();
    let key = *r.pick(&ks);
    let n = reg().keys[key].n;
    let variant = r.below(n_fac(&reg().keys[key])) as u64;
    let nth = 2 + r.below(3);
    let mut ops = Vec::new();
    let mut hot = false;
    if mode == 0 {
        let mut w = swarm(r, &W).to_vec();
        let mut per = 1 + r.below(4);
        let mut pool = key_pool(r, n);
        // A few kinds of short reads, of a few keys, over and over.
        hot = r.chance(1, 4);
        if hot {
            w = vec![0; W.len()];
            for _ in 0..1 + r.below(2) {
                w[*r.pick(&[0, 0, 1, 1, 2, 8])] = 1;
            }
            per = 6;
            pool.truncate(2);
            if pool.len() < 2 && n > 0 {
                pool.push(r.below(n) as u32);
            }
        }
        for t in 0..nth {
            for _ in 0..1 + r.below(per) {
                let code = r.weighted(&w) as u32;
                let fault = if !hot && r.chance(1, 7) {
                    let k = match code {
                        0 | 1 => F_ORD,
                        3 => *r.pick(&[F_FROM, F_FROM, F_FMTP, F_FMTV]),
                        4 => *r.pick(&[F_FROM, F_FMTP, F_FMTV]),
                        5..=7 => F_CLONE,
                        _ => F_FROM,
                    };
                    Some((k, gen_nth(r, n)))
                } else {
                    None
                };
                let script = gen_script(r, 10);
                ops.push(Op { code, a: t as u32, b: *r.pick(&pool), c: r.below(16) as u32, fault, script });
            }
        }
    } else if mode == 1 {
        // Which thread gets which reference, and how often it writes.
        for t in 0..nth {
            let fault = if t == 0 && r.chance(1, 6) { Some((F_FROM, gen_nth(r, n))) } else { None };
            let mut script = gen_script(r, 10);
            script.push(r.below(4) as u32);
            ops.push(Op { code: 0, a: t as u32, b: 1 + r.below(3) as u32, c: 0, fault, script });
        }
    }
    if mode == 3 {
        for _ in 0..1 + r.below(12) {
            let code = r.weighted(&[4, 3, 1, 1, 1, 1, 2, 2, 3, 2, 1]) as u32;
            let fault = if r.chance(1, 9) {
                let k = match code {
                    8 => *r.pick(&[F_FROM, F_CLONE]),
                    9 => *r.pick(&[F_FROM, F_FMTP, F_FMTV]),
                    _ => F_FROM,
                };
                Some((k, gen_nth(r, n)))
            } else {
                None
            };
            let script = if code == 8 { gen_script(r, 6) } else { vec![] };
            ops.push(Op { code, a: r.below(nth) as u32, b: r.below(n + 2) as u32, c: r.below(64) as u32, fault, script });
        }
        ops.push(Op { code: 11, a: r.below(nth) as u32, ..Op::default() });
    }
    if mode == 4 {
        let wipe = r.below(4);
        for t in 0..nth {
            for _ in 0..1 + r.below(4) {
                let code = match r.weighted(&[5, 6, 2, wipe]) {
                    0 => r.weighted(&W),
                    1 => 9,
                    2 => 10,
                    _ => 11,
                } as u32;
                let fault = if r.chance(1, 9) { Some((*r.pick(&[F_ORD, F_FROM, F_CLONE]), gen_nth(r, n))) } else { None };
                let script = gen_script(r, 6);
                ops.push(Op { code, a: t as u32, b: r.below(n.max(1)) as u32, c: r.below(16) as u32, fault, script });
            }
            if r.chance(1, 3) {
                ops.push(Op { code: 11, a: t as u32, ..Op::default() });
            }
        }
    }
    let cfg = vec![
        key as u64,
        kind,
        variant,
        mode,
        if hot { *r.pick(&[50, 50, 100]) } else { *r.pick(&[0, 10, 50, 90, 100]) },
        r.u64() >> 16,
        if hot {
            *r.pick(&[80, 200, 400])
        } else {
            *r.pick(if small { &[5, 20, 80, 200] } else { &[1, 3, 10, 30] })
        },
        *r.pick(&[20, 100, 300]),
        *r.pick(&[200, 500, 800]),
        r.u64() >> 16,
        r.below(1 << 12) as u64,
    ];
    Plan { world: world.to_owned(), cfg, ops, sched: vec![] }
}

// ---------------------------------------------------------------- reading

fn put<T: std::fmt::Debug>(s: &mut String, what: &str, r: Res<T>) -> bool {
    match r {
        Ok(x) => {
            *s += &format!("{what} {x:?}; ");
            true
        }
        Err(Unw::Fault) => {
            *s += &format!("{what} cut short; ");
            false
        }
        Err(Unw::Panic(m)) => {
            *s += &format!("{what} panicked: {m}; ");
            false
        }
    }
}

fn text<'x>(s: &mut String, what: &str, f: impl FnOnce(&mut Writer) -> Res<std::fmt::Result> + 'x) -> bool {
    let mut w = Writer::new(None);
    let r = f(&mut w);
    put(s, what, r.map(|r| (w.buf, r.is_ok())))
}

fn show(x: It) -> String {
    let k = x.k.map_or(String::new(), |k| format!("#{k}"));
    let v = x.v.map_or(String::new(), |v| format!("={v}"));
    k + &v
}

/// Everything a reader can do with an iterator, as text.
fn drive<'a>(s: &mut String, it: Box<dyn DynIter<'a> + 'a>, script: &[u32], max: usize, depth: u32) {
    let mut it = it;
    for (i, &x) in script.iter().enumerate() {
        let (what, arg) = (x & 255, (x >> 8) as usize);
        let r = match what % 16 {
            0..=4 => put(s, "next", it.next().map(|x| x.map(show))),
            5..=7 => put(s, "next_back", it.next_back().map(|x| x.map(show))),
            8 => put(s, "nth", it.nth(arg % (max + 1)).map(|x| x.map(show))),
            9 => put(s, "nth_back", it.nth_back(arg % (max + 1)).map(|x| x.map(show))),
            10 => put(s, "hint", it.hint()),
            11 => match it.len() {
                Some(l) => put(s, "len", l),
                None => true,
            },
            12 if depth < 2 => match it.fork() {
                Some(Ok(f)) => {
                    *s += "copy [";
                    drive(s, f, &script[i + 1..], max, depth + 1);
                    *s += "]; ";
                    true
                }
                Some(Err(e)) => put::<()>(s, "copy", Err(e)),
                None => true,
            },
            13 if it.has_debug() => text(s, "debug", |w| it.debug(w, arg & 1 == 1).unwrap()),
            14 => {
                let kind = arg as u32 % N_FIN;
                if fin_needs_exact(kind) && it.len().is_none() {
                    true
                } else {
                    let mut got = String::new();
                    let r = it.finish(kind, arg / 32 % (max + 2), &mut |n, x| got += &format!("{n}:{} ", show(x)));
                    put(s, FIN_NAMES[kind as usize], r.map(|_| got));
                    return;
                }
            }
            _ => true,
        };
        if !r {
            let _ = it.discard();
            return;
        }
    }
    for _ in 0..max + 2 {
        let r = it.next();
        let end = !matches!(r, Ok(Some(_)));
        put(s, "", r.map(|x| x.map(show)));
        if end {
            break;
        }
    }
    let _ = it.discard();
}

impl Coll {
    fn dump(&self, s: &mut String, n: usize) {
        match self {
            Coll::S(m) => match m.iter(0) {
                Ok(it) => drive(s, it, &[], n, 0),
                Err(e) => {
                    put::<()>(s, "iter", Err(e));
                }
            },
            Coll::T(m) => match m.iter(0) {
                Ok(it) => drive(s, it, &[], n, 0),
                Err(e) => {
                    put::<()>(s, "iter", Err(e));
                }
            },
            Coll::E(m) => {
                for k in 0..n {
                    put(s, "", m.contains(k));
                }
            }
        }
    }

    fn dup(&self) -> Res<Coll> {
        Ok(match self {
            Coll::S(m) => Coll::S(m.dup()?),
            Coll::T(m) => Coll::T(m.dup()?),
            Coll::E(m) => Coll::E(m.dup()?),
        })
    }

    fn read(&self, fac: Fac, op: &Op) -> String {
        let n = fac.n();
        let mut s = String::new();
        let k = op.b as usize % n.max(1);
        let none = n == 0;
        match op.code as usize % NAMES.len() {
            0 if !none => match self {
                Coll::S(m) => put(&mut s, "get", m.get(k)),
                Coll::T(m) => put(&mut s, "get", m.get(k)),
                Coll::E(m) => put(&mut s, "contains", m.contains(k)),
            },
            1 if !none => match self {
                Coll::S(m) => put(&mut s, "contains", m.contains(k)),
                Coll::T(m) => put(&mut s, "index", m.index(k)),
                Coll::E(m) => put(&mut s, "contains", m.contains(k)),
            },
            0 | 1 => true,
            2 => match self {
                Coll::S(m) => put(&mut s, "len", m.len()) && put(&mut s, "is_empty", m.is_empty()),
                Coll::T(m) => put(&mut s, "len", m.len()),
                Coll::E(m) => none || put(&mut s, "contains", m.contains(k)),
            },
            3 => {
                let it = match self {
                    Coll::S(m) => m.iter(op.c),
                    Coll::T(m) if op.c % 5 == 4 => m.keys(),
                    Coll::T(m) => m.iter(op.c),
                    Coll::E(m) => match m.iter() {
                        Some(i) => i,
                        None => return s,
                    },
                };
                match it {
                    Ok(it) => {
                        drive(&mut s, it, &op.script, n, 0);
                        true
                    }
                    Err(e) => put::<()>(&mut s, "iter", Err(e)),
                }
            }
            4 => text(&mut s, "debug", |w| match self {
                Coll::S(m) => m.debug(w, op.c & 1 == 1),
                Coll::T(m) => m.debug(w, op.c & 1 == 1),
                Coll::E(m) => m.debug(w, op.c & 1 == 1),
            }),
            c @ (5 | 6) => match self.dup() {
                Ok(mut d) => {
                    if c == 6 {
                        d.change(&mut s, op, n);
                    }
                    d.dump(&mut s, n);
                    d.drop(&mut s)
                }
                Err(e) => put::<()>(&mut s, "clone", Err(e)),
            },
            7 => match fac.build(&vec![op.c & 1 == 1; n], 5000) {
                Ok(mut d) => {
                    let r = match (&mut d, self) {
                        (Coll::S(d), Coll::S(m)) => d.dup_from(&**m),
                        (Coll::T(d), Coll::T(m)) => d.dup_from(&**m),
                        (Coll::E(d), Coll::E(m)) => d.dup_from(&**m),
                        _ => unreachable!(),
                    };
                    if put(&mut s, "clone_from", r) {
                        d.change(&mut s, op, n);
                        d.dump(&mut s, n);
                    }
                    d.drop(&mut s)
                }
                Err(e) => put::<()>(&mut s, "build", Err(e)),
            },
            _ => match self {
                Coll::E(m) => match m.eq(&**m) {
                    Some(r) => put(&mut s, "eq", r),
                    None => true,
                },
                Coll::T(m) => {
                    let mut got = String::new();
                    match m.refs(&mut |k, v, _| got += &format!("#{k}={v} ")) {
                        Some(r) => put(&mut s, "as_ref", r.map(|_| got)),
                        None => true,
                    }
                }
                Coll::S(m) => put(&mut s, "is_empty", m.is_empty()),
            },
        };
        s
    }

    /// Change a private copy.
    fn change(&mut self, s: &mut String, op: &Op, n: usize) {
        if n == 0 {
            return;
        }
        for (i, &x) in op.script.iter().enumerate().take(5) {
            let k = (x >> 3) as usize % n;
            let p = 7000 + i as u32;
            let r = match self {
                Coll::S(m) => match x & 3 {
                    0 => put(s, "remove", m.remove(k)),
                    1 => put(s, "get_mut", m.get_mut(k, Some(p))),
                    _ => put(s, "insert", m.insert(k, p)),
                },
                Coll::T(m) => match x & 1 {
                    0 => put(s, "insert", m.insert(k, p)),
                    _ => put(s, "get_mut", m.get_mut(k, 0, Some(p))),
                },
                Coll::E(m) => put(s, "insert", m.insert(k)),
            };
            if !r {
                return;
            }
        }
    }

    fn drop(self, s: &mut String) -> bool {
        match self {
            Coll::S(m) => put(s, "drop", m.discard()),
            Coll::T(m) => put(s, "drop", m.discard()),
            Coll::E(m) => put(s, "drop", lib(move || drop(m))),
        }
    }
}

struct Readers {
    fac: Fac,
    c: Coll,
    ops: Vec<Op>,
    want: Vec<String>,
    nth: usize,
}

impl Readers {
    fn body(&self, t: usize) {
        for (i, op) in self.ops.iter().enumerate().filter(|(_, o)| o.a as usize % self.nth == t) {
            let what = NAMES[op.code as usize % NAMES.len()];
            begin_op(format!("{what} on a shared collection"), None);
            cx().tr(|| format!("thread {t} starts {what}"));
            cx().arm(op.fault);
            let got = self.c.read(self.fac, op);
            cx().disarm();
            end_op();
            cx().tr(|| format!("thread {t} {what}: {got}"));
            cx().ev(got.bytes().fold(0, |h, b| mix(h, b as u64)));
            if got != self.want[i] {
                let w = &self.want[i];
                cx().viol("shared", format!("{what} on a shared collection gives \"{got}\" next to other readers, \"{w}\" alone"));
            }
            if !cx().viols.is_empty() {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- one copy per thread

const OWN: [&str; 12] = [
    "get", "contains", "len", "iterate", "debug", "clone", "clone and change", "clone_from", "compare", "change",
    "replace by a clone", "drop",
];

fn own_step(c: &mut Option<Coll>, fac: Fac, op: &Op) -> String {
    let mut s = String::new();
    let Some(m) = c else { return s };
    match op.code {
        9 => m.change(&mut s, op, fac.n()),
        10 => match m.dup() {
            Ok(d) => {
                if let Some(old) = c.replace(d) {
                    old.drop(&mut s);
                }
            }
            Err(e) => {
                put::<()>(&mut s, "clone", Err(e));
            }
        },
        11 => {
            if let Some(old) = c.take() {
                old.drop(&mut s);
            }
        }
        _ => s = m.read(fac, op),
    }
    s
}

struct Copies {
    fac: Fac,
    own: Vec<std::cell::UnsafeCell<Option<Coll>>>,
    ops: Vec<Op>,
    want: Vec<String>,
}

impl Copies {
    /// Copies of one collection: of the first, of the one before, or by clone_from.
    fn make(fac: Fac, first: Coll, nth: usize, how: u32) -> Res<Vec<Coll>> {
        let mut v = vec![first];
        for t in 1..nth {
            let from = if how >> t & 1 == 1 { t - 1 } else { 0 };
            let c = if how >> (t + 4) & 1 == 1 {
                let mut d = fac.build(&vec![how >> (t + 8) & 1 == 1; fac.n()], 5000)?;
                match (&mut d, &v[from]) {
                    (Coll::S(d), Coll::S(m)) => d.dup_from(&**m)?,
                    (Coll::T(d), Coll::T(m)) => d.dup_from(&**m)?,
                    (Coll::E(d), Coll::E(m)) => d.dup_from(&**m)?,
                    _ => unreachable!(),
                }
                d
            } else {
                v[from].dup()?
            };
            v.push(c);
        }
        Ok(v)
    }

    fn body(&self, t: usize) {
        for (i, op) in self.ops.iter().enumerate().filter(|(_, o)| o.a as usize % self.own.len() == t) {
            let what = OWN[op.code as usize % 12];
            begin_op(format!("{what} of a copy"), None);
            cx().tr(|| format!("thread {t} starts {what}"));
            cx().arm(op.fault);
            let got = own_step(unsafe { &mut *self.own[t].get() }, self.fac, op);
            cx().disarm();
            end_op();
            cx().tr(|| format!("thread {t} {what}: {got}"));
            cx().ev(got.bytes().fold(0, |h, b| mix(h, b as u64)));
            if got != self.want[i] {
                let w = &self.want[i];
                cx().viol("shared", format!("{what} of a thread's own copy gives \"{got}\", \"{w}\" without other copies"));
            }
            if !cx().viols.is_empty() {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- writing through split references

struct Item {
    cell: *mut dyn Cell32,
    k: Option<usize>,
    snap: Snap,
}

struct Done {
    k: Option<usize>,
    old: u32,
    new: u32,
    at: (usize, usize),
}

struct Writers {
    c: RefCell<Coll>,
    ops: Vec<Op>,
    nth: usize,
    how: u32,
    queues: Vec<RefCell<Vec<Item>>>,
    closed: std::cell::Cell<bool>,
    done: RefCell<Vec<Done>>,
    cut: std::cell::Cell<bool>,
}

impl Writers {
    fn body(&self, t: usize) {
        let op = &self.ops[t];
        if t == 0 {
            begin_op("splitting".to_owned(), None);
            cx().arm(op.fault);
            let mut n = 0;
            let sink: &mut dyn FnMut(Option<usize>, &mut dyn Cell32) = &mut |k, c| {
                let to = op.script.get(n % op.script.len().max(1)).copied().unwrap_or(0) as usize + n / 3;
                n += 1;
                let cell: *mut dyn Cell32 = unsafe { std::mem::transmute(c as *mut dyn Cell32) };
                let snap = sim().mem.snapshot(0);
                self.queues[to % self.nth].borrow_mut().push(Item { cell, k, snap });
                sched_point(sim().cfg.p_cb, 91);
            };
            // The references outlive the call, as the interface promises.
            let r = match &mut *self.c.borrow_mut() {
                Coll::S(m) => {
                    let m: &'static mut dyn SparseDyn = unsafe { &mut *(&mut **m as *mut dyn SparseDyn) };
                    m.split_mut(self.how, sink)
                }
                Coll::T(m) => {
                    let m: &'static mut dyn TotalDyn = unsafe { &mut *(&mut **m as *mut dyn TotalDyn) };
                    m.split_mut(self.how, sink)
                }
                Coll::E(_) => Ok(()),
            };
            cx().disarm();
            end_op();
            match r {
                Ok(()) => {}
                Err(Unw::Fault) => self.cut.set(true),
                Err(Unw::Panic(m)) => {
                    self.cut.set(true);
                    cx().viol("shared", format!("splitting panicked: {m}"));
                }
            }
            self.closed.set(true);
        }
        loop {
            let item = {
                let mut q = self.queues[t].borrow_mut();
                if q.is_empty() {
                    None
                } else {
                    Some(q.remove(0))
                }
            };
            match item {
                Some(i) => self.work(t, i, op),
                None if self.closed.get() => break,
                None => sim::yield_now(),
            }
        }
    }

    fn work(&self, t: usize, i: Item, op: &Op) {
        sim().mem.learn(t, &i.snap);
        let c = unsafe { &mut *i.cell };
        let at = c.addr();
        begin_op("writing through a reference".to_owned(), None);
        let old = c.read();
        let mut new = old;
        for round in 0..op.b.max(1) {
            sched_point(sim().cfg.p_cb, 92);
            let seen = c.read();
            if seen != new {
                cx().viol("shared", format!("a value behind a reference split off by mutable access changes from {new} to {seen} while its thread does not write it"));
                return;
            }
            new = 10_000 + (t as u32 * 10 + round) * 1000 + old;
            c.write(new);
            if c.addr().1 == 0 {
                new = 0;
            }
        }
        cx().tr(|| format!("thread {t} writes {new} over {old}"));
        cx().ev(mix(new as u64, old as u64));
        end_op();
        self.done.borrow_mut().push(Done { k: i.k, old, new, at });
    }
}

// ---------------------------------------------------------------- one iterator, many threads

type AnyIter = Box<dyn DynIter<'static>>;

/// An iterator over the collection, of the kind asked for; the collection must not move or go
/// away before it.
fn any_iter(c: &mut Option<Coll>, how: u32) -> Option<Res<AnyIter>> {
    fn long<T: ?Sized>(x: &mut T) -> &'static mut T {
        unsafe { &mut *(x as *mut T) }
    }
    let (kind, how) = (how / 8, how % 8);
    Some(match (c.as_mut()?, how) {
        (Coll::S(m), 0..=2) => long(&mut **m).iter(kind),
        (Coll::S(m), 3 | 4) => long(&mut **m).iter_mut(kind),
        (Coll::S(m), 5) => long(&mut **m).drain(),
        (Coll::T(m), 0..=2) => long(&mut **m).iter(kind),
        (Coll::T(m), 3 | 4) => long(&mut **m).iter_mut(kind),
        (Coll::T(m), 5) => m.keys(),
        (Coll::E(m), _) => return long(&mut **m).iter(),
        (_, h) => match c.take()? {
            Coll::S(m) => m.into_iter(),
            Coll::T(m) if h == 7 => m.into_keys(),
            Coll::T(m) => m.into_iter(),
            Coll::E(_) => return None,
        },
    })
}

const STEPS: [&str; 12] = [
    "next", "next_back", "nth", "nth_back", "take", "take from the back", "size_hint", "len", "clone", "debug", "consume", "drop",
];

fn only_looks(op: &Op) -> bool {
    matches!(op.code, 6..=9)
}

fn look(it: &AnyIter, op: &Op, n: usize) -> String {
    let mut s = String::new();
    match op.code {
        6 => put(&mut s, "hint", it.hint()),
        7 => it.len().map_or(true, |l| put(&mut s, "len", l)),
        8 => match it.fork() {
            Some(Ok(f)) => {
                drive(&mut s, f, &op.script, n, 0);
                true
            }
            Some(Err(e)) => put::<()>(&mut s, "clone", Err(e)),
            None => true,
        },
        _ => !it.has_debug() || text(&mut s, "debug", |w| it.debug(w, op.c & 1 == 1).unwrap()),
    };
    s
}

fn advance(it: &mut Option<AnyIter>, op: &Op) -> String {
    let mut s = String::new();
    let Some(i) = it else { return s };
    let b = op.b as usize;
    let mut got = String::new();
    match op.code {
        0 => put(&mut s, "next", i.next().map(|x| x.map(show))),
        1 => put(&mut s, "next_back", i.next_back().map(|x| x.map(show))),
        2 => put(&mut s, "nth", i.nth(b).map(|x| x.map(show))),
        3 => put(&mut s, "nth_back", i.nth_back(b).map(|x| x.map(show))),
        4 | 5 => {
            let r = i.part(b, op.code == 5, op.c as usize >> 6 & 7, &mut |n, x| got += &format!("{n}:{} ", show(x)));
            put(&mut s, "took", r.map(|_| got))
        }
        10 => {
            let kind = op.c % N_FIN;
            if fin_needs_exact(kind) && i.len().is_none() {
                return s;
            }
            let r = it.take().unwrap().finish(kind, b, &mut |n, x| got += &format!("{n}:{} ", show(x)));
            put(&mut s, FIN_NAMES[kind as usize], r.map(|_| got))
        }
        _ => put(&mut s, "dropped", it.take().unwrap().discard()),
    };
    s
}

struct Passing {
    it: std::cell::UnsafeCell<Option<AnyIter>>,
    n: usize,
    ops: Vec<Op>,
    want: Vec<String>,
    nth: usize,
    done: RefCell<Vec<Option<Snap>>>,
}

impl Passing {
    /// Operations that must be over before operation i starts.
    fn before(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        (0..i).filter(move |&j| !only_looks(&self.ops[i]) || !only_looks(&self.ops[j]))
    }

    fn body(&self, t: usize) {
        for (i, op) in self.ops.iter().enumerate().filter(|(_, o)| o.a as usize % self.nth == t) {
            loop {
                let ready = {
                    let d = self.done.borrow();
                    self.before(i).all(|j| d[j].is_some())
                };
                if ready {
                    break;
                }
                if !cx().viols.is_empty() {
                    return;
                }
                sim::yield_now();
            }
            let what = STEPS[op.code as usize % 12];
            for j in self.before(i) {
                sim().mem.learn(t, self.done.borrow()[j].as_ref().unwrap());
            }
            begin_op(format!("{what} of an iterator used by several threads"), None);
            cx().arm(op.fault);
            let got = if only_looks(op) {
                match unsafe { &*self.it.get() } {
                    Some(it) => look(it, op, self.n),
                    None => String::new(),
                }
            } else {
                advance(unsafe { &mut *self.it.get() }, op)
            };
            cx().disarm();
            end_op();
            cx().tr(|| format!("thread {t} {what}: {got}"));
            cx().ev(got.bytes().fold(0, |h, b| mix(h, b as u64)));
            if got != self.want[i] {
                let w = &self.want[i];
                cx().viol("shared", format!("{what} of an iterator used by several threads gives \"{got}\", \"{w}\" in one thread"));
            }
            let snap = sim().mem.snapshot(t);
            self.done.borrow_mut()[i] = Some(snap);
        }
    }
}

/// The key's own code has read or written a value.
pub fn on_value(a: usize, n: usize, write: bool) {
    if sim::is_sim() {
        user_access(a, n, write);
    }
}

pub fn exec(_: &Prop, plan: &Plan) -> (Vec<u32>, u64) {
    let g = |i: usize| plan.cfg.get(i).copied().unwrap_or(0);
    let none = (vec![0, 0], 0);
    if g(3) == 2 {
        for (name, ok) in traits::all() {
            cx().ev(ok as u64);
            if !ok {
                cx().viol("shared", name.to_owned());
            }
        }
        count("type_checks", 1);
        return none;
    }
    let Some(fac) = pick_fac(g(0) as usize, g(1), g(2)) else { return none };
    let n = fac.n();
    let mut r = Rng::new(g(5));
    let on: Vec<bool> = (0..n).map(|_| r.below(100) < g(4) as usize).collect();
    let nth = plan.ops.iter().map(|o| o.a as usize + 1).max().unwrap_or(1).clamp(1, 4);
    let kinds = ["map", "total map", "set"];
    cx().tr(|| {
        format!("shared {} over {}, variant {}, {nth} threads", kinds[g(1) as usize % 3], reg().keys[g(0) as usize].name, g(2))
    });
    let Ok(c) = fac.build(&on, 100) else {
        cx().viol("shared", "building failed".to_owned());
        return none;
    };
    let cfg = sim::Cfg {
        weak: true,
        progress: false,
        limit: u32::MAX,
        cap: 2_000_000,
        p_atomic: (g(6) * 5).min(300) as u32,
        p_plain: g(6) as u32,
        p_cb: g(7) as u32,
        p_op: g(8) as u32,
        p_stale: 200,
        p_weak: 200,
        seed: g(9),
    };
    let rep;
    if g(3) == 3 {
        let how = g(10) as u32;
        let (mut alone, mut c) = (fac.build(&on, 100).ok(), Some(c));
        let (mut a, it) = match (any_iter(&mut alone, how), any_iter(&mut c, how)) {
            (Some(Ok(a)), Some(Ok(b))) => (Some(a), b),
            (Some(a), Some(b)) => {
                cx().viol("shared", format!("making an iterator failed: {:?} {:?}", a.err(), b.err()));
                return none;
            }
            _ => return none,
        };
        let mut want = Vec::new();
        for op in &plan.ops {
            cx().arm(op.fault);
            want.push(match &a {
                Some(a) if only_looks(op) => look(a, op, n),
                _ => advance(&mut a, op),
            });
            cx().disarm();
        }
        drop(a);
        let mut before = String::new();
        if let Some(c) = &alone {
            c.dump(&mut before, n);
        }
        let k = plan.ops.len();
        let sh = Arc::new(Passing {
            it: std::cell::UnsafeCell::new(Some(it)),
            n,
            ops: plan.ops.clone(),
            want,
            nth,
            done: RefCell::new((0..k).map(|_| None).collect()),
        });
        let b = sh.clone();
        rep = sim::run(nth, &[], cfg, &plan.sched, true, Arc::new(move |t| b.body(t)));
        if rep.stuck.is_empty() {
            drop(unsafe { &mut *sh.it.get() }.take());
            if let (Some(c), true) = (&c, cx().viols.is_empty()) {
                let mut after = String::new();
                c.dump(&mut after, n);
                if after != before {
                    cx().viol("shared", format!("an iterator used by several threads leaves \"{after}\", \"{before}\" in one thread"));
                }
            }
            count("steps_of_passed_iterators", k as u64);
        } else {
            std::mem::forget(c);
        }
    } else if g(3) == 4 {
        let mut want = vec![String::new(); plan.ops.len()];
        let mut ends = Vec::new();
        for t in 0..nth {
            let mut c = fac.build(&on, 100).ok();
            for (i, op) in plan.ops.iter().enumerate().filter(|(_, o)| o.a as usize % nth == t) {
                cx().arm(op.fault);
                want[i] = own_step(&mut c, fac, op);
                cx().disarm();
            }
            let mut s = String::new();
            if let Some(c) = &c {
                c.dump(&mut s, n);
            }
            ends.push(s);
        }
        let own = match Copies::make(fac, c, nth, g(10) as u32) {
            Ok(v) => v.into_iter().map(|c| std::cell::UnsafeCell::new(Some(c))).collect(),
            Err(e) => {
                cx().viol("shared", format!("copying failed: {e:?}"));
                return none;
            }
        };
        let sh = Arc::new(Copies { fac, own, ops: plan.ops.clone(), want });
        let b = sh.clone();
        rep = sim::run(nth, &[], cfg, &plan.sched, true, Arc::new(move |t| b.body(t)));
        if rep.stuck.is_empty() && cx().viols.is_empty() {
            for (t, want) in ends.iter().enumerate() {
                let mut s = String::new();
                if let Some(c) = unsafe { &*sh.own[t].get() } {
                    c.dump(&mut s, n);
                }
                if s != *want {
                    cx().viol("shared", format!("the copy of thread {t} ends as \"{s}\", \"{want}\" without other copies"));
                }
            }
            count("steps_of_separate_copies", plan.ops.len() as u64);
        }
    } else if g(3) == 0 {
        // What every read returns alone.
        let mut want = Vec::new();
        let Ok(alone) = fac.build(&on, 100) else { return none };
        for op in &plan.ops {
            cx().arm(op.fault);
            want.push(alone.read(fac, op));
            cx().disarm();
        }
        let mut before = String::new();
        alone.dump(&mut before, n);
        let sh = Arc::new(Readers { fac, c, ops: plan.ops.clone(), want, nth });
        let b = sh.clone();
        rep = sim::run(nth, &[], cfg, &plan.sched, true, Arc::new(move |t| b.body(t)));
        if rep.stuck.is_empty() && cx().viols.is_empty() {
            let mut after = String::new();
            sh.c.dump(&mut after, n);
            if after != before {
                cx().viol("shared", format!("reading changed a collection from \"{before}\" to \"{after}\""));
            }
            count("shared_reads_compared", plan.ops.len() as u64);
        }
    } else {
        let mut ops: Vec<Op> = Vec::new();
        for t in 0..nth {
            ops.push(plan.ops.iter().find(|o| o.a as usize == t).cloned().unwrap_or_default());
        }
        let sh = Arc::new(Writers {
            c: RefCell::new(c),
            ops,
            nth,
            how: g(10) as u32,
            queues: (0..nth).map(|_| RefCell::new(vec![])).collect(),
            closed: std::cell::Cell::new(false),
            done: RefCell::new(vec![]),
            cut: std::cell::Cell::new(false),
        });
        let b = sh.clone();
        rep = sim::run(nth, &[], cfg, &plan.sched, true, Arc::new(move |t| b.body(t)));
        if rep.stuck.is_empty() && cx().viols.is_empty() {
            judge(&sh, fac, &on);
            count("split_writes_checked", sh.done.borrow().len() as u64);
        }
    }
    if !rep.stuck.is_empty() && rep.time < cfg.cap && cx().viols.is_empty() {
        cx().viol("shared", format!("threads {:?} wait forever", rep.stuck));
    }
    (rep.sched, rep.time)
}

fn judge(sh: &Writers, fac: Fac, on: &[bool]) {
    let n = fac.n();
    let total = matches!(fac, Fac::T(_));
    let mut model: Vec<Option<u32>> = (0..n).map(|k| if total || on[k] { Some(100 + k as u32) } else { None }).collect();
    let done = sh.done.borrow();
    let all = model.iter().flatten().count();
    if !sh.cut.get() && done.len() != all {
        cx().viol("shared", format!("{} references for {all} values", done.len()));
        return;
    }
    if fac.zst() {
        return;
    }
    let mut at: Vec<(usize, usize)> = Vec::new();
    for d in done.iter() {
        let k = d.old.wrapping_sub(100) as usize;
        if k >= n || model[k] != Some(d.old) {
            cx().viol("shared", format!("a reference leads to {}, which no key has or another reference also leads to", d.old));
            return;
        }
        if d.k.is_some_and(|x| x != k) {
            cx().viol("shared", format!("the reference given for key {:?} leads to the value of key {k}", d.k));
        }
        model[k] = Some(d.new);
        at.push(d.at);
    }
    at.sort();
    if at.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0) {
        cx().viol("shared", "two references overlap".to_owned());
        return;
    }
    let c = sh.c.borrow();
    for k in 0..n {
        let got = match &*c {
            Coll::S(m) => m.get(k),
            Coll::T(m) => m.get(k).map(Some),
            _ => return,
        };
        match got {
            Ok(v) if v == model[k] => {}
            Ok(v) => cx().viol("shared", format!("after all writes key {k} has {v:?}, expected {:?}", model[k])),
            Err(e) => cx().viol("shared", format!("reading key {k} after all writes: {e:?}")),
        }
    }
}
