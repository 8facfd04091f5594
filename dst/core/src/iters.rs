//! Every iterator of the library behind one interface, and the driver that interleaves its
//! ends, copies, adapters, faults and abandonment against a model.

use std::cmp::Ordering as Cmp;
use std::fmt;
use std::fmt::Debug;

use crate::core::*;

/// One yielded item: key number and value payload, where the iterator has them.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct It {
    pub k: Option<usize>,
    pub v: Option<u32>,
}

pub const N_FIN: u32 = 24;
pub const FIN_NAMES: [&str; N_FIN as usize] = [
    "for", "rev", "count", "last", "fold", "rfold", "for_each", "collect", "skip", "step_by",
    "enumerate.rev", "skip.rev", "take.rev", "step_by.rev", "zip.rev", "rposition", "peekable", "chain.rev",
    "filter.max", "reduce", "max_by", "min_by", "max_by_key", "min_by_key",
];
/// Adapters that exist for iterators of exactly known length only.
pub fn fin_needs_exact(kind: u32) -> bool {
    (10..=15).contains(&kind)
}

pub type Sink<'s> = dyn FnMut(usize, It) + 's;

/// What adapters need from an iterator, without its type. Everything an iterator type may
/// implement on its own goes to that implementation.
pub trait Raw {
    fn r_next(&mut self) -> Option<It>;
    fn r_next_back(&mut self) -> Option<It>;
    fn r_nth(&mut self, n: usize) -> Option<It>;
    fn r_nth_back(&mut self, n: usize) -> Option<It>;
    fn r_hint(&self) -> (usize, Option<usize>);
    fn r_len(&self) -> usize;
    fn r_count(self: Box<Self>) -> usize;
    fn r_last(self: Box<Self>) -> Option<It>;
    fn r_fold(self: Box<Self>, f: &mut dyn FnMut(It));
    fn r_rfold(self: Box<Self>, f: &mut dyn FnMut(It));
    fn r_for_each(self: Box<Self>, f: &mut dyn FnMut(It));
    /// Picks one item, all of them being equal: reduce, max_by, min_by, max_by_key, min_by_key.
    fn r_pick(self: Box<Self>, how: u32) -> Option<It>;
}

pub struct Er<'a>(pub Box<dyn Raw + 'a>);
impl Iterator for Er<'_> {
    type Item = It;
    fn next(&mut self) -> Option<It> {
        self.0.r_next()
    }
    fn nth(&mut self, n: usize) -> Option<It> {
        self.0.r_nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.r_hint()
    }
    fn count(self) -> usize {
        self.0.r_count()
    }
    fn last(self) -> Option<It> {
        self.0.r_last()
    }
    fn fold<B, F: FnMut(B, It) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.r_fold(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
        acc.unwrap()
    }
    fn for_each<F: FnMut(It)>(self, mut f: F) {
        self.0.r_for_each(&mut f)
    }
    // The functions given are always those of `fin_any`.
    fn reduce<F: FnMut(It, It) -> It>(self, _: F) -> Option<It> {
        self.0.r_pick(0)
    }
    fn max_by<F: FnMut(&It, &It) -> Cmp>(self, _: F) -> Option<It> {
        self.0.r_pick(1)
    }
    fn min_by<F: FnMut(&It, &It) -> Cmp>(self, _: F) -> Option<It> {
        self.0.r_pick(2)
    }
    fn max_by_key<B: Ord, F: FnMut(&It) -> B>(self, _: F) -> Option<It> {
        self.0.r_pick(3)
    }
    fn min_by_key<B: Ord, F: FnMut(&It) -> B>(self, _: F) -> Option<It> {
        self.0.r_pick(4)
    }
}
impl DoubleEndedIterator for Er<'_> {
    fn next_back(&mut self) -> Option<It> {
        self.0.r_next_back()
    }
    fn nth_back(&mut self, n: usize) -> Option<It> {
        self.0.r_nth_back(n)
    }
    fn rfold<B, F: FnMut(B, It) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.r_rfold(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
        acc.unwrap()
    }
}
impl ExactSizeIterator for Er<'_> {
    fn len(&self) -> usize {
        self.0.r_len()
    }
}

fn fin_any<I: DoubleEndedIterator<Item = It>>(it: I, kind: u32, arg: usize, sink: &mut Sink) {
    macro_rules! put {
        ($i:expr, $x:expr) => {{
            let x = $x;
            let _o = out();
            let y: It = x;
            sink($i, y);
        }};
    }
    match kind {
        0 => {
            for x in it {
                put!(0, x);
            }
        }
        1 => {
            for x in it.rev() {
                put!(0, x);
            }
        }
        2 => {
            let n = it.count();
            let _o = out();
            sink(n, It { k: None, v: None });
        }
        3 => {
            if let Some(x) = it.last() {
                put!(0, x);
            }
        }
        4 => {
            let n = it.fold(0, |n, x| {
                put!(n, x);
                n + 1
            });
            let _o = out();
            sink(n, It { k: None, v: None });
        }
        5 => {
            it.rfold(0, |n, x| {
                put!(n, x);
                n + 1
            });
        }
        6 => it.for_each(|x| put!(0, x)),
        7 => {
            let v: Vec<It> = it.collect();
            let _o = out();
            for x in v {
                let y: It = x;
                sink(0, y);
            }
        }
        8 => {
            for x in it.skip(arg) {
                put!(0, x);
            }
        }
        9 => {
            for x in it.step_by(arg + 1) {
                put!(0, x);
            }
        }
        16 => {
            let mut p = it.peekable();
            p.peek();
            while let Some(x) = p.next() {
                put!(0, x);
                p.peek();
            }
        }
        17 => {
            for x in it.chain(std::iter::empty()).rev() {
                put!(0, x);
            }
        }
        18 => {
            let n = it
                .map(|x| {
                    let _o = out();
                    let y: It = x;
                    sink(0, y);
                    y.v.unwrap_or(0) as usize + y.k.unwrap_or(0)
                })
                .filter(|n| n % 2 == 0)
                .max();
            let _o = out();
            sink(n.unwrap_or(0), It { k: None, v: None });
        }
        19..=23 => {
            let x = match kind {
                19 => it.reduce(|_, b| b),
                20 => it.max_by(|_, _| Cmp::Equal),
                21 => it.min_by(|_, _| Cmp::Equal),
                22 => it.max_by_key(|_| 0),
                _ => it.min_by_key(|_| 0),
            };
            if let Some(x) = x {
                put!(0, x);
            }
        }
        _ => unreachable!(),
    }
}

fn fin_exact<I: DoubleEndedIterator<Item = It> + ExactSizeIterator>(mut it: I, kind: u32, arg: usize, sink: &mut Sink) {
    macro_rules! put {
        ($i:expr, $x:expr) => {{
            let x = $x;
            let _o = out();
            let y: It = x;
            sink($i, y);
        }};
    }
    match kind {
        10 => {
            for (i, x) in it.enumerate().rev() {
                put!(i, x);
            }
        }
        11 => {
            let mut s = it.skip(arg);
            let n = s.len();
            {
                let _o = out();
                sink(n, It { k: None, v: None });
            }
            while let Some(x) = s.next_back() {
                put!(0, x);
            }
        }
        12 => {
            let mut s = it.take(arg);
            let n = s.len();
            {
                let _o = out();
                sink(n, It { k: None, v: None });
            }
            while let Some(x) = s.next_back() {
                put!(0, x);
            }
        }
        13 => {
            for x in it.step_by(arg + 1).rev() {
                put!(0, x);
            }
        }
        14 => {
            for (x, i) in it.zip(0..arg).rev() {
                put!(i, x);
            }
        }
        15 => {
            let mut n = 0;
            let r = it.rposition(|x| {
                put!(0, x);
                n += 1;
                n > arg
            });
            let _o = out();
            sink(r.map_or(0, |x| x + 1), It { k: None, v: None });
        }
        _ => unreachable!(),
    }
}


pub trait DynIter<'a> {
    fn next(&mut self) -> Res<Option<It>>;
    fn next_back(&mut self) -> Res<Option<It>>;
    fn nth(&mut self, n: usize) -> Res<Option<It>>;
    fn nth_back(&mut self, n: usize) -> Res<Option<It>>;
    /// The same by searching for an item.
    fn find(&mut self, n: usize, back: bool) -> Res<Option<It>>;
    /// Take up to n items through short-circuiting internal iteration.
    /// The result says whether the iterator reported correctly where it stopped.
    fn part(&mut self, n: usize, back: bool, how: usize, sink: &mut Sink) -> Res<bool>;
    fn hint(&self) -> Res<(usize, Option<usize>)>;
    fn len(&self) -> Option<Res<usize>>;
    fn fork(&self) -> Option<Res<Box<dyn DynIter<'a> + 'a>>>;
    fn has_debug(&self) -> bool;
    fn debug(&self, w: &mut Writer, alt: bool) -> Option<Res<fmt::Result>>;
    fn finish(self: Box<Self>, kind: u32, arg: usize, sink: &mut Sink) -> Res<()>;
    fn discard(self: Box<Self>) -> Res<()>;
    fn forget(self: Box<Self>);
}

pub fn finish_erased(it: Er<'_>, kind: u32, arg: usize, sink: &mut Sink) -> Res<()> {
    lib(move || {
        if fin_needs_exact(kind) {
            fin_exact(it, kind, arg, sink)
        } else {
            fin_any(it, kind, arg, sink)
        }
    })
}

/// What the same adapters produce on a plain vector of the items.
pub fn reference(items: Vec<It>, kind: u32, arg: usize) -> Vec<(usize, It)> {
    let mut got = Vec::new();
    let it = items.into_iter();
    let sink: &mut Sink = &mut |n, x| got.push((n, x));
    if fin_needs_exact(kind) {
        fin_exact(it, kind, arg, sink)
    } else {
        fin_any(it, kind, arg, sink)
    }
    got
}

// ---------------------------------------------------------------- expected Debug text

pub type KeyFmt = fn(usize, &mut fmt::Formatter<'_>) -> fmt::Result;

#[derive(Clone, Copy)]
pub struct KD(pub KeyFmt, pub usize);
impl Debug for KD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(self.1, f)
    }
}
pub struct VD(pub u32);
impl Debug for VD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        val_fmt(self.0, f)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum DbgKind {
    None,
    /// List of tuples.
    Pairs,
    Keys,
    Values,
    /// Map / set of the contents.
    Map,
    Set,
    /// Range of all values of a type with this many values.
    Range(usize),
}

struct Exp<'a>(DbgKind, KeyFmt, &'a [It]);
impl Debug for Exp<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let kf = self.1;
        let k = |i: &It| KD(kf, i.k.unwrap_or(usize::MAX));
        let v = |i: &It| VD(i.v.unwrap_or(0));
        match self.0 {
            DbgKind::Pairs => f.debug_list().entries(self.2.iter().map(|i| (k(i), v(i)))).finish(),
            DbgKind::Keys => f.debug_list().entries(self.2.iter().map(k)).finish(),
            DbgKind::Values => f.debug_list().entries(self.2.iter().map(v)).finish(),
            DbgKind::Map => f.debug_map().entries(self.2.iter().map(|i| (k(i), v(i)))).finish(),
            DbgKind::Set => f.debug_set().entries(self.2.iter().map(k)).finish(),
            DbgKind::Range(n) => {
                let Some(a) = self.2.first() else { return f.write_str("[]") };
                let b = self.2.last().unwrap();
                if b.k == Some(n - 1) {
                    write!(f, "[{:?}..]", k(a))
                } else if a.k == b.k {
                    write!(f, "[{:?}]", k(a))
                } else {
                    write!(f, "[{:?}..={:?}]", k(a), k(b))
                }
            }
            DbgKind::None => Ok(()),
        }
    }
}

pub fn expected_text(kind: DbgKind, kf: KeyFmt, items: &[It], alt: bool) -> String {
    let e = Exp(kind, kf, items);
    if alt {
        format!("{e:#?}")
    } else {
        format!("{e:?}")
    }
}

/// Check one formatting attempt. `budget` is the number of bytes the writer accepts.
pub fn check_debug(
    what: &str,
    exp: &str,
    budget: Option<usize>,
    call: &mut dyn FnMut(&mut Writer) -> Res<fmt::Result>,
) {
    let mut w = Writer::new(budget);
    let r = call(&mut w);
    let c = cx();
    let faulted = c.fired || w.failed;
    c.tr(|| format!("  {what}: {:?} -> {:?}", r.as_ref().map_err(|_| "unwound"), w.buf));
    match r {
        Err(Unw::Panic(m)) => {
            c.viol("debug", format!("{what}: formatting panicked: {m}"));
        }
        Err(Unw::Fault) => {
            if !exp.starts_with(&w.buf) {
                c.viol("debug", format!("{what}: text before the panic {:?} is not a prefix of {:?}", w.buf, exp));
            }
        }
        Ok(Err(_)) => {
            if !faulted {
                c.viol("debug", format!("{what}: formatting failed although nothing did"));
            } else if !exp.starts_with(&w.buf) {
                c.viol("debug", format!("{what}: text before the failure {:?} is not a prefix of {:?}", w.buf, exp));
            }
        }
        Ok(Ok(())) => {
            if w.failed || (c.fired && matches!(c.fired_kind, F_FMTV | F_WRITE)) {
                c.viol("debug", format!("{what}: the failure was not reported (text {:?})", w.buf));
            } else if w.buf != exp {
                c.viol("debug", format!("{what}: text {:?}, expected {:?}", w.buf, exp));
            }
        }
    }
}

// ---------------------------------------------------------------- session

#[derive(Clone, Copy)]
pub struct SessCfg {
    pub what: &'static str,
    /// Class under which a wrong item is reported.
    pub class: &'static str,
    pub dbg: DbgKind,
    pub kf: KeyFmt,
    /// Values are handed over by the iterator.
    pub owned: bool,
    /// Items left when the iterator goes away are removed from the container.
    pub may_forget: bool,
    pub big: bool,
    /// Leave out adapters that allocate themselves.
    pub no_collect: bool,
}

#[derive(Default)]
pub struct SessOut {
    pub yielded: Vec<It>,
    pub faulted: bool,
    pub forgot: bool,
    /// An unexpected panic or a wrong item was seen: contents are unknown.
    pub lost: bool,
}

struct Cur<'a> {
    it: Box<dyn DynIter<'a> + 'a>,
    f: usize,
    b: usize,
    uf: usize,
    ub: usize,
    done: bool,
}

fn same(x: &It, m: &It) -> bool {
    x.k.is_none_or(|k| Some(k) == m.k) && x.v.is_none_or(|v| Some(v) == m.v)
}

/// Take `x` off one end of the items that are left; false when it cannot come now.
fn advance(items: &[It], f: &mut usize, b: &mut usize, uf: &mut usize, ub: &mut usize, back: bool, x: &It) -> bool {
    // Values may be indistinguishable (zero-sized): then several places may fit.
    let fits: Vec<usize> = if !back {
        (*f..=*f + *uf).filter(|&p| p < *b && same(x, &items[p])).collect()
    } else {
        (0..=*ub).filter(|&p| *f + p < *b && same(x, &items[*b - 1 - p])).collect()
    };
    let found = !fits.is_empty();
    if found {
        let (p, q) = (fits[0], fits[fits.len() - 1]);
        if !back {
            *f = p + 1;
            *uf = q - p;
        } else {
            *b = *b - 1 - p;
            *ub = q - p;
        }
    }
    *uf = (*uf).min(b.saturating_sub(*f));
    *ub = (*ub).min(b.saturating_sub(*f));
    found
}

thread_local!(static TOUCHED: std::cell::RefCell<Vec<It>> = const { std::cell::RefCell::new(Vec::new()) });
/// An adapter took this item from the iterator, whether or not it passed it on.
pub fn touch(x: It) {
    TOUCHED.with(|t| t.borrow_mut().push(x));
}
fn touched() -> Vec<It> {
    TOUCHED.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

/// Session script items: low byte selects the step, the rest is its argument.
pub fn session<'a>(it: Box<dyn DynIter<'a> + 'a>, items: &[It], script: &[u32], cfg: SessCfg) -> SessOut {
    let mut o = SessOut::default();
    let mut cur: Vec<Cur<'a>> = vec![Cur { it, f: 0, b: items.len(), uf: 0, ub: 0, done: false }];
    let mut act = 0;
    macro_rules! bad {
        ($($a:tt)*) => {{ o.lost = true; cx().viol(cfg.class, format!("{}: {}", cfg.what, format!($($a)*))); }};
    }
    macro_rules! unwound {
        ($u:expr, $what:expr) => {
            match $u {
                Unw::Fault => o.faulted = true,
                Unw::Panic(m) => {
                    if cx().fired && cx().fired_kind == F_BYZ {
                        o.faulted = true;
                    } else {
                        bad!("{} panicked: {}", $what, m);
                    }
                }
            }
        };
    }
    for &s in script {
        if cur.is_empty() || o.lost {
            break;
        }
        act %= cur.len();
        let code = s & 0xff;
        let arg = (s >> 8) as usize;
        let n = cur.len();
        let c = &mut cur[act];
        cx().ev(code as u64 + 300);
        match code % 20 {
            // front / back stepping
            0..=6 => {
                let back = matches!(code % 20, 1 | 3 | 5);
                let far = if arg & 0x700 == 0 { (arg >> 11) * 4 + arg % 5 } else { arg % 5 };
                let search = arg & 0x60 == 0;
                let (name, skip) = match code % 20 {
                    0 | 4 => ("next", 0),
                    1 | 5 => ("next_back", 0),
                    2 | 6 => (if search { "find" } else { "nth" }, far),
                    _ => (if search { "rfind" } else { "nth_back" }, far),
                };
                let r = match name {
                    "next" => c.it.next(),
                    "find" | "rfind" => c.it.find(skip, back),
                    "next_back" => c.it.next_back(),
                    "nth" => c.it.nth(skip),
                    _ => c.it.nth_back(skip),
                };
                cx().tr(|| format!("  #{act} {name}({skip}) -> {r:?}"));
                match r {
                    Ok(Some(x)) => {
                        cx().ev(x.k.map_or(0, |k| k as u64) + ((x.v.unwrap_or(0) as u64) << 20));
                        o.yielded.push(x);
                        // Position of the yielded item among those that may come now.
                        let (f0, b0) = (c.f, c.b);
                        if back {
                            c.b = c.b.saturating_sub(skip).max(c.f);
                        } else {
                            c.f = (c.f + skip).min(c.b);
                        }
                        let found = advance(items, &mut c.f, &mut c.b, &mut c.uf, &mut c.ub, back, &x);
                        if !found {
                            let e = if back {
                                b0.checked_sub(skip + 1).and_then(|p| items.get(p)).filter(|_| f0 + skip < b0)
                            } else {
                                items[..b0].get(f0 + skip)
                            };
                            bad!("{name}({skip}) yielded {x:?}, expected {e:?}");
                        }
                    }
                    Ok(None) => {
                        let left = (c.b - c.f) as isize - (c.uf + c.ub) as isize;
                        if left > skip as isize {
                            bad!("{name}({skip}) yielded nothing with {left} items left");
                        }
                        c.f = c.b;
                        c.uf = 0;
                        c.ub = 0;
                    }
                    Err(u) => {
                        unwound!(u, name);
                        if back {
                            c.ub = (c.ub + skip + 1).min(c.b - c.f);
                        } else {
                            c.uf = (c.uf + skip + 1).min(c.b - c.f);
                        }
                    }
                }
            }
            7 | 8 => {
                let max = c.b - c.f;
                let min = max.saturating_sub(c.uf + c.ub);
                match c.it.hint() {
                    Ok((lo, hi)) => {
                        cx().tr(|| format!("  #{act} size_hint -> ({lo}, {hi:?})"));
                        if lo > max || hi.is_some_and(|h| h < min) || hi.is_some_and(|h| h < lo) {
                            bad!("size_hint ({lo}, {hi:?}) with {min}..={max} items left");
                        }
                    }
                    Err(u) => unwound!(u, "size_hint"),
                }
                match c.it.len() {
                    Some(Ok(l)) => {
                        if l < min || l > max {
                            bad!("len {l} with {min}..={max} items left");
                        }
                    }
                    Some(Err(u)) => unwound!(u, "len"),
                    None => {}
                }
            }
            9 => {
                if n < 4 {
                    match c.it.fork() {
                        Some(Ok(it)) => {
                            let (f, b, uf, ub) = (c.f, c.b, c.uf, c.ub);
                            cx().tr(|| format!("  #{act} clone -> #{n}"));
                            cur.push(Cur { it, f, b, uf, ub, done: false });
                        }
                        Some(Err(u)) => unwound!(u, "clone"),
                        None => {}
                    }
                }
            }
            10 => act += 1 + arg,
            11 | 12 => {
                let alt = arg & 1 == 1;
                let exact = c.uf == 0 && c.ub == 0;
                if cfg.dbg != DbgKind::None && exact && !(cfg.big && c.b - c.f > 300) {
                    let exp = expected_text(cfg.dbg, cfg.kf, &items[c.f..c.b], alt);
                    let budget = if code % 20 == 12 { Some(arg / 2 % (exp.len() + 1)) } else { None };
                    let res = c.it.has_debug();
                    if res {
                        check_debug(cfg.what, &exp, budget.filter(|b| *b < exp.len()), &mut |w| {
                            c.it.debug(w, alt).unwrap()
                        });
                    }
                    if res && cx().fired {
                        o.faulted = true;
                        // Formats fully afterwards.
                        check_debug(cfg.what, &exp, None, &mut |w| {
                            cx().disarm();
                            cx().fired = false;
                            c.it.debug(w, alt).unwrap()
                        });
                    }
                }
            }
            13 => {
                let n = arg % 4 + 1;
                let back = arg & 64 != 0;
                let how = if back { 0 } else { arg >> 7 & 7 };
                let what = ["try_for_each", "position", "any", "all", "find_map"].get(how).unwrap_or(&"try_for_each");
                let mut got = Vec::new();
                let r = c.it.part(n, back, how, &mut |_, x| got.push(x));
                cx().tr(|| format!("  #{act} {what}(stop after {n}, back {back}) -> {got:?} {r:?}"));
                for x in &got {
                    o.yielded.push(*x);
                    cx().ev(x.k.map_or(0, |k| k as u64));
                    if !advance(items, &mut c.f, &mut c.b, &mut c.uf, &mut c.ub, back, x) {
                        bad!("{what} yielded {x:?} out of place");
                        break;
                    }
                }
                match r {
                    Ok(right) => {
                        if !right {
                            bad!("{what} told the wrong place after {} items", got.len());
                        }
                        if got.len() < n {
                            let left = (c.b - c.f) as isize - (c.uf + c.ub) as isize;
                            if left > 0 {
                                bad!("{what} ended with {left} items left");
                            }
                            c.f = c.b;
                            c.uf = 0;
                            c.ub = 0;
                        }
                    }
                    Err(u) => {
                        unwound!(u, what);
                        if back {
                            c.ub = (c.ub + 1).min(c.b - c.f);
                        } else {
                            c.uf = (c.uf + 1).min(c.b - c.f);
                        }
                    }
                }
            }
            14 | 15 | 16 => {
                // finish through an adapter
                let c = cur.remove(act);
                let mut kind = arg as u32 % N_FIN;
                if fin_needs_exact(kind) && c.it.len().is_none() {
                    kind %= 10;
                }
                if kind == 7 && cfg.no_collect {
                    kind = 0;
                }
                let a = (arg >> 8) % 6;
                let mut got: Vec<(usize, It)> = Vec::new();
                touched();
                let r = c.it.finish(kind, a, &mut |n, x| got.push((n, x)));
                cx().tr(|| {
                    let g: Vec<_> = got.iter().take(40).collect();
                    format!("  #{act} {}({a}) -> {g:?} {r:?}", FIN_NAMES[kind as usize])
                });
                o.yielded.extend(touched());
                for (_, x) in &got {
                    cx().ev(x.k.map_or(0, |k| k as u64) + 9);
                }
                match r {
                    Ok(()) => {
                        let mut ok = false;
                        'all: for df in 0..=c.uf {
                            for db in 0..=c.ub {
                                if c.f + df + db > c.b {
                                    continue;
                                }
                                let exp = reference(items[c.f + df..c.b - db].to_vec(), kind, a);
                                if exp.len() == got.len()
                                    && exp.iter().zip(&got).all(|(e, g)| {
                                        e.0 == g.0
                                            && (g.1.k.is_none() || g.1.k == e.1.k)
                                            && (g.1.v.is_none() || g.1.v == e.1.v)
                                    })
                                {
                                    ok = true;
                                    break 'all;
                                }
                            }
                        }
                        if !ok {
                            let exp = reference(items[c.f..c.b].to_vec(), kind, a);
                            bad!(
                                "{}({a}) gave {:?}, expected {:?}",
                                FIN_NAMES[kind as usize],
                                got.iter().take(12).collect::<Vec<_>>(),
                                exp.iter().take(12).collect::<Vec<_>>()
                            );
                        }
                    }
                    Err(u) => {
                        unwound!(u, FIN_NAMES[kind as usize]);
                        // Whatever was seen must be items of the remaining range, each once.
                        let mut used = vec![false; items.len()];
                        for (_, x) in got.iter().filter(|(_, x)| x.k.is_some() || x.v.is_some()).take(1000) {
                            match (c.f..c.b).find(|&p| !used[p] && same(x, &items[p])) {
                                Some(p) => used[p] = true,
                                None => {
                                    bad!("{} yielded {x:?} which is not left", FIN_NAMES[kind as usize]);
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            17 => {
                if arg % 3 == 0 {
                    let c = cur.remove(act);
                    if c.b > c.f {
                        cx().fired_total[F_ABANDON] += 1;
                    }
                    cx().tr(|| format!("  #{act} dropped"));
                    if let Err(u) = c.it.discard() {
                        unwound!(u, "drop");
                    }
                }
            }
            18 => {
                if cfg.may_forget && arg % 3 == 0 {
                    let c = cur.remove(act);
                    cx().tr(|| format!("  #{act} forgotten"));
                    cx().fired_total[F_FORGET] += 1;
                    o.forgot = true;
                    c.it.forget();
                }
            }
            _ => {
                // exhaust and look beyond the end
                if arg % 4 == 0 && !cfg.big {
                    let back = arg & 8 != 0;
                    let mut got = Vec::new();
                    let mut faulted = false;
                    c.done = false;
                    for _ in 0..items.len() + 3 {
                        match if back { c.it.next_back() } else { c.it.next() } {
                            Ok(Some(x)) => got.push(x),
                            Ok(None) => {
                                c.done = true;
                                break;
                            }
                            Err(u) => {
                                unwound!(u, "next");
                                faulted = true;
                                break;
                            }
                        }
                    }
                    o.yielded.extend_from_slice(&got);
                    cx().tr(|| format!("  #{act} exhaust(back {back}) -> {:?}", &got[..got.len().min(40)]));
                    if faulted {
                        // Items seen before the fault come off their end one by one.
                        for x in &got {
                            if !advance(items, &mut c.f, &mut c.b, &mut c.uf, &mut c.ub, back, x) {
                                bad!("exhausting yielded {x:?} out of place");
                                break;
                            }
                        }
                        if back {
                            c.ub = (c.ub + 1).min(c.b - c.f);
                        } else {
                            c.uf = (c.uf + 1).min(c.b - c.f);
                        }
                        continue;
                    }
                    if back {
                        got.reverse();
                    }
                    let fits = |df: usize, db: usize| {
                        c.f + df + db <= c.b && got.len() == c.b - c.f - df - db
                            && got.iter().zip(&items[c.f + df..]).all(|(g, m)| same(g, m))
                    };
                    if c.done && !(0..=c.uf).any(|df| (0..=c.ub).any(|db| fits(df, db))) {
                        bad!("exhausting gave {:?}, expected {:?}", &got[..got.len().min(12)],
                            &items[c.f..c.b.min(c.f + 12)]);
                    }
                    if c.done {
                        c.f = c.b;
                        c.uf = 0;
                        c.ub = 0;
                        for back in [false, true] {
                            let r = if back { c.it.next_back() } else { c.it.next() };
                            match r {
                                Ok(Some(x)) => bad!("yielded {x:?} after the end"),
                                Ok(None) => {}
                                Err(u) => unwound!(u, "next"),
                            }
                        }
                    } else {
                        bad!("did not end after {} items", items.len() + 3);
                    }
                }
            }
        }
    }
    while let Some(c) = cur.pop() {
        if c.b > c.f {
            cx().fired_total[F_ABANDON] += 1;
        }
        if let Err(u) = c.it.discard() {
            unwound!(u, "drop");
        }
    }
    o
}

