//! Composite keys whose components fail on demand.

use crate::core::*;
use crate::iters::*;
use crate::ops::*;
use crate::sparse::gen_ops;

pub trait KeyDyn {
    fn idx(&self) -> usize;
    fn encode(&self) -> Res<usize>;
}

#[derive(Clone, Copy)]
pub struct CompFac {
    pub name: &'static str,
    pub decode: fn(usize) -> Res<Option<Box<dyn KeyDyn>>>,
    pub make: fn(usize) -> Box<dyn KeyDyn>,
    pub values: fn() -> Res<Box<dyn DynIter<'static>>>,
    pub size: usize,
    pub n: usize,
    pub kf: KeyFmt,
    pub key_allocs: bool,
    /// Components misbehave.
    pub byz: bool,
}

pub const C_OPS: &[&str] = &["decode", "encode", "decode_outside", "values_all", "drop_one", "round_trip"];
pub const C_W: [usize; 6] = [10, 6, 4, 3, 2, 3];

fn c_faults(code: u32) -> &'static [usize] {
    match C_OPS[code as usize] {
        "decode" | "decode_outside" => &[F_FROM, F_FROM, F_FROM, F_ALLOC],
        "encode" => &[F_ORD],
        "values_all" => &[F_FROM, F_ALLOC],
        "round_trip" => &[F_FROM, F_ORD],
        _ => &[],
    }
}

pub struct CompWorld {
    fac: CompFac,
    p: Prop,
    kept: Vec<(Box<dyn KeyDyn>, usize, i64)>,
}

impl CompWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        let mut ops = gen_ops(r, p, n.min(60_000), C_OPS, &C_W, c_faults);
        for o in &mut ops {
            // Most of the faults of composite keys are in the first few components.
            if let Some((k, nth)) = &mut o.fault {
                if *k != F_ALLOC && r.chance(3, 4) {
                    *nth = r.below(7) as u32;
                }
            }
        }
        ops
    }
    pub fn new(fac: CompFac, p: Prop) -> CompWorld {
        if fac.size != fac.n {
            cx().viol("comp", format!("{}: declared size {}, expected {}", fac.name, fac.size, fac.n));
        }
        CompWorld { fac, p, kept: Vec::new() }
    }
    fn ledger(&mut self, what: &str) {
        let exp: i64 = self.kept.iter().map(|x| x.2).sum();
        let k = cx().klive;
        if k != exp {
            cx().viol("drop", format!("after {what}: {k} key components alive, expected {exp}"));
            cx().klive = exp;
        }
    }
    fn tokens(&self, i: usize) -> i64 {
        let a = cx().klive;
        let k = (self.fac.make)(i);
        let b = cx().klive;
        drop(k);
        b - a
    }
    /// Decoding with a fault active, and once more without.
    fn decode(&mut self, num: usize, keep: bool) {
        let n = self.fac.n;
        let toks = if num < n { self.tokens(num) } else { 0 };
        let r = (self.fac.decode)(num);
        let unwound = r.is_err();
        let oom = ALLOC_FAILED.get() > 0;
        self.judge(num, r, toks, keep);
        cx().disarm();
        self.ledger("decoding");
        if unwound {
            if oom && !self.fac.key_allocs {
                cx().viol("comp", format!("decoding {num} needs memory"));
            }
            let r = (self.fac.decode)(num);
            if let Err(u) = &r {
                cx().viol("comp", format!("decoding {num} again unwound: {u:?}"));
            }
            self.judge(num, r, toks, false);
            self.ledger("decoding again");
        }
    }
    fn judge(&mut self, num: usize, r: Res<Option<Box<dyn KeyDyn>>>, toks: i64, keep: bool) {
        let n = self.fac.n;
        match r {
            Ok(None) => {
                if num < n {
                    cx().viol("comp", format!("decoding {num} gives nothing, size is {n}"));
                }
            }
            Ok(Some(k)) => {
                let i = k.idx();
                cx().tr(|| format!("  decoded key {i}"));
                if num >= n {
                    cx().viol("comp", format!("decoding {num} gives key {i}, size is {n}"));
                } else if i != num {
                    cx().viol("comp", format!("decoding {num} gives the key for {i}"));
                }
                if keep && self.kept.len() < 6 && num < n {
                    self.kept.push((k, num, toks));
                }
            }
            Err(Unw::Fault) => {}
            Err(Unw::Panic(m)) => cx().viol("comp", format!("decoding {num} panicked: {m}")),
        }
    }
    fn encode(&mut self, fresh: Option<usize>, which: usize) {
        let made;
        let (k, i) = match fresh {
            Some(i) => {
                made = (self.fac.make)(i);
                (&made, i)
            }
            None => {
                let x = &self.kept[which];
                (&x.0, x.1)
            }
        };
        for round in 0..2 {
            match k.encode() {
                Ok(o) => {
                    if o != i {
                        cx().viol("comp", format!("encoding key {i} gives {o}"));
                    }
                }
                Err(Unw::Fault) if round == 0 => {}
                Err(u) => cx().viol("comp", format!("encoding key {i} unwound: {u:?}")),
            }
            if round == 0 && !cx().fired {
                break;
            }
            cx().disarm();
        }
        if k.idx() != i {
            cx().viol("comp", format!("encoding changed key {i}"));
        }
    }
}

impl World for CompWorld {
    fn exec(&mut self, op: &Op) {
        let name = C_OPS[op.code as usize % C_OPS.len()];
        let n = self.fac.n;
        let i = if n == 0 {
            0
        } else if op.c & 1 == 0 || n > 60_000 && op.c & 6 == 0 {
            (op.a as usize).wrapping_mul(if n > 60_000 { 0x9e37_79b9_7f4a_7c15 } else { 1 }) % n
        } else {
            op.a as usize % n
        };
        cx().ev(op.code as u64 + 700);
        cx().ev(i as u64);
        let f = self.fac;
        cx().tr(|| format!("{name} {i} {} c {:x} fault {:?}", f.name, op.c, op.fault.map(|f| (FAULT_NAMES[f.0], f.1))));
        cx().arm(op.fault);
        match name {
            "decode" if n > 0 => self.decode(i, op.c & 0x30 == 0),
            "decode_outside" => {
                let num = match (op.c >> 8) % 10 {
                    0 => Some(n),
                    1 => n.checked_add(1),
                    2 => Some(usize::MAX),
                    3 => Some(usize::MAX - (op.a as usize % 300)),
                    4 => n.checked_mul(2 + (op.c >> 12) as usize % 9),
                    5 => n.checked_add(op.a as usize),
                    // Numbers that are in range again once cut to fewer bits.
                    6 => Some((1usize << [8, 16, 31, 32, 33, 40, 48, 63][(op.c >> 12) as usize % 8]) + op.a as usize),
                    7 => n.checked_mul(1 << 32).map(|x| x + op.a as usize),
                    8 => Some((1usize << 32) * (1 + (op.c >> 12) as usize % 300) + i % (1 << 32)),
                    _ => Some((op.c as usize).wrapping_mul(0x9e37_79b9_7f4a_7c15)),
                };
                if let Some(num) = num.filter(|x| *x >= n) {
                    self.decode(num, false);
                }
            }
            "encode" if n > 0 => {
                let which = op.b as usize;
                if which < self.kept.len() {
                    self.encode(None, which);
                } else {
                    self.encode(Some(i), 0);
                }
            }
            "round_trip" if n > 0 => {
                let toks = self.tokens(i);
                let mut r = (f.decode)(i);
                if r.is_err() {
                    cx().disarm();
                    r = (f.decode)(i);
                }
                match r {
                    Ok(Some(k)) => {
                        let mut e = k.encode();
                        if let Err(Unw::Fault) = e {
                            cx().disarm();
                            e = k.encode();
                        }
                        if !matches!(e, Ok(o) if o == i) {
                            cx().viol("comp", format!("key decoded from {i} encodes to {e:?}"));
                        }
                        if self.kept.len() < 6 && op.c & 0x30 == 0 {
                            self.kept.push((k, i, toks));
                        }
                    }
                    r => cx().viol("comp", format!("decoding {i} gives {:?}", r.map(|_| "nothing"))),
                }
            }
            "values_all" if n <= 1000 => {
                let items: Vec<It> = (0..n).map(|k| It { k: Some(k), v: None }).collect();
                let cfg = SessCfg {
                    what: "all_values",
                    class: "comp",
                    dbg: DbgKind::None,
                    kf: f.kf,
                    owned: false,
                    may_forget: false,
                    big: false,
                    no_collect: true,
                };
                match (f.values)() {
                    Ok(it) => {
                        session(it, &items, &op.script, cfg);
                    }
                    Err(u) => cx().viol("comp", format!("all_values() unwound: {u:?}")),
                }
            }
            "drop_one" => {
                if !self.kept.is_empty() {
                    let x = self.kept.remove(op.a as usize % self.kept.len());
                    if x.0.idx() != x.1 {
                        cx().viol("comp", format!("kept key {} became {}", x.1, x.0.idx()));
                    }
                }
            }
            _ => {}
        }
        cx().disarm();
        self.ledger(name);
        let c = cx();
        let h = mix(mix(self.kept.len() as u64, n as u64), mix(c.cnt[F_FROM] as u64, c.fired_kind as u64 * 2 + c.fired as u64));
        c.states.push(h);
        let _ = self.p;
    }
    fn finish(&mut self) {
        while let Some(x) = self.kept.pop() {
            if x.0.idx() != x.1 {
                cx().viol("comp", format!("kept key {} became {}", x.1, x.0.idx()));
            }
        }
        self.ledger("the end");
    }
}

// ---------------------------------------------------------------- misbehaving components

/// Composite keys of components that misbehave: any answer is right, as long as every component
/// is alive exactly as long as the key it belongs to.
pub struct ByzCompWorld {
    fac: CompFac,
    kept: Vec<Box<dyn KeyDyn>>,
}

pub const B_OPS: &[&str] = &["decode", "encode", "drop_one", "values_all"];
pub const B_W: [usize; 4] = [10, 4, 4, 3];

impl ByzCompWorld {
    pub fn gen(r: &mut Rng, p: &Prop, n: usize) -> Vec<Op> {
        gen_ops(r, p, n, B_OPS, &B_W, |_| &[])
    }
    pub fn new(fac: CompFac) -> ByzCompWorld {
        ByzCompWorld { fac, kept: Vec::new() }
    }
    /// The number of live components must not have changed.
    fn same(&self, before: i64, what: &str) {
        let k = cx().klive;
        if k != before {
            cx().viol("drop", format!("after {what}: {k} key components alive, expected {before}"));
            cx().klive = before;
        }
    }
}

impl World for ByzCompWorld {
    fn exec(&mut self, op: &Op) {
        let name = B_OPS[op.code as usize % B_OPS.len()];
        let f = self.fac;
        let n = f.n;
        cx().ev(op.code as u64 + 800);
        cx().tr(|| format!("{name} {} {} c {:x}", f.name, op.a, op.c));
        let before = cx().klive;
        match name {
            "decode" => {
                let num = match op.c & 15 {
                    0 => n,
                    1 => usize::MAX,
                    2 => op.a as usize,
                    _ => op.a as usize % n.max(1),
                };
                match (f.decode)(num) {
                    Ok(Some(k)) => {
                        let i = k.idx();
                        cx().ev(i as u64);
                        cx().tr(|| format!("  gives a key ({i})"));
                        if self.kept.len() < 6 && op.c & 0x30 != 0 {
                            self.kept.push(k);
                        } else {
                            drop(k);
                            self.same(before, "decoding and dropping");
                        }
                    }
                    Ok(None) => {
                        cx().tr(|| "  gives nothing".to_owned());
                        self.same(before, "decoding to nothing")
                    }
                    Err(_) => {
                        cx().tr(|| "  panics".to_owned());
                        self.same(before, "a panic while decoding")
                    }
                }
            }
            "encode" if n > 0 => {
                if self.kept.is_empty() {
                    let k = (f.make)(op.a as usize % n);
                    let _ = k.encode();
                    cx().ev(k.idx() as u64);
                } else {
                    let k = &self.kept[op.b as usize % self.kept.len()];
                    let _ = k.encode();
                    cx().ev(k.idx() as u64);
                }
                self.same(before, "encoding");
            }
            "drop_one" if !self.kept.is_empty() => {
                let k = self.kept.remove(op.a as usize % self.kept.len());
                cx().ev(k.idx() as u64);
            }
            "values_all" => {
                let items: Vec<It> = (0..n).map(|k| It { k: Some(k), v: None }).collect();
                let cfg = SessCfg {
                    what: "all_values",
                    class: "foreign",
                    dbg: DbgKind::None,
                    kf: f.kf,
                    owned: false,
                    may_forget: false,
                    big: false,
                    no_collect: true,
                };
                if let Ok(it) = (f.values)() {
                    session(it, &items, &op.script, cfg);
                }
                self.same(before, "iterating over all values");
            }
            _ => {}
        }
        let c = cx();
        let h = mix(mix(self.kept.len() as u64, n as u64), mix(c.klive as u64, op.code as u64));
        c.states.push(h);
    }
    fn finish(&mut self) {
        while let Some(k) = self.kept.pop() {
            cx().ev(k.idx() as u64);
        }
        self.same(0, "the end");
    }
}
