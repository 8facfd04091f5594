//! The C++/Rust memory model (RC11 with C++20 release sequences) as axioms over a finished
//! execution, with the orderings the caller asked for.

use crate::mem::*;

/// Runs after all others have ended.
pub const END: usize = 99;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ek {
    Read,
    Write,
    Rmw,
    Fence,
}

#[derive(Clone, Debug)]
pub struct Ev {
    /// None: the initial write.
    pub th: Option<usize>,
    pub kind: Ek,
    pub loc: usize,
    pub mo: i32,
    pub rval: u64,
    pub wval: u64,
    /// Place of the written value in the order of all values of the location, if one is known.
    pub pos: Option<u32>,
    /// Place of the value that was probably read.
    pub hint: Option<u32>,
    pub name: String,
}

#[derive(Clone)]
struct Rel(Vec<u64>);

impl Rel {
    fn new(n: usize) -> Rel {
        Rel(vec![0; n])
    }
    fn add(&mut self, a: usize, b: usize) {
        self.0[a] |= 1 << b;
    }
    fn has(&self, a: usize, b: usize) -> bool {
        self.0[a] >> b & 1 == 1
    }
    fn or(&self, o: &Rel) -> Rel {
        Rel(self.0.iter().zip(&o.0).map(|(a, b)| a | b).collect())
    }
    fn then(&self, o: &Rel) -> Rel {
        let mut r = Rel::new(self.0.len());
        for (a, row) in self.0.iter().enumerate() {
            let mut m = *row;
            while m != 0 {
                r.0[a] |= o.0[m.trailing_zeros() as usize];
                m &= m - 1;
            }
        }
        r
    }
    fn plus(&self) -> Rel {
        let mut r = self.clone();
        let n = r.0.len();
        for k in 0..n {
            for a in 0..n {
                if r.has(a, k) {
                    r.0[a] |= r.0[k];
                }
            }
        }
        r
    }
    fn opt(&self) -> Rel {
        let mut r = self.clone();
        for a in 0..r.0.len() {
            r.add(a, a);
        }
        r
    }
    fn cyclic(&self) -> Option<usize> {
        let p = self.plus();
        (0..p.0.len()).find(|&a| p.has(a, a))
    }
    fn filter(&self, f: impl Fn(usize, usize) -> bool) -> Rel {
        let mut r = Rel::new(self.0.len());
        for a in 0..self.0.len() {
            for b in 0..self.0.len() {
                if self.has(a, b) && f(a, b) {
                    r.add(a, b);
                }
            }
        }
        r
    }
}

pub enum Verdict {
    Allowed,
    Broken(String),
    /// Too many ways in which it might be explained.
    Open,
}

const TRIES: usize = 400;

/// Is there a way to say who read from whom, and in which order the values of each location
/// came, that the model allows? Values stored more than once leave a choice.
pub fn check(ev: &[Ev]) -> Verdict {
    let n = ev.len();
    assert!(n <= 64);
    let reads = |e: usize| matches!(ev[e].kind, Ek::Read | Ek::Rmw);
    let writes = |e: usize| matches!(ev[e].kind, Ek::Write | Ek::Rmw);
    let mut cands: Vec<Vec<usize>> = vec![vec![]; n];
    for r in (0..n).filter(|&r| reads(r)) {
        let mut ws: Vec<usize> =
            (0..n).filter(|&w| w != r && writes(w) && ev[w].kind != Ek::Fence && ev[w].loc == ev[r].loc && ev[w].wval == ev[r].rval).collect();
        if ws.is_empty() {
            return Verdict::Broken(format!("{} returns a value nobody stored", ev[r].name));
        }
        if let Some(i) = ws.iter().position(|&w| ev[w].pos.is_some() && ev[w].pos == ev[r].hint) {
            ws.swap(0, i);
        }
        cands[r] = ws;
    }
    // Orders of the values of each location: the known places, and all the others anywhere.
    let locs: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).filter(|&e| writes(e)).map(|e| ev[e].loc).collect();
        v.sort();
        v.dedup();
        v
    };
    let mut orders: Vec<Vec<Vec<usize>>> = Vec::new();
    for &l in &locs {
        let mut known: Vec<usize> = (0..n).filter(|&w| writes(w) && ev[w].loc == l && ev[w].pos.is_some()).collect();
        known.sort_by_key(|&w| ev[w].pos);
        if known.windows(2).any(|w| ev[w[0]].pos == ev[w[1]].pos) {
            return Verdict::Open;
        }
        let mut all = vec![known];
        for w in (0..n).filter(|&w| writes(w) && ev[w].loc == l && ev[w].pos.is_none()) {
            let mut next = Vec::new();
            for o in &all {
                for i in 1..=o.len() {
                    let mut x = o.clone();
                    x.insert(i, w);
                    next.push(x);
                }
            }
            all = next;
            if all.len() > TRIES {
                return Verdict::Open;
            }
        }
        orders.push(all);
    }
    let sizes: Vec<usize> = cands.iter().map(|c| c.len().max(1)).chain(orders.iter().map(|o| o.len())).collect();
    let mut idx = vec![0; sizes.len()];
    let mut first = None;
    for _ in 0..TRIES {
        let rf: Vec<Option<usize>> = (0..n).map(|r| cands[r].get(idx[r]).copied()).collect();
        let mut place = vec![0; n];
        for (l, o) in orders.iter().enumerate() {
            for (i, &w) in o[idx[n + l]].iter().enumerate() {
                place[w] = i;
            }
        }
        match explain(ev, &rf, &place) {
            None => return Verdict::Allowed,
            Some(m) => {
                first.get_or_insert(m);
            }
        }
        // The next combination.
        let Some(i) = (0..idx.len()).find(|&i| idx[i] + 1 < sizes[i]) else {
            return Verdict::Broken(first.unwrap());
        };
        idx[i] += 1;
        for x in &mut idx[..i] {
            *x = 0;
        }
    }
    Verdict::Open
}

/// None: the model allows the execution read this way.
fn explain(ev: &[Ev], rf: &[Option<usize>], place: &[usize]) -> Option<String> {
    let n = ev.len();
    let writes = |e: usize| matches!(ev[e].kind, Ek::Write | Ek::Rmw);
    let acc = |e: usize| ev[e].kind != Ek::Fence;
    let same = |a: usize, b: usize| acc(a) && acc(b) && ev[a].loc == ev[b].loc;
    let acq = |e: usize| is_acq(ev[e].mo) && ev[e].kind != Ek::Write;
    let rel = |e: usize| is_rel(ev[e].mo) && ev[e].kind != Ek::Read;

    let mut sb = Rel::new(n);
    for a in 0..n {
        for b in 0..n {
            let s = match (ev[a].th, ev[b].th) {
                (None, Some(_)) => true,
                (Some(x), Some(END)) if x != END => true,
                (Some(x), Some(y)) => x == y && a < b,
                _ => false,
            };
            if s {
                sb.add(a, b);
            }
        }
    }
    let mut hb = sb.clone();
    for r in 0..n {
        let Some(w) = rf[r] else { continue };
        let mut c = Some(w);
        let mut left = n;
        while let Some(x) = c {
            // Exchanges that read from each other in a circle.
            left -= 1;
            if left == 0 {
                return Some(format!("{} reads its own value", ev[r].name));
            }
            let mut src = vec![];
            if rel(x) {
                src.push(x);
            }
            src.extend((0..n).filter(|&f| ev[f].kind == Ek::Fence && rel(f) && sb.has(f, x)));
            let mut dst = vec![];
            if acq(r) {
                dst.push(r);
            }
            dst.extend((0..n).filter(|&f| ev[f].kind == Ek::Fence && acq(f) && sb.has(r, f)));
            for &a in &src {
                for &b in &dst {
                    if a != b {
                        hb.add(a, b);
                    }
                }
            }
            c = if ev[x].kind == Ek::Rmw { rf[x] } else { None };
        }
    }
    let hb = hb.plus();
    if let Some(a) = (0..n).find(|&a| hb.has(a, a)) {
        return Some(format!("{} happens before itself", ev[a].name));
    }
    // The order of the values of each location.
    let mut mo = Rel::new(n);
    for a in 0..n {
        for b in 0..n {
            if a != b && writes(a) && writes(b) && same(a, b) {
                if place[a] < place[b] {
                    mo.add(a, b);
                }
            }
        }
    }
    let mut rfr = Rel::new(n);
    let mut rb = Rel::new(n);
    for r in 0..n {
        let Some(w) = rf[r] else { continue };
        rfr.add(w, r);
        for x in 0..n {
            if x != r && mo.has(w, x) {
                rb.add(r, x);
            }
        }
    }
    let eco = mo.or(&rfr).or(&rb).plus();
    for a in 0..n {
        for b in 0..n {
            if hb.has(a, b) && eco.has(b, a) {
                return Some(format!("{} happens before {}, which comes earlier in the history of the value", ev[a].name, ev[b].name));
            }
        }
        if eco.has(a, a) {
            return Some(format!("{} goes back in the history of the value", ev[a].name));
        }
    }
    for u in 0..n {
        if ev[u].kind == Ek::Rmw {
            let w = rf[u].unwrap();
            if (0..n).any(|x| x != u && mo.has(w, x) && mo.has(x, u)) || !mo.has(w, u) {
                return Some(format!("{} is not atomic: another value comes between the one it read and the one it wrote", ev[u].name));
            }
        }
    }
    // Sequential consistency.
    let sc = |e: usize| ev[e].mo == SC;
    let fsc = |e: usize| sc(e) && ev[e].kind == Ek::Fence;
    let diff = sb.filter(|a, b| !same(a, b));
    let hbl = hb.filter(|a, b| same(a, b));
    let scb = sb.or(&diff.then(&hb).then(&diff)).or(&hbl).or(&mo).or(&rb);
    let hbq = hb.opt();
    let left = {
        let mut r = hbq.filter(|a, _| fsc(a));
        for e in 0..n {
            if sc(e) {
                r.add(e, e);
            }
        }
        r
    };
    let right = {
        let mut r = hbq.filter(|_, b| fsc(b));
        for e in 0..n {
            if sc(e) {
                r.add(e, e);
            }
        }
        r
    };
    let base = left.then(&scb).then(&right).filter(|a, b| sc(a) && sc(b));
    let psf = hb.or(&hb.then(&eco).then(&hb)).filter(|a, b| fsc(a) && fsc(b));
    if let Some(a) = base.or(&psf).cyclic() {
        return Some(format!("no single order of the sequentially consistent operations explains the values ({} is part of the cycle)", ev[a].name));
    }
    None
}
