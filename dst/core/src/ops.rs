//! Operations, runs and what each property's check looks at.

use crate::core::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub code: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub fault: Option<(usize, u32)>,
    pub script: Vec<u32>,
}

impl Op {
    pub fn to_line(&self) -> String {
        let f = match self.fault {
            None => "-".to_owned(),
            Some((k, n)) => format!("{}@{}", FAULT_NAMES[k], n),
        };
        let s: Vec<String> = self.script.iter().map(|x| x.to_string()).collect();
        format!("op {} {} {} {} {} {}", self.code, self.a, self.b, self.c, f, s.join(",")).trim_end().to_owned()
    }
    pub fn parse(line: &str) -> Op {
        let p: Vec<&str> = line.split_whitespace().collect();
        let u = |i: usize| p[i].parse::<u32>().unwrap();
        Op {
            code: u(1),
            a: u(2),
            b: u(3),
            c: u(4),
            fault: if p[5] == "-" {
                None
            } else {
                let (k, n) = p[5].split_once('@').unwrap();
                Some((FAULT_NAMES.iter().position(|x| *x == k).unwrap(), n.parse().unwrap()))
            },
            script: p.get(6).map_or(Vec::new(), |s| s.split(',').map(|x| x.parse().unwrap()).collect()),
        }
    }
}

/// One simulated run, fully described.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub world: String,
    /// Key type, value type, container and other parameters of the world.
    pub cfg: Vec<u64>,
    pub ops: Vec<Op>,
    /// Recorded scheduling decisions (threaded worlds).
    pub sched: Vec<u32>,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = format!("world {}\n", self.world);
        let c: Vec<String> = self.cfg.iter().map(|x| x.to_string()).collect();
        s += &format!("cfg {}\n", c.join(" "));
        for o in &self.ops {
            s += &o.to_line();
            s.push('\n');
        }
        if !self.sched.is_empty() {
            let c: Vec<String> = self.sched.iter().map(|x| x.to_string()).collect();
            s += &format!("sched {}\n", c.join(" "));
        }
        s
    }
    pub fn parse(text: &str) -> Plan {
        let mut p = Plan::default();
        for l in text.lines() {
            let nums = |l: &str| l.split_whitespace().skip(1).map(|x| x.parse::<u64>().unwrap()).collect::<Vec<_>>();
            match l.split_whitespace().next() {
                Some("world") => p.world = l.split_whitespace().nth(1).unwrap().to_owned(),
                Some("cfg") => p.cfg = nums(l),
                Some("op") => p.ops.push(Op::parse(l)),
                Some("sched") => p.sched = nums(l).into_iter().map(|x| x as u32).collect(),
                _ => {}
            }
        }
        p
    }
}

/// What a check of one property looks at.
#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    /// Mismatch classes that violate this property.
    pub own: &'static [&'static str],
    /// Worlds with weights.
    pub worlds: &'static [(&'static str, usize)],
    pub faults: &'static [usize],
    /// Expected contents are re-read from the container instead of taken from the model.
    pub resync: bool,
    /// Share of iterator / formatting / construction operations (percent bias).
    pub focus: Focus,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    All,
    Iter,
    Build,
    Debug,
    Comp,
}

const ALL_FAULTS: &[usize] = &[
    F_ORD, F_FROM, F_CLONE, F_DEFAULT, F_DROP, F_CB, F_ERR, F_SRC, F_EOF, F_FMTV, F_FMTP, F_WRITE, F_ALLOC,
];

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", own: &["lin"], worlds: &[("atomic", 1)], faults: &[F_ORD, F_FROM, F_STALL, F_FMTV, F_FMTP], resync: false, focus: Focus::All },
    Prop { id: "C02", own: &["order"], worlds: &[("weak", 1)], faults: &[], resync: false, focus: Focus::All },
    Prop { id: "C03", own: &["progress"], worlds: &[("stall", 1)], faults: &[F_ORD, F_FROM, F_STALL], resync: false, focus: Focus::All },
    Prop { id: "C04", own: &["sparse", "iter", "build", "mem"], worlds: &[("sparse", 1)], faults: ALL_FAULTS, resync: false, focus: Focus::All },
    Prop { id: "C05", own: &["total", "iter", "build", "mem"], worlds: &[("total", 1)], faults: ALL_FAULTS, resync: false, focus: Focus::All },
    Prop { id: "C06", own: &["set", "iter", "build", "mem"], worlds: &[("set", 1)], faults: ALL_FAULTS, resync: false, focus: Focus::All },
    Prop { id: "C07", own: &["iter", "mem"], worlds: &[("sparse", 5), ("total", 4), ("set", 2), ("values", 1)], faults: &[F_FROM, F_ORD, F_CLONE, F_DROP], resync: true, focus: Focus::Iter },
    Prop { id: "C08", own: &["drop", "mem"], worlds: &[("sparse", 4), ("total", 4), ("set", 1), ("comp", 1)], faults: ALL_FAULTS, resync: true, focus: Focus::All },
    Prop { id: "C09", own: &["build", "mem"], worlds: &[("total", 4), ("sparse", 2), ("set", 1)], faults: ALL_FAULTS, resync: true, focus: Focus::Build },
    Prop { id: "C10", own: &["alloc"], worlds: &[("sparse", 4), ("total", 3), ("set", 3), ("values", 1), ("atomseq", 1)], faults: &[F_ALLOC, F_OUTAGE], resync: true, focus: Focus::All },
    Prop { id: "C11", own: &["shared"], worlds: &[("shared", 1)], faults: &[], resync: false, focus: Focus::All },
    Prop { id: "C12", own: &["mem", "drop"], worlds: &[("sparse", 4), ("total", 4), ("set", 3), ("values", 1), ("atomseq", 1), ("byzcomp", 2)], faults: &[], resync: true, focus: Focus::All },
    Prop { id: "C13", own: &["debug"], worlds: &[("sparse", 4), ("total", 4), ("set", 3), ("values", 3), ("atomseq", 2)], faults: &[F_FMTV, F_FMTP, F_WRITE, F_FROM, F_ORD], resync: true, focus: Focus::Debug },
    Prop { id: "C14", own: &["comp", "drop", "mem"], worlds: &[("comp", 1)], faults: &[F_ORD, F_FROM, F_ALLOC], resync: false, focus: Focus::Comp },
];

impl Prop {
    /// The class of a value or key that leaked or was lost in an operation: a construction or
    /// transformation that leaves values behind was not all-or-nothing.
    pub fn ledger_class(&self, op: &str) -> &'static str {
        const BUILDS: &[&str] =
            &["clone", "from_iter", "try_new", "new", "default", "map", "zip", "as_ref", "as_mut", "all"];
        if self.id == "C09" && BUILDS.contains(&op) {
            "build"
        } else {
            "drop"
        }
    }
}

pub fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"))
}

pub trait World {
    fn exec(&mut self, op: &Op);
    /// Checks at the end of a run.
    fn finish(&mut self);
}

/// Number of the call at which a fault fires.
pub fn gen_nth(r: &mut Rng, n: usize) -> u32 {
    (match r.below(10) {
        0..=3 => r.below(3),
        4..=5 => r.below(10),
        // the last calls
        6 => (n + 1).saturating_sub(r.below(5)),
        _ => r.below(n.clamp(1, 300) + 2),
    }) as u32
}

pub fn gen_script(r: &mut Rng, max: usize) -> Vec<u32> {
    let len = match r.below(8) {
        0 => 0,
        1..=4 => r.below(8),
        _ => r.below(max),
    };
    (0..len).map(|_| r.below(256) as u32 | (r.below(1 << 16) as u32) << 8).collect()
}

/// Weights of a run's operations: some operations are left out altogether.
pub fn swarm(r: &mut Rng, base: &[usize]) -> Vec<usize> {
    let mut w: Vec<usize> =
        base.iter().map(|&b| if r.chance(1, 4) { 0 } else { b * (1 + r.below(4)) }).collect();
    if w.iter().sum::<usize>() == 0 {
        w = base.to_vec();
    }
    w
}

/// Keys used in a run: word and range boundaries and a few random ones.
pub fn key_pool(r: &mut Rng, n: usize) -> Vec<u32> {
    if n == 0 {
        return vec![0];
    }
    if n <= 12 && r.chance(1, 2) {
        return (0..n as u32).collect();
    }
    let mut p = Vec::new();
    for _ in 0..2 + r.below(10) {
        let k = match r.below(4) {
            0 => *r.pick(&[0, n - 1, n / 2, n.saturating_sub(2)]),
            1 => *r.pick(&[62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 255]),
            _ => r.below(n),
        };
        p.push((k % n) as u32);
    }
    p
}
