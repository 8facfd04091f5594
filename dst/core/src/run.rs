//! One seed, one plan, one run.

use crate::comp::*;
use crate::core::*;
use crate::ops::*;
use crate::reg::*;
use crate::sets::*;
use crate::sparse::*;
use crate::total::*;

/// Worlds that live outside this crate.
pub trait Ext: Sync {
    fn is_world(&self, world: &str) -> bool;
    fn gen(&self, p: &Prop, world: &str, r: &mut Rng) -> Plan;
    /// Run, and return the scheduling decisions taken and the simulated time.
    fn exec(&self, p: &Prop, plan: &Plan) -> (Vec<u32>, u64);
    fn counts(&self) -> Vec<(&'static str, u64)>;
}

/// No more runs in this process (threads that can never finish have piled up).
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Reg {
    pub keys: Vec<KeyFac>,
    pub comps: Vec<CompFac>,
    pub ext: Option<&'static dyn Ext>,
}

static mut REG: Option<Reg> = None;
pub fn set_reg(r: Reg) {
    unsafe { REG = Some(r) }
}
#[allow(static_mut_refs)]
pub fn reg() -> &'static Reg {
    unsafe { REG.as_ref().unwrap() }
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(0xd57, seed);
    for b in prop.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, index)
}

fn pick_key(r: &mut Rng, p: &Prop, ok: &dyn Fn(&KeyFac) -> bool) -> usize {
    let want = if p.id == "C12" {
        Kind::Byz
    } else if r.chance(1, 60) {
        Kind::Large
    } else if r.chance(1, 50) {
        Kind::Mid
    } else {
        Kind::Small
    };
    let ks: Vec<usize> = (0..reg().keys.len()).filter(|&i| reg().keys[i].kind == want && ok(&reg().keys[i])).collect();
    if ks.is_empty() {
        return 0;
    }
    *r.pick(&ks)
}

/// cfg: key, variant, check percentage, seed of the world's own choices, misbehaviour
/// percentage, seed of the misbehaviour.
pub fn gen_plan(p: &Prop, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let w: Vec<usize> = p.worlds.iter().map(|x| x.1).collect();
    let world = p.worlds[r.weighted(&w)].0;
    if let Some(e) = reg().ext {
        if e.is_world(world) {
            return e.gen(p, world, &mut r);
        }
    }
    let seq = |r: &mut Rng| {
        vec![*r.pick(&[0, 10, 50, 100]), r.u64() >> 16, *r.pick(&[2, 5, 10, 30, 60]), r.u64() >> 16]
    };
    let (mut cfg, ops) = match world {
        "sparse" => {
            let k = pick_key(&mut r, p, &|k| !k.sparse.is_empty());
            let v = r.below(reg().keys[k].sparse.len());
            (vec![k as u64, v as u64], SparseWorld::gen(&mut r, p, reg().keys[k].n))
        }
        "total" => {
            // Every value is touched all the time, so that larger maps cost much more.
            let max = if r.chance(1, 2) { usize::MAX } else { 150 };
            let k = pick_key(&mut r, p, &|k| !k.total.is_empty() && k.n < max);
            let v = r.below(reg().keys[k].total.len());
            (vec![k as u64, v as u64], TotalWorld::gen(&mut r, p, reg().keys[k].n))
        }
        "set" => {
            let k = pick_key(&mut r, p, &|k| !k.sets.is_empty());
            let v = r.below(reg().keys[k].sets.len());
            (vec![k as u64, v as u64], SetWorld::gen(&mut r, p, reg().keys[k].n))
        }
        "values" => {
            let k = pick_key(&mut r, p, &|_| true);
            (vec![k as u64, 0], ValuesWorld::gen(&mut r, p, reg().keys[k].n))
        }
        "atomseq" => {
            let huge: Vec<usize> = (0..reg().keys.len()).filter(|&i| reg().keys[i].kind == Kind::Huge).collect();
            let k = if p.id != "C12" && r.chance(1, 12) { *r.pick(&huge) } else { pick_key(&mut r, p, &|_| true) };
            (vec![k as u64, 0], AtomWorld::gen(&mut r, p, reg().keys[k].n))
        }
        "comp" => {
            let k = pick_comp(&mut r, false);
            (vec![k as u64, 0], CompWorld::gen(&mut r, p, reg().comps[k].n))
        }
        "byzcomp" => {
            let k = pick_comp(&mut r, true);
            (vec![k as u64, 0], ByzCompWorld::gen(&mut r, p, reg().comps[k].n))
        }
        w => panic!("unknown world {w}"),
    };
    cfg.extend(seq(&mut r));
    Plan { world: world.to_owned(), cfg, ops, sched: vec![] }
}

fn pick_comp(r: &mut Rng, byz: bool) -> usize {
    let ks: Vec<usize> = (0..reg().comps.len()).filter(|&i| reg().comps[i].byz == byz).collect();
    *r.pick(&ks)
}

pub struct GiveUp;

pub struct Outcome {
    pub hash: u64,
    pub steps: u64,
    pub viols: Vec<Viol>,
    pub foreign: u64,
    pub trace: Vec<String>,
    pub states: Vec<u64>,
    /// Decisions taken (threaded worlds).
    pub sched: Vec<u32>,
    /// A fault fired or the run was nontrivial in another way.
    pub nontrivial: bool,
    pub time: u64,
}

pub fn exec_plan(p: &Prop, plan: &Plan, trace: bool) -> Outcome {
    reset_cx(p.own, trace);
    let before = cx().fired_total;
    let mut sched = Vec::new();
    let mut time = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if let Some(e) = reg().ext {
            if e.is_world(&plan.world) {
                (sched, time) = e.exec(p, plan);
                return;
            }
        }
        let g = |i: usize| plan.cfg.get(i).copied().unwrap_or(0);
        let k = g(0) as usize;
        let comp = matches!(plan.world.as_str(), "comp" | "byzcomp");
        if if comp { reg().comps[k].byz } else { reg().keys[k].kind == Kind::Byz } {
            cx().byz_pct = g(4) as usize;
            cx().byz = Some(Rng::new(g(5)));
        }
        let name = if comp { reg().comps[k].name } else { reg().keys[k].name };
        cx().tr(|| format!("{} over {name}, variant {}", plan.world, g(1)));
        let v = g(1) as usize;
        let pct = g(2) as usize;
        let mut w: Box<dyn World> = match plan.world.as_str() {
            "sparse" => Box::new(SparseWorld::new(reg().keys[k].sparse[v], *p, g(3), pct)),
            "total" => Box::new(TotalWorld::new(reg().keys[k].total[v], *p, g(3), pct)),
            "set" => Box::new(SetWorld::new(reg().keys[k].sets[v], *p, g(3), pct)),
            "values" => Box::new(ValuesWorld { fac: reg().keys[k].values, p: *p }),
            "atomseq" => Box::new(AtomWorld::new(reg().keys[k].atom, *p)),
            "comp" => Box::new(CompWorld::new(reg().comps[k], *p)),
            "byzcomp" => Box::new(ByzCompWorld::new(reg().comps[k])),
            w => panic!("unknown world {w}"),
        };
        for op in &plan.ops {
            w.exec(op);
            if !cx().viols.is_empty() {
                // The rest of the run follows from a state that is already wrong.
                std::mem::forget(w);
                return;
            }
        }
        w.finish();
    }));
    cx().disarm();
    if let Err(e) = r {
        if !e.is::<GiveUp>() {
            let m = take_last_panic();
            // The harness itself never panics while the library answers what it should.
            let class = p.own[0];
            cx().viol(class, format!("the answers of the library cannot be followed: {m}"));
        }
    }
    let c = cx();
    let nontrivial = c.fired_total.iter().zip(&before).any(|(a, b)| a != b) || plan.ops.len() > 1;
    Outcome {
        hash: c.hash,
        steps: c.steps,
        viols: std::mem::take(&mut c.viols),
        foreign: c.foreign,
        trace: c.trace.take().unwrap_or_default(),
        states: std::mem::take(&mut c.states),
        sched,
        nontrivial,
        time,
    }
}
