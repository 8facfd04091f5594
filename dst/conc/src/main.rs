//! Deterministic simulation of ordinal-map: worlds with many threads.

mod atomic;
mod lin;
mod mem;
mod rc11;
mod shared;
mod sim;
mod traits;
mod weak;

use dstcore::core::*;
use dstcore::ops::*;
use dstcore::run::*;

extern "C" {
    fn dst_pin(cpu: i32) -> i64;
}

struct Threads;

impl Ext for Threads {
    fn is_world(&self, w: &str) -> bool {
        matches!(w, "atomic" | "stall" | "weak" | "shared")
    }
    fn gen(&self, p: &Prop, world: &str, r: &mut Rng) -> Plan {
        match world {
            "weak" => weak::gen(p, world, r),
            "shared" => shared::gen(p, world, r),
            _ => atomic::gen(p, world, r),
        }
    }
    fn exec(&self, p: &Prop, plan: &Plan) -> (Vec<u32>, u64) {
        match plan.world.as_str() {
            "weak" => weak::exec(p, plan),
            "shared" => shared::exec(p, plan),
            _ => atomic::exec(p, plan),
        }
    }
    fn counts(&self) -> Vec<(&'static str, u64)> {
        sim::counts()
    }
}

fn main() {
    // One thread runs at a time: a hand-over is cheapest on one processor.
    let a: Vec<String> = std::env::args().collect();
    let mut h = std::process::id() as usize;
    if let Some(i) = a.iter().position(|x| x == "--start") {
        if let Some(v) = a.get(i + 1).and_then(|x| x.parse::<usize>().ok()) {
            h = v;
        }
    }
    unsafe { dst_pin((h % 1024) as i32) };
    unsafe { dstcore::ON_CALLBACK = Some(atomic::on_callback) };
    unsafe { dstcore::ON_VALUE = Some(shared::on_value) };
    let mut keys = Vec::new();
    let mut comps = Vec::new();
    keys.extend(b0::keys());
    comps.extend(b0::comps());
    keys.extend(b1::keys());
    comps.extend(b1::comps());
    keys.extend(b2::keys());
    comps.extend(b2::comps());
    keys.extend(b3::keys());
    comps.extend(b3::comps());
    keys.extend(b4::keys());
    comps.extend(b4::comps());
    keys.extend(b5::keys());
    comps.extend(b5::comps());
    keys.extend(b6::keys());
    comps.extend(b6::comps());
    dstcore::main(dstcore::run::Reg { keys, comps, ext: Some(&Threads) });
}
