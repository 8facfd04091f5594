//! Deterministic simulation of ordinal-map: worlds with one thread.

fn main() {
    let mut keys = Vec::new();
    let mut comps = Vec::new();
    keys.extend(b0::keys());
    comps.extend(b0::comps());
    keys.extend(b1::keys());
    comps.extend(b1::comps());
    keys.extend(b2::keys());
    comps.extend(b2::comps());
    keys.extend(b3::keys());
    comps.extend(b3::comps());
    keys.extend(b4::keys());
    comps.extend(b4::comps());
    keys.extend(b5::keys());
    comps.extend(b5::comps());
    keys.extend(b6::keys());
    comps.extend(b6::comps());
    dstcore::main(dstcore::run::Reg { keys, comps, ext: None });
}
