#[path = "keys.rs"]
pub mod keys;
#[path = "sets.rs"]
pub mod sets;
#[path = "sparse.rs"]
pub mod sparse;
#[path = "total.rs"]
pub mod total;
#[path = "w.rs"]
pub mod w;
#[macro_use]
#[path = "fac.rs"]
pub mod fac;
