//! Deterministic simulation of ordinal-map: everything that does not depend on the library.

#![feature(alloc_error_hook)]
#![allow(clippy::all)]

pub mod cli;
pub mod comp;
pub mod core;
pub mod iters;
pub mod ops;
pub mod reg;
pub mod run;
#[cfg(feature = "conc")]
pub mod seam;
pub mod sets;
pub mod sparse;
pub mod total;

#[global_allocator]
static ALLOC: crate::core::Alloc = crate::core::Alloc;

/// End the run: what the library did leaves nothing to go on from.
pub fn give_up(msg: &str) -> ! {
    crate::core::cx().tr(|| format!("  run ended: {msg}"));
    std::panic::resume_unwind(Box::new(run::GiveUp))
}

/// Called when the library enters a key's own code (0: encode, 1: decode).
pub static mut ON_CALLBACK: Option<fn(u32)> = None;

#[inline]
pub fn hook_callback(kind: u32) {
    if let Some(f) = unsafe { ON_CALLBACK } {
        f(kind)
    }
}

/// Called when a value's own code reads or writes it: address, size, write.
pub static mut ON_VALUE: Option<fn(usize, usize, bool)> = None;

#[inline]
pub fn hook_value<T>(x: &T, write: bool) {
    if let Some(f) = unsafe { ON_VALUE } {
        f(x as *const T as usize, std::mem::size_of::<T>(), write)
    }
}

/// The simulator's entry point.
pub fn main(reg: run::Reg) {
    crate::core::install_hooks();
    run::set_reg(reg);
    cli::main();
}
