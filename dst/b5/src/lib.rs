//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Byz, Byz<5>, 5, s64, vals),
        key!(Byz, Byz<64>, 64, s64),
        key!(Small, Result<Probe<60>, Probe<3>>, 63, s64),
    ];
    v.extend(plains![
        Small Tup<Probe<2>, bool>,
        Small Option<Infallible>,
        Byz Byz<33>,
        Huge u32,
        Huge i32,
        Huge (i32, bool),
        Huge (bool, u32),
        Huge (u16, u16, u16),
        Huge NonZeroU64,
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        (P<2>, P<1>, P<2>, P<1>, P<2>, P<1>, P<2>, P<1>),
        (P<2>, P<2>, P<2>, P<2>, P<1>, P<1>, P<2>, P<2>, P<2>),
        (P<2>, P<2>, P<2>, P<2>, P<1>, P<1>, P<2>, P<2>, P<2>, P<1>, P<1>, P<2>),
        T16<P<2>, P<1>>,
        T16<P<1>, P<2>>,
        (i32, u16, P<2>),
        (NonZeroU64,),
        Box<NonZeroI64>,
        (NonZeroI16, NonZeroI8, P<2>),
        [NonZeroU16; 3],
        (bool, std::cmp::Ordering, P<2>),
        (i16, NonZeroU8, bool, ()),
        [NonZeroUsize; 1],
    ]
}
