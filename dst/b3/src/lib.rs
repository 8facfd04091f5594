//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Small, Result<Probe<64>, Probe<63>>, 127),
        key!(Small, Either<Probe<64>, Box<Probe<64>>>, 128),
        key!(Small, Either<[bool; 7], Probe<1>>, 129),
    ];
    v.extend(plains![
        Small [bool; 7],
        Small NonZeroU8,
        Small NonZeroI8,
        Large NonZeroU16,
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        Mixed<Box<P<2>>, (P<2>, P<2>)>,
        Mixed<Mixed<P<2>, P<1>>, St<P<1>, P<2>>>,
        Infallible,
        Option<Infallible>,
        Result<P<3>, Infallible>,
        Result<Infallible, P<3>>,
        (P<2>, Infallible),
        [Infallible; 0],
    ]
}
