//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Small, Probe<1>, 1, s64),
        key!(Small, E5, 5, s64),
        key!(Small, Probe<33>, 33, s64),
        key!(Small, Option<Probe<1>>, 2, s64),
    ];
    v.extend(plains![
        Small (),
        Small std::cmp::Ordering,
        Small Disc,
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        (P<2>, P<3>, bool, P<2>, P<4>),
        (P<2>, P<2>, P<2>, P<2>, P<2>, P<2>),
        Option<P<3>>,
        Option<Option<P<2>>>,
        Result<P<2>, P<3>>,
        Result<Option<P<2>>, (P<2>, P<2>)>,
        Either<P<2>, P<3>>,
        Either<[P<2>; 2], Box<P<3>>>,
        Box<P<4>>,
        Box<Box<P<2>>>,
        [Box<P<2>>; 3],
    ]
}
