//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Small, Probe<7>, 7, s64, vals),
        key!(Small, Infallible, 0, s64),
        key!(Small, Either<u8, Probe<44>>, 300),
        key!(Mid, (Probe<8>, Probe<125>), 1000),
    ];
    v.extend(plains![
        Small bool,
        Small Option<bool>,
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        P<3>,
        [P<3>; 0],
        [P<3>; 1],
        [P<3>; 2],
        [P<2>; 5],
        [[P<2>; 3]; 2],
        (P<3>,),
        (P<2>, P<3>),
        (P<2>, P<3>, P<4>),
        (P<2>, P<1>, P<3>, P<2>),
        (P<2>, P<2>, bool, P<1>, Box<P<2>>, P<2>, P<3>),
    ]
}
