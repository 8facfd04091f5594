//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Small, Probe<64>, 64, s64),
        key!(Small, Probe<65>, 65),
        key!(Small, u8, 256),
    ];
    v.extend(plains![
        Small [bool; 6],
        Small i8,
        Large i16,
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        (Box<P<2>>, P<3>, Box<(P<2>, P<2>)>),
        Unit,
        E5,
        Disc,
        St<P<2>, P<3>>,
        St<Box<P<2>>, [P<2>; 2]>,
        Tup<P<2>, P<3>>,
        Tup<Option<P<2>>, Box<P<2>>>,
        Mixed<P<2>, P<3>>,
    ]
}
