//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Small, Box<Probe<5>>, 5, s64),
        key!(Small, Mixed<Probe<2>, Probe<3>>, 22, s64),
        key!(Byz, Byz<1>, 1, s64),
        key!(Small, (Probe<4>, Probe<4>), 16, s64),
    ];
    v.extend(plains![
        Small (Probe<2>, Box<bool>),
        Small St<Probe<3>, Probe<2>>,
        Large NonZeroI16,
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        [Infallible; 2],
        Void,
        Option<Void>,
        Holes<P<2>, P<3>>,
        Holes<Box<P<2>>, [P<2>; 2]>,
        Wide<P<2>, 0>,
        Wide<P<2>, 3>,
        [(P<2>, Infallible); 2],
        Either<(Infallible, P<2>), P<2>>,
        (u8, P<2>, i8),
        [u8; 7],
        (char, P<3>),
        (Option<NonZeroU32>, P<2>),
        Option<(NonZeroI32, bool)>,
    ]
}
