//! A share of the key types (several crates, so that they build in parallel).

#![allow(clippy::all, unused)]

use std::convert::Infallible;
use std::num::*;

use dstcore::comp::CompFac;
use dstcore::core::*;
use dstcore::reg::*;
use either::Either;

#[macro_use]
#[path = "../../bind/mod.rs"]
mod bind;
use bind::fac::*;
use bind::keys::*;

type V0 = Val<0>;
type P<const M: usize> = Probe<M>;

pub fn keys() -> Vec<KeyFac> {
    let mut v = vec![
        key!(Byz, Byz<65>, 65),
        key!(Byz, Byz<128>, 128),
        key!(Byz, Byz<130>, 130),
        key!(Small, (Probe<3>, Probe<64>), 192),
        large!(u16, 65536, t),
        large!(char, 1112064),
    ];
    v.extend(plains![
        Small (Infallible, bool),
    ]);
    v
}

pub fn comps() -> Vec<CompFac> {
    comps![
        Option<char>,
        Either<P<2>, char>,
        (char, P<3>),
        (P<2>, char),
        Result<i32, P<3>>,
        Option<NonZeroU32>,
        Option<(u8, NonZeroI32)>,
    ]
    .into_iter()
    .chain(byz_comps![
        [Byz<3>; 3],
        [[Byz<2>; 2]; 2],
        [Byz<1>; 5],
        (Byz<2>, Byz<3>),
        Option<Byz<4>>,
        Box<Byz<4>>,
        Result<[Byz<2>; 3], Byz<2>>,
        Mixed<Byz<2>, Box<Byz<3>>>,
        Wide<Byz<2>, 2>,
        Holes<Byz<2>, [Byz<2>; 2]>,
    ])
    .collect()
}
