//! Builds the factories for a key type.

use std::fmt;

use dstcore::comp::*;
use dstcore::iters::*;
use dstcore::core::*;
use dstcore::reg::*;
use dstcore::sets::*;
use dstcore::sparse::*;
use dstcore::total::*;
use ordinal_map::map::OrdinalMap;

use super::keys::*;
use super::sets::*;
use super::sparse::*;
use super::total::*;

pub fn kf<K: SimKey>(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&K::make(i), f)
}

pub fn unit_keys<K: SimKey>(keys: &[usize], w: &mut Writer, alt: bool) -> Res<fmt::Result> {
    use std::fmt::Write;
    let mut m = lib(OrdinalMap::<K, ()>::new)?;
    for &k in keys {
        let k = K::make(k);
        lib(|| m.insert(k, ()))?;
    }
    lib(|| if alt { write!(w, "{:#?}", m.keys()) } else { write!(w, "{:?}", m.keys()) })
}

pub fn heap_sparse<K: SimKey, V: SimVal>() -> SparseFac {
    SparseFac {
        fresh: HeapSparse::<K, V>::fresh,
        collect: HeapSparse::<K, V>::collect,
        n: K::COUNT,
        heap: true,
        zst: V::ZST,
        kf: kf::<K>,
        unit_keys: unit_keys::<K>,
        key_allocs: K::ALLOCS,
        byz: K::BYZ,
    }
}

pub fn arr_sparse<K: SimKey, V: SimVal, const S: usize>() -> SparseFac {
    SparseFac { fresh: ArrSparse::<K, V, S>::fresh, collect: ArrSparse::<K, V, S>::collect, heap: false, ..heap_sparse::<K, V>() }
}

pub fn heap_total<K: SimKey, V: SimVal>() -> TotalFac {
    TotalFac {
        try_new: HeapTotal::<K, V>::try_new,
        make: HeapTotal::<K, V>::make,
        default: HeapTotal::<K, V>::default,
        n: K::COUNT,
        heap: true,
        zst: V::ZST,
        kf: kf::<K>,
        key_allocs: K::ALLOCS,
        byz: K::BYZ,
    }
}

pub fn arr_total<K: SimKey, V: SimVal, const S: usize>() -> TotalFac {
    TotalFac {
        try_new: ArrTotal::<K, V, S>::try_new,
        make: ArrTotal::<K, V, S>::make,
        default: ArrTotal::<K, V, S>::default,
        heap: false,
        ..heap_total::<K, V>()
    }
}

pub fn grow_set<K: SimKey>() -> SetFac {
    SetFac {
        fresh: GrowSet::<K>::fresh,
        collect: GrowSet::<K>::collect,
        all: None,
        n: K::COUNT,
        heap: K::COUNT > 64,
        kf: kf::<K>,
        key_allocs: K::ALLOCS,
        byz: K::BYZ,
    }
}

pub fn arr_set<K: SimKey, const S: usize>() -> SetFac {
    SetFac { fresh: ArrSet::<K, S>::fresh, collect: ArrSet::<K, S>::collect, heap: false, ..grow_set::<K>() }
}

pub fn set64<K: SimKey>() -> SetFac {
    SetFac {
        fresh: Set64::<K>::fresh,
        collect: Set64::<K>::collect,
        all: Some(Set64::<K>::all),
        heap: false,
        ..grow_set::<K>()
    }
}

pub fn base<K: SimKey>(name: &'static str, kind: Kind) -> KeyFac {
    KeyFac {
        name,
        kind,
        n: spread_count::<K>(),
        sparse: vec![],
        total: vec![],
        sets: vec![],
        values: ValuesFac { all: all_values::<K>, n: K::COUNT, kf: kf::<K>, key_allocs: K::ALLOCS, byz: K::BYZ },
        atom: AtomFac { new: new_atom::<K>, n: spread_count::<K>(), kf: spread_kf::<K>, key_allocs: K::ALLOCS, byz: K::BYZ },
    }
}

pub type V0 = Val<0>;

macro_rules! key {
    // array-backed and heap-backed containers; words = array set size
    ($kind:ident, $t:ty, $n:literal $(, $opt:ident)*) => {{
        let mut k = base::<$t>(stringify!($t), Kind::$kind);
        k.sparse.push(heap_sparse::<$t, V0>());
        k.sparse.push(arr_sparse::<$t, V0, $n>());
        k.total.push(heap_total::<$t, V0>());
        k.total.push(arr_total::<$t, V0, $n>());
        k.sets.push(grow_set::<$t>());
        k.sets.push(arr_set::<$t, { ($n as usize).div_ceil(64) }>());
        $( key!(@opt $opt k $t, $n); )*
        k
    }};
    (@opt s64 $k:ident $t:ty, $n:literal) => { $k.sets.push(set64::<$t>()); };
    // more value types
    (@opt vals $k:ident $t:ty, $n:literal) => {
        $k.sparse.push(heap_sparse::<$t, ZVal>());
        $k.sparse.push(arr_sparse::<$t, ZVal, $n>());
        $k.sparse.push(heap_sparse::<$t, Val<100>>());
        $k.sparse.push(arr_sparse::<$t, Val<100>, $n>());
        $k.total.push(heap_total::<$t, ZVal>());
        $k.total.push(arr_total::<$t, ZVal, $n>());
        $k.total.push(heap_total::<$t, Val<100>>());
        $k.total.push(arr_total::<$t, Val<100>, $n>());
        $k.sparse.push(heap_sparse::<$t, Val<300>>());
        $k.sparse.push(arr_sparse::<$t, Val<300>, $n>());
        $k.total.push(heap_total::<$t, Val<300>>());
        $k.total.push(arr_total::<$t, Val<300>, $n>());
    };
}

macro_rules! large {
    ($t:ty, $n:literal $(, $total:ident)?) => {{
        let mut k = base::<$t>(stringify!($t), Kind::Large);
        k.sparse.push(heap_sparse::<$t, V0>());
        k.sets.push(grow_set::<$t>());
        k.sets.push(arr_set::<$t, { ($n as usize).div_ceil(64) }>());
        $( let _ = stringify!($total); k.total.push(heap_total::<$t, V0>()); )?
        k
    }};
}

/// Only the iterator over all values and the atomic ordinal.
pub fn plain<K: SimKey>(name: &'static str, kind: Kind) -> KeyFac {
    base::<K>(name, kind)
}

macro_rules! plains {
    ($($kind:ident $t:ty),* $(,)?) => { vec![$(plain::<$t>(stringify!($t), Kind::$kind)),*] };
}

pub struct KeyBox<K>(K);
impl<K: SimKey> KeyDyn for KeyBox<K> {
    fn idx(&self) -> usize {
        self.0.idx()
    }
    fn encode(&self) -> Res<usize> {
        lib(|| self.0.ordinal())
    }
}

pub fn comp_fac<K: SimKey>(name: &'static str) -> CompFac {
    CompFac {
        name,
        decode: |n| Ok(lib(|| K::from_ordinal(n))?.map(|k| Box::new(KeyBox(k)) as Box<dyn KeyDyn>)),
        make: |i| Box::new(KeyBox(K::make(i))),
        values: all_values::<K>,
        size: K::ORDINAL_SIZE,
        n: K::COUNT,
        kf: kf::<K>,
        key_allocs: K::ALLOCS,
        byz: false,
    }
}

macro_rules! byz_comps {
    ($($t:ty),* $(,)?) => {
        vec![$(CompFac { byz: true, ..comp_fac::<$t>(stringify!($t)) }),*]
    };
}

macro_rules! comps {
    ($($t:ty),* $(,)?) => { vec![$(comp_fac::<$t>(stringify!($t))),*] };
}
