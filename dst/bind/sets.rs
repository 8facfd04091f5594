//! Sets, iterators over all values and atomic ordinals behind the simulator's interface.

use std::any::Any;
use std::fmt;
use std::fmt::Write;
use std::sync::atomic::Ordering;

use dstcore::core::*;
use dstcore::iters::*;
use dstcore::sets::*;
use ordinal_map::set::*;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

use super::keys::SimKey;
use super::sparse::k1;
use super::w::W;

pub struct SetSrc<'s, K>(&'s mut KSrc<'s>, std::marker::PhantomData<K>);
impl<K: SimKey> Iterator for SetSrc<'_, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        let _o = out();
        point_panic(F_SRC);
        if point(F_EOF) {
            return None;
        }
        let k = self.0()?;
        src_taken();
        Some(K::make(k))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        src_hint()
    }
}

macro_rules! set_impl {
    ($name:ident, [$($s:tt)*], [$($a:tt)*], $t:ty, $iter:expr, $eq:expr) => {
        pub struct $name<K: 'static $($s)*>(pub $t);
        impl<K: SimKey $($s)*> $name<K $($a)*> {
            pub fn fresh(how: u32) -> Res<Box<dyn SetDyn>> {
                let m = lib(|| if how == 0 { <$t>::new() } else { <$t>::default() })?;
                Ok(Box::new($name::<K $($a)*>(m)))
            }
            pub fn collect<'s>(src: &'s mut KSrc<'s>) -> Res<Box<dyn SetDyn>> {
                let s = SetSrc::<K>(src, std::marker::PhantomData);
                let m = lib(move || <$t>::from_iter(s))?;
                Ok(Box::new($name::<K $($a)*>(m)))
            }
        }
        impl<K: SimKey $($s)*> SetDyn for $name<K $($a)*> {
            fn insert(&mut self, k: usize) -> Res<bool> {
                let k = K::make(k);
                lib(|| self.0.insert(k))
            }
            fn contains(&self, k: usize) -> Res<bool> {
                let k = K::make(k);
                lib(|| self.0.contains(&k))
            }
            fn iter<'a>(&'a self) -> Option<Res<Box<dyn DynIter<'a> + 'a>>> {
                let f: fn(&'a $t) -> Option<Res<Box<dyn DynIter<'a> + 'a>>> = $iter;
                f(&self.0)
            }
            fn dup_from(&mut self, o: &dyn SetDyn) -> Res<()> {
                let o = &o.any().downcast_ref::<Self>().unwrap().0;
                lib(|| self.0.clone_from(o))
            }
            fn dup(&self) -> Res<Box<dyn SetDyn>> {
                let m = lib(|| self.0.clone())?;
                Ok(Box::new($name::<K $($a)*>(m)))
            }
            fn eq(&self, o: &dyn SetDyn) -> Option<Res<bool>> {
                let o = &o.any().downcast_ref::<Self>()?.0;
                let f: fn(&$t, &$t) -> Option<Res<bool>> = $eq;
                f(&self.0, o)
            }
            fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result> {
                lib(|| if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) })
            }
            fn region(&self) -> (usize, usize) {
                (&self.0 as *const _ as usize, std::mem::size_of_val(&self.0))
            }
            fn any(&self) -> &dyn Any {
                self
            }
        }
    };
}

set_impl!(
    GrowSet,
    [],
    [],
    OrdinalSet<K>,
    |s| Some(lib(|| s.iter()).map(|i| Box::new(W::new(i, k1::<K>).fork().dbg()) as Box<dyn DynIter>)),
    |_, _| None
);
set_impl!(ArrSet, [, const S: usize], [, S], OrdinalArraySet<K, S>, |_| None, |_, _| None);
set_impl!(
    Set64,
    [],
    [],
    OrdinalSet64<K>,
    |s| Some(lib(|| s.iter()).map(|i| Box::new(W::new(i, k1::<K>).fork().exact().dbg()) as Box<dyn DynIter>)),
    |a, b| Some(lib(|| a == b))
);

impl<K: SimKey> Set64<K> {
    pub fn all() -> Res<Box<dyn SetDyn>> {
        let m = lib(|| OrdinalSet64::<K>::all())?;
        Ok(Box::new(Set64::<K>(m)))
    }
}

pub fn all_values<K: SimKey>() -> Res<Box<dyn DynIter<'static>>> {
    Ok(Box::new(W::new(lib(|| <K as Ordinal>::all_values())?, k1::<K>).fork().exact().dbg()))
}

pub struct Atom<K: 'static>(pub AtomicOrdinal<K>);

impl<K: SimKey> AtomDyn for Atom<K> {
    fn load_o(&self, o: Ordering) -> Res<usize> {
        Ok(unspread(&lib(|| self.0.load(o))?))
    }
    fn store_o(&self, k: usize, o: Ordering) -> Res<()> {
        let k: K = spread(k);
        lib(|| self.0.store(k, o))
    }
    fn cas_o(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Res<Result<usize, usize>> {
        let a: K = spread(a);
        let b: K = spread(b);
        Ok(match lib(|| self.0.compare_exchange(a, b, s, f))? {
            Ok(k) => Ok(unspread(&k)),
            Err(k) => Err(unspread(&k)),
        })
    }
    fn region(&self) -> (usize, usize) {
        (&self.0 as *const _ as usize, std::mem::size_of_val(&self.0))
    }
    fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result> {
        lib(|| if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) })
    }
}

/// Of a type with very many values an atomic ordinal is given only some: the first and the last ones, and those
/// around each power of two.
const MANY: usize = 1 << 21;

fn spread_powers<K: SimKey>() -> usize {
    (K::COUNT - 16).ilog2() as usize - 4
}

pub fn spread_count<K: SimKey>() -> usize {
    if K::COUNT <= MANY {
        return K::COUNT;
    }
    16 + 2 * spread_powers::<K>()
}

fn spread_at<K: SimKey>(i: usize) -> usize {
    match i {
        _ if K::COUNT <= MANY => i,
        0..8 => i,
        8..16 => K::COUNT - 1 - (i - 8),
        _ => (16 << (i - 16) / 2) - i % 2,
    }
}

fn spread<K: SimKey>(i: usize) -> K {
    K::make(spread_at::<K>(i))
}

fn unspread<K: SimKey>(k: &K) -> usize {
    let i = k.idx();
    if K::COUNT <= MANY {
        return i;
    }
    (0..spread_count::<K>()).find(|&x| spread_at::<K>(x) == i).unwrap_or(usize::MAX)
}

pub fn spread_kf<K: SimKey>(i: usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&spread::<K>(i), f)
}

pub fn new_atom<K: SimKey>(k: usize) -> Res<Box<dyn AtomDyn>> {
    let k: K = spread(k);
    let a = lib(|| AtomicOrdinal::new(k))?;
    Ok(Box::new(Atom::<K>(a)))
}
