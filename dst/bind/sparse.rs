//! Sparse maps behind the simulator's interface.

use std::fmt;
use std::fmt::Write;

use dstcore::core::*;
use dstcore::iters::*;
use dstcore::sparse::*;
use ordinal_map::map::*;

use super::keys::SimKey;
use super::w::*;

pub fn kv<K: SimKey, V: SimVal>(x: (K, V)) -> It {
    It { k: Some(x.0.idx()), v: Some(x.1.pay()) }
}
pub fn kr<K: SimKey, V: SimVal>(x: (K, &V)) -> It {
    It { k: Some(x.0.idx()), v: Some(x.1.pay()) }
}
pub fn km<K: SimKey, V: SimVal>(x: (K, &mut V)) -> It {
    let v = x.1.pay();
    x.1.toggle();
    It { k: Some(x.0.idx()), v: Some(v) }
}
pub fn k1<K: SimKey>(x: K) -> It {
    It { k: Some(x.idx()), v: None }
}
pub fn r1<V: SimVal>(x: &V) -> It {
    It { k: None, v: Some(x.pay()) }
}
pub fn m1<V: SimVal>(x: &mut V) -> It {
    let v = x.pay();
    x.toggle();
    It { k: None, v: Some(v) }
}

pub struct MapSrc<'s, K, V>(pub &'s mut Src<'s>, pub std::marker::PhantomData<(K, V)>);
impl<K: SimKey, V: SimVal> Iterator for MapSrc<'_, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        let _o = out();
        point_panic(F_SRC);
        if point(F_EOF) {
            return None;
        }
        let (k, p) = self.0()?;
        src_taken();
        Some((K::make(k), V::mk(p)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        src_hint()
    }
}

macro_rules! sparse_impl {
    ($name:ident, [$($s:tt)*], [$($a:tt)*], $t:ty, $retain:expr) => {
        pub struct $name<K: 'static, V: 'static $($s)*>(pub $t);
        impl<K: SimKey, V: SimVal $($s)*> $name<K, V $($a)*> {
            pub fn fresh(how: u32) -> Box<dyn SparseDyn> {
                let m = lib(|| if how == 0 { <$t>::new() } else { <$t>::default() });
                match m {
                    Ok(m) => Box::new($name::<K, V $($a)*>(m)),
                    Err(u) => {
                        if ALLOC_FAILED.get() > 0 && !K::ALLOCS {
                            cx().viol("alloc", "new() needs memory but must not".to_owned());
                        }
                        if let Unw::Panic(m) = u {
                            cx().viol("sparse", format!("new() panicked: {m}"));
                        }
                        cx().disarm();
                        let pct = std::mem::replace(&mut cx().byz_pct, 0);
                        let m = lib(<$t>::new);
                        cx().byz_pct = pct;
                        match m {
                            Ok(m) => Box::new($name::<K, V $($a)*>(m)),
                            Err(_) => dstcore::give_up("cannot make an empty sparse map"),
                        }
                    }
                }
            }
            pub fn collect<'s>(src: &'s mut Src<'s>) -> Res<Box<dyn SparseDyn>> {
                let s = MapSrc::<K, V>(src, std::marker::PhantomData);
                let m = lib(move || <$t>::from_iter(s))?;
                Ok(Box::new($name::<K, V $($a)*>(m)))
            }
        }
        impl<K: SimKey, V: SimVal $($s)*> SparseDyn for $name<K, V $($a)*> {
            fn get(&self, k: usize) -> Res<Option<u32>> {
                let k = K::make(k);
                let r = lib(|| self.0.get(&k))?;
                Ok(r.map(|v| v.pay()))
            }
            fn get_mut(&mut self, k: usize, pay: Option<u32>) -> Res<Option<u32>> {
                let k = K::make(k);
                let r = lib(|| self.0.get_mut(&k))?;
                Ok(r.map(|v| {
                    let p = v.pay();
                    if let Some(n) = pay {
                        v.set(n);
                    }
                    p
                }))
            }
            fn contains(&self, k: usize) -> Res<bool> {
                let k = K::make(k);
                lib(|| self.0.contains_key(&k))
            }
            fn len(&self) -> Res<usize> {
                lib(|| self.0.len())
            }
            fn is_empty(&self) -> Res<bool> {
                lib(|| self.0.is_empty())
            }
            fn insert(&mut self, k: usize, pay: u32) -> Res<Option<u32>> {
                let k = K::make(k);
                let v = V::mk(pay);
                let r = lib(|| self.0.insert(k, v))?;
                Ok(r.map(|v| v.pay()))
            }
            fn entry(&mut self, k: usize, how: u32, pay: u32) -> Res<EntryOut> {
                let k = K::make(k);
                let mut e = lib(|| self.0.entry(k))?;
                let occ = matches!(e, Entry::Occupied(_));
                let key = {
                    let k = lib(|| e.key())?;
                    k.idx()
                };
                let key2 = match &e {
                    Entry::Occupied(o) => lib(|| o.key())?.idx(),
                    Entry::Vacant(v) => lib(|| v.key())?.idx(),
                };
                let mut seen = None;
                match how % 5 {
                    0 => {
                        let v = V::mk(pay);
                        let r = lib(|| e.or_insert(v))?;
                        seen = Some(r.pay());
                    }
                    1 => {
                        let v = V::mk(pay);
                        let r = lib(|| e.or_insert(v))?;
                        seen = Some(r.pay());
                        r.set(pay);
                    }
                    2 => match e {
                        Entry::Occupied(mut o) => {
                            let r = lib(|| o.get_mut())?;
                            seen = Some(r.pay());
                            r.set(pay);
                        }
                        Entry::Vacant(v) => {
                            let x = V::mk(pay);
                            lib(|| v.insert(x))?;
                        }
                    },
                    3 => match &mut e {
                        Entry::Occupied(o) => {
                            let a = lib(|| o.get())?.pay();
                            let b = lib(|| o.get_mut())?.pay();
                            if a != b {
                                cx().viol("sparse", format!("entry get {a} and get_mut {b} differ"));
                            }
                            seen = Some(a);
                        }
                        Entry::Vacant(_) => {}
                    },
                    _ => {}
                }
                Ok(EntryOut { occ, key, key2, seen })
            }
            fn remove(&mut self, k: usize) -> Res<Option<u32>> {
                let k = K::make(k);
                let r = lib(|| self.0.remove(&k))?;
                Ok(r.map(|v| v.pay()))
            }
            fn clear(&mut self) -> Res<()> {
                lib(|| self.0.clear())
            }
            fn retain(&mut self, f: &mut dyn FnMut(usize, u32) -> (bool, Option<u32>)) -> Option<Res<()>> {
                let g: fn(&mut $t, &mut dyn FnMut(usize, u32) -> (bool, Option<u32>)) -> Option<Res<()>> = $retain;
                g(&mut self.0, f)
            }
            fn any(&self) -> &dyn std::any::Any {
                self
            }
            fn dup_from(&mut self, o: &dyn SparseDyn) -> Res<()> {
                let o = &o.any().downcast_ref::<Self>().unwrap().0;
                lib(|| self.0.clone_from(o))
            }
            fn dup(&self) -> Res<Box<dyn SparseDyn>> {
                let m = lib(|| self.0.clone())?;
                Ok(Box::new($name::<K, V $($a)*>(m)))
            }
            fn iter<'a>(&'a self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>> {
                Ok(match kind % 4 {
                    0 => Box::new(W::new(lib(|| self.0.iter())?, kr::<K, V>).fork().dbg()),
                    1 => Box::new(W::new(lib(|| (&self.0).into_iter())?, kr::<K, V>).fork().dbg()),
                    2 => Box::new(W::new(lib(|| self.0.keys())?, k1::<K>).fork()),
                    _ => Box::new(W::new(lib(|| self.0.values())?, r1::<V>).fork().dbg()),
                })
            }
            fn iter_mut<'a>(&'a mut self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>> {
                Ok(match kind % 2 {
                    0 => Box::new(W::new(lib(|| self.0.iter_mut())?, km::<K, V>).dbg()),
                    _ => Box::new(W::new(lib(|| self.0.values_mut())?, m1::<V>).dbg()),
                })
            }
            fn drain<'a>(&'a mut self) -> Res<Box<dyn DynIter<'a> + 'a>> {
                Ok(Box::new(W::new(lib(|| self.0.drain())?, kv::<K, V>)))
            }
            fn into_iter<'a>(self: Box<Self>) -> Res<Box<dyn DynIter<'a> + 'a>> {
                let m = self.0;
                Ok(Box::new(W::new(lib(move || m.into_iter())?, kv::<K, V>).fork().dbg()))
            }
            fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result> {
                lib(|| if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) })
            }
            fn discard(self: Box<Self>) -> Res<()> {
                let m = self.0;
                lib(move || drop(m))
            }
            fn region(&self) -> (usize, usize) {
                (&self.0 as *const _ as usize, std::mem::size_of_val(&self.0))
            }
            fn split_mut<'a>(&'a mut self, how: u32, sink: &mut Split<'_, 'a>) -> Res<()> {
                if how & 1 == 0 {
                    let it = lib(|| self.0.iter_mut())?;
                    split_pairs(it, how, sink)
                } else {
                    let it = lib(|| self.0.values_mut())?;
                    split_values(it, how, sink)
                }
            }
        }
    };
}

sparse_impl!(HeapSparse, [], [], OrdinalMap<K, V>, |_, _| None);
sparse_impl!(ArrSparse, [, const S: usize], [, S], OrdinalArrayMap<K, V, S>, |m, f| {
    Some(lib(|| {
        m.retain(|k, v| {
            let _o = out();
            let (keep, set) = f(k.idx(), v.pay());
            if let Some(p) = set {
                v.set(p);
            }
            drop(k);
            point_panic(F_CB);
            keep
        })
    }))
});

