//! Total maps behind the simulator's interface.

use std::fmt;
use std::fmt::Write;

use dstcore::core::*;
use dstcore::iters::*;
use dstcore::sparse::*;
use dstcore::total::*;
use ordinal_map::map::total::*;

use super::keys::SimKey;
use super::sparse::*;
use super::w::*;

macro_rules! total_impl {
    ($name:ident, [$($s:tt)*], [$($a:tt)*], $t:ty, { $($extra:tt)* }) => {
        pub struct $name<K: 'static, V: 'static $($s)*>(pub $t);
        impl<K: SimKey, V: SimVal $($s)*> $name<K, V $($a)*> {
            pub fn try_new<'s>(f: &'s mut Init<'s>) -> Res<Result<Box<dyn TotalDyn>, u32>> {
                let r = lib(|| <$t>::try_new(|k| {
                    let _o = out();
                    let i = k.idx();
                    drop(k);
                    let p = f(i);
                    point_panic(F_CB);
                    if point(F_ERR) {
                        return Err(ERR_CODE + i as u32);
                    }
                    Ok(V::mk(p))
                }))?;
                Ok(r.map(|m| Box::new($name::<K, V $($a)*>(m)) as Box<dyn TotalDyn>))
            }
            pub fn make<'s>(f: &'s mut Init<'s>) -> Res<Box<dyn TotalDyn>> {
                let m = lib(|| <$t>::new(|k| {
                    let _o = out();
                    let i = k.idx();
                    drop(k);
                    let p = f(i);
                    point_panic(F_CB);
                    V::mk(p)
                }))?;
                Ok(Box::new($name::<K, V $($a)*>(m)))
            }
            pub fn default() -> Res<Box<dyn TotalDyn>> {
                let m = lib(<$t>::default)?;
                Ok(Box::new($name::<K, V $($a)*>(m)))
            }
        }
        impl<K: SimKey, V: SimVal $($s)*> TotalDyn for $name<K, V $($a)*> {
            fn get(&self, k: usize) -> Res<u32> {
                let k = K::make(k);
                Ok(lib(|| self.0.get(&k))?.pay())
            }
            fn index(&self, k: usize) -> Res<u32> {
                let k = K::make(k);
                Ok(lib(|| &self.0[&k])?.pay())
            }
            fn get_mut(&mut self, k: usize, how: u32, pay: Option<u32>) -> Res<u32> {
                let k = K::make(k);
                let v = lib(|| if how == 0 { self.0.get_mut(&k) } else { &mut self.0[&k] })?;
                let p = v.pay();
                if let Some(n) = pay {
                    v.set(n);
                }
                Ok(p)
            }
            fn insert(&mut self, k: usize, pay: u32) -> Res<u32> {
                let k = K::make(k);
                let v = V::mk(pay);
                Ok(lib(|| self.0.insert(k, v))?.pay())
            }
            fn len(&self) -> Res<(usize, bool)> {
                lib(|| (self.0.len(), self.0.is_empty()))
            }
            fn any(&self) -> &dyn std::any::Any {
                self
            }
            fn dup_from(&mut self, o: &dyn TotalDyn) -> Res<()> {
                let o = &o.any().downcast_ref::<Self>().unwrap().0;
                lib(|| self.0.clone_from(o))
            }
            fn dup(&self) -> Res<Box<dyn TotalDyn>> {
                let m = lib(|| self.0.clone())?;
                Ok(Box::new($name::<K, V $($a)*>(m)))
            }
            fn keys<'a>(&self) -> Res<Box<dyn DynIter<'a> + 'a>> {
                Ok(Box::new(W::new(lib(|| self.0.keys())?, k1::<K>).fork().exact().dbg()))
            }
            fn into_keys<'a>(self: Box<Self>) -> Res<Box<dyn DynIter<'a> + 'a>> {
                let m = self.0;
                Ok(Box::new(W::new(lib(move || m.into_keys())?, k1::<K>).fork().exact().dbg()))
            }
            fn iter<'a>(&'a self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>> {
                Ok(match kind % 3 {
                    0 => Box::new(W::new(lib(|| self.0.iter())?, kr::<K, V>).fork().exact().dbg()),
                    1 => Box::new(W::new(lib(|| (&self.0).into_iter())?, kr::<K, V>).fork().exact().dbg()),
                    _ => Box::new(W::new(lib(|| self.0.values())?, r1::<V>).fork().exact()),
                })
            }
            fn iter_mut<'a>(&'a mut self, kind: u32) -> Res<Box<dyn DynIter<'a> + 'a>> {
                Ok(match kind % 2 {
                    0 => Box::new(W::new(lib(|| self.0.iter_mut())?, km::<K, V>).exact().dbg()),
                    _ => Box::new(W::new(lib(|| self.0.values_mut())?, m1::<V>).exact()),
                })
            }
            fn into_iter<'a>(self: Box<Self>) -> Res<Box<dyn DynIter<'a> + 'a>> {
                let m = self.0;
                Ok(Box::new(W::new(lib(move || m.into_iter())?, kv::<K, V>).fork().exact().dbg()))
            }
            fn into_values(self: Box<Self>) -> Res<Vec<u32>> {
                let m = self.0;
                let a = lib(move || m.into_values())?;
                Ok(a.iter().map(|v| v.pay()).collect())
            }
            fn debug(&self, w: &mut Writer, alt: bool) -> Res<fmt::Result> {
                lib(|| if alt { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) })
            }
            fn discard(self: Box<Self>) -> Res<()> {
                let m = self.0;
                lib(move || drop(m))
            }
            fn region(&self) -> (usize, usize) {
                (&self.0 as *const _ as usize, std::mem::size_of_val(&self.0))
            }
            $($extra)*
        }
    };
}

total_impl!(HeapTotal, [], [], OrdinalTotalMap<K, V>, {
    fn split_mut<'a>(&'a mut self, how: u32, sink: &mut Split<'_, 'a>) -> Res<()> {
        if how & 1 == 0 {
            let it = lib(|| self.0.iter_mut())?;
            split_pairs(it, how, sink)
        } else {
            let it = lib(|| self.0.values_mut())?;
            split_values(it, how, sink)
        }
    }
    fn map(self: Box<Self>, _: bool, _: &mut Tf) -> Option<Res<Box<dyn TotalDyn>>> {
        None
    }
    fn zip(self: Box<Self>, _: &[u32], _: &mut See, _: u32) -> Option<Res<Box<dyn TotalDyn>>> {
        None
    }
    fn refs(&self, _: &mut See) -> Option<Res<()>> {
        None
    }
    fn muts(&mut self, _: &mut See) -> Option<Res<()>> {
        None
    }
    fn array(&mut self, _: bool) -> Option<Res<Vec<u32>>> {
        None
    }
});

total_impl!(ArrTotal, [, const S: usize], [, S], OrdinalTotalArrayMap<K, V, S>, {
    fn split_mut<'a>(&'a mut self, how: u32, sink: &mut Split<'_, 'a>) -> Res<()> {
        match how & 3 {
            0 => {
                let it = lib(|| self.0.iter_mut())?;
                split_pairs(it, how, sink)
            }
            1 => {
                let it = lib(|| self.0.values_mut())?;
                split_values(it, how, sink)
            }
            2 => {
                let m = lib(|| self.0.as_mut())?;
                let it = lib(move || m.into_iter())?;
                split_pairs(it, how, sink)
            }
            _ => {
                for r in lib(|| self.0.values_array_mut())?.iter_mut() {
                    sink(None, r);
                }
                Ok(())
            }
        }
    }
    fn map(self: Box<Self>, keyed: bool, f: &mut Tf) -> Option<Res<Box<dyn TotalDyn>>> {
        let m = self.0;
        Some(lib(move || {
            if keyed {
                m.map(|k, v| {
                    let _o = out();
                    let p = f(k.idx(), v.pay());
                    drop(k);
                    point_panic(F_CB);
                    drop(v);
                    V::mk(p)
                })
            } else {
                m.map_values(|v| {
                    let _o = out();
                    let p = f(usize::MAX, v.pay());
                    point_panic(F_CB);
                    drop(v);
                    V::mk(p)
                })
            }
        })
        .map(|m| Box::new(ArrTotal::<K, V, S>(m)) as Box<dyn TotalDyn>))
    }
    fn zip(self: Box<Self>, pays: &[u32], see: &mut See, keep: u32) -> Option<Res<Box<dyn TotalDyn>>> {
        let m = self.0;
        let arr: [V; S] = std::array::from_fn(|i| V::mk(pays[i]));
        let f = || {
            let other = lib(|| OrdinalTotalArrayMap::<K, V, S>::from_array(arr))?;
            let z = lib(move || m.zip(other))?;
            {
                let mut it = lib(|| z.iter())?;
                while let Some((k, (a, b))) = lib(|| it.next())? {
                    see(k.idx(), a.pay(), b.pay());
                }
            }
            let m = lib(move || {
                z.map_values(|(a, b)| {
                    let _o = out();
                    point_panic(F_CB);
                    if keep & 1 == 0 { a } else { b }
                })
            })?;
            Ok(Box::new(ArrTotal::<K, V, S>(m)) as Box<dyn TotalDyn>)
        };
        Some(f())
    }
    fn refs(&self, see: &mut See) -> Option<Res<()>> {
        let mut f = || {
            let m = lib(|| self.0.as_ref())?;
            let mut it = lib(move || m.into_iter())?;
            while let Some((k, r)) = lib(|| it.next())? {
                see(k.idx(), r.pay(), 0);
            }
            Ok(())
        };
        Some(f())
    }
    fn muts(&mut self, see: &mut See) -> Option<Res<()>> {
        let mut f = || {
            let m = lib(|| self.0.as_mut())?;
            let mut it = lib(move || m.into_iter())?;
            while let Some((k, r)) = lib(|| it.next())? {
                see(k.idx(), r.pay(), 0);
                r.toggle();
            }
            Ok(())
        };
        Some(f())
    }
    fn array(&mut self, toggle: bool) -> Option<Res<Vec<u32>>> {
        let mut f = || {
            let v: Vec<u32> = lib(|| self.0.values_array())?.iter().map(|v| v.pay()).collect();
            if toggle {
                for v in lib(|| self.0.values_array_mut())?.iter_mut() {
                    v.toggle();
                }
            }
            Ok(v)
        };
        Some(f())
    }
});
