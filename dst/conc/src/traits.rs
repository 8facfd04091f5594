//! Which collections may cross threads: exactly those whose contents may. Asked of the
//! compiler for concrete types.

use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

use ordinal_map::map::total::*;
use ordinal_map::map::*;
use ordinal_map::set::*;
use ordinal_map::AtomicOrdinal;
use ordinal_map::Ordinal;

struct Q<T>(PhantomData<T>);

trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Q<T> {}
impl<T: Send> Q<T> {
    fn send(&self) -> bool {
        true
    }
}
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Q<T> {}
impl<T: Sync> Q<T> {
    fn sync(&self) -> bool {
        true
    }
}

/// The expression is never run.
fn of<T>(_: impl FnOnce() -> T) -> Q<T> {
    Q(PhantomData)
}

fn keep<T>(x: T) -> &'static mut T {
    Box::leak(Box::new(x))
}

macro_rules! is {
    ($v:expr, $($t:ident)+, $e:expr, $send:expr, $sync:expr) => {{
        let q = of(|| $e);
        $v.push((concat!("may ", stringify!($e), " be sent, over" $(, " ", stringify!($t))+), (&q).send() == $send));
        $v.push((concat!("may ", stringify!($e), " be shared, over" $(, " ", stringify!($t))+), (&q).sync() == $sync));
    }};
}

macro_rules! over {
    // key, value, whether they may be sent and shared, and whether what borrows them may be sent
    ($v:expr, $k:ident, $t:ident, $send:expr, $sync:expr, $it:expr) => {{
        type M = OrdinalMap<$k, $t>;
        type A = OrdinalArrayMap<$k, $t, 2>;
        type T = OrdinalTotalMap<$k, $t>;
        type B = OrdinalTotalArrayMap<$k, $t, 2>;
        let m = || keep(M::new());
        let a = || keep(A::new());
        let t = || keep(T::new(|_| $t::default()));
        let b = || keep(B::new(|_| $t::default()));
        let key = || $k::from_ordinal(0).unwrap();
        is!($v, $k $t, M::new(), $send, $sync);
        is!($v, $k $t, A::new(), $send, $sync);
        is!($v, $k $t, T::new(|_| $t::default()), $send, $sync);
        is!($v, $k $t, B::new(|_| $t::default()), $send, $sync);
        over!(@maps $v, $k, $t, $send, $sync, $it, m, M, key);
        over!(@maps $v, $k, $t, $send, $sync, $it, a, A, key);
        is!($v, $k $t, t().iter(), $it, $sync);
        is!($v, $k $t, t().iter_mut(), $send, $sync);
        is!($v, $k $t, T::new(|_| $t::default()).into_iter(), $send, $sync);
        is!($v, $k $t, b().iter(), $it, $sync);
        is!($v, $k $t, b().iter_mut(), $send, $sync);
        is!($v, $k $t, B::new(|_| $t::default()).into_iter(), $send, $sync);
    }};
    (@maps $v:expr, $k:ident, $t:ident, $send:expr, $sync:expr, $it:expr, $m:ident, $M:ident, $key:ident) => {{
        is!($v, $k $t, $m().iter(), $it, $sync);
        is!($v, $k $t, $m().keys(), $it, $sync);
        is!($v, $k $t, $m().values(), $it, $sync);
        is!($v, $k $t, $m().iter_mut(), $send, $sync);
        is!($v, $k $t, $m().values_mut(), $send, $sync);
        is!($v, $k $t, $m().drain(), $send, $sync);
        is!($v, $k $t, $M::new().into_iter(), $send, $sync);
        is!($v, $k $t, $m().entry($key()), $send, $sync);
    }};
}

macro_rules! keyed {
    ($v:expr, $k:ident, $send:expr, $sync:expr) => {{
        is!($v, $k, OrdinalSet::<$k>::new(), $send, $sync);
        is!($v, $k, OrdinalSet64::<$k>::new(), $send, $sync);
        is!($v, $k, OrdinalArraySet::<$k, 1>::new(), $send, $sync);
        is!($v, $k, keep(OrdinalSet::<$k>::new()).iter(), $send, $sync);
        is!($v, $k, OrdinalSet64::<$k>::new().iter(), $send, $sync);
        is!($v, $k, AtomicOrdinal::new($k::from_ordinal(0).unwrap()), $send, $sync);
        is!($v, $k, $k::all_values(), $send, $sync);
        is!($v, $k, OrdinalTotalMap::<$k, u8>::new(|_| 0).keys(), $send, $sync);
        is!($v, $k, OrdinalTotalMap::<$k, u8>::new(|_| 0).into_keys(), $send, $sync);
    }};
}

type Plain = String;
type Celled = Cell<u8>;
type Counted = Rc<u8>;

macro_rules! key {
    ($n:ident, $t:ty) => {
        #[allow(dead_code)]
        struct $n(bool, PhantomData<$t>);
        impl Ordinal for $n {
            const ORDINAL_SIZE: usize = 2;
            fn ordinal(&self) -> usize {
                self.0 as usize
            }
            fn from_ordinal(o: usize) -> Option<Self> {
                if o < 2 {
                    Some($n(o == 1, PhantomData))
                } else {
                    None
                }
            }
        }
    };
}
key!(KeyPlain, u8);
key!(KeyCelled, Cell<u8>);
key!(KeyCounted, Rc<u8>);

pub fn all() -> Vec<(&'static str, bool)> {
    let mut v = Vec::new();
    over!(v, KeyPlain, Plain, true, true, true);
    over!(v, KeyPlain, Celled, true, false, false);
    over!(v, KeyPlain, Counted, false, false, false);
    over!(v, KeyCelled, Plain, true, false, true);
    over!(v, KeyCounted, Plain, false, false, false);
    keyed!(v, KeyPlain, true, true);
    keyed!(v, KeyCelled, true, false);
    keyed!(v, KeyCounted, false, false);
    v
}
