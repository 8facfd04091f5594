//! Key types under simulation, each with an enumeration that does not use the library.

use std::cmp::Ordering as Cmp;
use std::convert::Infallible;
use std::fmt;
use std::fmt::Debug;
use std::num::*;

use either::Either;
use ordinal_map::Ordinal;

use dstcore::core::*;

/// A key type with an independent enumeration of its values.
pub trait SimKey: Ordinal + Debug + PartialEq + 'static {
    /// Number of values.
    const COUNT: usize;
    /// Decoding needs memory.
    const ALLOCS: bool = false;
    /// Contains tracked components.
    const TRACKED: bool = false;
    /// Arbitrary behaviour.
    const BYZ: bool = false;
    fn make(i: usize) -> Self;
    fn idx(&self) -> usize;
}

macro_rules! table_key {
    ($t:ty, $n:expr, $make:expr, $idx:expr) => {
        impl SimKey for $t {
            const COUNT: usize = $n;
            fn make(i: usize) -> Self {
                let f: fn(usize) -> $t = $make;
                f(i)
            }
            fn idx(&self) -> usize {
                let f: fn(&$t) -> usize = $idx;
                f(self)
            }
        }
    };
}

table_key!((), 1, |_| (), |_| 0);
table_key!(bool, 2, |i| i == 1, |k| usize::from(*k));
table_key!(Cmp, 3, |i| [Cmp::Less, Cmp::Equal, Cmp::Greater][i], |k| (*k as i8 + 1) as usize);
table_key!(u8, 256, |i| i as u8, |k| *k as usize);
table_key!(i8, 256, |i| (i as i32 - 128) as i8, |k| (*k as i32 + 128) as usize);
table_key!(u16, 65536, |i| i as u16, |k| *k as usize);
table_key!(i16, 65536, |i| (i as i32 - 32768) as i16, |k| (*k as i32 + 32768) as usize);
table_key!(NonZeroU8, 255, |i| NonZeroU8::new((i + 1) as u8).unwrap(), |k| k.get() as usize - 1);
table_key!(NonZeroU16, 65535, |i| NonZeroU16::new((i + 1) as u16).unwrap(), |k| k.get() as usize - 1);
table_key!(
    NonZeroI8,
    255,
    |i| NonZeroI8::new(if i < 128 { i as i32 - 128 } else { i as i32 - 127 } as i8).unwrap(),
    |k| if k.get() < 0 { (k.get() as i32 + 128) as usize } else { (k.get() as i32 + 127) as usize }
);
table_key!(
    NonZeroI16,
    65535,
    |i| NonZeroI16::new(if i < 32768 { i as i32 - 32768 } else { i as i32 - 32767 } as i16).unwrap(),
    |k| if k.get() < 0 { (k.get() as i32 + 32768) as usize } else { (k.get() as i32 + 32767) as usize }
);
table_key!(
    char,
    0x10ffff + 1 - 0x800,
    |i| char::from_u32(if i < 0xd800 { i as u32 } else { i as u32 + 0x800 }).unwrap(),
    |k| if (*k as u32) < 0xd800 { *k as usize } else { *k as usize - 0x800 }
);
table_key!(u32, 1 << 32, |i| i as u32, |k| *k as usize);
table_key!(i32, 1 << 32, |i| (i as i64 - (1 << 31)) as i32, |k| (*k as i64 + (1 << 31)) as usize);
table_key!(NonZeroU32, (1 << 32) - 1, |i| NonZeroU32::new((i + 1) as u32).unwrap(), |k| k.get() as usize - 1);
table_key!(
    NonZeroI32,
    (1 << 32) - 1,
    |i| NonZeroI32::new(if i < 1 << 31 { i as i64 - (1 << 31) } else { i as i64 - (1 << 31) + 1 } as i32).unwrap(),
    |k| if k.get() < 0 { (k.get() as i64 + (1 << 31)) as usize } else { (k.get() as i64 + (1 << 31) - 1) as usize }
);
table_key!(NonZeroU64, usize::MAX, |i| NonZeroU64::new(i as u64 + 1).unwrap(), |k| k.get() as usize - 1);
table_key!(NonZeroUsize, usize::MAX, |i| NonZeroUsize::new(i + 1).unwrap(), |k| k.get() - 1);
table_key!(
    NonZeroI64,
    usize::MAX,
    |i| NonZeroI64::new(if i < 1 << 63 { (i as u64 ^ (1 << 63)) as i64 } else { (i - (1 << 63)) as i64 + 1 }).unwrap(),
    |k| if k.get() < 0 { (k.get() as u64 ^ (1 << 63)) as usize } else { (1 << 63) + (k.get() as usize - 1) }
);
table_key!(Infallible, 0, |_| unreachable!(), |k| match *k {});

impl<A: SimKey> SimKey for Option<A> {
    const COUNT: usize = A::COUNT + 1;
    const ALLOCS: bool = A::ALLOCS;
    const TRACKED: bool = A::TRACKED;
    fn make(i: usize) -> Self {
        if i == 0 {
            None
        } else {
            Some(A::make(i - 1))
        }
    }
    fn idx(&self) -> usize {
        self.as_ref().map_or(0, |a| a.idx() + 1)
    }
}

impl<A: SimKey, B: SimKey> SimKey for Result<A, B> {
    const COUNT: usize = A::COUNT + B::COUNT;
    const ALLOCS: bool = A::ALLOCS || B::ALLOCS;
    const TRACKED: bool = A::TRACKED || B::TRACKED;
    fn make(i: usize) -> Self {
        if i < A::COUNT {
            Ok(A::make(i))
        } else {
            Err(B::make(i - A::COUNT))
        }
    }
    fn idx(&self) -> usize {
        match self {
            Ok(a) => a.idx(),
            Err(b) => A::COUNT + b.idx(),
        }
    }
}

impl<A: SimKey, B: SimKey> SimKey for Either<A, B> {
    const COUNT: usize = A::COUNT + B::COUNT;
    const ALLOCS: bool = A::ALLOCS || B::ALLOCS;
    const TRACKED: bool = A::TRACKED || B::TRACKED;
    fn make(i: usize) -> Self {
        if i < A::COUNT {
            Either::Left(A::make(i))
        } else {
            Either::Right(B::make(i - A::COUNT))
        }
    }
    fn idx(&self) -> usize {
        match self {
            Either::Left(a) => a.idx(),
            Either::Right(b) => A::COUNT + b.idx(),
        }
    }
}

impl<A: SimKey> SimKey for Box<A> {
    const COUNT: usize = A::COUNT;
    const ALLOCS: bool = true;
    const TRACKED: bool = A::TRACKED;
    fn make(i: usize) -> Self {
        Box::new(A::make(i))
    }
    fn idx(&self) -> usize {
        (**self).idx()
    }
}

impl<A: SimKey, const M: usize> SimKey for [A; M] {
    const COUNT: usize = {
        let mut s = 1;
        let mut i = 0;
        while i < M {
            s *= A::COUNT;
            i += 1;
        }
        s
    };
    const ALLOCS: bool = A::ALLOCS;
    const TRACKED: bool = A::TRACKED;
    fn make(i: usize) -> Self {
        std::array::from_fn(|p| {
            let mut x = i;
            for _ in p + 1..M {
                x /= A::COUNT;
            }
            A::make(x % A::COUNT)
        })
    }
    fn idx(&self) -> usize {
        self.iter().fold(0, |n, a| n * A::COUNT + a.idx())
    }
}

macro_rules! prod_key {
    ([$($g:ident),*] $t:ty, $ctor:expr, $pat:pat, [$($T:ty = $v:ident),*]) => {
        impl<$($g: SimKey),*> SimKey for $t {
            const COUNT: usize = 1 $(* <$T as SimKey>::COUNT)*;
            const ALLOCS: bool = false $(|| <$T as SimKey>::ALLOCS)*;
            const TRACKED: bool = false $(|| <$T as SimKey>::TRACKED)*;
            #[allow(unused)]
            fn make(i: usize) -> Self {
                let mut div = Self::COUNT;
                $(
                    div /= <$T as SimKey>::COUNT;
                    let $v = <$T as SimKey>::make(i / div % <$T as SimKey>::COUNT);
                )*
                $ctor
            }
            fn idx(&self) -> usize {
                let $pat = self;
                let mut n = 0;
                $( n = n * <$T as SimKey>::COUNT + $v.idx(); )*
                n
            }
        }
    };
}

prod_key!([A] (A,), (a,), (a,), [A = a]);
prod_key!([A, B] (A, B), (a, b), (a, b), [A = a, B = b]);
prod_key!([A, B, C] (A, B, C), (a, b, c), (a, b, c), [A = a, B = b, C = c]);
prod_key!([A, B, C, D] (A, B, C, D), (a, b, c, d), (a, b, c, d), [A = a, B = b, C = c, D = d]);
prod_key!([A, B, C, D, E] (A, B, C, D, E), (a, b, c, d, e), (a, b, c, d, e), [A = a, B = b, C = c, D = d, E = e]);
prod_key!([A, B, C, D, E, F, G] (A, B, C, D, E, F, G), (a, b, c, d, e, f, g), (a, b, c, d, e, f, g),
    [A = a, B = b, C = c, D = d, E = e, F = f, G = g]);
prod_key!([A, B] (A, B, A, B, A, B, A, B), (a, b, c, d, e, f, g, h), (a, b, c, d, e, f, g, h),
    [A = a, B = b, A = c, B = d, A = e, B = f, A = g, B = h]);
prod_key!([A, B] (A, A, A, A, B, B, A, A, A), (a, b, c, d, e, f, g, h, i), (a, b, c, d, e, f, g, h, i),
    [A = a, A = b, A = c, A = d, B = e, B = f, A = g, A = h, A = i]);
prod_key!([A, B] (A, A, A, A, B, B, A, A, A, B, B, A), (a, b, c, d, e, f, g, h, i, j, k, l),
    (a, b, c, d, e, f, g, h, i, j, k, l),
    [A = a, A = b, A = c, A = d, B = e, B = f, A = g, A = h, A = i, B = j, B = k, A = l]);

/// The longest tuple (which the standard library no longer formats or compares).
type Tuple16<A, B> = (A, B, A, A, B, A, A, A, A, B, B, A, A, B, A, B);
pub struct T16<A: Ordinal, B: Ordinal>(pub Tuple16<A, B>);
impl<A: Ordinal, B: Ordinal> Ordinal for T16<A, B> {
    const ORDINAL_SIZE: usize = <Tuple16<A, B> as Ordinal>::ORDINAL_SIZE;
    fn ordinal(&self) -> usize {
        self.0.ordinal()
    }
    fn from_ordinal(ordinal: usize) -> Option<Self> {
        Ordinal::from_ordinal(ordinal).map(T16)
    }
}
impl<A: SimKey, B: SimKey> PartialEq for T16<A, B> {
    fn eq(&self, o: &Self) -> bool {
        self.idx() == o.idx()
    }
}
impl<A: SimKey, B: SimKey> Debug for T16<A, B> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.0 .0, f)
    }
}
prod_key!([A0, B0] T16<A0, B0>, T16((a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p)),
    T16((a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p)),
    [A0 = a, B0 = b, A0 = c, A0 = d, B0 = e, A0 = f, A0 = g, A0 = h, A0 = i, B0 = j, B0 = k, A0 = l, A0 = m, B0 = n,
     A0 = o, B0 = p]);

/// A derived enum without values.
#[derive(Ordinal, Debug, PartialEq)]
pub enum Void {}
table_key!(Void, 0, |_| unreachable!(), |k| match *k {});

/// Variants without values between others; field names like the macro's own variables.
#[derive(Ordinal, Debug, PartialEq)]
pub enum Holes<A: Ordinal, B: Ordinal> {
    No(Void, A),
    Un { ordinal: A, rem: B },
    None { x: A, y: Infallible },
    Deux(B, bool, A),
    Never(Void),
}

impl<A: SimKey, B: SimKey> SimKey for Holes<A, B> {
    const COUNT: usize = 3 * A::COUNT * B::COUNT;
    const ALLOCS: bool = A::ALLOCS || B::ALLOCS;
    const TRACKED: bool = A::TRACKED || B::TRACKED;
    fn make(i: usize) -> Self {
        let ab = A::COUNT * B::COUNT;
        if i < ab {
            let (ordinal, rem) = <(A, B)>::make(i);
            Holes::Un { ordinal, rem }
        } else {
            let (b, f, a) = <(B, bool, A)>::make(i - ab);
            Holes::Deux(b, f, a)
        }
    }
    fn idx(&self) -> usize {
        let (a, b) = (A::COUNT, B::COUNT);
        match self {
            Holes::Un { ordinal, rem } => ordinal.idx() * b + rem.idx(),
            Holes::Deux(x, f, y) => a * b + (x.idx() * 2 + f.idx()) * a + y.idx(),
            Holes::No(v, _) | Holes::Never(v) => match *v {},
            Holes::None { y, .. } => match *y {},
        }
    }
}

/// A derived struct with many fields, one without values' worth of information, and a const parameter.
#[derive(Ordinal, Debug, PartialEq)]
pub struct Wide<A: Ordinal, const N: usize> {
    pub ordinal: A,
    pub unit: (),
    pub size: [A; N],
    pub rem: bool,
    pub i: Option<A>,
    pub self_: Box<A>,
}
impl<A: SimKey, const N: usize> SimKey for Wide<A, N> {
    const COUNT: usize =
        A::COUNT * <[A; N] as SimKey>::COUNT * 2 * (A::COUNT + 1) * A::COUNT;
    const ALLOCS: bool = true;
    const TRACKED: bool = A::TRACKED;
    fn make(i: usize) -> Self {
        let (ordinal, size, rem, i, self_) = SimKey::make(i);
        Wide { ordinal, unit: (), size, rem, i, self_ }
    }
    fn idx(&self) -> usize {
        let mut n = self.ordinal.idx();
        n = n * <[A; N] as SimKey>::COUNT + self.size.idx();
        n = n * 2 + self.rem.idx();
        n = n * (A::COUNT + 1) + self.i.idx();
        n * A::COUNT + self.self_.idx()
    }
}

prod_key!([A, B, C, D, E, F] (A, B, C, D, E, F), (a, b, c, d, e, f), (a, b, c, d, e, f), [A = a, B = b, C = c, D = d, E = e, F = f]);

#[derive(Ordinal, Debug, PartialEq, Clone, Copy)]
pub enum E5 {
    A,
    B,
    C,
    D,
    E,
}
table_key!(E5, 5, |i| [E5::A, E5::B, E5::C, E5::D, E5::E][i], |k| match k {
    E5::A => 0,
    E5::B => 1,
    E5::C => 2,
    E5::D => 3,
    E5::E => 4,
});

/// Explicit discriminants: numbered in declaration order all the same.
#[derive(Ordinal, Debug, PartialEq, Clone, Copy)]
pub enum Disc {
    Big = 1000,
    Neg = -5,
    Zero = 0,
    Next,
    Last = 70,
}
table_key!(Disc, 5, |i| [Disc::Big, Disc::Neg, Disc::Zero, Disc::Next, Disc::Last][i], |k| match k {
    Disc::Big => 0,
    Disc::Neg => 1,
    Disc::Zero => 2,
    Disc::Next => 3,
    Disc::Last => 4,
});

#[derive(Ordinal, Debug, PartialEq)]
pub struct Unit;
table_key!(Unit, 1, |_| Unit, |_| 0);

#[derive(Ordinal, Debug, PartialEq)]
pub struct St<A: Ordinal, B: Ordinal> {
    pub x: A,
    pub y: Option<bool>,
    pub z: B,
}
prod_key!([A, B] St<A, B>, St { x, y, z }, St { x, y, z }, [A = x, Option<bool> = y, B = z]);

#[derive(Ordinal, Debug, PartialEq)]
pub struct Tup<A: Ordinal, B: Ordinal>(pub A, pub B, pub A);
prod_key!([A, B] Tup<A, B>, Tup(a, b, c), Tup(a, b, c), [A = a, B = b, A = c]);

#[derive(Ordinal, Debug, PartialEq)]
pub enum Mixed<A: Ordinal, B: Ordinal> {
    Nothing,
    One(A),
    Two(A, B),
    Rec { f: B, g: bool, h: A },
    End,
}

impl<A: SimKey, B: SimKey> SimKey for Mixed<A, B> {
    const COUNT: usize = 2 + A::COUNT + A::COUNT * B::COUNT + B::COUNT * 2 * A::COUNT;
    const ALLOCS: bool = A::ALLOCS || B::ALLOCS;
    const TRACKED: bool = A::TRACKED || B::TRACKED;
    fn make(i: usize) -> Self {
        let mut i = i;
        if i == 0 {
            return Mixed::Nothing;
        }
        i -= 1;
        if i < A::COUNT {
            return Mixed::One(A::make(i));
        }
        i -= A::COUNT;
        if i < A::COUNT * B::COUNT {
            let (a, b) = <(A, B)>::make(i);
            return Mixed::Two(a, b);
        }
        i -= A::COUNT * B::COUNT;
        if i < A::COUNT * B::COUNT * 2 {
            let (f, g, h) = <(B, bool, A)>::make(i);
            return Mixed::Rec { f, g, h };
        }
        Mixed::End
    }
    fn idx(&self) -> usize {
        let (a, b) = (A::COUNT, B::COUNT);
        match self {
            Mixed::Nothing => 0,
            Mixed::One(x) => 1 + x.idx(),
            Mixed::Two(x, y) => 1 + a + x.idx() * b + y.idx(),
            Mixed::Rec { f, g, h } => 1 + a + a * b + (f.idx() * 2 + g.idx()) * a + h.idx(),
            Mixed::End => 1 + a + a * b + a * b * 2,
        }
    }
}

/// A key whose every conversion is a fault point and whose life is tracked.
pub struct Probe<const M: usize> {
    pub tok: Tok,
    pub i: usize,
}

impl<const M: usize> Ordinal for Probe<M> {
    const ORDINAL_SIZE: usize = M;
    fn ordinal(&self) -> usize {
        let _o = out();
        self.tok.check("encode");
        dstcore::hook_callback(0);
        point_panic(F_ORD);
        self.i
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        let _o = out();
        dstcore::hook_callback(1);
        point_panic(F_FROM);
        if o < M {
            Some(Probe { tok: Tok::new(), i: o })
        } else {
            None
        }
    }
}

impl<const M: usize> PartialEq for Probe<M> {
    fn eq(&self, o: &Self) -> bool {
        self.i == o.i
    }
}

impl<const M: usize> Debug for Probe<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        {
            let _o = out();
            self.tok.check("format");
            point_panic(F_FMTP);
            if point(F_FMTV) {
                return Err(fmt::Error);
            }
        }
        f.write_str("P")?;
        Debug::fmt(&self.i, f)
    }
}

impl<const M: usize> SimKey for Probe<M> {
    const COUNT: usize = M;
    const TRACKED: bool = true;
    fn make(i: usize) -> Self {
        Probe { tok: Tok::new(), i }
    }
    fn idx(&self) -> usize {
        self.tok.check("look at");
        self.i
    }
}

/// A key whose implementation misbehaves.
pub struct Byz<const M: usize> {
    tok: Tok,
    i: usize,
}

impl<const M: usize> Byz<M> {
    fn odd(hi: bool) -> Option<usize> {
        let c = cx();
        let pct = c.byz_pct;
        let r = c.byz.as_mut()?;
        // A second panic while unwinding would end the process, as it does in any Rust code.
        if !r.chance(pct, 100) || std::thread::panicking() {
            return None;
        }
        let v = match r.below(12) {
            0 => M,
            1 => M + 1,
            2 => usize::MAX,
            3 => M + r.below(200),
            4 => M.div_ceil(64) * 64,
            5 => (M.div_ceil(64) * 64).wrapping_sub(1),
            6 => r.u64() as usize,
            7 | 8 => r.below(M.max(1)),
            9 => usize::MAX - r.below(130),
            10 => usize::MAX - 7777, // panic
            _ => {
                if hi {
                    M / 2
                } else {
                    usize::MAX - 8888 // nothing
                }
            }
        };
        c.fired_total[F_BYZ] += 1;
        c.fired = true;
        c.fired_kind = F_BYZ;
        c.ev(v as u64);
        c.tr(|| format!("  * key misbehaves: {v}"));
        Some(v)
    }
}

impl<const M: usize> Ordinal for Byz<M> {
    const ORDINAL_SIZE: usize = M;
    fn ordinal(&self) -> usize {
        let _o = out();
        self.tok.check("encode");
        match Self::odd(true) {
            Some(v) if v == usize::MAX - 7777 && !std::thread::panicking() => inject_panic(),
            Some(v) => v,
            None => self.i,
        }
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        let _o = out();
        let i = match Self::odd(false) {
            Some(v) if v == usize::MAX - 7777 && !std::thread::panicking() => inject_panic(),
            Some(v) if v >= usize::MAX - 8888 => return None,
            Some(v) => v,
            None if o < M => o,
            None => return None,
        };
        Some(Byz { tok: Tok::new(), i })
    }
}

impl<const M: usize> PartialEq for Byz<M> {
    fn eq(&self, o: &Self) -> bool {
        self.i == o.i
    }
}

impl<const M: usize> Debug for Byz<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("B")
    }
}

impl<const M: usize> SimKey for Byz<M> {
    const COUNT: usize = M;
    const BYZ: bool = true;
    fn make(i: usize) -> Self {
        Byz { tok: Tok::new(), i }
    }
    fn idx(&self) -> usize {
        self.tok.check("look at");
        self.i % M.max(1)
    }
}
