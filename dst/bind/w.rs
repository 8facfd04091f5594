//! The library's iterators behind the simulator's interface.

use std::fmt;
use std::fmt::Debug;
use std::fmt::Write;

use dstcore::core::*;
use dstcore::iters::*;
use dstcore::sparse::Split;

use super::keys::SimKey;

struct RawIter<I: DoubleEndedIterator> {
    it: I,
    conv: fn(I::Item) -> It,
    len: Option<fn(&I) -> usize>,
}

fn conv_out<T>(conv: fn(T) -> It, x: T) -> It {
    let _o = out();
    let x = conv(x);
    touch(x);
    x
}

impl<I: DoubleEndedIterator> Raw for RawIter<I> {
    fn r_next(&mut self) -> Option<It> {
        let x = self.it.next()?;
        Some(conv_out(self.conv, x))
    }
    fn r_next_back(&mut self) -> Option<It> {
        let x = self.it.next_back()?;
        Some(conv_out(self.conv, x))
    }
    fn r_nth(&mut self, n: usize) -> Option<It> {
        let x = self.it.nth(n)?;
        Some(conv_out(self.conv, x))
    }
    fn r_nth_back(&mut self, n: usize) -> Option<It> {
        let x = self.it.nth_back(n)?;
        Some(conv_out(self.conv, x))
    }
    fn r_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn r_len(&self) -> usize {
        self.len.unwrap()(&self.it)
    }
    fn r_count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn r_last(self: Box<Self>) -> Option<It> {
        let conv = self.conv;
        let x = self.it.last()?;
        Some(conv_out(conv, x))
    }
    fn r_fold(self: Box<Self>, f: &mut dyn FnMut(It)) {
        let conv = self.conv;
        self.it.fold((), |_, x| f(conv_out(conv, x)))
    }
    fn r_rfold(self: Box<Self>, f: &mut dyn FnMut(It)) {
        let conv = self.conv;
        self.it.rfold((), |_, x| f(conv_out(conv, x)))
    }
    fn r_for_each(self: Box<Self>, f: &mut dyn FnMut(It)) {
        let conv = self.conv;
        self.it.for_each(|x| f(conv_out(conv, x)))
    }
    fn r_pick(self: Box<Self>, how: u32) -> Option<It> {
        use std::cmp::Ordering::Equal;
        let conv = self.conv;
        let x = match how {
            0 => self.it.reduce(|_, b| b),
            1 => self.it.max_by(|_, _| Equal),
            2 => self.it.min_by(|_, _| Equal),
            3 => self.it.max_by_key(|_| 0),
            _ => self.it.min_by_key(|_| 0),
        };
        Some(conv_out(conv, x?))
    }
}

fn part_any<I: DoubleEndedIterator>(it: &mut I, n: usize, back: bool, how: usize, conv: fn(I::Item) -> It, sink: &mut Sink) -> bool {
    let mut seen = 0;
    // Whether this was the item to stop at.
    let mut f = |x| {
        let _o = out();
        let y = conv(x);
        sink(0, y);
        seen += 1;
        seen == n
    };
    if back {
        let r = it.rev().try_for_each(|x| if f(x) { Err(()) } else { Ok(()) });
        return r.is_err() == (seen == n);
    }
    match how {
        1 => it.position(&mut f) == (seen == n).then(|| n - 1),
        2 => it.any(&mut f) == (seen == n),
        3 => it.all(|x| !f(x)) == (seen != n),
        4 => it.find_map(|x| f(x).then_some(7)) == (seen == n).then_some(7),
        _ => it.try_for_each(|x| if f(x) { Err(()) } else { Ok(()) }).is_err() == (seen == n),
    }
}

pub struct W<I: DoubleEndedIterator> {
    pub it: I,
    pub conv: fn(I::Item) -> It,
    pub len: Option<fn(&I) -> usize>,
    pub fork: Option<fn(&I) -> I>,
    pub dbg: Option<fn(&I, &mut Writer, bool) -> fmt::Result>,
}

impl<I: DoubleEndedIterator> W<I> {
    pub fn new(it: I, conv: fn(I::Item) -> It) -> Self {
        W { it, conv, len: None, fork: None, dbg: None }
    }
    pub fn exact(mut self) -> Self
    where
        I: ExactSizeIterator,
    {
        self.len = Some(|i| i.len());
        self
    }
    pub fn fork(mut self) -> Self
    where
        I: Clone,
    {
        self.fork = Some(|i| i.clone());
        self
    }
    pub fn dbg(mut self) -> Self
    where
        I: Debug,
    {
        self.dbg = Some(|i, w, alt| if alt { write!(w, "{i:#?}") } else { write!(w, "{i:?}") });
        self
    }
}

impl<'a, I: DoubleEndedIterator + 'a> DynIter<'a> for W<I> {
    fn next(&mut self) -> Res<Option<It>> {
        Ok(lib(|| self.it.next())?.map(self.conv))
    }
    fn next_back(&mut self) -> Res<Option<It>> {
        Ok(lib(|| self.it.next_back())?.map(self.conv))
    }
    fn nth(&mut self, n: usize) -> Res<Option<It>> {
        Ok(lib(|| self.it.nth(n))?.map(self.conv))
    }
    fn nth_back(&mut self, n: usize) -> Res<Option<It>> {
        Ok(lib(|| self.it.nth_back(n))?.map(self.conv))
    }
    fn find(&mut self, n: usize, back: bool) -> Res<Option<It>> {
        let mut left = n;
        let mut last = |_: &I::Item| {
            left = left.wrapping_sub(1);
            left == usize::MAX
        };
        Ok(lib(|| if back { self.it.rfind(&mut last) } else { self.it.find(&mut last) })?.map(self.conv))
    }
    fn part(&mut self, n: usize, back: bool, how: usize, sink: &mut Sink) -> Res<bool> {
        lib(|| part_any(&mut self.it, n, back, how, self.conv, sink))
    }
    fn hint(&self) -> Res<(usize, Option<usize>)> {
        lib(|| self.it.size_hint())
    }
    fn len(&self) -> Option<Res<usize>> {
        self.len.map(|f| lib(|| f(&self.it)))
    }
    fn fork(&self) -> Option<Res<Box<dyn DynIter<'a> + 'a>>> {
        let f = self.fork?;
        Some(lib(|| f(&self.it)).map(|it| {
            Box::new(W { it, conv: self.conv, len: self.len, fork: self.fork, dbg: self.dbg })
                as Box<dyn DynIter<'a> + 'a>
        }))
    }
    fn has_debug(&self) -> bool {
        self.dbg.is_some()
    }
    fn debug(&self, w: &mut Writer, alt: bool) -> Option<Res<fmt::Result>> {
        let f = self.dbg?;
        Some(lib(|| f(&self.it, w, alt)))
    }
    fn finish(self: Box<Self>, kind: u32, arg: usize, sink: &mut Sink) -> Res<()> {
        let er = Er(Box::new(RawIter { it: self.it, conv: self.conv, len: self.len }));
        finish_erased(er, kind, arg, sink)
    }
    fn discard(self: Box<Self>) -> Res<()> {
        let it = self.it;
        lib(move || drop(it))
    }
    fn forget(self: Box<Self>) {
        std::mem::forget(self.it)
    }
}


/// Hand out every item of an iterator over mutable references, from one end, the other or both.
pub fn split_pairs<'a, K: SimKey, V: SimVal>(
    mut it: impl DoubleEndedIterator<Item = (K, &'a mut V)>,
    how: u32,
    sink: &mut Split<'_, 'a>,
) -> Res<()> {
    let mut n = 0;
    loop {
        let back = how >> (4 + n % 8) & 1 == 1;
        n += 1;
        let Some((k, r)) = lib(|| if back { it.next_back() } else { it.next() })? else { break };
        sink(Some(k.idx()), r);
    }
    lib(move || drop(it))
}

pub fn split_values<'a, V: SimVal>(
    mut it: impl DoubleEndedIterator<Item = &'a mut V>,
    how: u32,
    sink: &mut Split<'_, 'a>,
) -> Res<()> {
    let mut n = 0;
    loop {
        let back = how >> (4 + n % 8) & 1 == 1;
        n += 1;
        let Some(r) = lib(|| if back { it.next_back() } else { it.next() })? else { break };
        sink(None, r);
    }
    lib(move || drop(it))
}
