//! Is a history of one register linearizable?

use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Load,
    Store(usize),
    Cas(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Never returned, or returned without an answer: may or may not have taken effect.
    Unknown,
    Done,
    /// A load, with every value its answer stands for.
    Val(Vec<usize>),
    Cas(Result<usize, usize>),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub th: usize,
    pub act: Act,
    pub out: Out,
    pub inv: u32,
    pub ret: u32,
}

pub fn linearizable(init: usize, calls: &[Call]) -> bool {
    // What returned nothing and changed nothing says nothing.
    let c: Vec<&Call> = calls.iter().filter(|c| !(c.act == Act::Load && c.out == Out::Unknown)).collect();
    assert!(c.len() <= 60);
    let need: u64 = c.iter().enumerate().filter(|(_, c)| c.out != Out::Unknown).map(|(i, _)| 1u64 << i).sum();
    let mut seen = HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((mask, v)) = stack.pop() {
        if mask & need == need {
            return true;
        }
        if !seen.insert((mask, v)) {
            continue;
        }
        let first_ret = c.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, c)| c.ret).min().unwrap();
        for (i, x) in c.iter().enumerate() {
            if mask >> i & 1 == 1 || x.inv > first_ret {
                continue;
            }
            let m = mask | 1 << i;
            match (&x.act, &x.out) {
                (Act::Load, Out::Val(vs)) => {
                    if vs.contains(&v) {
                        stack.push((m, v));
                    }
                }
                (Act::Store(k), Out::Done) => stack.push((m, *k)),
                (Act::Store(k), Out::Unknown) => {
                    stack.push((m, *k));
                    stack.push((m, v));
                }
                (Act::Cas(a, b), Out::Cas(r)) => match r {
                    Ok(x) if x == a && v == *a => stack.push((m, *b)),
                    Err(x) if *x == v && v != *a => stack.push((m, v)),
                    _ => {}
                },
                (Act::Cas(a, b), Out::Unknown) => {
                    if v == *a {
                        stack.push((m, *b));
                    }
                    stack.push((m, v));
                }
                x => panic!("{x:?}"),
            }
        }
    }
    false
}
