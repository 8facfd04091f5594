//! The key types and containers a run can choose from.

use crate::sets::*;
use crate::sparse::SparseFac;
use crate::total::TotalFac;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Any container, few values.
    Small,
    /// Any container, a thousand values.
    Mid,
    /// Heap-backed containers only, many values.
    Large,
    /// Atomic ordinals only, more values than anything could hold.
    Huge,
    Byz,
}

pub struct KeyFac {
    pub name: &'static str,
    pub kind: Kind,
    pub n: usize,
    pub sparse: Vec<SparseFac>,
    pub total: Vec<TotalFac>,
    pub sets: Vec<SetFac>,
    pub values: ValuesFac,
    pub atom: AtomFac,
}

