use vstd::prelude::*;
use crate::base::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
verus! {
// The std adapters skip, take and map over the select iterators, by their documented meaning: which items they
// yield, in which order, and that the closure of `map` may be called with each of them.
/// the items of an iterator
pub trait Items: Sized {
    spec fn yields(&self, x: int) -> bool;
}
impl<'a, const ZERO: bool> Items for SelectIter<'a, ZERO> {
    open spec fn yields(&self, x: int) -> bool {
        exists|k: int| self.lo() <= k < self.hi() && #[trigger] is_sel(ZERO, self.vec@, k, x)
    }
}
/// items number `from` to `to` of the select iterator, in that order
pub struct RankRange<'a, const ZERO: bool> { pub it: SelectIter<'a, ZERO>, pub from: Ghost<int>, pub to: Ghost<int> }
impl<'a, const ZERO: bool> Items for RankRange<'a, ZERO> {
    open spec fn yields(&self, x: int) -> bool {
        exists|k: int| self.from@ <= k < self.to@ && #[trigger] is_sel(ZERO, self.it.vec@, k, x)
    }
}
pub open spec fn lesser(a: int, b: int) -> int { if a <= b { a } else { b } }
pub fn iter_skip<'a, const ZERO: bool>(it: SelectIter<'a, ZERO>, n: usize) -> (r: RankRange<'a, ZERO>)
    requires it.wf(),
    ensures r.it == it, r.from@ == lesser(it.lo() + n, it.hi()), r.to@ == it.hi(),
{
    let ghost f = lesser(it.lo() + n, it.hi());
    let ghost e = it.hi();
    RankRange { it, from: Ghost(f), to: Ghost(e) }
}
pub fn iter_take<'a, const ZERO: bool>(it: RankRange<'a, ZERO>, n: usize) -> (r: RankRange<'a, ZERO>)
    ensures r.it == it.it, r.from == it.from, r.to@ == lesser(it.from@ + n, it.to@),
{
    RankRange { it: it.it, from: it.from, to: Ghost(lesser(it.from@ + n, it.to@)) }
}
/// the items of `it`, each replaced by what the closure makes of it
pub struct MapIter<I> { pub it: I, pub rel: Ghost<spec_fn(usize, usize) -> bool> }
pub fn iter_map<I: Items, F: Fn(usize) -> usize>(it: I, f: F) -> (r: MapIter<I>)
    requires forall|x: usize| it.yields(x as int) ==> call_requires(f, (x,)),
    ensures r.it == it, forall|x: usize, y: usize| #[trigger] (r.rel@)(x, y) ==> call_ensures(f, (x,), y),
{
    let ghost g = |x: usize, y: usize| call_ensures(f, (x,), y);
    MapIter { it, rel: Ghost(g) }
}
} // verus!
