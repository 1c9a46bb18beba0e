use vstd::prelude::*;
use std::num::NonZeroUsize;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
use crate::selinto::*;
use crate::ef::*;
verus! {
//@@ contains src/util/elias_fano_iter.rs crate::util::gen_ef_iter_impl!($own, into_iter1); crate::util::gen_ef_iter_impl!('a, $bor, iter1);
//@@ contains src/util/elias_fano_iter.rs ($($life:lifetime, )? $name:ident, $converter:ident) => {
//@@ contains src/util/elias_fano_iter.rs ($own:ident, $bor:ident) => {
//@@ contains src/elias_fano/mod.rs impl_ef_iterator! { EliasFanoIter, EliasFanoRefIter }
/// the vector an iterator runs over, as far as the iterator knows it
pub open spec fn ef_of(u: RsVec, l: BitVec, z: u64, w: usize, v: Seq<u64>) -> EliasFanoVec {
    EliasFanoVec { upper_vec: u, lower_vec: l, universe_zero: z, universe_max: if v.len() > 0 { v[v.len() - 1] } else { 0 }, lower_len: w, len: v.len() as usize }
}
pub open spec fn ef_seq(u: RsVec, l: BitVec, z: u64, w: usize, v: Seq<u64>) -> bool { ef_of(u, l, z, w, v).repr(v) }
pub open spec fn ef_view(u: RsVec, l: BitVec, z: u64, w: usize) -> Seq<u64> { choose|v: Seq<u64>| ef_seq(u, l, z, w, v) }
pub proof fn lemma_ef_view(e: EliasFanoVec)
    requires e.wf(),
    ensures ef_seq(e.upper_vec, e.lower_vec, e.universe_zero, e.lower_len, e@), ef_view(e.upper_vec, e.lower_vec, e.universe_zero, e.lower_len) == e@,
        rank1(e.upper_vec@, e.upper_vec.len as int) == e@.len(), e.len == e@.len(),
{
    let v = e@;
    let f = ef_of(e.upper_vec, e.lower_vec, e.universe_zero, e.lower_len, v);
    assert(e.repr(v));
    assert(f.offsets(v) =~= e.offsets(v));
    assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] f.pos(v, i) < f.upper_vec.len && f.upper_vec@[f.pos(v, i)] && rank1(f.upper_vec@, f.pos(v, i)) == i by {
        assert(f.pos(v, i) == e.pos(v, i));
    }
    assert(f.repr(v));
    assert(ef_seq(e.upper_vec, e.lower_vec, e.universe_zero, e.lower_len, v));
    let w = ef_view(e.upper_vec, e.lower_vec, e.universe_zero, e.lower_len);
    let g = ef_of(e.upper_vec, e.lower_vec, e.universe_zero, e.lower_len, w);
    assert(g.repr(w));
    e.lemma_unique2(g, v, w);
}
/// assembling element `i`
pub proof fn lemma_ef_item(u: RsVec, l: BitVec, z: u64, w: usize, v: Seq<u64>, i: int)
    requires ef_seq(u, l, z, w, v), 0 <= i < v.len(),
    ensures w < 64, l.wf(), 0 <= i * w, i * w + w <= l.len, u.len <= 0x20_0000_0000_0000, v.len() <= 0x4_0000_0000_0000,
        forall|p: int| #[trigger] is_select1(u@, i, p) ==> p >= i + 1,
        forall|p: int, b: u64| #[trigger] is_select1(u@, i, p) && #[trigger] is_bits(b, l@, i * w, w as int) ==> ((((p - i - 1) as u64) << (w as u64)) | b) + z == v[i],
{
    let e = ef_of(u, l, z, w, v);
    assert(e.repr(v));
    e.lemma_lowers(v);
    assert(0 <= i * e.lw());
    assert(0 <= e.pos(v, i));
    assert forall|p: int| #[trigger] is_select1(u@, i, p) implies p == e.pos(v, i) by { lemma_select1_unique(u@, p, e.pos(v, i)); }
    lemma_split(e.x(v, i), e.lw());
    assert(v[0] <= v[i]);
    assert forall|p: int, b: u64| #[trigger] is_select1(u@, i, p) && #[trigger] is_bits(b, l@, i * w, w as int) implies ((((p - i - 1) as u64) << (w as u64)) | b) + z == v[i] by {
        assert(is_bits(b, e.lower_vec@, i * e.lw(), e.lw()));
        assert(b == e.low(v, i));
    }
}
//@@ macro src/util/elias_fano_iter.rs impl_ef_iterator 0 efstructs own=EliasFanoIter bor=EliasFanoRefIter
//@@ macro src/util/elias_fano_iter.rs gen_ef_iter_impl 0 eliasfanoiter name=EliasFanoIter converter=into_iter1
//@@ item macro:efstructs struct EliasFanoIter

impl EliasFanoIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn view(&self) -> Seq<u64> { ef_view(self.upper_iter.vec, self.vec, self.universe_zero, self.lower_len) }
    pub open spec fn wf(&self) -> bool {
        &&& self.upper_iter.wf() && self.upper_iter.lo() == self.lo() && self.upper_iter.hi() == self.hi()
        &&& ef_seq(self.upper_iter.vec, self.vec, self.universe_zero, self.lower_len, self@)
        &&& self.lo() <= self.hi() <= self@.len()
    }
    pub proof fn lemma_item(&self, i: int)
        requires self.wf(), 0 <= i < self@.len(),
        ensures self.lower_len < 64, self.vec.wf(), 0 <= i * self.lower_len, i * self.lower_len + self.lower_len <= self.vec.len, self@.len() <= 0x4_0000_0000_0000,
            forall|p: int| #[trigger] is_sel(false, self.upper_iter.vec@, i, p) ==> p >= i + 1 && p < 0x20_0000_0000_0000,
            forall|p: int, b: u64| #[trigger] is_sel(false, self.upper_iter.vec@, i, p) && #[trigger] is_bits(b, self.vec@, i * self.lower_len, self.lower_len as int) ==> ((((p - i - 1) as u64) << (self.lower_len as u64)) | b) + self.universe_zero == self@[i],
    {
        lemma_ef_item(self.upper_iter.vec, self.vec, self.universe_zero, self.lower_len, self@, i);
        assert forall|p: int| #[trigger] is_sel(false, self.upper_iter.vec@, i, p) implies is_select1(self.upper_iter.vec@, i, p) by { }
    }
//@@ fn macro:efstructs EliasFanoIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r@ == vec@, r.lo() == 0, r.hi() == vec@.len(),
//@ start
    proof {
        lemma_ef_view(vec);
        vec.upper_vec.lemma_totals();
    }
//@@ end
//@@ fn macro:eliasfanoiter EliasFanoIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:eliasfanoiter EliasFanoIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:eliasfanoiter EliasFanoIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r == Some(old(self)@[old(self).lo()]) && final(self).lo() == old(self).lo() + 1,
//@ start
    proof { if self.lo() < self.hi() { self.lemma_item(self.lo()); } }
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r == Some(old(self)@[old(self).hi() - 1]) && final(self).hi() == old(self).hi() - 1,
//@ start
    proof { if self.lo() < self.hi() { self.lemma_item(self.hi() - 1); } }
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r == Some(old(self)@[old(self).lo() + n]) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r == Some(old(self)@[old(self).hi() - 1 - n]) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::last nogenerics noderef
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(self@[self.hi() - 1]),
//@ start
    proof { if self.lo() < self.hi() { self.lemma_item(self.hi() - 1); } }
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::min nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(self@[self.lo()]) && (forall|i: int| self.lo() <= i < self.hi() ==> self@[self.lo()] <= #[trigger] self@[i]),
//@@ end
//@@ fn macro:eliasfanoiter <EliasFanoIter as Iterator>::max nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(self@[self.hi() - 1]) && (forall|i: int| self.lo() <= i < self.hi() ==> #[trigger] self@[i] <= self@[self.hi() - 1]),
//@@ end
}
//@@ macro src/util/elias_fano_iter.rs gen_ef_iter_impl 0 eliasfanorefiter life='a name=EliasFanoRefIter converter=iter1
//@@ item macro:efstructs struct EliasFanoRefIter

impl<'a> EliasFanoRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn view(&self) -> Seq<u64> { ef_view(*self.upper_iter.vec, *self.vec, self.universe_zero, self.lower_len) }
    pub open spec fn wf(&self) -> bool {
        &&& self.upper_iter.wf() && self.upper_iter.lo() == self.lo() && self.upper_iter.hi() == self.hi()
        &&& ef_seq(*self.upper_iter.vec, *self.vec, self.universe_zero, self.lower_len, self@)
        &&& self.lo() <= self.hi() <= self@.len()
    }
    pub proof fn lemma_item(&self, i: int)
        requires self.wf(), 0 <= i < self@.len(),
        ensures self.lower_len < 64, self.vec.wf(), 0 <= i * self.lower_len, i * self.lower_len + self.lower_len <= self.vec.len, self@.len() <= 0x4_0000_0000_0000,
            forall|p: int| #[trigger] is_sel(false, self.upper_iter.vec@, i, p) ==> p >= i + 1 && p < 0x20_0000_0000_0000,
            forall|p: int, b: u64| #[trigger] is_sel(false, self.upper_iter.vec@, i, p) && #[trigger] is_bits(b, self.vec@, i * self.lower_len, self.lower_len as int) ==> ((((p - i - 1) as u64) << (self.lower_len as u64)) | b) + self.universe_zero == self@[i],
    {
        lemma_ef_item(*self.upper_iter.vec, *self.vec, self.universe_zero, self.lower_len, self@, i);
        assert forall|p: int| #[trigger] is_sel(false, self.upper_iter.vec@, i, p) implies is_select1(self.upper_iter.vec@, i, p) by { }
    }
//@@ fn macro:efstructs EliasFanoRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r@ == vec@, r.lo() == 0, r.hi() == vec@.len(),
//@ start
    proof {
        lemma_ef_view(*vec);
        vec.upper_vec.lemma_totals();
    }
//@@ end
//@@ fn macro:eliasfanorefiter EliasFanoRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:eliasfanorefiter EliasFanoRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:eliasfanorefiter EliasFanoRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r == Some(old(self)@[old(self).lo()]) && final(self).lo() == old(self).lo() + 1,
//@ start
    proof { if self.lo() < self.hi() { self.lemma_item(self.lo()); } }
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r == Some(old(self)@[old(self).hi() - 1]) && final(self).hi() == old(self).hi() - 1,
//@ start
    proof { if self.lo() < self.hi() { self.lemma_item(self.hi() - 1); } }
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r == Some(old(self)@[old(self).lo() + n]) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r == Some(old(self)@[old(self).hi() - 1 - n]) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::last nogenerics noderef
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(self@[self.hi() - 1]),
//@ start
    proof { if self.lo() < self.hi() { self.lemma_item(self.hi() - 1); } }
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::min nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(self@[self.lo()]) && (forall|i: int| self.lo() <= i < self.hi() ==> self@[self.lo()] <= #[trigger] self@[i]),
//@@ end
//@@ fn macro:eliasfanorefiter <EliasFanoRefIter as Iterator>::max nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(self@[self.hi() - 1]) && (forall|i: int| self.lo() <= i < self.hi() ==> #[trigger] self@[i] <= self@[self.hi() - 1]),
//@@ end
}
//@@ macro src/util/general_iter.rs impl_into_iterator_impls 1 efinto type=EliasFanoVec own=EliasFanoIter bor=EliasFanoRefIter element_type=u64
impl EliasFanoVec {
//@@ fn macro:efstructs EliasFanoVec::iter
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r@ == self@, r.lo() == 0, r.hi() == self@.len(),
//@@ end
//@@ fn macro:efinto <EliasFanoVec as IntoIterator>::into_iter as=into_iter_own
//@ props C20
//@ ret
EliasFanoIter
//@ spec
    requires self.wf(),
    ensures r.wf(), r@ == self@, r.lo() == 0, r.hi() == self@.len(),
//@@ end
//@@ fn macro:efinto <EliasFanoVec as IntoIterator>::into_iter nth=1 as=into_iter_ref recv=ref
//@ props C20
//@ generics
<'a>
//@ ret
EliasFanoRefIter<'a>
//@ spec
    requires self.wf(),
    ensures r.wf(), r@ == self@, r.lo() == 0, r.hi() == self@.len(),
//@@ end
//@@ fn macro:efinto <EliasFanoVec as IntoIterator>::into_iter nth=2 as=into_iter_mut recv=mut
//@ props C20
//@ generics
<'a>
//@ ret
EliasFanoRefIter<'a>
//@ spec
    requires old(self).wf(),
    ensures r.wf(), r@ == old(self)@, r.lo() == 0, r.hi() == old(self)@.len(),
//@@ end
}
} // verus!
