use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
verus! {
//@@ contains src/util/general_iter.rs macro_rules! gen_vector_iter_impl { ($($life:lifetime, )? $name:ident, $type:ty, $item:ty, $get_unchecked:ident, $get:ident) => {
//@@ contains src/util/general_iter.rs crate::util::gen_vector_iter_impl!($own, $type, $return_type, $get_unchecked, $get); crate::util::gen_vector_iter_impl!('a, $bor, $type, $return_type, $get_unchecked, $get);
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident) => { impl_vector_iterator! { $type, $own, $bor, get_unchecked, get, u64 } };
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident, $get_unchecked:ident, $get:ident, $return_type:ty, special) => {
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident, $get_unchecked:ident, $get:ident, $return_type:ty) => { impl_vector_iterator! { $type, $own, $bor, $get_unchecked, $get, $return_type, special }
//@@ contains src/util/general_iter.rs crate::util::impl_into_iterator_impls!($type, $own, $bor, $return_type);
//@@ contains src/bit_vec/mod.rs impl_vector_iterator! { BitVec, BitVecIter, BitVecRefIter }
//@@ macro src/util/general_iter.rs impl_vector_iterator 1 bitvecstructs type=BitVec own=BitVecIter bor=BitVecRefIter get_unchecked=get_unchecked get=get return_type=u64
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 bitveciter name=BitVecIter type=BitVec item=u64 get_unchecked=get_unchecked get=get
//@@ item macro:bitvecstructs struct BitVecIter

impl BitVecIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.len }
//@@ fn macro:bitveciter BitVecIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.len,
//@@ end
//@@ fn macro:bitveciter BitVecIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:bitveciter <BitVecIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:bitveciter BitVecIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:bitveciter BitVecIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:bitveciter <BitVecIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo()])) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:bitveciter <BitVecIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1])) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:bitveciter <BitVecIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo() + n])) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:bitveciter <BitVecIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1 - n])) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:bitveciter <BitVecIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:bitveciter <BitVecIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:bitveciter <BitVecIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(b2u(self.vec@[self.hi() - 1])),
//@@ end
}
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 bitvecrefiter life='a name=BitVecRefIter type=BitVec item=u64 get_unchecked=get_unchecked get=get
//@@ item macro:bitvecstructs struct BitVecRefIter

impl<'a> BitVecRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.len }
//@@ fn macro:bitvecrefiter BitVecRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.len,
//@@ end
//@@ fn macro:bitvecrefiter BitVecRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:bitvecrefiter BitVecRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:bitvecrefiter BitVecRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo()])) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1])) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo() + n])) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1 - n])) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:bitvecrefiter <BitVecRefIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(b2u(self.vec@[self.hi() - 1])),
//@@ end
}
//@@ macro src/util/general_iter.rs impl_vector_iterator 2 bitvecmk type=BitVec own=BitVecIter bor=BitVecRefIter get_unchecked=get_unchecked get=get return_type=u64
//@@ macro src/util/general_iter.rs impl_into_iterator_impls 1 bitvecinto type=BitVec own=BitVecIter bor=BitVecRefIter element_type=u64
impl BitVec {
//@@ fn macro:bitvecmk BitVec::iter
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:bitvecinto <BitVec as IntoIterator>::into_iter as=into_iter_own
//@ props C20
//@ ret
BitVecIter
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:bitvecinto <BitVec as IntoIterator>::into_iter nth=1 as=into_iter_ref recv=ref
//@ props C20
//@ generics
<'a>
//@ ret
BitVecRefIter<'a>
//@ spec
    requires self.wf(),
    ensures r.wf(), *r.vec == *self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:bitvecinto <BitVec as IntoIterator>::into_iter nth=2 as=into_iter_mut recv=mut
//@ props C20
//@ generics
<'a>
//@ ret
BitVecRefIter<'a>
//@ spec
    requires old(self).wf(),
    ensures r.wf(), *r.vec == *old(self), r.lo() == 0, r.hi() == old(self).len,
//@@ end
}
//@@ contains src/bit_vec/fast_rs_vec/mod.rs impl_vector_iterator! { RsVec, RsVecIter, RsVecRefIter }
//@@ macro src/util/general_iter.rs impl_vector_iterator 1 rsvecstructs type=RsVec own=RsVecIter bor=RsVecRefIter get_unchecked=get_unchecked get=get return_type=u64
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 rsveciter name=RsVecIter type=RsVec item=u64 get_unchecked=get_unchecked get=get
//@@ item macro:rsvecstructs struct RsVecIter

impl RsVecIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.len }
//@@ fn macro:rsveciter RsVecIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.len,
//@@ end
//@@ fn macro:rsveciter RsVecIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:rsveciter <RsVecIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:rsveciter RsVecIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:rsveciter RsVecIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:rsveciter <RsVecIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo()])) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:rsveciter <RsVecIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1])) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:rsveciter <RsVecIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo() + n])) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:rsveciter <RsVecIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1 - n])) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:rsveciter <RsVecIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:rsveciter <RsVecIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:rsveciter <RsVecIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(b2u(self.vec@[self.hi() - 1])),
//@@ end
}
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 rsvecrefiter life='a name=RsVecRefIter type=RsVec item=u64 get_unchecked=get_unchecked get=get
//@@ item macro:rsvecstructs struct RsVecRefIter

impl<'a> RsVecRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.len }
//@@ fn macro:rsvecrefiter RsVecRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.len,
//@@ end
//@@ fn macro:rsvecrefiter RsVecRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:rsvecrefiter RsVecRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:rsvecrefiter RsVecRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo()])) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1])) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).lo() + n])) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r == Some(b2u(old(self).vec@[old(self).hi() - 1 - n])) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:rsvecrefiter <RsVecRefIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r == Some(b2u(self.vec@[self.hi() - 1])),
//@@ end
}
//@@ macro src/util/general_iter.rs impl_vector_iterator 2 rsvecmk type=RsVec own=RsVecIter bor=RsVecRefIter get_unchecked=get_unchecked get=get return_type=u64
//@@ macro src/util/general_iter.rs impl_into_iterator_impls 1 rsvecinto type=RsVec own=RsVecIter bor=RsVecRefIter element_type=u64
impl RsVec {
//@@ fn macro:rsvecmk RsVec::iter
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:rsvecinto <RsVec as IntoIterator>::into_iter as=into_iter_own
//@ props C20
//@ ret
RsVecIter
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:rsvecinto <RsVec as IntoIterator>::into_iter nth=1 as=into_iter_ref recv=ref
//@ props C20
//@ generics
<'a>
//@ ret
RsVecRefIter<'a>
//@ spec
    requires self.wf(),
    ensures r.wf(), *r.vec == *self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:rsvecinto <RsVec as IntoIterator>::into_iter nth=2 as=into_iter_mut recv=mut
//@ props C20
//@ generics
<'a>
//@ ret
RsVecRefIter<'a>
//@ spec
    requires old(self).wf(),
    ensures r.wf(), *r.vec == *old(self), r.lo() == 0, r.hi() == old(self).len,
//@@ end
}
} // verus!
