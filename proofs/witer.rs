use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::pow2::*;
use crate::wmath::*;
use crate::wavelet::*;
use crate::wquant::*;
verus! {
//@@ contains src/util/general_iter.rs macro_rules! gen_vector_iter_impl { ($($life:lifetime, )? $name:ident, $type:ty, $item:ty, $get_unchecked:ident, $get:ident) => {
//@@ contains src/util/general_iter.rs crate::util::gen_vector_iter_impl!($own, $type, $return_type, $get_unchecked, $get); crate::util::gen_vector_iter_impl!('a, $bor, $type, $return_type, $get_unchecked, $get);
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident) => { impl_vector_iterator! { $type, $own, $bor, get_unchecked, get, u64 } };
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident, $get_unchecked:ident, $get:ident, $return_type:ty, special) => {
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident, $get_unchecked:ident, $get:ident, $return_type:ty) => { impl_vector_iterator! { $type, $own, $bor, $get_unchecked, $get, $return_type, special }
//@@ contains src/util/general_iter.rs crate::util::impl_into_iterator_impls!($type, $own, $bor, $return_type);
//@@ contains src/wavelet/mod.rs impl_vector_iterator!( WaveletMatrix, WaveletIter, WaveletRefIter, get_value_unchecked, get_value, BitVec );
//@@ macro src/util/general_iter.rs impl_vector_iterator 1 waveletstructs type=WaveletMatrix own=WaveletIter bor=WaveletRefIter get_unchecked=get_value_unchecked get=get_value return_type=BitVec
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletiter name=WaveletIter type=WaveletMatrix item=BitVec get_unchecked=get_value_unchecked get=get_value
//@@ item macro:waveletstructs struct WaveletIter

impl WaveletIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletiter WaveletIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletiter WaveletIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletiter <WaveletIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletiter WaveletIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletiter WaveletIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletiter <WaveletIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).lo()] && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletiter <WaveletIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).hi() - 1] && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletiter <WaveletIter as Iterator>::nth
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).lo() + n] && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletiter <WaveletIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).hi() - 1 - n] && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletiter <WaveletIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletiter <WaveletIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletiter <WaveletIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && r->0.wf() && r->0@.len() == self.vec.k() && bval(r->0@) == self.vec@[self.hi() - 1],
//@@ end
}
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletrefiter life='a name=WaveletRefIter type=WaveletMatrix item=BitVec get_unchecked=get_value_unchecked get=get_value
//@@ item macro:waveletstructs struct WaveletRefIter

impl<'a> WaveletRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletrefiter WaveletRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletrefiter WaveletRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletrefiter WaveletRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletrefiter WaveletRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).lo()] && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).hi() - 1] && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).lo() + n] && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && bval(r->0@) == old(self).vec@[old(self).hi() - 1 - n] && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletrefiter <WaveletRefIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && r->0.wf() && r->0@.len() == self.vec.k() && bval(r->0@) == self.vec@[self.hi() - 1],
//@@ end
}
//@@ macro src/util/general_iter.rs impl_vector_iterator 2 wmk type=WaveletMatrix own=WaveletIter bor=WaveletRefIter get_unchecked=get_value_unchecked get=get_value return_type=BitVec
//@@ macro src/util/general_iter.rs impl_into_iterator_impls 1 winto type=WaveletMatrix own=WaveletIter bor=WaveletRefIter element_type=BitVec
impl WaveletMatrix {
//@@ fn macro:wmk WaveletMatrix::iter
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.n(),
//@@ end
//@@ fn macro:winto <WaveletMatrix as IntoIterator>::into_iter as=into_iter_own
//@ props C20
//@ ret
WaveletIter
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.n(),
//@@ end
//@@ fn macro:winto <WaveletMatrix as IntoIterator>::into_iter nth=1 as=into_iter_ref recv=ref
//@ props C20
//@ generics
<'a>
//@ ret
WaveletRefIter<'a>
//@ spec
    requires self.wf(),
    ensures r.wf(), *r.vec == *self, r.lo() == 0, r.hi() == self.n(),
//@@ end
//@@ fn macro:winto <WaveletMatrix as IntoIterator>::into_iter nth=2 as=into_iter_mut recv=mut
//@ props C20
//@ generics
<'a>
//@ ret
WaveletRefIter<'a>
//@ spec
    requires old(self).wf(),
    ensures r.wf(), *r.vec == *old(self), r.lo() == 0, r.hi() == old(self).n(),
//@@ end
}
//@@ contains src/wavelet/mod.rs impl_vector_iterator!( WaveletMatrix, WaveletNumIter, WaveletNumRefIter, get_u64_unchecked, get_u64, u64, special );
//@@ macro src/util/general_iter.rs impl_vector_iterator 1 waveletnumstructs type=WaveletMatrix own=WaveletNumIter bor=WaveletNumRefIter get_unchecked=get_u64_unchecked get=get_u64 return_type=u64
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletnumiter name=WaveletNumIter type=WaveletMatrix item=u64 get_unchecked=get_u64_unchecked get=get_u64
//@@ item macro:waveletnumstructs struct WaveletNumIter

impl WaveletNumIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.vec.k() <= 64 && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletnumiter WaveletNumIter::new
//@ props C20
//@ spec
    requires vec.wf(),  vec.k() <= 64 ,
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletnumiter WaveletNumIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletnumiter WaveletNumIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletnumiter WaveletNumIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).lo()] && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).hi() - 1] && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).lo() + n] && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).hi() - 1 - n] && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletnumiter <WaveletNumIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && (r->0 as int) == self.vec@[self.hi() - 1],
//@@ end
}
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletnumrefiter life='a name=WaveletNumRefIter type=WaveletMatrix item=u64 get_unchecked=get_u64_unchecked get=get_u64
//@@ item macro:waveletnumstructs struct WaveletNumRefIter

impl<'a> WaveletNumRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.vec.k() <= 64 && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletnumrefiter WaveletNumRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),  vec.k() <= 64 ,
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletnumrefiter WaveletNumRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletnumrefiter WaveletNumRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletnumrefiter WaveletNumRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).lo()] && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).hi() - 1] && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).lo() + n] && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && (r->0 as int) == old(self).vec@[old(self).hi() - 1 - n] && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletnumrefiter <WaveletNumRefIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && (r->0 as int) == self.vec@[self.hi() - 1],
//@@ end
}
impl WaveletMatrix {
//@@ fn src/wavelet/mod.rs WaveletMatrix::iter_u64
//@ props C20
//@ spec
    requires self.wf(),
    ensures r is Some <==> self.k() <= 64, r is Some ==> r->0.wf() && r->0.vec == self && r->0.lo() == 0 && r->0.hi() == self.n(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::into_iter_u64
//@ props C20
//@ spec
    requires self.wf(),
    ensures r is Some <==> self.k() <= 64, r is Some ==> r->0.wf() && r->0.vec == self && r->0.lo() == 0 && r->0.hi() == self.n(),
//@@ end
}
//@@ contains src/wavelet/mod.rs impl_vector_iterator!( WaveletMatrix, WaveletSortedIter, WaveletSortedRefIter, get_sorted_unchecked, get_sorted, BitVec, special );
//@@ macro src/util/general_iter.rs impl_vector_iterator 1 waveletsortedstructs type=WaveletMatrix own=WaveletSortedIter bor=WaveletSortedRefIter get_unchecked=get_sorted_unchecked get=get_sorted return_type=BitVec
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletsortediter name=WaveletSortedIter type=WaveletMatrix item=BitVec get_unchecked=get_sorted_unchecked get=get_sorted
//@@ item macro:waveletsortedstructs struct WaveletSortedIter

impl WaveletSortedIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletsortediter WaveletSortedIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletsortediter WaveletSortedIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortediter WaveletSortedIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletsortediter WaveletSortedIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo(), bval(r->0@)) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1, bval(r->0@)) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as Iterator>::nth
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo() + n, bval(r->0@)) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1 - n, bval(r->0@)) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortediter <WaveletSortedIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && r->0.wf() && r->0@.len() == self.vec.k() && is_kth(self.vec@, 0, self.vec.n(), self.hi() - 1, bval(r->0@)),
//@@ end
}
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletsortedrefiter life='a name=WaveletSortedRefIter type=WaveletMatrix item=BitVec get_unchecked=get_sorted_unchecked get=get_sorted
//@@ item macro:waveletsortedstructs struct WaveletSortedRefIter

impl<'a> WaveletSortedRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletsortedrefiter WaveletSortedRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletsortedrefiter WaveletSortedRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortedrefiter WaveletSortedRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletsortedrefiter WaveletSortedRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo(), bval(r->0@)) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1, bval(r->0@)) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo() + n, bval(r->0@)) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && r->0.wf() && r->0@.len() == old(self).vec.k() && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1 - n, bval(r->0@)) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortedrefiter <WaveletSortedRefIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<BitVec>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && r->0.wf() && r->0@.len() == self.vec.k() && is_kth(self.vec@, 0, self.vec.n(), self.hi() - 1, bval(r->0@)),
//@@ end
}
impl WaveletMatrix {
//@@ fn src/wavelet/mod.rs WaveletMatrix::iter_sorted
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.n(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::into_iter_sorted
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.n(),
//@@ end
}
//@@ contains src/wavelet/mod.rs impl_vector_iterator!( WaveletMatrix, WaveletSortedNumIter, WaveletSortedNumRefIter, get_sorted_u64_unchecked, get_sorted_u64, u64, special );
//@@ macro src/util/general_iter.rs impl_vector_iterator 1 waveletsortednumstructs type=WaveletMatrix own=WaveletSortedNumIter bor=WaveletSortedNumRefIter get_unchecked=get_sorted_u64_unchecked get=get_sorted_u64 return_type=u64
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletsortednumiter name=WaveletSortedNumIter type=WaveletMatrix item=u64 get_unchecked=get_sorted_u64_unchecked get=get_sorted_u64
//@@ item macro:waveletsortednumstructs struct WaveletSortedNumIter

impl WaveletSortedNumIter {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.vec.k() <= 64 && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletsortednumiter WaveletSortedNumIter::new
//@ props C20
//@ spec
    requires vec.wf(),  vec.k() <= 64 ,
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletsortednumiter WaveletSortedNumIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortednumiter WaveletSortedNumIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletsortednumiter WaveletSortedNumIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo(), (r->0 as int)) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1, (r->0 as int)) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo() + n, (r->0 as int)) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1 - n, (r->0 as int)) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortednumiter <WaveletSortedNumIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && is_kth(self.vec@, 0, self.vec.n(), self.hi() - 1, (r->0 as int)),
//@@ end
}
//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 waveletsortednumrefiter life='a name=WaveletSortedNumRefIter type=WaveletMatrix item=u64 get_unchecked=get_sorted_u64_unchecked get=get_sorted_u64
//@@ item macro:waveletsortednumstructs struct WaveletSortedNumRefIter

impl<'a> WaveletSortedNumRefIter<'a> {
    pub open spec fn lo(&self) -> int { self.index as int }
    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }
    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.vec.k() <= 64 && self.lo() <= self.hi() <= self.vec.n() }
//@@ fn macro:waveletsortednumrefiter WaveletSortedNumRefIter::new
//@ props C20
//@ spec
    requires vec.wf(),  vec.k() <= 64 ,
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.n(),
//@@ end
//@@ fn macro:waveletsortednumrefiter WaveletSortedNumRefIter::is_iter_empty
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == (self.lo() >= self.hi()),
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as ExactSizeIterator>::len
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortednumrefiter WaveletSortedNumRefIter::advance_by
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).lo(),
//@@ end
//@@ fn macro:waveletsortednumrefiter WaveletSortedNumRefIter::advance_back_by optmap
//@ props C20
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).hi(),
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as Iterator>::next optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo(), (r->0 as int)) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as DoubleEndedIterator>::next_back optmap
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1, (r->0 as int)) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as Iterator>::nth
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).lo() + n, (r->0 as int)) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as DoubleEndedIterator>::nth_back
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && is_kth(old(self).vec@, 0, old(self).vec.n(), old(self).hi() - 1 - n, (r->0 as int)) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as Iterator>::size_hint
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as Iterator>::count nogenerics
//@ props C20
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:waveletsortednumrefiter <WaveletSortedNumRefIter as Iterator>::last nogenerics
//@ props C20
//@ ret
Option<u64>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && is_kth(self.vec@, 0, self.vec.n(), self.hi() - 1, (r->0 as int)),
//@@ end
}
impl WaveletMatrix {
//@@ fn src/wavelet/mod.rs WaveletMatrix::iter_sorted_u64
//@ props C20
//@ spec
    requires self.wf(),
    ensures r is Some <==> self.k() <= 64, r is Some ==> r->0.wf() && r->0.vec == self && r->0.lo() == 0 && r->0.hi() == self.n(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::into_iter_sorted_u64
//@ props C20
//@ spec
    requires self.wf(),
    ensures r is Some <==> self.k() <= 64, r is Some ==> r->0.wf() && r->0.vec == self && r->0.lo() == 0 && r->0.hi() == self.n(),
//@@ end
}
} // verus!
