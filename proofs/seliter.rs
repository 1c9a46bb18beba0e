use vstd::prelude::*;
use std::num::NonZeroUsize;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
verus! {
//@@ contains src/bit_vec/fast_rs_vec/iter.rs gen_iter_impl!('a, SelectIter);
//@@ item src/bit_vec/fast_rs_vec/iter.rs struct SelectIter
//@@ macro src/bit_vec/fast_rs_vec/iter.rs gen_iter_impl 0 seliter life='a name=SelectIter

/// position of the bit number `n` of a kind
pub open spec fn is_sel(zero: bool, s: Seq<bool>, n: int, p: int) -> bool {
    if zero { is_select0(s, n, p) } else { is_select1(s, n, p) }
}
/// bits of a kind before position `p` (positions past the end count as ones)
pub open spec fn kc(zero: bool, s: Seq<bool>, p: int) -> int {
    if zero { zc(s, p) } else { oc(s, p) }
}
impl<'a, const ZERO: bool> SelectIter<'a, ZERO> {
    pub open spec fn lo(&self) -> int { self.next_rank as int }
    pub open spec fn hi(&self) -> int { match self.next_rank_back { Some(x) => x + 1, None => 0 } }
    pub open spec fn total(&self) -> int { if ZERO { self.vec.tz() } else { self.vec.to() } }
    pub open spec fn wf(&self) -> bool {
        &&& self.vec.wf()
        &&& self.lo() <= self.hi() <= self.total()
        &&& self.vec.len > 0 ==> {
            &&& self.last_super_block < self.vec.super_blocks@.len()
            &&& self.last_block < self.vec.blocks@.len()
            &&& self.last_block as int / 16 == self.last_super_block
            &&& kc(ZERO, self.vec@, 512 * self.last_block) <= self.lo()
            &&& self.last_super_block_back < self.vec.super_blocks@.len()
            &&& self.last_block_back < self.vec.blocks@.len()
            &&& self.last_block_back as int / 16 == self.last_super_block_back
            &&& self.hi() <= kc(ZERO, self.vec@, 512 * (self.last_block_back + 1))
        }
    }
    /// what the two caches say about the counters
    pub proof fn lemma_cache(&self)
        requires self.wf(),
        ensures
            self.vec.rank0 == self.vec.tz(), self.vec.rank1 == self.vec.to(),
            self.lo() < self.hi() ==> self.vec.len > 0,
            self.vec.len > 0 ==> 8192 * (self.vec.super_blocks@.len() - 1) < self.vec.len,
            self.vec.len > 0 ==> ({
                let s = self.vec@;
                &&& kc(ZERO, s, 8192 * self.last_super_block) <= kc(ZERO, s, 512 * self.last_block)
                &&& kc(ZERO, s, 512 * (self.last_block + 1)) <= kc(ZERO, s, 8192 * (self.last_super_block + 1))
                &&& self.last_block % 16 == 15 ==> kc(ZERO, s, 512 * (self.last_block + 1)) == kc(ZERO, s, 8192 * (self.last_super_block + 1))
                &&& self.hi() <= kc(ZERO, s, 8192 * (self.last_super_block_back + 1))
                &&& 512 * self.last_block < self.vec.len && 512 * self.last_block_back < self.vec.len
                &&& self.vec.blocks@[0].zeros == 0
            }),
    {
        hide(zc);
        let v = self.vec;
        assert(zc(v@, 0) == 0) by { reveal(zc); }
        let s = v@;
        v.lemma_totals();
        v.lemma_counters_all();
        lemma_blocks_per_super();
        if v.len > 0 {
            let lb = self.last_block as int;
            let bb = self.last_block_back as int;
            lemma_zc_mono(s, 8192 * (lb / 16), 512 * lb);
            lemma_oc_mono(s, 8192 * (lb / 16), 512 * lb);
            lemma_zc_mono(s, 512 * (lb + 1), 8192 * (lb / 16 + 1));
            lemma_oc_mono(s, 512 * (lb + 1), 8192 * (lb / 16 + 1));
            lemma_zc_mono(s, 512 * (bb + 1), 8192 * (bb / 16 + 1));
            lemma_oc_mono(s, 512 * (bb + 1), 8192 * (bb / 16 + 1));
            assert(v.blocks@[0].zeros == 0) by { v.lemma_counter(0, 0); }
        }
    }
//@@ fn macro:seliter SelectIter::new
//@ props C08
//@ spec
    requires vec.wf(),
    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == r.total(),
//@ start
    proof {
        let s = vec@;
        vec.lemma_totals();
        assert(zc(s, 0) == 0 && oc(s, 0) == 0);
        lemma_zc_mono(s, 0, vec.len as int);
        lemma_oc_mono(s, 0, vec.len as int);
        assert(zc(s, 512 * (vec.blocks@.len() - 1 + 1)) == vec.tz());
        assert(oc(s, 512 * (vec.blocks@.len() - 1 + 1)) >= vec.to());
    }
//@@ end
//@@ fn macro:seliter SelectIter::select_next_0
//@ props C08
//@ attr
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf(), ZERO,
    ensures final(self).wf(), final(self).vec == old(self).vec, final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && is_select0(old(self).vec@, old(self).lo(), r->0 as int) && final(self).lo() == old(self).lo() + 1,
//@ start
    hide(zc);
    proof {
        self.lemma_cache();
        self.vec.lemma_counters_all();
        lemma_blocks_per_super();
        if self.lo() < self.hi() { self.vec.lemma_hint0((self.next_rank as int) / 8192); }
    }
//@@ end
//@@ fn macro:seliter SelectIter::select_next_0_back
//@ props C08
//@ attr
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf(), ZERO,
    ensures final(self).wf(), final(self).vec == old(self).vec, final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && is_select0(old(self).vec@, old(self).hi() - 1, r->0 as int) && final(self).hi() == old(self).hi() - 1,
//@ start
    hide(zc);
    proof {
        self.lemma_cache();
        self.vec.lemma_counters_all();
        lemma_blocks_per_super();
        if self.lo() < self.hi() { self.vec.lemma_hint0((self.hi() - 1) / 8192); }
    }
//@@ end
//@@ fn macro:seliter SelectIter::select_next_1
//@ props C08
//@ attr
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf(), !ZERO,
    ensures final(self).wf(), final(self).vec == old(self).vec, final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && is_select1(old(self).vec@, old(self).lo(), r->0 as int) && final(self).lo() == old(self).lo() + 1,
//@ start
    hide(zc);
    proof {
        self.lemma_cache();
        self.vec.lemma_counters_all();
        lemma_blocks_per_super();
        if self.lo() < self.hi() { self.vec.lemma_hint1((self.next_rank as int) / 8192); }
    }
//@@ end
//@@ fn macro:seliter SelectIter::select_next_1_back
//@ props C08
//@ attr
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
//@ spec
    requires old(self).wf(), !ZERO,
    ensures final(self).wf(), final(self).vec == old(self).vec, final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && is_select1(old(self).vec@, old(self).hi() - 1, r->0 as int) && final(self).hi() == old(self).hi() - 1,
//@ start
    hide(zc);
    proof {
        self.lemma_cache();
        self.vec.lemma_counters_all();
        lemma_blocks_per_super();
        if self.lo() < self.hi() { self.vec.lemma_hint1((self.hi() - 1) / 8192); }
    }
//@@ end
//@@ fn macro:seliter <SelectIter as ExactSizeIterator>::len
//@ props C08
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:seliter SelectIter::advance_by
//@ props C08
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).lo() == old(self).lo() + n,
        r is Err ==> final(self).lo() == old(self).hi(),
//@@ end
//@@ fn macro:seliter SelectIter::advance_back_by
//@ props C08
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        r is Ok <==> n <= old(self).hi() - old(self).lo(),
        r is Ok ==> final(self).hi() == old(self).hi() - n,
        r is Err ==> final(self).hi() == old(self).lo(),
//@@ end
//@@ fn macro:seliter <SelectIter as Iterator>::next
//@ props C08
//@ ret
Option<usize>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),
        old(self).lo() < old(self).hi() ==> r is Some && is_sel(ZERO, old(self).vec@, old(self).lo(), r->0 as int) && final(self).lo() == old(self).lo() + 1,
//@@ end
//@@ fn macro:seliter <SelectIter as DoubleEndedIterator>::next_back
//@ props C08
//@ ret
Option<usize>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),
        old(self).lo() < old(self).hi() ==> r is Some && is_sel(ZERO, old(self).vec@, old(self).hi() - 1, r->0 as int) && final(self).hi() == old(self).hi() - 1,
//@@ end
//@@ fn macro:seliter <SelectIter as Iterator>::nth
//@ props C08
//@ ret
Option<usize>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).hi() == old(self).hi(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),
        old(self).lo() + n < old(self).hi() ==> r is Some && is_sel(ZERO, old(self).vec@, old(self).lo() + n, r->0 as int) && final(self).lo() == old(self).lo() + n + 1,
//@@ end
//@@ fn macro:seliter <SelectIter as DoubleEndedIterator>::nth_back
//@ props C08
//@ ret
Option<usize>
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vec == old(self).vec,
        final(self).lo() == old(self).lo(),
        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),
        old(self).lo() + n < old(self).hi() ==> r is Some && is_sel(ZERO, old(self).vec@, old(self).hi() - 1 - n, r->0 as int) && final(self).hi() == old(self).hi() - 1 - n,
//@@ end
//@@ fn macro:seliter <SelectIter as Iterator>::size_hint
//@ props C08
//@ spec
    requires self.wf(),
    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),
//@@ end
//@@ fn macro:seliter <SelectIter as Iterator>::count nogenerics
//@ props C08
//@ spec
    requires self.wf(),
    ensures r == self.hi() - self.lo(),
//@@ end
//@@ fn macro:seliter <SelectIter as Iterator>::last nogenerics
//@ props C08
//@ ret
Option<usize>
//@ spec
    requires self.wf(),
    ensures self.lo() >= self.hi() ==> r is None,
        self.lo() < self.hi() ==> r is Some && is_sel(ZERO, self.vec@, self.hi() - 1, r->0 as int),
//@@ end
}
impl RsVec {
//@@ fn src/bit_vec/fast_rs_vec/iter.rs RsVec::select_iter
//@ props C08
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == r.total(),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/iter.rs RsVec::iter0
//@ props C08
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.tz(),
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/iter.rs RsVec::iter1
//@ props C08
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.to(),
//@@ end
}
} // verus!
