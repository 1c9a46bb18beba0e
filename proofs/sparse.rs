use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::elemiter::*;
use crate::rsvec::*;
use crate::select::*;
use crate::ef::*;
use crate::efiter::*;
verus! {
//@@ item src/bit_vec/sparse.rs struct SparseRSVec

pub open spec fn strict(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// the bits whose set positions are `v`
pub open spec fn bits_of(v: Seq<u64>, len: u64) -> Seq<bool> { Seq::new(len as nat, |i: int| v.contains(i as u64)) }
/// counting positions is counting set bits
pub proof fn lemma_count_rank(v: Seq<u64>, len: u64, i: int, r: int)
    requires strict(v), is_count(v, i, r), 0 <= i <= len,
    ensures rank1(bits_of(v, len), i) == r,
    decreases i,
{
    let s = bits_of(v, len);
    if i > 0 {
        if r > 0 && v[r - 1] == i - 1 {
            assert(v.contains((i - 1) as u64));
            assert(is_count(v, i - 1, r - 1));
            lemma_count_rank(v, len, i - 1, r - 1);
        } else {
            if v.contains((i - 1) as u64) {
                let k = choose|k: int| 0 <= k < v.len() && v[k] == (i - 1) as u64;
                assert(k < r);
                if k < r - 1 { assert(v[k] < v[r - 1]); }
            }
            assert forall|k: int| 0 <= k < r implies #[trigger] v[k] < i - 1 by { if k < r - 1 { assert(v[k] < v[r - 1]); } }
            assert(is_count(v, i - 1, r));
            lemma_count_rank(v, len, i - 1, r);
        }
    } else if r > 0 {
        assert(v[0] < 0);
    }
}
/// each position is the number of positions before it
pub proof fn lemma_nth(v: Seq<u64>, len: u64, k: int)
    requires strict(v), 0 <= k < v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < len,
    ensures is_select1(bits_of(v, len), k, v[k] as int),
{
    assert(is_count(v, v[k] as int, k));
    lemma_count_rank(v, len, v[k] as int, k);
    assert(v.contains(v[k]));
}
/// all positions below `n` for which `b` holds, in order
pub open spec fn listed(v: Seq<u64>, s: Seq<bool>, b: bool, n: int) -> bool {
    &&& strict(v)
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] < n && s[v[i] as int] == b
    &&& forall|i: int| 0 <= i < n && s[i] == b ==> #[trigger] v.contains(i as u64)
}
pub proof fn lemma_list(v: Seq<u64>, s: Seq<bool>, b: bool, n: int)
    requires listed(v, s, b, n), 0 <= n < s.len(), n <= u64::MAX,
    ensures s[n] == b ==> listed(v.push(n as u64), s, b, n + 1), s[n] != b ==> listed(v, s, b, n + 1),
{
    if s[n] == b {
        let w = v.push(n as u64);
        assert forall|i: int| 0 <= i < n + 1 && s[i] == b implies #[trigger] w.contains(i as u64) by {
            if i == n { assert(w[v.len() as int] == n as u64); } else {
                assert(v.contains(i as u64));
                let k = choose|k: int| 0 <= k < v.len() && v[k] == i as u64;
                assert(w[k] == i as u64);
            }
        }
    }
}
impl SparseRSVec {
    pub open spec fn wf(&self) -> bool {
        &&& self.vec.wf()
        &&& strict(self.vec@)
        &&& forall|i: int| 0 <= i < self.vec@.len() ==> #[trigger] self.vec@[i] < self.len
    }
    /// the represented bits
    pub open spec fn view(&self) -> Seq<bool> { bits_of(self.vec@, self.len) }
//@@ fn src/bit_vec/sparse.rs SparseRSVec::new
//@ props C11
//@ spec
    requires strict(input@), input@.len() <= 0x4_0000_0000_0000, forall|i: int| 0 <= i < input@.len() ==> #[trigger] input@[i] < len,
    ensures r.wf(), r.len == len, r@ == bits_of(input@, len), r.vec@ == input@,
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::from_bitvec
//@ props C11
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ spec
    requires input.wf(), input.len <= 0x4_0000_0000_0000,
    ensures r.wf(), r@ == input@,
//@ loop 0
    invariant it__0.wf(), it__0.vec == input, it__0.lo() == en__0, it__0.hi() == input.len, listed(items__0@, input@, true, en__0 as int), items__0@.len() <= en__0,
    ensures listed(items__0@, input@, true, input.len as int), items__0@.len() <= input.len,
    decreases it__0.hi() - it__0.lo(),
//@ body 0
    proof { lemma_list(items__0@, input@, true, en__0 as int); }
//@ tail
    proof { assert(res__@ =~= input@); }
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::from_bitvec_inverted
//@ props C11
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ spec
    requires input.wf(), input.len <= 0x4_0000_0000_0000,
    ensures r.wf(), r@ == Seq::new(input@.len(), |i: int| !input@[i]),
//@ loop 0
    invariant it__0.wf(), it__0.vec == input, it__0.lo() == en__0, it__0.hi() == input.len, listed(items__0@, input@, false, en__0 as int), items__0@.len() <= en__0,
    ensures listed(items__0@, input@, false, input.len as int), items__0@.len() <= input.len,
    decreases it__0.hi() - it__0.lo(),
//@ body 0
    proof { lemma_list(items__0@, input@, false, en__0 as int); }
//@ tail
    proof { assert(res__@ =~= Seq::new(input@.len(), |i: int| !input@[i])); }
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::is_set_unchecked
//@ props C11
//@ spec
    requires self.wf(), i < self.len,
    ensures r == self@[i as int],
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::is_set
//@ props C11
//@ spec
    requires self.wf(),
    ensures r == if i < self.len { Some(self@[i as int]) } else { None },
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::get_unchecked boolinto
//@ props C11
//@ spec
    requires self.wf(), i < self.len,
    ensures r == b2u(self@[i as int]),
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::get boolinto
//@ props C11
//@ spec
    requires self.wf(),
    ensures r == if i < self.len { Some(b2u(self@[i as int])) } else { None },
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::select1
//@ props C11
//@ spec
    requires self.wf(),
    ensures i < rank1(self@, self.len as int) ==> is_select1(self@, i as int, r as int),
        i >= rank1(self@, self.len as int) ==> r == self.len,
//@ start
    proof {
        assert(is_count(self.vec@, self.len as int, self.vec@.len() as int));
        lemma_count_rank(self.vec@, self.len, self.len as int, self.vec@.len() as int);
        if i < self.vec@.len() { lemma_nth(self.vec@, self.len, i as int); }
    }
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::rank1
//@ props C11
//@ spec
    requires self.wf(),
    ensures r == rank1(self@, if i < self.len { i as int } else { self.len as int }),
//@ tail
    proof {
        let p = if i < self.len { i as int } else { self.len as int };
        assert(is_count(self.vec@, p, res__ as int));
        lemma_count_rank(self.vec@, self.len, p, res__ as int);
    }
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::rank0
//@ props C11
//@ spec
    requires self.wf(),
    ensures r == rank0(self@, if i < self.len { i as int } else { self.len as int }),
//@ start
    proof {
        assert forall|p: int, c: int| 0 <= p <= self.len && #[trigger] is_count(self.vec@, p, c) implies c == rank1(self@, p) by { lemma_count_rank(self.vec@, self.len, p, c); }
        lemma_rank_bounds(self@, self.len as int);
        if i < self.len { lemma_rank_bounds(self@, i as int); }
    }
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::len
//@ props C11
//@ spec
    requires self.wf(),
    ensures r == self@.len(),
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::is_empty
//@ props C11
//@ spec
    requires self.wf(),
    ensures r == (self@.len() == 0),
//@@ end
//@@ fn src/bit_vec/sparse.rs SparseRSVec::iter1
//@ props C11
//@ ret
EliasFanoRefIter<'_>
//@ spec
    requires self.wf(),
    ensures r.wf(), r.lo() == 0, r.hi() == r@.len(), r@.len() == rank1(self@, self.len as int),
        forall|k: int| 0 <= k < r@.len() ==> is_select1(self@, k, #[trigger] r@[k] as int),
//@ start
    proof {
        assert(is_count(self.vec@, self.len as int, self.vec@.len() as int));
        lemma_count_rank(self.vec@, self.len, self.len as int, self.vec@.len() as int);
        assert forall|k: int| 0 <= k < self.vec@.len() implies is_select1(self@, k, #[trigger] self.vec@[k] as int) by { lemma_nth(self.vec@, self.len, k); }
    }
//@@ end
}
} // verus!
