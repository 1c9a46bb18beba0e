use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::seliter::*;
verus! {
broadcast use crate::base::one_shl;
pub proof fn lemma_sel_unique(zero: bool, s: Seq<bool>, n: int, p: int, q: int)
    requires is_sel(zero, s, n, p), is_sel(zero, s, n, q),
    ensures p == q,
{
    if p < q { lemma_rank_mono(s, p + 1, q); }
    if q < p { lemma_rank_mono(s, q + 1, p); }
}
/// bit number `k` of a kind lies at the same position in both
pub open spec fn agree(zero: bool, a: Seq<bool>, b: Seq<bool>, k: int) -> bool {
    exists|p: int| #![auto] is_sel(zero, a, k, p) && is_sel(zero, b, k, p)
}
pub proof fn lemma_agree_eq(zero: bool, a: Seq<bool>, b: Seq<bool>)
    requires a.len() == b.len(),
        rank1(a, a.len() as int) == rank1(b, b.len() as int),
        forall|k: int| 0 <= k < (if zero { rank0(a, a.len() as int) } else { rank1(a, a.len() as int) }) ==> #[trigger] agree(zero, a, b, k),
    ensures a == b,
{
    assert forall|q: int| 0 <= q < a.len() implies a[q] == b[q] by {
        if a[q] != b[q] {
            // the kind occurs at q in exactly one of the two
            let s = if a[q] != zero { a } else { b };
            let k = if zero { rank0(s, q) } else { rank1(s, q) };
            lemma_rank_mono(s, q + 1, s.len() as int);
            lemma_rank_bounds(s, q);
            assert(is_sel(zero, s, k, q));
            assert(agree(zero, a, b, k));
            let p = choose|p: int| #![auto] is_sel(zero, a, k, p) && is_sel(zero, b, k, p);
            lemma_sel_unique(zero, s, k, p, q);
        }
    }
    assert(a =~= b);
}
impl RsVec {
    pub proof fn lemma_limb_eq(&self, other: &RsVec, k: int, n: int, m: u64)
        requires self.wf(), other.wf(), self.len == other.len, 0 <= k < self.data@.len(), 0 <= n <= 64, 64 * k + n <= self.len,
            forall|i: int| 0 <= i < 64 ==> #[trigger] wbit(m, i) == (i < n),
        ensures (self.data@[k] & m == other.data@[k] & m) <==> (forall|j: int| #![trigger self@[j]] 64 * k <= j < 64 * k + n ==> self@[j] == other@[j]),
    {
        broadcast use group_wbit;
        self.lemma_limb(k);
        other.lemma_limb(k);
        let a = self.data@[k];
        let b = other.data@[k];
        if a & m == b & m {
            assert forall|j: int| #![trigger self@[j]] 64 * k <= j < 64 * k + n implies self@[j] == other@[j] by {
                let i = j - 64 * k;
                assert(wbit(a & m, i) == wbit(b & m, i));
                assert(self@[64 * k + i] == wbit(a, i));
                assert(other@[64 * k + i] == wbit(b, i));
            }
        }
        if forall|j: int| #![trigger self@[j]] 64 * k <= j < 64 * k + n ==> self@[j] == other@[j] {
            assert forall|i: int| 0 <= i < 64 implies wbit(a & m, i) == wbit(b & m, i) by {
                if i < n { assert(self@[64 * k + i] == other@[64 * k + i]); }
            }
            wbit_ext(a & m, b & m);
        }
    }
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::full_equals
//@ props C07
//@ spec
    requires self.wf(), other.wf(),
    ensures r == (self@ == other@),
//@ start
    broadcast use group_wbit;
    proof {
        if self.len != other.len { assert(self@.len() != other@.len()); }
        let n = self.len as int % 64;
        if self.len == other.len && n != 0 {
            lemma_shl_pos(n as u64);
            self.lemma_limb_eq(other, self.len as int / 64, n, ((1u64 << (n as u64)) - 1) as u64);
        }
    }
//@ end
    proof { assert(self@ =~= other@); }
//@ loop 0
    invariant self.wf(), other.wf(), self.len == other.len,
        a__0@ == self.data@.subrange(0, self.len as int / 64), b__0@ == other.data@.subrange(0, self.len as int / 64),
        any__0 ==> self@ != other@,
        !any__0 ==> forall|j: int| #![trigger self@[j]] 0 <= j < 64 * i__0 ==> self@[j] == other@[j],
//@ body 0
    broadcast use group_wbit;
    proof { lemma_full_mask(self.data@[i__0 as int]); lemma_full_mask(other.data@[i__0 as int]); self.lemma_limb_eq(other, i__0 as int, 64, u64::MAX); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs RsVec::sparse_equals nextloops=0
//@ props C07
//@ spec
    requires self.wf(), other.wf(),
    ensures r == (self@ == other@),
//@ start
    proof {
        if self.len != other.len { assert(self@.len() != other@.len()); }
        self.lemma_totals();
        other.lemma_totals();
    }
//@ loop 0
    invariant_except_break
        it__0.wf(), it__0.vec == self, it__0.lo() == en__0, it__0.hi() == it__0.total(),
        forall|k: int| 0 <= k < en__0 ==> #[trigger] agree(ZERO, self@, other@, k),
    invariant
        self.wf(), other.wf(), self.len == other.len, self.rank0 == other.rank0, self.rank1 == other.rank1,
        self.rank0 == rank0(self@, self.len as int), self.rank1 == rank1(self@, self.len as int),
    ensures forall|k: int| 0 <= k < (if ZERO { self.tz() } else { self.to() }) ==> #[trigger] agree(ZERO, self@, other@, k),
    decreases it__0.hi() - it__0.lo(),
//@ body 0
    proof {
        let p = bit_index as int;
        if is_sel(ZERO, other@, rank as int, p) { assert(agree(ZERO, self@, other@, rank as int)); }
    }
//@ afterloop 0
    proof { lemma_agree_eq(ZERO, self@, other@); }
//@@ end
//@@ fn src/bit_vec/fast_rs_vec/mod.rs <RsVec as PartialEq>::eq as=eq_impl
//@ props C07
//@ spec
    requires self.wf(), other.wf(),
    ensures r == (self@ == other@),
//@@ end
}
pub proof fn lemma_full_mask(w: u64)
    ensures w & u64::MAX == w,
{
    broadcast use group_wbit;
    wbit_ext(w & u64::MAX, w);
}
} // verus!
