use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::pow2::*;
use crate::wmath::*;
use crate::wavelet::*;
use core::ops::Range;
verus! {
/// the range [s, e) of the node `q` of level `l` stands for the elements [a, b)
pub open spec fn node(d: Seq<Seq<bool>>, n: int, l: int, q: int, a: int, b: int, s: int, e: int) -> bool {
    0 <= a <= b <= n && s == down(d, l, q, a) && e == down(d, l, q, b)
}
pub open spec fn bel(d: Seq<Seq<bool>>, n: int, l: int, q: int, a: int, b: int) -> int { below(pvs(d, n, l), q, a, b) }
/// both children of a node
pub proof fn lemma_q(d: Seq<Seq<bool>>, n: int, l: int, q: int, a: int, b: int)
    requires levels(d, n), 0 <= a <= b <= n, 0 <= l < d.len(), 0 <= q < p2(l),
    ensures ({
        let (s, e) = (down(d, l, q, a), down(d, l, q, b));
        let (z, zs, ze) = (rank0(d[l], n), rank0(d[l], s), rank0(d[l], e));
        &&& 0 <= s <= e <= n && 0 <= zs <= ze && zs <= s && ze <= e && ze - zs <= e - s && z + (e - ze) <= n && ze <= z && z >= 0
        &&& node(d, n, l + 1, 2 * q, a, b, zs, ze)
        &&& node(d, n, l + 1, 2 * q + 1, a, b, z + (s - zs), z + (e - ze))
        &&& bel(d, n, l + 1, 2 * q, a, b) == bel(d, n, l, q, a, b)
        &&& bel(d, n, l + 1, 2 * q + 1, a, b) == bel(d, n, l, q, a, b) + (ze - zs)
        &&& bel(d, n, l + 1, 2 * q + 2, a, b) == bel(d, n, l, q + 1, a, b)
        &&& bel(d, n, l, q + 1, a, b) == bel(d, n, l, q, a, b) + (e - s)
        &&& occ(pvs(d, n, l), q, a, b) == e - s
        &&& occ(pvs(d, n, l + 1), 2 * q, a, b) == ze - zs
        &&& occ(pvs(d, n, l + 1), 2 * q + 1, a, b) == (e - ze) - (s - zs)
        &&& 2 * q + 1 < p2(l + 1)
    }),
{
    lemma_down2(d, n, l, q, a);
    lemma_down2(d, n, l, q, b);
    lemma_half(d, n, l, q, a, b);
    lemma_half(d, n, l, q + 1, a, b);
    lemma_down_occ(d, n, l, q, a, b);
    lemma_down_occ(d, n, l + 1, 2 * q, a, b);
    lemma_occ(pvs(d, n, l), q, a, b);
    let (s, e) = (down(d, l, q, a), down(d, l, q, b));
    lemma_rank_bounds(d[l], s);
    lemma_rank_bounds(d[l], e);
    lemma_rank_mono(d[l], s, e);
    lemma_rank_mono(d[l], e, n);
    lemma_rank_bounds(d[l], n);
}
pub proof fn lemma_root(d: Seq<Seq<bool>>, n: int, a: int, b: int)
    requires 0 <= a <= b <= n,
    ensures node(d, n, 0, 0, a, b, a, b), bel(d, n, 0, 0, a, b) == 0, bel(d, n, 0, 1, a, b) == b - a,
    decreases b - a,
{
    if a < b { lemma_root(d, n, a, b - 1); }
}
/// what a search in a node has to find
#[verifier::opaque]
pub open spec fn found(w: &WaveletMatrix, l: int, q: int, s: int, e: int, k: int, v: int) -> bool {
    forall|a: int, b: int| #[trigger] node(w.d(), w.n(), l, q, a, b, s, e) ==> is_kth(w@, a, b, bel(w.d(), w.n(), l, q, a, b) + k, v)
}
/// the elements of the start node, on the way down
pub open spec fn follows(w: &WaveletMatrix, l0: int, q0: int, s0: int, e0: int, k0: int, l: int, q: int, s: int, e: int, k: int) -> bool {
    forall|a: int, b: int| #[trigger] node(w.d(), w.n(), l0, q0, a, b, s0, e0) ==>
        node(w.d(), w.n(), l, q, a, b, s, e) && bel(w.d(), w.n(), l, q, a, b) + k == bel(w.d(), w.n(), l0, q0, a, b) + k0
}
impl WaveletMatrix {
    pub proof fn lemma_follow(&self, l0: int, q0: int, s0: int, e0: int, k0: int, l: int, q: int, s: int, e: int, k: int)
        requires self.wf(), 0 <= l < self.k(), 0 <= q < p2(l), 0 <= s <= e <= self.n(), 0 <= k < e - s, follows(self, l0, q0, s0, e0, k0, l, q, s, e, k),
        ensures ({
            let t = self.d()[l];
            let (z, zs, ze) = (rank0(t, self.n()), rank0(t, s), rank0(t, e));
            &&& 0 <= zs <= ze && zs <= s && ze <= e && ze <= z && ze - zs <= e - s && z + (e - ze) <= self.n() && z + (s - zs) <= z + (e - ze)
            &&& k < ze - zs ==> follows(self, l0, q0, s0, e0, k0, l + 1, 2 * q, zs, ze, k)
            &&& k >= ze - zs ==> follows(self, l0, q0, s0, e0, k0, l + 1, 2 * q + 1, z + (s - zs), z + (e - ze), k - (ze - zs))
        }),
    {
        self.lemma_wf();
        let t = self.d()[l];
        lemma_rank_bounds(t, s);
        lemma_rank_bounds(t, e);
        lemma_rank_mono(t, s, e);
        lemma_rank_mono(t, e, self.n());
        assert forall|a: int, b: int| #[trigger] node(self.d(), self.n(), l0, q0, a, b, s0, e0) implies node(self.d(), self.n(), l, q, a, b, s, e) by { }
        let (z, zs, ze) = (rank0(t, self.n()), rank0(t, s), rank0(t, e));
        if k < ze - zs {
            assert forall|a: int, b: int| #[trigger] node(self.d(), self.n(), l0, q0, a, b, s0, e0) implies
                node(self.d(), self.n(), l + 1, 2 * q, a, b, zs, ze) && bel(self.d(), self.n(), l + 1, 2 * q, a, b) + k == bel(self.d(), self.n(), l0, q0, a, b) + k0 by { lemma_q(self.d(), self.n(), l, q, a, b); }
        } else {
            assert forall|a: int, b: int| #[trigger] node(self.d(), self.n(), l0, q0, a, b, s0, e0) implies
                node(self.d(), self.n(), l + 1, 2 * q + 1, a, b, z + (s - zs), z + (e - ze)) && bel(self.d(), self.n(), l + 1, 2 * q + 1, a, b) + (k - (ze - zs)) == bel(self.d(), self.n(), l0, q0, a, b) + k0 by { lemma_q(self.d(), self.n(), l, q, a, b); }
        }
    }
    pub proof fn lemma_follow_end(&self, l0: int, q0: int, s0: int, e0: int, k0: int, q: int, s: int, e: int, k: int)
        requires self.wf(), 0 <= q < p2(self.k()), 0 <= k < e - s, follows(self, l0, q0, s0, e0, k0, self.k(), q, s, e, k),
        ensures found(self, l0, q0, s0, e0, k0, q),
    {
        self.lemma_wf();
        reveal(found);
        assert forall|a: int, b: int| #[trigger] node(self.d(), self.n(), l0, q0, a, b, s0, e0) implies is_kth(self@, a, b, bel(self.d(), self.n(), l0, q0, a, b) + k0, q) by {
            lemma_down_occ(self.d(), self.n(), self.k(), q, a, b);
            lemma_occ(self@, q, a, b);
        }
    }
    /// the neighbour of a symbol that does not occur
    pub proof fn lemma_neighbour(&self, y: Seq<bool>, a: int, b: int)
        requires self.wf(), 0 <= a <= b <= self.n(), y.len() == self.k(), occ(self@, bval(y), a, b) == 0,
        ensures
            below(self@, bval(y) + 1, a, b) == below(self@, bval(y), a, b),
            forall|v: int| #[trigger] is_kth(self@, a, b, below(self@, bval(y) + 1, a, b) - 1, v) ==> is_wpred(self@, a, b, bval(y), v),
            forall|v: int| #[trigger] is_kth(self@, a, b, below(self@, bval(y), a, b), v) ==> is_wsucc(self@, a, b, bval(y), v),
            below(self@, bval(y) + 1, a, b) == 0 ==> forall|i: int| a <= i < b ==> #[trigger] self@[i] > bval(y),
            below(self@, bval(y), a, b) == b - a ==> forall|i: int| a <= i < b ==> #[trigger] self@[i] < bval(y),
    {
        lemma_occ(self@, bval(y), a, b);
        assert forall|v: int| #[trigger] is_kth(self@, a, b, below(self@, bval(y) + 1, a, b) - 1, v) implies is_wpred(self@, a, b, bval(y), v) by { lemma_kth_pred(self@, a, b, bval(y), v); }
        assert forall|v: int| #[trigger] is_kth(self@, a, b, below(self@, bval(y), a, b), v) implies is_wsucc(self@, a, b, bval(y), v) by { lemma_kth_succ(self@, a, b, bval(y), v); }
        if below(self@, bval(y) + 1, a, b) == 0 { lemma_no_pred(self@, a, b, bval(y)); }
        if below(self@, bval(y), a, b) == b - a { lemma_no_succ(self@, a, b, bval(y)); }
    }
    /// searching the whole range
    pub proof fn lemma_whole(&self, a: int, b: int, k: int, v: int)
        requires self.wf(), 0 <= a <= b <= self.n(), found(self, 0, 0, a, b, k, v),
        ensures is_kth(self@, a, b, k, v),
    {
        reveal(found);
        lemma_root(self.d(), self.n(), a, b);
        assert(node(self.d(), self.n(), 0, 0, a, b, a, b));
    }
}
pub open spec fn optl(m: Option<usize>) -> int { if m is Some { m->0 as int } else { -1 } }
pub open spec fn opts(m: Option<Range<usize>>) -> int { if m is Some { m->0.start as int } else { -1 } }
pub open spec fn opte(m: Option<Range<usize>>) -> int { if m is Some { m->0.end as int } else { -1 } }
/// the node of level l that the prefix of y leads to is [s, e); the node that branched off last on the other side is [ms, me), below level m
#[verifier::opaque]
pub open spec fn nst(w: &WaveletMatrix, pr: bool, y: Seq<bool>, a: int, b: int, l: int, s: int, e: int, m: int, ms: int, me: int) -> bool {
    let (d, n) = (w.d(), w.n());
    let low = 2 * spref(y, m) + 1;
    let here = if pr { bel(d, n, l, spref(y, l), a, b) } else { bel(d, n, l, spref(y, l) + 1, a, b) };
    &&& y.len() == w.k() && 0 <= l <= w.k() && 0 <= a < b <= n
    &&& node(d, n, l, spref(y, l), a, b, s, e) && s < e
    &&& -1 <= m < l
    &&& m >= 0 ==> node(d, n, m + 1, if pr { 2 * spref(y, m) } else { 2 * spref(y, m) + 1 }, a, b, ms, me) && ms < me && bel(d, n, m + 1, 2 * spref(y, m) + 1, a, b) == here
    &&& m < 0 ==> here == if pr { 0 } else { b - a }
}
pub open spec fn is_near(w: &WaveletMatrix, pr: bool, a: int, b: int, t: int, v: int) -> bool { if pr { is_wpred(w@, a, b, t, v) } else { is_wsucc(w@, a, b, t, v) } }
pub open spec fn none_near(w: &WaveletMatrix, pr: bool, a: int, b: int, t: int) -> bool {
    if pr { forall|i: int| a <= i < b ==> #[trigger] w@[i] > t } else { forall|i: int| a <= i < b ==> #[trigger] w@[i] < t }
}
/// prefix of length l written into the upper bits of x
pub open spec fn zpref(x: Seq<bool>, k: int, l: int, q: int) -> bool {
    x.len() == k && spref(x, l) == q && forall|j: int| 0 <= j < k - l ==> !x[j]
}
pub proof fn lemma_zset(x: Seq<bool>, k: int, l: int, q: int, b: bool)
    requires zpref(x, k, l, q), 0 <= l < k,
    ensures zpref(x.update(k - 1 - l, b), k, l + 1, 2 * q + bint(b)),
{
    let z = x.update(k - 1 - l, b);
    lemma_spref_cong(x, z, l);
    assert(z[z.len() - (l + 1)] == b);
}
impl WaveletMatrix {
    pub proof fn lemma_nst0(&self, pr: bool, y: Seq<bool>, a: int, b: int)
        requires self.wf(), y.len() == self.k(), 0 <= a < b <= self.n(),
        ensures nst(self, pr, y, a, b, 0, a, b, -1, -1, -1),
    {
        reveal(nst);
        lemma_root(self.d(), self.n(), a, b);
    }
    pub proof fn lemma_nst(&self, pr: bool, y: Seq<bool>, a: int, b: int, l: int, s: int, e: int, m: int, ms: int, me: int)
        requires self.wf(), l < self.k(), nst(self, pr, y, a, b, l, s, e, m, ms, me),
        ensures ({
            let t = self.d()[l];
            let (z, zs, ze) = (rank0(t, self.n()), rank0(t, s), rank0(t, e));
            let bit = y[y.len() - 1 - l];
            let (os, oe) = (z + (s - zs), z + (e - ze));
            &&& 0 <= l && 0 <= s < e <= self.n() && 0 <= zs <= ze <= z && zs <= s && ze <= e && ze - zs <= e - s && 0 <= os <= oe <= self.n()
            &&& m < l && (m >= 0 ==> 0 <= ms < me <= self.n())
            &&& !bit && zs < ze && (pr || os == oe) ==> nst(self, pr, y, a, b, l + 1, zs, ze, m, ms, me)
            &&& !bit && zs < ze && !pr && os < oe ==> nst(self, pr, y, a, b, l + 1, zs, ze, l, os, oe)
            &&& bit && os < oe && (!pr || zs == ze) ==> nst(self, pr, y, a, b, l + 1, os, oe, m, ms, me)
            &&& bit && os < oe && pr && zs < ze ==> nst(self, pr, y, a, b, l + 1, os, oe, l, zs, ze)
        }),
    {
        self.lemma_nst_pre(pr, y, a, b, l, s, e, m, ms, me);
        reveal(nst);
    }
    pub proof fn lemma_nst_pre(&self, pr: bool, y: Seq<bool>, a: int, b: int, l: int, s: int, e: int, m: int, ms: int, me: int)
        requires self.wf(), l < self.k(), nst(self, pr, y, a, b, l, s, e, m, ms, me),
        ensures ({
            let (d, n) = (self.d(), self.n());
            let t = self.d()[l];
            let q = spref(y, l);
            let (z, zs, ze) = (rank0(t, self.n()), rank0(t, s), rank0(t, e));
            &&& 0 <= l && 0 <= s < e <= self.n() && 0 <= zs <= ze <= z && zs <= s && ze <= e && ze - zs <= e - s && 0 <= z + (s - zs) <= z + (e - ze) <= self.n()
            &&& m < l && (m >= 0 ==> 0 <= ms < me <= self.n())
            &&& spref(y, l + 1) == 2 * q + bint(y[y.len() - 1 - l])
            &&& node(d, n, l + 1, 2 * q, a, b, zs, ze)
            &&& node(d, n, l + 1, 2 * q + 1, a, b, z + (s - zs), z + (e - ze))
            &&& bel(d, n, l + 1, 2 * q, a, b) == bel(d, n, l, q, a, b)
            &&& bel(d, n, l + 1, 2 * q + 1, a, b) == bel(d, n, l, q, a, b) + (ze - zs)
            &&& bel(d, n, l + 1, 2 * q + 2, a, b) == bel(d, n, l, q + 1, a, b)
            &&& bel(d, n, l, q + 1, a, b) == bel(d, n, l, q, a, b) + (e - s)
            &&& occ(pvs(d, n, l + 1), 2 * q, a, b) == ze - zs
            &&& occ(pvs(d, n, l + 1), 2 * q + 1, a, b) == (e - ze) - (s - zs)
        }),
    {
        reveal(nst);
        self.lemma_wf();
        let (d, n) = (self.d(), self.n());
        lemma_spref(y, l);
        lemma_q(d, n, l, spref(y, l), a, b);
        if m >= 0 { lemma_spref(y, m); lemma_q(d, n, m, spref(y, m), a, b); }
    }
    pub proof fn lemma_near_kth(&self, pr: bool, y: Seq<bool>, a: int, b: int, k: int, v: int)
        requires self.wf(), 0 <= a <= b <= self.n(), y.len() == self.k(), occ(self@, bval(y), a, b) == 0,
            k == below(self@, bval(y), a, b) - bint(pr), is_kth(self@, a, b, k, v),
        ensures is_near(self, pr, a, b, bval(y), v),
    {
        self.lemma_neighbour(y, a, b);
        if pr { assert(is_kth(self@, a, b, below(self@, bval(y) + 1, a, b) - 1, v)); }
        else { assert(is_kth(self@, a, b, below(self@, bval(y), a, b), v)); }
    }
    /// the path ends: the answer is the nearest element of this node, or of the one that branched off last
    #[verifier::spinoff_prover] #[verifier::rlimit(80)]
    pub proof fn lemma_nst_fail(&self, pr: bool, y: Seq<bool>, a: int, b: int, l: int, s: int, e: int, m: int, ms: int, me: int, kk: int, m1: int, c: int, mk: int)
        requires self.wf(), l < self.k(), nst(self, pr, y, a, b, l, s, e, m, ms, me),
            kk == if pr { e - s - 1 } else { 0 },
            mk == if pr { me - ms - 1 } else { 0 },
            c == if pr { 2 * spref(y, m) } else { 2 * spref(y, m) + 1 },
            m1 == m + 1,
            ({
                let t = self.d()[l];
                let (zs, ze) = (rank0(t, s), rank0(t, e));
                if y[y.len() - 1 - l] { e - ze == s - zs } else { zs == ze }
            }),
        ensures ({
            let bit = y[y.len() - 1 - l];
            &&& bit == pr ==> forall|v: int| #[trigger] found(self, l, spref(y, l), s, e, kk, v) ==> is_near(self, pr, a, b, bval(y), v)
            &&& bit != pr && m >= 0 ==> forall|v: int| #[trigger] found(self, m1, c, ms, me, mk, v) ==> is_near(self, pr, a, b, bval(y), v)
            &&& bit != pr && m < 0 ==> none_near(self, pr, a, b, bval(y))
        }),
    {
        self.lemma_nst_pre(pr, y, a, b, l, s, e, m, ms, me);
        self.lemma_wf();
        let (d, n) = (self.d(), self.n());
        let q = spref(y, l);
        let bit = y[y.len() - 1 - l];
        assert(0 <= a < b <= n && y.len() == self.k()) by { reveal(nst); }
        assert(node(d, n, l, q, a, b, s, e)) by { reveal(nst); }
        if m >= 0 {
            lemma_spref(y, m);
            assert(node(d, n, m1, c, a, b, ms, me)) by { reveal(nst); }
            lemma_q(d, n, m, spref(y, m), a, b);
        }
        lemma_none(d, n, y, l + 1, self.k(), a, b);
        assert(occ(self@, bval(y), a, b) == 0);
        self.lemma_neighbour(y, a, b);
        assert(pvs(d, n, self.k()) == self@);
        assert(below(self@, bval(y), a, b) == bel(d, n, l + 1, spref(y, l + 1), a, b));
        assert(below(self@, bval(y) + 1, a, b) == bel(d, n, l + 1, spref(y, l + 1), a, b));
        if bit == pr {
            assert forall|v: int| #[trigger] found(self, l, spref(y, l), s, e, kk, v) implies is_near(self, pr, a, b, bval(y), v) by {
                reveal(found);
                self.lemma_near_kth(pr, y, a, b, bel(d, n, l, q, a, b) + kk, v);
            }
        } else {
            reveal(nst);
            if m >= 0 {
                assert forall|v: int| #[trigger] found(self, m1, c, ms, me, mk, v) implies is_near(self, pr, a, b, bval(y), v) by {
                    reveal(found);
                    self.lemma_near_kth(pr, y, a, b, bel(d, n, m1, c, a, b) + mk, v);
                }
            }
        }
    }
    pub proof fn lemma_nst_end(&self, pr: bool, y: Seq<bool>, a: int, b: int, s: int, e: int, m: int, ms: int, me: int)
        requires self.wf(), nst(self, pr, y, a, b, self.k(), s, e, m, ms, me),
        ensures is_near(self, pr, a, b, bval(y), bval(y)),
    {
        reveal(nst);
        self.lemma_wf();
        lemma_spref(y, self.k());
        lemma_down_occ(self.d(), self.n(), self.k(), bval(y), a, b);
        lemma_occ_pos(self@, bval(y), a, b);
    }
}
impl WaveletMatrix {
//@@ fn src/wavelet/mod.rs WaveletMatrix::partial_quantile_search_unchecked
//@ props C16 C20
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), start_level <= self.k(), range.start < range.end <= self.n(), k < range.end - range.start, prefix.wf(), prefix.len == self.k(), forall|j: int| 0 <= j < self.k() - start_level ==> !prefix@[j],
    ensures r.wf(), r.len == self.k(), r@.len() == self.k(), found(self, start_level as int, spref(prefix@, start_level as int), range.start as int, range.end as int, k as int, bval(r@)),
//@ start
    proof { self.lemma_wf(); assert(prefix@.len() == self.k()); }
    let ghost (s0, e0, k0, l0) = (range.start as int, range.end as int, k as int, start_level as int);
    let ghost q0 = spref(prefix@, start_level as int);
//@ loop 0
    invariant self.wf(), level <= self.k(), prefix.wf(), prefix.len == self.k(), prefix@.len() == self.k(), forall|j: int| 0 <= j < self.k() - level ==> !prefix@[j], level >= start_level, range.start <= range.end <= self.n(), k < range.end - range.start,
        follows(self, l0, q0, s0, e0, k0, level as int, spref(prefix@, level as int), range.start as int, range.end as int, k as int),
//@ body 0
    proof {
        lemma_spref(prefix@, level as int);
        self.lemma_follow(l0, q0, s0, e0, k0, level as int, spref(prefix@, level as int), range.start as int, range.end as int, k as int);
        assert(self.data@[level as int]@ == self.d()[level as int] && self.data@[level as int].wf() && self.data@[level as int].len == self.n() && self.data@[level as int].rank0 == rank0(self.d()[level as int], self.n()));
    }
    let ghost x0 = prefix@;
//@ bodyend 0
    proof {
        lemma_spref_cong(x0, prefix@, level as int);
        assert(prefix@[prefix@.len() - (level + 1)] == prefix@[self.k() - 1 - level]);
    }
//@ afterloop 0
    proof { lemma_spref(prefix@, self.k()); self.lemma_follow_end(l0, q0, s0, e0, k0, bval(prefix@), range.start as int, range.end as int, k as int); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::quantile_unchecked
//@ props C16 C20
//@ spec
    requires self.wf(), range.start < range.end <= self.n(), k < range.end - range.start,
    ensures r.wf() && r@.len() == self.k() && is_kth(self@, range.start as int, range.end as int, k as int, bval(r@)),
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
    proof { self.lemma_wf(); lemma_p2_mono(0, 0); }
//@ tail
    proof { self.lemma_whole(a0, b0, k as int, bval(res__@)); }

//@ after result
    proof { assert(result@.len() == self.k()); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::quantile
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() && k < range.end - range.start ==> r is Some && r->0.wf() && r->0@.len() == self.k() && is_kth(self@, range.start as int, range.end as int, k as int, bval(r->0@)),
        !(range.start < range.end <= self.n() && k < range.end - range.start) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::get_sorted_unchecked
//@ props C16 C20
//@ spec
    requires self.wf(), i < self.n(),
    ensures r.wf() && r@.len() == self.k() && is_kth(self@, 0, self.n(), i as int, bval(r@)),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::get_sorted
//@ props C16 C20
//@ spec
    requires self.wf(),
    ensures i < self.n() ==> r is Some && r->0.wf() && r->0@.len() == self.k() && is_kth(self@, 0, self.n(), i as int, bval(r->0@)),
        !(i < self.n()) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_min_unchecked
//@ props C16
//@ spec
    requires self.wf(), range.start < range.end <= self.n(),
    ensures r.wf() && r@.len() == self.k() && is_wmin(self@, range.start as int, range.end as int, bval(r@)),
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
//@ tail
    proof { self.lemma_wf(); lemma_kth_min(self@, a0, b0, bval(res__@)); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_min
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() ==> r is Some && r->0.wf() && r->0@.len() == self.k() && is_wmin(self@, range.start as int, range.end as int, bval(r->0@)),
        !(range.start < range.end <= self.n()) ==> r is None,
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
    proof {
        self.lemma_wf();
        assert forall|v: int| 0 <= a0 < b0 <= self.n() && #[trigger] is_kth(self@, a0, b0, 0, v) implies is_wmin(self@, a0, b0, v) by { lemma_kth_min(self@, a0, b0, v); }
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_max_unchecked
//@ props C16
//@ spec
    requires self.wf(), range.start < range.end <= self.n(),
    ensures r.wf() && r@.len() == self.k() && is_wmax(self@, range.start as int, range.end as int, bval(r@)),
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
//@ tail
    proof { self.lemma_wf(); lemma_kth_max(self@, a0, b0, bval(res__@)); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_max
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() ==> r is Some && r->0.wf() && r->0@.len() == self.k() && is_wmax(self@, range.start as int, range.end as int, bval(r->0@)),
        !(range.start < range.end <= self.n()) ==> r is None,
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
    proof {
        self.lemma_wf();
        assert forall|v: int| 0 <= a0 < b0 <= self.n() && #[trigger] is_kth(self@, a0, b0, b0 - a0 - 1, v) implies is_wmax(self@, a0, b0, v) by { lemma_kth_max(self@, a0, b0, v); }
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_median_unchecked
//@ props C16
//@ spec
    requires self.wf(), range.start < range.end <= self.n(),
    ensures r.wf() && r@.len() == self.k() && is_kth(self@, range.start as int, range.end as int, (range.end - 1 - range.start) / 2, bval(r@)),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_median
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() ==> r is Some && r->0.wf() && r->0@.len() == self.k() && is_kth(self@, range.start as int, range.end as int, (range.end - 1 - range.start) / 2, bval(r->0@)),
        !(range.start < range.end <= self.n()) ==> r is None,
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::predecessor predecessor_generic_unchecked wpred
//@@ fn macro:wpred WaveletMatrix::predecessor optmap
//@ props C16
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@ spec
    requires self.wf(), symbol.wf(),
    ensures !(range.start < range.end <= self.n() && symbol.len == self.k()) ==> r is None,
        r is Some ==> r->0.wf() && r->0@.len() == self.k() && is_wpred(self@, range.start as int, range.end as int, bval(symbol@), bval(r->0@)),
        range.start < range.end <= self.n() && symbol.len == self.k() && r is None ==> forall|i: int| range.start <= i < range.end ==> #[trigger] self@[i] > bval(symbol@),
//@ start
    proof { self.lemma_wf(); }
    let ghost (a0, b0) = (range.start as int, range.end as int);
    let ghost y = symbol@;
//@ beforeloop 0
    proof {
        self.lemma_nst0(true, y, a0, b0);
        assert(result_value@.len() == self.k());
    }
//@ loop 0
    invariant self.wf(), level <= self.k(), y.len() == self.k(), result_value.wf() && result_value.len == self.k() && result_value@.len() == self.k() && zpref(result_value@, self.k(), level as int, spref(y, level as int)),
        nst(self, true, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range)),
        last_one_level is Some <==> next_smaller_range is Some,
        last_one_level is Some ==> last_smaller_prefix.wf() && last_smaller_prefix.len == self.k() && last_smaller_prefix@.len() == self.k() && zpref(last_smaller_prefix@, self.k(), (last_one_level->0 as int), spref(y, (last_one_level->0 as int))),
//@ body 0
    proof {
        self.lemma_nst(true, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range));
        assert(self.data@[level as int]@ == self.d()[level as int] && self.data@[level as int].wf() && self.data@[level as int].len == self.n() && self.data@[level as int].rank0 == rank0(self.d()[level as int], self.n()));
        
        lemma_spref(y, level as int);
        let t = self.d()[level as int];
        if if y[y.len() - 1 - level] { range.end - rank0(t, range.end as int) == range.start - rank0(t, range.start as int) } else { rank0(t, range.start as int) == rank0(t, range.end as int) } {
            self.lemma_nst_fail(true, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range), range.end - range.start - 1, optl(last_one_level) + 1, 2 * spref(y, optl(last_one_level)), opte(next_smaller_range) - opts(next_smaller_range) - 1);
        }
        lemma_zset(result_value@, self.k(), level as int, spref(y, level as int), true); lemma_zset(result_value@, self.k(), level as int, spref(y, level as int), false);
        assert(spref(y, level + 1) == 2 * spref(y, level as int) + bint(y[y.len() - 1 - level]));
        if last_one_level is Some { let m = last_one_level->0 as int; lemma_spref(y, m); lemma_zset(last_smaller_prefix@, self.k(), m, spref(y, m), true); lemma_zset(last_smaller_prefix@, self.k(), m, spref(y, m), false); }
    }
//@ afterloop 0
    proof {
        lemma_spref(y, self.k());
        self.lemma_nst_end(true, y, a0, b0, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range));
    }
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::successor successor_generic_unchecked wsucc
//@@ fn macro:wsucc WaveletMatrix::successor optmap
//@ props C16
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@ spec
    requires self.wf(), symbol.wf(),
    ensures !(range.start < range.end <= self.n() && symbol.len == self.k()) ==> r is None,
        r is Some ==> r->0.wf() && r->0@.len() == self.k() && is_wsucc(self@, range.start as int, range.end as int, bval(symbol@), bval(r->0@)),
        range.start < range.end <= self.n() && symbol.len == self.k() && r is None ==> forall|i: int| range.start <= i < range.end ==> #[trigger] self@[i] < bval(symbol@),
//@ start
    proof { self.lemma_wf(); }
    let ghost (a0, b0) = (range.start as int, range.end as int);
    let ghost y = symbol@;
//@ beforeloop 0
    proof {
        self.lemma_nst0(false, y, a0, b0);
        assert(result_value@.len() == self.k());
    }
//@ loop 0
    invariant self.wf(), level <= self.k(), y.len() == self.k(), result_value.wf() && result_value.len == self.k() && result_value@.len() == self.k() && zpref(result_value@, self.k(), level as int, spref(y, level as int)),
        nst(self, false, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range)),
        last_zero_level is Some <==> next_larger_range is Some,
        last_zero_level is Some ==> last_larger_prefix.wf() && last_larger_prefix.len == self.k() && last_larger_prefix@.len() == self.k() && zpref(last_larger_prefix@, self.k(), (last_zero_level->0 as int), spref(y, (last_zero_level->0 as int))),
//@ body 0
    proof {
        self.lemma_nst(false, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range));
        assert(self.data@[level as int]@ == self.d()[level as int] && self.data@[level as int].wf() && self.data@[level as int].len == self.n() && self.data@[level as int].rank0 == rank0(self.d()[level as int], self.n()));
        
        lemma_spref(y, level as int);
        let t = self.d()[level as int];
        if if y[y.len() - 1 - level] { range.end - rank0(t, range.end as int) == range.start - rank0(t, range.start as int) } else { rank0(t, range.start as int) == rank0(t, range.end as int) } {
            self.lemma_nst_fail(false, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range), 0, optl(last_zero_level) + 1, 2 * spref(y, optl(last_zero_level)) + 1, 0);
        }
        lemma_zset(result_value@, self.k(), level as int, spref(y, level as int), true); lemma_zset(result_value@, self.k(), level as int, spref(y, level as int), false);
        assert(spref(y, level + 1) == 2 * spref(y, level as int) + bint(y[y.len() - 1 - level]));
        if last_zero_level is Some { let m = last_zero_level->0 as int; lemma_spref(y, m); lemma_zset(last_larger_prefix@, self.k(), m, spref(y, m), true); lemma_zset(last_larger_prefix@, self.k(), m, spref(y, m), false); }
    }
//@ afterloop 0
    proof {
        lemma_spref(y, self.k());
        self.lemma_nst_end(false, y, a0, b0, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range));
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::partial_quantile_search_u64_unchecked
//@ props C16 C20
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), start_level <= self.k(), range.start < range.end <= self.n(), k < range.end - range.start, self.k() <= 64, prefix < p2(start_level as int),
    ensures  found(self, start_level as int, prefix as int, range.start as int, range.end as int, k as int, r as int),
        r < p2(self.k()),
//@ start
    proof { self.lemma_wf();  }
    let ghost (s0, e0, k0, l0) = (range.start as int, range.end as int, k as int, start_level as int);
    let ghost q0 = prefix as int;
//@ loop 0
    invariant self.wf(), i__0 <= self.k(), prefix < p2(i__0 as int), i__0 >= start_level, range.start <= range.end <= self.n(), k < range.end - range.start,
        follows(self, l0, q0, s0, e0, k0, i__0 as int, prefix as int, range.start as int, range.end as int, k as int),
//@ body 0
    proof {
        lemma_push_bit(prefix, i__0 as int, true); lemma_push_bit(prefix, i__0 as int, false); lemma_or_zero(prefix);
        self.lemma_follow(l0, q0, s0, e0, k0, i__0 as int, prefix as int, range.start as int, range.end as int, k as int);
        assert(self.data@[i__0 as int]@ == self.d()[i__0 as int] && self.data@[i__0 as int].wf() && self.data@[i__0 as int].len == self.n() && self.data@[i__0 as int].rank0 == rank0(self.d()[i__0 as int], self.n()));
    }
    let ghost x0 = prefix;
//@ afterloop 0
    proof {  self.lemma_follow_end(l0, q0, s0, e0, k0, prefix as int, range.start as int, range.end as int, k as int); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::quantile_u64_unchecked
//@ props C16 C20
//@ spec
    requires self.wf(), range.start < range.end <= self.n(), k < range.end - range.start, self.k() <= 64,
    ensures is_kth(self@, range.start as int, range.end as int, k as int, (r as int)),
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
    proof { self.lemma_wf(); lemma_p2_mono(0, 0); }
//@ tail
    proof { self.lemma_whole(a0, b0, k as int, (res__ as int)); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::quantile_u64
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() && self.k() <= 64 && k < range.end - range.start ==> r is Some && is_kth(self@, range.start as int, range.end as int, k as int, (r->0 as int)),
        !(range.start < range.end <= self.n() && self.k() <= 64 && k < range.end - range.start) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::get_sorted_u64_unchecked
//@ props C16 C20
//@ spec
    requires self.wf(), i < self.n(), self.k() <= 64,
    ensures is_kth(self@, 0, self.n(), i as int, (r as int)),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::get_sorted_u64
//@ props C16 C20
//@ spec
    requires self.wf(),
    ensures i < self.n() && self.k() <= 64 ==> r is Some && is_kth(self@, 0, self.n(), i as int, (r->0 as int)),
        !(i < self.n() && self.k() <= 64) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_min_u64_unchecked
//@ props C16
//@ spec
    requires self.wf(), range.start < range.end <= self.n(), self.k() <= 64,
    ensures is_wmin(self@, range.start as int, range.end as int, (r as int)),
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
//@ tail
    proof { self.lemma_wf(); lemma_kth_min(self@, a0, b0, (res__ as int)); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_min_u64
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() && self.k() <= 64 ==> r is Some && is_wmin(self@, range.start as int, range.end as int, (r->0 as int)),
        !(range.start < range.end <= self.n() && self.k() <= 64) ==> r is None,
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
    proof {
        self.lemma_wf();
        assert forall|v: int| 0 <= a0 < b0 <= self.n() && #[trigger] is_kth(self@, a0, b0, 0, v) implies is_wmin(self@, a0, b0, v) by { lemma_kth_min(self@, a0, b0, v); }
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_max_u64_unchecked
//@ props C16
//@ spec
    requires self.wf(), range.start < range.end <= self.n(), self.k() <= 64,
    ensures is_wmax(self@, range.start as int, range.end as int, (r as int)),
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
//@ tail
    proof { self.lemma_wf(); lemma_kth_max(self@, a0, b0, (res__ as int)); }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_max_u64
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() && self.k() <= 64 ==> r is Some && is_wmax(self@, range.start as int, range.end as int, (r->0 as int)),
        !(range.start < range.end <= self.n() && self.k() <= 64) ==> r is None,
//@ start
    let ghost (a0, b0) = (range.start as int, range.end as int);
    proof {
        self.lemma_wf();
        assert forall|v: int| 0 <= a0 < b0 <= self.n() && #[trigger] is_kth(self@, a0, b0, b0 - a0 - 1, v) implies is_wmax(self@, a0, b0, v) by { lemma_kth_max(self@, a0, b0, v); }
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_median_u64_unchecked
//@ props C16
//@ spec
    requires self.wf(), range.start < range.end <= self.n(), self.k() <= 64,
    ensures is_kth(self@, range.start as int, range.end as int, (range.end - 1 - range.start) / 2, (r as int)),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::range_median_u64
//@ props C16
//@ spec
    requires self.wf(),
    ensures range.start < range.end <= self.n() && self.k() <= 64 ==> r is Some && is_kth(self@, range.start as int, range.end as int, (range.end - 1 - range.start) / 2, (r->0 as int)),
        !(range.start < range.end <= self.n() && self.k() <= 64) ==> r is None,
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::predecessor_u64 predecessor_generic_unchecked wpred_u64
//@@ fn macro:wpred_u64 WaveletMatrix::predecessor_u64 optmap derefs=symbol
//@ props C16
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@ spec
    requires self.wf(),
    ensures !(range.start < range.end <= self.n() && self.k() <= 64) ==> r is None,
        r is Some ==> is_wpred(self@, range.start as int, range.end as int, uval(symbol, self.k()), (r->0 as int)),
        range.start < range.end <= self.n() && self.k() <= 64 && r is None ==> forall|i: int| range.start <= i < range.end ==> #[trigger] self@[i] > uval(symbol, self.k()),
//@ start
    proof { self.lemma_wf(); }
    let ghost (a0, b0) = (range.start as int, range.end as int);
    let ghost y = ubits(symbol, self.k());
//@ beforeloop 0
    proof {
        self.lemma_nst0(true, y, a0, b0);
        
    }
//@ loop 0
    invariant self.wf(), level <= self.k(), y.len() == self.k(), result_value < p2(level as int) && result_value == spref(y, level as int),
        nst(self, true, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range)),
        last_one_level is Some <==> next_smaller_range is Some,
        last_one_level is Some ==> last_smaller_prefix == spref(y, last_one_level->0 as int) && last_smaller_prefix < p2(last_one_level->0 as int),
//@ body 0
    proof {
        self.lemma_nst(true, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range));
        assert(self.data@[level as int]@ == self.d()[level as int] && self.data@[level as int].wf() && self.data@[level as int].len == self.n() && self.data@[level as int].rank0 == rank0(self.d()[level as int], self.n()));
        lemma_ubit(*symbol, self.k(), self.k() - 1 - level);
        lemma_spref(y, level as int);
        let t = self.d()[level as int];
        if if y[y.len() - 1 - level] { range.end - rank0(t, range.end as int) == range.start - rank0(t, range.start as int) } else { rank0(t, range.start as int) == rank0(t, range.end as int) } {
            self.lemma_nst_fail(true, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range), range.end - range.start - 1, optl(last_one_level) + 1, 2 * spref(y, optl(last_one_level)), opte(next_smaller_range) - opts(next_smaller_range) - 1);
        }
        lemma_push_bit(result_value, level as int, true); lemma_push_bit(result_value, level as int, false); lemma_or_zero(result_value); lemma_or_zero((result_value << 1) as u64);
        assert(spref(y, level + 1) == 2 * spref(y, level as int) + bint(y[y.len() - 1 - level]));
        if last_one_level is Some { let m = last_one_level->0 as int; lemma_spref(y, m); lemma_push_bit(last_smaller_prefix, m, true); lemma_push_bit(last_smaller_prefix, m, false); lemma_or_zero(last_smaller_prefix); lemma_or_zero((last_smaller_prefix << 1) as u64); }
    }
//@ afterloop 0
    proof {
        lemma_spref(y, self.k());
        self.lemma_nst_end(true, y, a0, b0, range.start as int, range.end as int, optl(last_one_level), opts(next_smaller_range), opte(next_smaller_range));
    }
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::successor_u64 successor_generic_unchecked wsucc_u64
//@@ fn macro:wsucc_u64 WaveletMatrix::successor_u64 optmap derefs=symbol
//@ props C16
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@ spec
    requires self.wf(),
    ensures !(range.start < range.end <= self.n() && self.k() <= 64) ==> r is None,
        r is Some ==> is_wsucc(self@, range.start as int, range.end as int, uval(symbol, self.k()), (r->0 as int)),
        range.start < range.end <= self.n() && self.k() <= 64 && r is None ==> forall|i: int| range.start <= i < range.end ==> #[trigger] self@[i] < uval(symbol, self.k()),
//@ start
    proof { self.lemma_wf(); }
    let ghost (a0, b0) = (range.start as int, range.end as int);
    let ghost y = ubits(symbol, self.k());
//@ beforeloop 0
    proof {
        self.lemma_nst0(false, y, a0, b0);
        
    }
//@ loop 0
    invariant self.wf(), level <= self.k(), y.len() == self.k(), result_value < p2(level as int) && result_value == spref(y, level as int),
        nst(self, false, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range)),
        last_zero_level is Some <==> next_larger_range is Some,
        last_zero_level is Some ==> last_larger_prefix == spref(y, last_zero_level->0 as int) && last_larger_prefix < p2(last_zero_level->0 as int),
//@ body 0
    proof {
        self.lemma_nst(false, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range));
        assert(self.data@[level as int]@ == self.d()[level as int] && self.data@[level as int].wf() && self.data@[level as int].len == self.n() && self.data@[level as int].rank0 == rank0(self.d()[level as int], self.n()));
        lemma_ubit(*symbol, self.k(), self.k() - 1 - level);
        lemma_spref(y, level as int);
        let t = self.d()[level as int];
        if if y[y.len() - 1 - level] { range.end - rank0(t, range.end as int) == range.start - rank0(t, range.start as int) } else { rank0(t, range.start as int) == rank0(t, range.end as int) } {
            self.lemma_nst_fail(false, y, a0, b0, level as int, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range), 0, optl(last_zero_level) + 1, 2 * spref(y, optl(last_zero_level)) + 1, 0);
        }
        lemma_push_bit(result_value, level as int, true); lemma_push_bit(result_value, level as int, false); lemma_or_zero(result_value); lemma_or_zero((result_value << 1) as u64);
        assert(spref(y, level + 1) == 2 * spref(y, level as int) + bint(y[y.len() - 1 - level]));
        if last_zero_level is Some { let m = last_zero_level->0 as int; lemma_spref(y, m); lemma_push_bit(last_larger_prefix, m, true); lemma_push_bit(last_larger_prefix, m, false); lemma_or_zero(last_larger_prefix); lemma_or_zero((last_larger_prefix << 1) as u64); }
    }
//@ afterloop 0
    proof {
        lemma_spref(y, self.k());
        self.lemma_nst_end(false, y, a0, b0, range.start as int, range.end as int, optl(last_zero_level), opts(next_larger_range), opte(next_larger_range));
    }
//@@ end
}
} // verus!