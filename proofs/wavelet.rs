use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::rsconv::*;
use crate::select::*;
use crate::pow2::*;
use crate::wmath::*;
use crate::wpc::*;
use core::ops::Range;
use core::mem;
verus! {
broadcast use crate::base::one_shl;
//@@ item src/wavelet/mod.rs struct WaveletMatrix

/// the levels as bit sequences
pub open spec fn lv(d: Seq<RsVec>) -> Seq<Seq<bool>> { Seq::new(d.len(), |l: int| d[l]@) }
pub open spec fn some_is(r: Option<usize>, v: int) -> bool { r is Some && r->0 == v }
impl WaveletMatrix {
    pub open spec fn d(&self) -> Seq<Seq<bool>> { lv(self.data@) }
    pub open spec fn k(&self) -> int { self.data@.len() as int }
    pub open spec fn n(&self) -> int { if self.data@.len() == 0 { 0 } else { self.data@[0]@.len() as int } }
    pub open spec fn wf(&self) -> bool {
        forall|l: int| 0 <= l < self.data@.len() ==> (#[trigger] self.data@[l]).wf() && self.data@[l].len == self.n() && self.data@[l]@.len() == self.n()
    }
    /// the stored symbols
    pub open spec fn view(&self) -> Seq<int> { vals(self.d(), self.n()) }
    pub proof fn lemma_wf(&self)
        requires self.wf(),
        ensures levels(self.d(), self.n()), self.d().len() == self.k(), self@.len() == self.n(),
            forall|l: int| 0 <= l < self.k() ==> #[trigger] self.data@[l]@ == self.d()[l],
            forall|l: int| 0 <= l < self.k() ==> (#[trigger] self.data@[l]).rank0 == rank0(self.d()[l], self.n()),
            forall|l: int| 0 <= l < self.k() ==> (#[trigger] self.data@[l]).rank1 == rank1(self.d()[l], self.n()),
    {
        assert forall|l: int| 0 <= l < self.k() implies (#[trigger] self.data@[l]).rank0 == rank0(self.d()[l], self.n())
            && self.data@[l].rank1 == rank1(self.d()[l], self.n()) by {
            self.data@[l].lemma_totals();
        }
    }
    /// one step of the way back up, for an element of the node or beyond its end
    pub proof fn lemma_up(&self, y: Seq<bool>, l: int, e: int, q: int)
        requires self.wf(), y.len() == self.k(), 0 <= l < self.k(), e >= down(self.d(), l + 1, spref(y, l + 1), self.n()), q == e - rank0(self.d()[l], self.n()),
        ensures ({
            let s = self.d()[l];
            let x = down(self.d(), l, spref(y, l), self.n());
            &&& x <= self.n()
            &&& !y[y.len() - 1 - l] ==> e >= 0 && forall|p: int| is_select0(s, e, p) ==> p >= x
            &&& y[y.len() - 1 - l] ==> e >= rank0(s, self.n()) && forall|p: int| is_select1(s, q, p) ==> p >= x
        }),
    {
        self.lemma_wf();
        let (d, n) = (self.d(), self.n());
        let s = d[l];
        lemma_descend(d, n, y, l, n);
        let x = down(d, l, spref(y, l), n);
        lemma_rank_bounds(s, x);
        if y[y.len() - 1 - l] {
            assert forall|p: int| is_select1(s, q, p) implies p >= x by { if p < x { lemma_rank_mono(s, p + 1, x); } }
        } else {
            assert forall|p: int| is_select0(s, e, p) implies p >= x by { if p < x { lemma_rank_mono(s, p + 1, x); } }
        }
    }
    pub proof fn lemma_up_in(&self, y: Seq<bool>, l: int, i: int)
        requires self.wf(), y.len() == self.k(), 0 <= l < self.k(), 0 <= i < self.n(), self@[i] == bval(y),
        ensures ({
            let s = self.d()[l];
            let p = pos(self.d(), l, i);
            &&& 0 <= p < self.n()
            &&& s[p] == y[y.len() - 1 - l]
            &&& !y[y.len() - 1 - l] ==> pos(self.d(), l + 1, i) == rank0(s, p) && rank0(s, p) < rank0(s, self.n()) && forall|v: int| is_select0(s, rank0(s, p), v) ==> v == p
            &&& y[y.len() - 1 - l] ==> pos(self.d(), l + 1, i) == rank0(s, self.n()) + rank1(s, p) && rank1(s, p) < rank1(s, self.n()) && forall|v: int| is_select1(s, rank1(s, p), v) ==> v == p
        }),
    {
        self.lemma_wf();
        let (d, n) = (self.d(), self.n());
        let s = d[l];
        lemma_prefix(d, n, y, i, l, self.k());
        lemma_pos(d, n, l, i);
        let p = pos(d, l, i);
        lemma_rank_mono(s, p + 1, n);
        assert forall|v: int| is_select0(s, rank0(s, p), v) && !s[p] implies v == p by {
            if v < p { lemma_rank_mono(s, v + 1, p); }
            if p < v { lemma_rank_mono(s, p + 1, v); }
        }
        assert forall|v: int| is_select1(s, rank1(s, p), v) && s[p] implies v == p by {
            if v < p { lemma_rank_mono(s, v + 1, p); }
            if p < v { lemma_rank_mono(s, p + 1, v); }
        }
    }
}
/// `v.into_iter().map(BitVec::into).collect()`
pub open spec fn bvs(d: Seq<BitVec>) -> Seq<Seq<bool>> { Seq::new(d.len(), |l: int| d[l]@) }
pub fn into_levels(v: Vec<BitVec>) -> (r: Box<[RsVec]>)
    requires forall|l: int| 0 <= l < v@.len() ==> (#[trigger] v@[l]).wf() && v@[l].len <= usize::MAX - 63,
    ensures r@.len() == v@.len(), forall|l: int| 0 <= l < r@.len() ==> (#[trigger] r@[l]).wf() && r@[l]@ == v@[l]@ && r@[l].len == v@[l].len,
{
    let mut out: Vec<RsVec> = Vec::new();
    let mut v = v;
    let ghost v0 = v@;
    while v.len() > 0
        invariant v@.len() + out@.len() == v0.len(), forall|l: int| 0 <= l < v0.len() ==> (#[trigger] v0[l]).wf() && v0[l].len <= usize::MAX - 63,
            forall|l: int| 0 <= l < v@.len() ==> #[trigger] v@[l] == v0[out@.len() + l],
            forall|l: int| 0 <= l < out@.len() ==> (#[trigger] out@[l]).wf() && out@[l]@ == v0[l]@ && out@[l].len == v0[l].len,
        decreases v@.len(),
    {
        let ghost m = v@.len();
        assert(v@[0] == v0[out@.len() as int]);
        let x = v.remove(0);
        out.push(RsVec::from_bv(x));
    }
    into_box(out)
}
impl WaveletMatrix {
//@@ inline src/wavelet/mod.rs WaveletMatrix::from_slice permutation_sorting wslice
//@@ fn macro:wslice WaveletMatrix::from_slice
//@ props C14
//@ spec
    requires bits_per_element <= 64, sequence@.len() <= usize::MAX - 63,
    ensures r.wf(), r.k() == bits_per_element, bits_per_element > 0 ==> r@ == srcvals(Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int))),
//@ start
    let ghost K = bits_per_element as int;
    let ghost src = Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int));
    let ghost N = src.len() as int;
//@ after data
    proof {
        assert forall|l: int| 0 <= l < data@.len() implies (#[trigger] data@[l]).wf() && data@[l].len == N && data@[l]@ == Seq::new(N as nat, |p: int| false) by {
            assert(data@[l]@.len() == N);
        }
    }
//@ loop 0
    invariant bits_per_element <= 64, src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, hi__0 == K, element_len == K, num_elements == N, data@.len() == K, src_ok(src, N, K), N <= usize::MAX - 63,
        permutation@.len() == N, next_permutation@.len() == N,
        forall|p: int| 0 <= p < N ==> #[trigger] permutation@[p] < N,
        forall|p: int| 0 <= p < N ==> #[trigger] next_permutation@[p] < N,
        forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N && data@[l]@.len() == N,
        forall|l: int| level <= l < K ==> (#[trigger] data@[l])@ == Seq::new(N as nat, |p: int| false),
        built(bvs(data@), src, level as int),
        level < K ==> perm_ok(bvs(data@), N, level as int, permutation@),
//@ bodypre 0
    let ghost D = bvs(data@);
    let ghost DV = data@;
    let ghost P = permutation@;
    let ghost T = Seq::new(N as nat, |p: int| src[P[p] as int][K - 1 - level]);
    proof { assert(T.len() == N); assert(DV[level as int]@ == Seq::new(N as nat, |p: int| false)); }
//@ loop 1
    invariant bits_per_element <= 64, src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, N == src.len(), permutation@ == P, data.wf(), data.len == N, data@ =~= Seq::new(N as nat, |p: int| p < i && T[p]), total_zeros == rank0(T, i as int), total_zeros <= i,
        D == bvs(DV), DV.len() == K, src_ok(src, N, K), element_len == K, level < K, T == Seq::new(N as nat, |p: int| src[P[p] as int][K - 1 - level]), P.len() == N,
        forall|p: int| 0 <= p < N ==> #[trigger] P[p] < N,
//@ body 1
    proof {
        lemma_ubit(sequence@[permutation@[i as int] as int], K, K - 1 - level);
        assert(T[i as int] == src[P[i as int] as int][K - 1 - level]);
        lemma_rank_bounds(T, i as int);
        lemma_rank_bounds(T, i as int + 1);
    }
//@ afterloop 1
    proof { assert(data@ =~= T); lemma_rank_bounds(T, N); reveal(sorted_by); }
//@ loop 2
    invariant permutation@ == P, data@ == T, data.wf(), data.len == N, next_permutation@.len() == N, zero_boundary == rank0(T, i as int), one_boundary == rank0(T, N) + rank1(T, i as int),
        P.len() == N, T.len() == N,
        forall|p: int| 0 <= p < N ==> #[trigger] P[p] < N,
        forall|p: int| 0 <= p < N ==> #[trigger] next_permutation@[p] < N,
        sorted_by(T, P, next_permutation@, i as int),
//@ body 2
    proof {
        lemma_sorted_by(T, N, P, next_permutation@, i as int);
    }
//@ beforeloop 0
    let ghost D0 = bvs(data@);
    proof { lemma_init(D0, src, N, permutation@); }
//@ bodyend 0
    proof {
        let E = D.update(level as int, T);
        lemma_level(D, E, N, src, level as int, P);
        assert(E[level as int] == T);
        if level + 1 < K { assert(sorted_by(E[level as int], P, permutation@, N)); assert(perm_ok(E, N, level + 1, permutation@)); }
        assert(bvs(DV.update(level as int, *data)) =~= E);
    }
//@ afterloop 0
    let ghost DF = data@;
//@ tail
    proof {
        assert(res__.wf());
        assert(res__.d() =~= bvs(DF));
        lemma_built_all(res__.d(), N, src);
    }
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::from_bit_vec permutation_sorting wbv
//@@ fn macro:wbv WaveletMatrix::from_bit_vec
//@ props C14
//@ spec
    requires bit_vec.wf(), bits_per_element >= 1, bit_vec.len as int % bits_per_element as int == 0, bit_vec.len <= usize::MAX - 63,
    ensures r.wf(), r.k() == bits_per_element, bits_per_element > 0 ==> r@ == srcvals(Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i))),
//@ start
    let ghost K = bits_per_element as int;
    let ghost src = Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i));
    let ghost N = src.len() as int;
//@ after data
    proof {
        assert forall|l: int| 0 <= l < data@.len() implies (#[trigger] data@[l]).wf() && data@[l].len == N && data@[l]@ == Seq::new(N as nat, |p: int| false) by {
            assert(data@[l]@.len() == N);
        }
    }
//@ loop 0
    invariant bit_vec.wf(), bits_per_element >= 1, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, hi__0 == K, element_len == K, num_elements == N, data@.len() == K, src_ok(src, N, K), N <= usize::MAX - 63,
        permutation@.len() == N, next_permutation@.len() == N,
        forall|p: int| 0 <= p < N ==> #[trigger] permutation@[p] < N,
        forall|p: int| 0 <= p < N ==> #[trigger] next_permutation@[p] < N,
        forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N && data@[l]@.len() == N,
        forall|l: int| level <= l < K ==> (#[trigger] data@[l])@ == Seq::new(N as nat, |p: int| false),
        built(bvs(data@), src, level as int),
        level < K ==> perm_ok(bvs(data@), N, level as int, permutation@),
//@ bodypre 0
    let ghost D = bvs(data@);
    let ghost DV = data@;
    let ghost P = permutation@;
    let ghost T = Seq::new(N as nat, |p: int| src[P[p] as int][K - 1 - level]);
    proof { assert(T.len() == N); assert(DV[level as int]@ == Seq::new(N as nat, |p: int| false)); }
//@ loop 1
    invariant bit_vec.wf(), bits_per_element >= 1, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, N == src.len(), permutation@ == P, data.wf(), data.len == N, data@ =~= Seq::new(N as nat, |p: int| p < i && T[p]), total_zeros == rank0(T, i as int), total_zeros <= i,
        D == bvs(DV), DV.len() == K, src_ok(src, N, K), element_len == K, level < K, T == Seq::new(N as nat, |p: int| src[P[p] as int][K - 1 - level]), P.len() == N,
        forall|p: int| 0 <= p < N ==> #[trigger] P[p] < N,
//@ body 1
    proof {
        lemma_packed(bit_vec.len as int, K, N, permutation@[i as int] as int, K - 1 - level);
        assert(T[i as int] == src[P[i as int] as int][K - 1 - level]);
        lemma_rank_bounds(T, i as int);
        lemma_rank_bounds(T, i as int + 1);
    }
//@ afterloop 1
    proof { assert(data@ =~= T); lemma_rank_bounds(T, N); reveal(sorted_by); }
//@ loop 2
    invariant permutation@ == P, data@ == T, data.wf(), data.len == N, next_permutation@.len() == N, zero_boundary == rank0(T, i as int), one_boundary == rank0(T, N) + rank1(T, i as int),
        P.len() == N, T.len() == N,
        forall|p: int| 0 <= p < N ==> #[trigger] P[p] < N,
        forall|p: int| 0 <= p < N ==> #[trigger] next_permutation@[p] < N,
        sorted_by(T, P, next_permutation@, i as int),
//@ body 2
    proof {
        lemma_sorted_by(T, N, P, next_permutation@, i as int);
    }
//@ beforeloop 0
    let ghost D0 = bvs(data@);
    proof { lemma_init(D0, src, N, permutation@); }
//@ bodyend 0
    proof {
        let E = D.update(level as int, T);
        lemma_level(D, E, N, src, level as int, P);
        assert(E[level as int] == T);
        if level + 1 < K { assert(sorted_by(E[level as int], P, permutation@, N)); assert(perm_ok(E, N, level + 1, permutation@)); }
        assert(bvs(DV.update(level as int, *data)) =~= E);
    }
//@ afterloop 0
    let ghost DF = data@;
//@ tail
    proof {
        assert(res__.wf());
        assert(res__.d() =~= bvs(DF));
        lemma_built_all(res__.d(), N, src);
    }
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::from_slice_pc prefix_counting wslicepc
//@@ fn macro:wslicepc WaveletMatrix::from_slice_pc
//@ props C14
//@ spec
    requires 1 <= bits_per_element < 64, sequence@.len() <= usize::MAX - 63, forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] sequence@[i] < p2(bits_per_element as int),
    ensures r.wf(), r.k() == bits_per_element, r@ == srcvals(Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int))),
//@ start
    let ghost K = bits_per_element as int;
    let ghost src = Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int));
    let ghost N = src.len() as int;
    let ghost D = tgt(src, K, K);
    proof { lemma_target(src, K); lemma_p2_shl(K); lemma_shl16(bits_per_element); lemma_p2_mono(0, K); }
//@ after data
    proof {
        assert forall|l: int| 0 <= l < data@.len() implies (#[trigger] data@[l]).wf() && data@[l].len == N && data@[l]@ == part(D, src, K, l, 0) by {
            lemma_part_zero(D, src, K, l);
            assert(data@[l]@.len() == N);
            assert(data@[l]@ =~= part(D, src, K, l, 0));
        }
        lemma_hist_zero(D, N, K, histogram@);
    }
//@ loop 0
    invariant 1 <= bits_per_element < 64, N == sequence@.len(), N <= usize::MAX - 63, forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] sequence@[i] < p2(bits_per_element as int), src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N,
        hist_ok(D, N, K, i as int, histogram@), data@[0]@ == part(D, src, K, 0, i as int), forall|l: int| 1 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, 0),
//@ body 0
    proof {
        lemma_ubit(sequence@[i as int], K, K - 1 - 0); let w0 = sequence@[i as int]; assert(src[i as int] == ubits(w0, K)); lemma_elem(D, N, src, w0, i as int, 0);
        lemma_hist_step(D, N, K, i as int, histogram@, pv(D, K, i as int));
        lemma_part_step(D, src, K, 0, i as int);
    }
    let ghost (h0, d0) = (histogram@, data@);
//@ bodyend 0
    proof {
        assert(histogram@ =~= h0.update(pv(D, K, i as int), (h0[pv(D, K, i as int)] + 1) as usize));
        assert(forall|l: int| 1 <= l < K ==> #[trigger] data@[l] == d0[l]);
    }
//@ loop 1
    invariant 1 <= bits_per_element < 64, N == sequence@.len(), N <= usize::MAX - 63, forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] sequence@[i] < p2(bits_per_element as int), src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level__s <= K, level__lo == 1,
        hist_ok(D, N, level__s as int, N, histogram@),
        forall|l: int| 0 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l >= level__s { N } else { 0 }),
    decreases level__s,
//@ body 1
    proof {
        lemma_p2_shl(level as int);
        lemma_p2_mono(level as int, K);
        lemma_p2_mono(level as int + 1, K);
        lemma_p2_mono(0, level as int);
        lemma_comb_start(D, N, level as int, histogram@);
    }
//@ loop 2
    invariant 1 <= bits_per_element < 64, N == sequence@.len(), N <= usize::MAX - 63, forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] sequence@[i] < p2(bits_per_element as int), src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level < K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l > level { N } else { 0 }), comb(D, N, level as int, h as int, histogram@), (1usize << level) == p2(level as int), p2(level as int + 1) <= p2(K), p2(level as int) < p2(K),
//@ body 2
    proof { lemma_comb_step(D, N, level as int, h as int, histogram@); lemma_p2_shl(K); }
    let ghost h0 = histogram@;
//@ bodyend 2
    proof { assert(histogram@ =~= h0.update(h as int, (h0[2 * h] + h0[2 * h + 1]) as usize)); }
//@ afterloop 2
    proof { lemma_comb_end(D, N, level as int, histogram@); }
//@ beforeloop 3
    proof { lemma_bpart_start(D, N, level as int, borders@); }
//@ loop 3
    invariant 1 <= bits_per_element < 64, N == sequence@.len(), N <= usize::MAX - 63, forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] sequence@[i] < p2(bits_per_element as int), src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level < K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l > level { N } else { 0 }), hist_ok(D, N, level as int, N, histogram@), bpart(D, level as int, h as int, borders@),
        (1usize << level) == p2(level as int), p2(level as int) < p2(K),
//@ body 3
    proof { lemma_bpart_step(D, N, level as int, h as int, borders@, histogram@); }
    let ghost b0 = borders@;
//@ bodyend 3
    proof {
        let (x, y) = (rv(level as int, (h - 1) as u64) as int, rv(level as int, h as u64) as int);
        assert(borders@ =~= b0.update(y, (b0[x] + histogram@[x]) as usize));
    }
//@ afterloop 3
    proof { lemma_bpart_end(D, level as int, borders@); }
//@ loop 4
    invariant 1 <= bits_per_element < 64, N == sequence@.len(), N <= usize::MAX - 63, forall|i: int| 0 <= i < sequence@.len() ==> #[trigger] sequence@[i] < p2(bits_per_element as int), src == Seq::new(sequence@.len(), |i: int| ubits(sequence@[i], bits_per_element as int)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level < K, forall|l: int| 0 <= l < K && l != level ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l > level { N } else { 0 }), hist_ok(D, N, level as int, N, histogram@), bord_ok(D, level as int, i as int, borders@), data@[level as int]@ == part(D, src, K, level as int, i as int), p2(level as int) < p2(K),
//@ body 4
    proof {
        lemma_ubit(sequence@[i as int], K, K - 1 - level as int); let w0 = sequence@[i as int]; assert(src[i as int] == ubits(w0, K)); lemma_elem(D, N, src, w0, i as int, level as int);
        lemma_bord_step(D, N, level as int, i as int, borders@);
        lemma_part_step(D, src, K, level as int, i as int);
        lemma_built_bit(D, src, K, level as int, i as int);
    }
    let ghost (b0, d0) = (borders@, data@);
//@ bodyend 4
    proof {
        let q = pv(D, level as int, i as int);
        assert(borders@ =~= b0.update(q, (b0[q] + 1) as usize));
        assert(forall|l: int| 0 <= l < K && l != level ==> #[trigger] data@[l] == d0[l]);
    }
//@ tail
    proof {
        assert(res__.wf());
        assert(res__.d() =~= D) by {
            assert forall|l: int| 0 <= l < K implies res__.d()[l] == D[l] by { lemma_target(src, K); }
        }
        lemma_built_all(D, N, src);
    }
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::from_bit_vec_pc prefix_counting wbvpc
//@@ fn macro:wbvpc WaveletMatrix::from_bit_vec_pc
//@ props C14
//@ spec
    requires bit_vec.wf(), 1 <= bits_per_element < 64, bit_vec.len as int % bits_per_element as int == 0, bit_vec.len <= usize::MAX - 63,
    ensures r.wf(), r.k() == bits_per_element, r@ == srcvals(Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i))),
//@ start
    let ghost K = bits_per_element as int;
    let ghost src = Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i));
    let ghost N = src.len() as int;
    let ghost D = tgt(src, K, K);
    proof { lemma_target(src, K); lemma_p2_shl(K); lemma_shl16(bits_per_element); lemma_p2_mono(0, K); }
//@ after data
    proof {
        assert forall|l: int| 0 <= l < data@.len() implies (#[trigger] data@[l]).wf() && data@[l].len == N && data@[l]@ == part(D, src, K, l, 0) by {
            lemma_part_zero(D, src, K, l);
            assert(data@[l]@.len() == N);
            assert(data@[l]@ =~= part(D, src, K, l, 0));
        }
        lemma_hist_zero(D, N, K, histogram@);
    }
//@ loop 0
    invariant bit_vec.wf(), 1 <= bits_per_element < 64, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, N <= usize::MAX - 63, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N,
        hist_ok(D, N, K, i as int, histogram@), data@[0]@ == part(D, src, K, 0, i as int), forall|l: int| 1 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, 0),
//@ body 0
    proof {
        lemma_packed(bit_vec.len as int, K, N, i as int, K - 1 - 0); assert(src[i as int] == elem(bit_vec@, K, i as int)); assert(src[i as int][K - 1 - 0] == bit_vec@[i * K + (K - 1 - 0)]);
        assert forall|w: u64| #[trigger] is_bits(w, bit_vec@, i * K, K) implies w as usize == pv(D, K, i as int) && ((w as usize) >> ((K - 0) as usize)) == pv(D, 0, i as int) by {
            lemma_word_of(w, K, src[i as int]);
            lemma_elem(D, N, src, w, i as int, 0);
        }
        lemma_hist_step(D, N, K, i as int, histogram@, pv(D, K, i as int));
        lemma_part_step(D, src, K, 0, i as int);
    }
    let ghost (h0, d0) = (histogram@, data@);
//@ bodyend 0
    proof {
        assert(histogram@ =~= h0.update(pv(D, K, i as int), (h0[pv(D, K, i as int)] + 1) as usize));
        assert(forall|l: int| 1 <= l < K ==> #[trigger] data@[l] == d0[l]);
    }
//@ loop 1
    invariant bit_vec.wf(), 1 <= bits_per_element < 64, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, N <= usize::MAX - 63, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level__s <= K, level__lo == 1,
        hist_ok(D, N, level__s as int, N, histogram@),
        forall|l: int| 0 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l >= level__s { N } else { 0 }),
    decreases level__s,
//@ body 1
    proof {
        lemma_p2_shl(level as int);
        lemma_p2_mono(level as int, K);
        lemma_p2_mono(level as int + 1, K);
        lemma_p2_mono(0, level as int);
        lemma_comb_start(D, N, level as int, histogram@);
    }
//@ loop 2
    invariant bit_vec.wf(), 1 <= bits_per_element < 64, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, N <= usize::MAX - 63, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level < K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l > level { N } else { 0 }), comb(D, N, level as int, h as int, histogram@), (1usize << level) == p2(level as int), p2(level as int + 1) <= p2(K), p2(level as int) < p2(K),
//@ body 2
    proof { lemma_comb_step(D, N, level as int, h as int, histogram@); lemma_p2_shl(K); }
    let ghost h0 = histogram@;
//@ bodyend 2
    proof { assert(histogram@ =~= h0.update(h as int, (h0[2 * h] + h0[2 * h + 1]) as usize)); }
//@ afterloop 2
    proof { lemma_comb_end(D, N, level as int, histogram@); }
//@ beforeloop 3
    proof { lemma_bpart_start(D, N, level as int, borders@); }
//@ loop 3
    invariant bit_vec.wf(), 1 <= bits_per_element < 64, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, N <= usize::MAX - 63, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level < K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l > level { N } else { 0 }), hist_ok(D, N, level as int, N, histogram@), bpart(D, level as int, h as int, borders@),
        (1usize << level) == p2(level as int), p2(level as int) < p2(K),
//@ body 3
    proof { lemma_bpart_step(D, N, level as int, h as int, borders@, histogram@); }
    let ghost b0 = borders@;
//@ bodyend 3
    proof {
        let (x, y) = (rv(level as int, (h - 1) as u64) as int, rv(level as int, h as u64) as int);
        assert(borders@ =~= b0.update(y, (b0[x] + histogram@[x]) as usize));
    }
//@ afterloop 3
    proof { lemma_bpart_end(D, level as int, borders@); }
//@ loop 4
    invariant bit_vec.wf(), 1 <= bits_per_element < 64, bit_vec.len as int % bits_per_element as int == 0, N == bit_vec.len as int / bits_per_element as int, N <= usize::MAX - 63, src == Seq::new((bit_vec.len as int / bits_per_element as int) as nat, |i: int| elem(bit_vec@, bits_per_element as int, i)), K == bits_per_element, element_len == K, num_elements == N, src_ok(src, N, K), D == tgt(src, K, K), levels(D, N), D.len() == K, built(D, src, K), src.len() == N, histogram@.len() == p2(K), borders@.len() == p2(K), data@.len() == K, forall|l: int| 0 <= l < K ==> (#[trigger] data@[l]).wf() && data@[l].len == N, 1 <= level < K, forall|l: int| 0 <= l < K && l != level ==> (#[trigger] data@[l])@ == part(D, src, K, l, if l == 0 || l > level { N } else { 0 }), hist_ok(D, N, level as int, N, histogram@), bord_ok(D, level as int, i as int, borders@), data@[level as int]@ == part(D, src, K, level as int, i as int), p2(level as int) < p2(K),
//@ body 4
    proof {
        lemma_packed(bit_vec.len as int, K, N, i as int, K - 1 - level as int); assert(src[i as int] == elem(bit_vec@, K, i as int)); assert(src[i as int][K - 1 - level as int] == bit_vec@[i * K + (K - 1 - level as int)]);
        assert forall|w: u64| #[trigger] is_bits(w, bit_vec@, i * K, K) implies w as usize == pv(D, K, i as int) && ((w as usize) >> ((K - level as int) as usize)) == pv(D, level as int, i as int) by {
            lemma_word_of(w, K, src[i as int]);
            lemma_elem(D, N, src, w, i as int, level as int);
        }
        lemma_bord_step(D, N, level as int, i as int, borders@);
        lemma_part_step(D, src, K, level as int, i as int);
        lemma_built_bit(D, src, K, level as int, i as int);
    }
    let ghost (b0, d0) = (borders@, data@);
//@ bodyend 4
    proof {
        let q = pv(D, level as int, i as int);
        assert(borders@ =~= b0.update(q, (b0[q] + 1) as usize));
        assert(forall|l: int| 0 <= l < K && l != level ==> #[trigger] data@[l] == d0[l]);
    }
//@ tail
    proof {
        assert(res__.wf());
        assert(res__.d() =~= D) by {
            assert forall|l: int| 0 <= l < K implies res__.d()[l] == D[l] by { lemma_target(src, K); }
        }
        lemma_built_all(D, N, src);
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::bits_per_element
//@ props C14
//@ spec
    ensures r == self.k(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::len
//@ props C14
//@ spec
    requires self.wf(),
    ensures r == self.n(), r == self@.len(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::is_empty
//@ props C14
//@ spec
    requires self.wf(),
    ensures r == (self@.len() == 0),
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::get_value_unchecked reconstruct_value_unchecked wgetv
//@@ fn macro:wgetv WaveletMatrix::get_value_unchecked
//@ props C14 C20
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), i < self.n(),
    ensures r.wf(), r.len == self.k(), r@.len() == self.k(), bval(r@) == self@[i as int],
//@ start
    proof { self.lemma_wf(); }
    let ghost i0 = i as int;
//@ after value
    proof { assert(value@.len() == self.k()); }
//@ loop 0
    invariant value.wf(), value.len == self.k(), self.wf(), level_in <= self.k(), i == pos(self.d(), level_in as int, i0),
        level_in < self.k() ==> level == self.k() - 1 - level_in,
        spref(value@, level_in as int) == pv(self.d(), level_in as int, i0),
//@ body 0
    proof { lemma_pos(self.d(), self.n(), level_in as int, i0); lemma_rank_bounds(self.d()[level_in as int], i as int); lemma_step(self.d()[level_in as int], i as int); }
    let ghost v0 = value@;
    let ghost p0 = i as int;
    let ghost l0 = level as int;
//@ bodyend 0
    proof {
        let b = self.d()[level_in as int][p0];
        assert(value@ == v0.update(l0, b));
        lemma_spref_cong(v0, value@, level_in as int);
        assert(value@[value@.len() - (level_in + 1)] == b);
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::get_value
//@ props C14 C20
//@ spec
    requires self.wf(),
    ensures i < self.n() ==> r is Some && r->0.wf() && r->0@.len() == self.k() && bval(r->0@) == self@[i as int],
        i >= self.n() ==> r is None,
//@@ end
//@@ inline src/wavelet/mod.rs WaveletMatrix::get_u64_unchecked reconstruct_value_unchecked wgetu
//@@ fn macro:wgetu WaveletMatrix::get_u64_unchecked
//@ props C14 C20
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), i < self.n(), self.k() <= 64,
    ensures r == self@[i as int],
//@ start
    proof { self.lemma_wf(); }
    let ghost i0 = i as int;
//@ loop 0
    invariant self.wf(), level <= self.k(), i == pos(self.d(), level as int, i0), value == pv(self.d(), level as int, i0),
//@ body 0
    proof {
        lemma_pos(self.d(), self.n(), level as int, i0); lemma_rank_bounds(self.d()[level as int], i as int); lemma_step(self.d()[level as int], i as int);
        lemma_push_bit(value, level as int, self.d()[level as int][i as int]);
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::get_u64
//@ props C14 C20
//@ spec
    requires self.wf(),
    ensures i < self.n() && self.k() <= 64 ==> r is Some && r->0 == self@[i as int],
        i >= self.n() || self.k() > 64 ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_range_unchecked
//@ props C15
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), range.start <= range.end <= self.n(), symbol.wf(), symbol.len == self.k(),
    ensures r == occ(self@, bval(symbol@), range.start as int, range.end as int),
//@ start
    proof { self.lemma_wf(); }
    let ghost (a0, b0) = (range.start as int, range.end as int);
    let ghost y = symbol@;
//@ loop 0
    invariant self.wf(), level <= self.k(), range.start == down(self.d(), level as int, spref(y, level as int), a0), range.end == down(self.d(), level as int, spref(y, level as int), b0),
//@ body 0
    proof {
        lemma_descend(self.d(), self.n(), y, level as int, a0);
        lemma_descend(self.d(), self.n(), y, level as int, b0);
        lemma_rank_bounds(self.d()[level as int], range.start as int);
        lemma_rank_bounds(self.d()[level as int], range.end as int);
        
    }
//@ afterloop 0
    proof {
        lemma_spref(y, self.k());
        lemma_down_occ(self.d(), self.n(), self.k(), bval(y), a0, b0);
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_range
//@ props C15
//@ spec
    requires self.wf(), symbol.wf(),
    ensures
        range.start <= range.end <= self.n() && range.start < self.n() && symbol.len == self.k() ==> some_is(r, occ(self@, bval(symbol@), range.start as int, range.end as int)),
        !(range.start <= range.end <= self.n() && range.start < self.n() && symbol.len == self.k()) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_offset_unchecked
//@ props C15
//@ spec
    requires self.wf(), offset <= i <= self.n(), symbol.wf(), symbol.len == self.k(),
    ensures r == occ(self@, bval(symbol@), offset as int, i as int),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_offset
//@ props C15
//@ spec
    requires self.wf(), symbol.wf(),
    ensures
        offset <= i <= self.n() && offset < self.n() && symbol.len == self.k() ==> some_is(r, occ(self@, bval(symbol@), offset as int, i as int)),
        !(offset <= i <= self.n() && offset < self.n() && symbol.len == self.k()) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_unchecked
//@ props C15
//@ spec
    requires self.wf(), i <= self.n(), symbol.wf(), symbol.len == self.k(),
    ensures r == occ(self@, bval(symbol@), 0, i as int),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank
//@ props C15
//@ spec
    requires self.wf(), symbol.wf(),
    ensures
        i <= self.n() && symbol.len == self.k() ==> some_is(r, occ(self@, bval(symbol@), 0, i as int)),
        !(i <= self.n() && symbol.len == self.k()) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_offset_unchecked
//@ props C15
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), offset <= self.n(), symbol.wf(), symbol.len == self.k(),
    ensures
        rank < occ(self@, bval(symbol@), offset as int, self.n()) ==> is_wsel(self@, bval(symbol@), offset as int, rank as int, r as int),
        rank >= occ(self@, bval(symbol@), offset as int, self.n()) ==> r >= self.n(),
//@ start
    proof { self.lemma_wf(); }
    let ghost y = symbol@;
    let ghost a0 = offset as int;
//@ loop 0
    invariant self.wf(), level <= self.k(), range_start == down(self.d(), level as int, spref(y, level as int), a0),
//@ body 0
    proof {
        lemma_descend(self.d(), self.n(), y, level as int, a0);
        lemma_rank_bounds(self.d()[level as int], range_start as int);
        
    }
//@ afterloop 0
    let ghost found = rank < occ(self@, bval(y), a0, self.n());
    let ghost idx: int = 0;
    proof {
        let k = self.k();
        lemma_spref(y, k);
        lemma_down_occ(self.d(), self.n(), k, bval(y), a0, self.n());
        if found {
            idx = lemma_sel_exists(self@, bval(y), a0, self.n(), rank as int);
            lemma_down_occ(self.d(), self.n(), k, bval(y), a0, idx);
            lemma_cross(self.d(), self.n(), k, bval(y), idx);
            lemma_pos(self.d(), self.n(), k, idx);
        }
        if self.k() == 0 { assert(self.n() == 0); }
    }
//@ loop 1
    invariant self.wf(), rev__1 <= self.k(),
        found ==> range_end == pos(self.d(), self.k() - rev__1, idx),
        !found ==> range_end >= down(self.d(), self.k() - rev__1, spref(y, self.k() - rev__1), self.n()),
//@ body 1
    proof {
        let l = self.k() - 1 - rev__1;
        assert(self.data@[l]@ == self.d()[l] && self.data@[l].wf() && self.data@[l].len == self.n() && self.data@[l].rank0 == rank0(self.d()[l], self.n()) && self.data@[l].rank1 == rank1(self.d()[l], self.n()));
        if found { self.lemma_up_in(y, l, idx); lemma_pos(self.d(), self.n(), l + 1, idx); lemma_rank_bounds(self.d()[l], pos(self.d(), l, idx)); }
        else { self.lemma_up(y, l, range_end as int, range_end - rank0(self.d()[l], self.n())); }
        
        
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_offset
//@ props C15
//@ spec
    requires self.wf(), symbol.wf(),
    ensures
        offset < self.n() && symbol.len == self.k() && rank < occ(self@, bval(symbol@), offset as int, self.n()) ==> r is Some && is_wsel(self@, bval(symbol@), offset as int, rank as int, r->0 as int),
        !(offset < self.n() && symbol.len == self.k() && rank < occ(self@, bval(symbol@), offset as int, self.n())) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_unchecked
//@ props C15
//@ spec
    requires self.wf(), symbol.wf(), symbol.len == self.k(),
    ensures
        rank < occ(self@, bval(symbol@), 0, self.n()) ==> is_wsel(self@, bval(symbol@), 0, rank as int, r as int),
        rank >= occ(self@, bval(symbol@), 0, self.n()) ==> r >= self.n(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select
//@ props C15
//@ spec
    requires self.wf(), symbol.wf(),
    ensures
        symbol.len == self.k() && rank < occ(self@, bval(symbol@), 0, self.n()) ==> r is Some && is_wsel(self@, bval(symbol@), 0, rank as int, r->0 as int),
        !(symbol.len == self.k() && rank < occ(self@, bval(symbol@), 0, self.n())) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_range_u64_unchecked
//@ props C15
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), range.start <= range.end <= self.n(), self.k() <= 64,
    ensures r == occ(self@, uval(symbol, self.k()), range.start as int, range.end as int),
//@ start
    proof { self.lemma_wf(); lemma_ubits(symbol, self.k()); }
    let ghost (a0, b0) = (range.start as int, range.end as int);
    let ghost y = ubits(symbol, self.k());
//@ loop 0
    invariant self.wf(), level <= self.k(), range.start == down(self.d(), level as int, spref(y, level as int), a0), range.end == down(self.d(), level as int, spref(y, level as int), b0),
//@ body 0
    proof {
        lemma_descend(self.d(), self.n(), y, level as int, a0);
        lemma_descend(self.d(), self.n(), y, level as int, b0);
        lemma_rank_bounds(self.d()[level as int], range.start as int);
        lemma_rank_bounds(self.d()[level as int], range.end as int);
        lemma_ubit(symbol, self.k(), self.k() - 1 - level);
    }
//@ afterloop 0
    proof {
        lemma_spref(y, self.k());
        lemma_down_occ(self.d(), self.n(), self.k(), bval(y), a0, b0);
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_range_u64
//@ props C15
//@ spec
    requires self.wf(),
    ensures
        range.start <= range.end <= self.n() && range.start < self.n() && self.k() <= 64 ==> some_is(r, occ(self@, uval(symbol, self.k()), range.start as int, range.end as int)),
        !(range.start <= range.end <= self.n() && range.start < self.n() && self.k() <= 64) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_offset_u64_unchecked
//@ props C15
//@ spec
    requires self.wf(), offset <= i <= self.n(), self.k() <= 64,
    ensures r == occ(self@, uval(symbol, self.k()), offset as int, i as int),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_offset_u64
//@ props C15
//@ spec
    requires self.wf(),
    ensures
        offset <= i <= self.n() && offset < self.n() && self.k() <= 64 ==> some_is(r, occ(self@, uval(symbol, self.k()), offset as int, i as int)),
        !(offset <= i <= self.n() && offset < self.n() && self.k() <= 64) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_u64_unchecked
//@ props C15
//@ spec
    requires self.wf(), i <= self.n(), self.k() <= 64,
    ensures r == occ(self@, uval(symbol, self.k()), 0, i as int),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::rank_u64
//@ props C15
//@ spec
    requires self.wf(),
    ensures
        i <= self.n() && self.k() <= 64 ==> some_is(r, occ(self@, uval(symbol, self.k()), 0, i as int)),
        !(i <= self.n() && self.k() <= 64) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_offset_u64_unchecked
//@ props C15
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), offset <= self.n(), self.k() <= 64,
    ensures
        rank < occ(self@, uval(symbol, self.k()), offset as int, self.n()) ==> is_wsel(self@, uval(symbol, self.k()), offset as int, rank as int, r as int),
        rank >= occ(self@, uval(symbol, self.k()), offset as int, self.n()) ==> r >= self.n(),
//@ start
    proof { self.lemma_wf(); lemma_ubits(symbol, self.k()); }
    let ghost y = ubits(symbol, self.k());
    let ghost a0 = offset as int;
//@ loop 0
    invariant self.wf(), level <= self.k(), range_start == down(self.d(), level as int, spref(y, level as int), a0),
//@ body 0
    proof {
        lemma_descend(self.d(), self.n(), y, level as int, a0);
        lemma_rank_bounds(self.d()[level as int], range_start as int);
        lemma_ubit(symbol, self.k(), self.k() - 1 - level);
    }
//@ afterloop 0
    let ghost found = rank < occ(self@, bval(y), a0, self.n());
    let ghost idx: int = 0;
    proof {
        let k = self.k();
        lemma_spref(y, k);
        lemma_down_occ(self.d(), self.n(), k, bval(y), a0, self.n());
        if found {
            idx = lemma_sel_exists(self@, bval(y), a0, self.n(), rank as int);
            lemma_down_occ(self.d(), self.n(), k, bval(y), a0, idx);
            lemma_cross(self.d(), self.n(), k, bval(y), idx);
            lemma_pos(self.d(), self.n(), k, idx);
        }
        if self.k() == 0 { assert(self.n() == 0); }
    }
//@ loop 1
    invariant self.wf(), rev__1 <= self.k(),
        found ==> range_end == pos(self.d(), self.k() - rev__1, idx),
        !found ==> range_end >= down(self.d(), self.k() - rev__1, spref(y, self.k() - rev__1), self.n()),
//@ body 1
    proof {
        let l = self.k() - 1 - rev__1;
        assert(self.data@[l]@ == self.d()[l] && self.data@[l].wf() && self.data@[l].len == self.n() && self.data@[l].rank0 == rank0(self.d()[l], self.n()) && self.data@[l].rank1 == rank1(self.d()[l], self.n()));
        if found { self.lemma_up_in(y, l, idx); lemma_pos(self.d(), self.n(), l + 1, idx); lemma_rank_bounds(self.d()[l], pos(self.d(), l, idx)); }
        else { self.lemma_up(y, l, range_end as int, range_end - rank0(self.d()[l], self.n())); }
        lemma_ubit(symbol, self.k(), l);
        lemma_ubit(symbol, self.k(), self.k() - 1 - l);
    }
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_offset_u64
//@ props C15
//@ spec
    requires self.wf(),
    ensures
        offset < self.n() && self.k() <= 64 && rank < occ(self@, uval(symbol, self.k()), offset as int, self.n()) ==> r is Some && is_wsel(self@, uval(symbol, self.k()), offset as int, rank as int, r->0 as int),
        !(offset < self.n() && self.k() <= 64 && rank < occ(self@, uval(symbol, self.k()), offset as int, self.n())) ==> r is None,
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_u64_unchecked
//@ props C15
//@ spec
    requires self.wf(), self.k() <= 64,
    ensures
        rank < occ(self@, uval(symbol, self.k()), 0, self.n()) ==> is_wsel(self@, uval(symbol, self.k()), 0, rank as int, r as int),
        rank >= occ(self@, uval(symbol, self.k()), 0, self.n()) ==> r >= self.n(),
//@@ end
//@@ fn src/wavelet/mod.rs WaveletMatrix::select_u64
//@ props C15
//@ spec
    requires self.wf(),
    ensures
        self.k() <= 64 && rank < occ(self@, uval(symbol, self.k()), 0, self.n()) ==> r is Some && is_wsel(self@, uval(symbol, self.k()), 0, rank as int, r->0 as int),
        !(self.k() <= 64 && rank < occ(self@, uval(symbol, self.k()), 0, self.n())) ==> r is None,
//@@ end
}
} // verus!