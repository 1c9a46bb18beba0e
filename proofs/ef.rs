use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::select::*;
use crate::pow2::*;
verus! {
broadcast use crate::base::one_shl;
//@@ item src/elias_fano/mod.rs const BIN_SEARCH_THRESHOLD
//@@ item src/elias_fano/mod.rs struct EliasFanoVec

// ---------------------------------------------------------------- splitting words
pub open spec fn hi(x: u64, lw: int) -> u64 { x >> (lw as u64) }
pub open spec fn lo(x: u64, lw: int) -> u64 { x & (((1u64 << (lw as u64)) - 1) as u64) }
pub proof fn lemma_split(x: u64, lw: int)
    requires 0 <= lw < 64,
    ensures (hi(x, lw) << (lw as u64)) | lo(x, lw) == x, (1u64 << (lw as u64)) >= 1,
        (hi(x, lw) << (lw as u64)) + lo(x, lw) == x,
        forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(lo(x, lw), j) == (j < lw && wbit(x, j)),
{
    broadcast use group_wbit;
    let s = lw as u64;
    lemma_shl_pos(s);
    assert(((x >> s) << s) | (x & sub(1u64 << s, 1)) == x && ((x >> s) << s) <= x && sub(x, (x >> s) << s) == (x & sub(1u64 << s, 1))) by (bit_vector) requires s < 64;
}
/// the order is that of the upper parts, then that of the lower parts
pub proof fn lemma_order(x: u64, y: u64, lw: int)
    requires 0 <= lw < 64,
    ensures hi(x, lw) < hi(y, lw) ==> x < y,
        hi(x, lw) == hi(y, lw) ==> ((x < y) <==> (lo(x, lw) < lo(y, lw))) && ((x == y) <==> (lo(x, lw) == lo(y, lw))),
        x <= y ==> hi(x, lw) <= hi(y, lw),
{
    let s = lw as u64;
    lemma_shl_pos(s);
    assert(x <= y ==> (x >> s) <= (y >> s)) by (bit_vector) requires s < 64;
    assert((x >> s) < (y >> s) ==> x < y) by (bit_vector) requires s < 64;
    assert((x >> s) == (y >> s) ==> (x < y <==> (x & sub(1u64 << s, 1)) < (y & sub(1u64 << s, 1)))) by (bit_vector) requires s < 64;
    assert((x >> s) == (y >> s) ==> (x == y <==> (x & sub(1u64 << s, 1)) == (y & sub(1u64 << s, 1)))) by (bit_vector) requires s < 64;
}

/// ones with the same number before them are the same one
pub proof fn lemma_select1_unique(s: Seq<bool>, p: int, q: int)
    requires 0 <= p < s.len(), 0 <= q < s.len(), s[p], s[q], rank1(s, p) == rank1(s, q),
    ensures p == q,
{
    if p < q { lemma_rank_mono(s, p + 1, q); }
    if q < p { lemma_rank_mono(s, q + 1, p); }
}
pub proof fn lemma_select0_unique(s: Seq<bool>, p: int, q: int)
    requires 0 <= p < s.len(), 0 <= q < s.len(), !s[p], !s[q], rank0(s, p) == rank0(s, q),
    ensures p == q,
{
    if p < q { lemma_rank_mono(s, p + 1, q); }
    if q < p { lemma_rank_mono(s, q + 1, p); }
}
pub proof fn lemma_sel0_exists(s: Seq<bool>, u: int, m: int) -> (p: int)
    requires 0 <= u < rank0(s, m), 0 <= m <= s.len(),
    ensures is_select0(s, u, p),
    decreases m,
{
    if m > 0 && u < rank0(s, m - 1) { lemma_sel0_exists(s, u, m - 1) } else { m - 1 }
}
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize)
    ensures r == if x >= 0 { x as int } else { -(x as int) };
pub open spec fn is_count(v: Seq<u64>, t: int, r: int) -> bool {
    &&& 0 <= r <= v.len()
    &&& forall|i: int| 0 <= i < r ==> #[trigger] v[i] < t
    &&& forall|i: int| r <= i < v.len() ==> #[trigger] v[i] >= t
}
/// `r` is the largest element that is at most `t`
pub open spec fn is_pred(v: Seq<u64>, t: int, r: u64) -> bool {
    &&& v.contains(r) && r <= t
    &&& forall|i: int| 0 <= i < v.len() && #[trigger] v[i] <= t ==> v[i] <= r
}
/// `r` is the smallest element that is at least `t`
pub open spec fn is_succ(v: Seq<u64>, t: int, r: u64) -> bool {
    &&& v.contains(r) && r >= t
    &&& forall|i: int| 0 <= i < v.len() && #[trigger] v[i] >= t ==> v[i] >= r
}

#[verifier::external_body]
pub proof fn axiom_flog_mono(x: int, y: int)
    requires 1 <= x <= y <= u64::MAX,
    ensures flog(x) <= flog(y),
{ }
pub proof fn lemma_sizes(len: int, bound: u64, lw: int)
    requires 1 <= len <= 0x4_0000_0000_0000,
        ({ let b = flog(if bound < 2 { 2 } else { bound as int }); let l = flog(len + 2); lw == (if b <= l { l } else { b }) - flog(if len < 2 { 2 } else { len }) }),
    ensures 0 <= lw < 64, 0 <= len * lw <= 0x100_0000_0000_0000, 2 + len + (bound >> (lw as u64)) <= 0x20_0000_0000_0000,
        flog(len + 2) >= flog(if len < 2 { 2 } else { len }),
{
    let b = if bound < 2 { 2 } else { bound as int };
    let l = if len < 2 { 2 } else { len };
    axiom_flog(b);
    axiom_flog(len + 2);
    axiom_flog(l);
    axiom_flog_mono(l, len + 2);
    axiom_flog_mono(2, l);
    let bu = flog(l);
    assert(0 <= lw < 64);
    assert(0 <= len * lw <= 0x4_0000_0000_0000 * 64) by (nonlinear_arith) requires 1 <= len <= 0x4_0000_0000_0000, 0 <= lw <= 64;
    lemma_p2_mono(flog(b), lw + bu);
    lemma_p2_add(lw, bu);
    lemma_shr(bound, lw);
    let u = (bound >> (lw as u64)) as int;
    assert(u * p2(lw) <= 2 * (p2(lw) * p2(bu)));
    assert(u <= 2 * p2(bu)) by (nonlinear_arith) requires u * p2(lw) <= 2 * (p2(lw) * p2(bu)), p2(lw) >= 1, p2(bu) >= 1;
}
// ---------------------------------------------------------------- the upper vector
pub open spec fn gx(v: Seq<u64>, zero: u64, i: int) -> u64 { (v[i] - zero) as u64 }
pub open spec fn gpos(v: Seq<u64>, zero: u64, lw: int, i: int) -> int { hi(gx(v, zero, i), lw) + i + 1 }
pub proof fn lemma_gpos(v: Seq<u64>, zero: u64, lw: int, i: int, j: int)
    requires sorted(v), 0 <= i <= j < v.len(), zero == v[0], 0 <= lw < 64,
    ensures gpos(v, zero, lw, i) <= gpos(v, zero, lw, j) - (j - i), 1 <= gpos(v, zero, lw, i),
{
    assert(v[0] <= v[i] <= v[j]);
    lemma_order(gx(v, zero, i), gx(v, zero, j), lw);
}
/// the ones of `s` are the positions of the elements before `n`
pub open spec fn ones(s: Seq<bool>, v: Seq<u64>, zero: u64, lw: int, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] gpos(v, zero, lw, i) < s.len() && s[gpos(v, zero, lw, i)]
    &&& forall|p: int| 0 <= p < s.len() && s[p] ==> exists|i: int| 0 <= i < n && #[trigger] gpos(v, zero, lw, i) == p
}
pub proof fn lemma_gap(s: Seq<bool>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|p: int| a <= p < b ==> !s[p],
    ensures rank1(s, b) == rank1(s, a),
    decreases b - a,
{
    if a < b { lemma_gap(s, a, b - 1); }
}
pub proof fn lemma_ranks(s: Seq<bool>, v: Seq<u64>, zero: u64, lw: int, i: int)
    requires sorted(v), v.len() > 0, zero == v[0], 0 <= lw < 64, ones(s, v, zero, lw, v.len() as int), 0 <= i <= v.len(),
    ensures i < v.len() ==> rank1(s, gpos(v, zero, lw, i)) == i, i == v.len() ==> rank1(s, s.len() as int) == i,
    decreases i,
{
    let a = if i == 0 { 0 } else { gpos(v, zero, lw, i - 1) + 1 };
    let b = if i == v.len() { s.len() as int } else { gpos(v, zero, lw, i) };
    if i > 0 { lemma_ranks(s, v, zero, lw, i - 1); assert(s[gpos(v, zero, lw, i - 1)]); }
    if 0 < i < v.len() { lemma_gpos(v, zero, lw, i - 1, i); }
    if i < v.len() { lemma_gpos(v, zero, lw, i, i); assert(s[gpos(v, zero, lw, i)]); }
    assert forall|p: int| a <= p < b implies !s[p] by {
        if s[p] {
            let j = choose|j: int| 0 <= j < v.len() && #[trigger] gpos(v, zero, lw, j) == p;
            if j < i - 1 { lemma_gpos(v, zero, lw, j, i - 1); }
            if j > i { lemma_gpos(v, zero, lw, i, j); }
        }
    }
    lemma_gap(s, a, b);
}
pub open spec fn rank_at(s: Seq<bool>, v: Seq<u64>, zero: u64, lw: int, i: int) -> bool {
    (i < v.len() ==> rank1(s, gpos(v, zero, lw, i)) == i) && (i == v.len() ==> rank1(s, s.len() as int) == i)
}
/// the representation of the empty sequence
pub proof fn lemma_empty(v: Seq<u64>)
    requires v.len() == 0,
    ensures forall|e: EliasFanoVec| #![trigger e.wf()] #![trigger e.view()] e.len == 0 && e.upper_vec.wf() && e.lower_vec.wf() && e.upper_vec.len == 0 && e.lower_vec.len == 0 && e.lower_len == 0 ==> e.repr(v) && e.wf() && e@ == v,
{
    assert forall|e: EliasFanoVec| #![trigger e.wf()] #![trigger e.view()] e.len == 0 && e.upper_vec.wf() && e.lower_vec.wf() && e.upper_vec.len == 0 && e.lower_vec.len == 0 && e.lower_len == 0 implies e.repr(v) && e.wf() && e@ == v by {
        assert(e.repr(v));
        e.lemma_unique(v, e@);
    }
}
impl EliasFanoVec {
    pub open spec fn lw(&self) -> int { self.lower_len as int }
    /// offset of element `i` from the first one
    pub open spec fn x(&self, v: Seq<u64>, i: int) -> u64 { (v[i] - self.universe_zero) as u64 }
    pub open spec fn up(&self, v: Seq<u64>, i: int) -> int { hi(self.x(v, i), self.lw()) as int }
    pub open spec fn low(&self, v: Seq<u64>, i: int) -> u64 { lo(self.x(v, i), self.lw()) }
    /// position of the one of element `i`
    pub open spec fn pos(&self, v: Seq<u64>, i: int) -> int { self.up(v, i) + i + 1 }
    pub open spec fn offsets(&self, v: Seq<u64>) -> Seq<u64> { Seq::new(v.len(), |i: int| self.x(v, i)) }
    pub open spec fn repr(&self, v: Seq<u64>) -> bool {
        &&& self.len == v.len()
        &&& self.len <= 0x4_0000_0000_0000
        &&& self.upper_vec.wf() && self.lower_vec.wf() && self.upper_vec.len <= 0x20_0000_0000_0000
        &&& self.lower_len < 64
        &&& sorted(v)
        &&& v.len() > 0 ==> self.universe_zero == v[0] && self.universe_max == v[v.len() - 1] && self.upper_vec.len == 2 + v.len() + self.up(v, v.len() - 1)
        &&& packed(self.lower_vec@, self.offsets(v), self.lw(), 64)
        &&& rank1(self.upper_vec@, self.upper_vec.len as int) == v.len()
        &&& forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] self.pos(v, i) < self.upper_vec.len && self.upper_vec@[self.pos(v, i)] && rank1(self.upper_vec@, self.pos(v, i)) == i
    }
    pub open spec fn wf(&self) -> bool { exists|v: Seq<u64>| self.repr(v) }
    /// the stored sequence
    pub open spec fn view(&self) -> Seq<u64> { choose|v: Seq<u64>| self.repr(v) }

    pub proof fn lemma_unique(&self, v: Seq<u64>, w: Seq<u64>)
        requires self.repr(v), self.repr(w),
        ensures v == w,
    {
        self.lemma_unique2(*self, v, w);
    }
    /// the sequence is determined by the two vectors, the first element and the width
    pub proof fn lemma_unique2(&self, o: EliasFanoVec, v: Seq<u64>, w: Seq<u64>)
        requires self.repr(v), o.repr(w), self.upper_vec == o.upper_vec, self.lower_vec == o.lower_vec, self.universe_zero == o.universe_zero, self.lower_len == o.lower_len,
        ensures v == w,
    {
        broadcast use group_wbit;
        assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by {
            let (x, y) = (self.x(v, i), o.x(w, i));
            let lw = self.lw();
            assert(self.pos(v, i) == o.pos(w, i)) by { lemma_select1_unique(self.upper_vec@, self.pos(v, i), o.pos(w, i)); }
            assert(hi(x, lw) == hi(y, lw));
            assert forall|j: int| 0 <= j < 64 implies wbit(x, j) == wbit(y, j) by {
                if j < lw {
                    assert(self.lower_vec@[i * lw + j] == (j < 64 && wbit(self.offsets(v)[i], j)));
                    assert(self.lower_vec@[i * lw + j] == (j < 64 && wbit(o.offsets(w)[i], j)));
                } else {
                    assert(wbit(x >> (lw as u64), j - lw) == wbit(x, j));
                    assert(wbit(y >> (lw as u64), j - lw) == wbit(y, j));
                }
            }
            wbit_ext(x, y);
            assert(v[0] <= v[i] && w[0] <= w[i]);
        }
        assert(v =~= w);
    }
    /// reading the lower part of element `i`
    pub proof fn lemma_lower(&self, v: Seq<u64>, i: int, w: u64)
        requires self.repr(v), 0 <= i < v.len(), is_bits(w, self.lower_vec@, i * self.lw(), self.lw()),
        ensures w == self.low(v, i),
    {
        let lw = self.lw();
        let x = self.x(v, i);
        lemma_split(x, lw);
        assert forall|j: int| 0 <= j < 64 implies wbit(w, j) == wbit(self.low(v, i), j) by {
            if j < lw { assert(self.lower_vec@[i * lw + j] == (j < 64 && wbit(self.offsets(v)[i], j))); }
        }
        wbit_ext(w, self.low(v, i));
    }
    pub proof fn lemma_lowers(&self, v: Seq<u64>)
        requires self.repr(v),
        ensures
            forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] (i * self.lw()) && i * self.lw() + self.lw() <= self.lower_vec.len,
            forall|i: int, w: u64| 0 <= i < v.len() && #[trigger] is_bits(w, self.lower_vec@, i * self.lw(), self.lw()) ==> w == self.low(v, i),
    {
        let lw = self.lw();
        assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] (i * lw) && i * lw + lw <= self.lower_vec.len by {
            let n = v.len() as int;
            assert(0 <= i * lw && i * lw + lw <= n * lw) by (nonlinear_arith) requires 0 <= i < n, 0 <= lw;
        }
        assert forall|i: int, w: u64| 0 <= i < v.len() && #[trigger] is_bits(w, self.lower_vec@, i * lw, lw) implies w == self.low(v, i) by { self.lemma_lower(v, i, w); }
    }
    /// the zero number `u` separates the elements whose upper part is below `u` from the others
    pub proof fn lemma_zero(&self, v: Seq<u64>, u: int, p: int)
        requires self.repr(v), is_select0(self.upper_vec@, u, p),
        ensures 0 <= p - u <= v.len(), forall|i: int| 0 <= i < v.len() ==> (i < p - u <==> #[trigger] self.up(v, i) < u),
    {
        let s = self.upper_vec@;
        lemma_rank_mono(s, p, s.len() as int);
        lemma_rank_bounds(s, p);
        assert forall|i: int| 0 <= i < v.len() implies (i < p - u <==> #[trigger] self.up(v, i) < u) by {
            let q = self.pos(v, i);
            if q < p { lemma_rank_mono(s, q + 1, p); }
            if q > p { lemma_rank_mono(s, p + 1, q); }
        }
    }
    /// number of zeros in the upper vector
    pub proof fn lemma_zeros(&self, v: Seq<u64>)
        requires self.repr(v), v.len() > 0,
        ensures rank0(self.upper_vec@, self.upper_vec.len as int) == 2 + self.up(v, v.len() - 1),
    {
    }
    /// elements `c..e` are those whose upper part is `u`
    pub open spec fn block(&self, v: Seq<u64>, n: u64, c: int, e: int) -> bool {
        let t = n + self.universe_zero;
        let u = hi(n, self.lw()) as int;
        let s = self.upper_vec@;
        &&& 0 <= c <= e <= v.len()
        &&& u + e + 1 < s.len() && !s[u + c] && !s[u + e + 1]
        &&& forall|i: int| 0 <= i < c ==> #[trigger] v[i] < t
        &&& forall|i: int| e <= i < v.len() ==> #[trigger] v[i] > t
        &&& forall|j: int| u + c < j <= u + e ==> #[trigger] s[j]
        &&& forall|i: int| c <= i < e ==> {
            &&& v[i] < t <==> #[trigger] self.low(v, i) < lo(n, self.lw())
            &&& v[i] == t <==> self.low(v, i) == lo(n, self.lw())
            &&& ((hi(n, self.lw()) << (self.lw() as u64)) | self.low(v, i)) + self.universe_zero == v[i]
            &&& ((hi(n, self.lw()) << (self.lw() as u64)) | self.low(v, i)) + 0 == v[i] - self.universe_zero
        }
        &&& forall|i: int, j: int| c <= i <= j < e ==> #[trigger] self.low(v, i) <= #[trigger] self.low(v, j)
    }
    pub proof fn lemma_block(&self, v: Seq<u64>, n: u64, p: int, q: int)
        requires self.repr(v), v.len() > 0, is_select0(self.upper_vec@, hi(n, self.lw()) as int, p), is_select0(self.upper_vec@, hi(n, self.lw()) + 1, q),
        ensures self.block(v, n, p - hi(n, self.lw()), q - hi(n, self.lw()) - 1),
    {
        let lw = self.lw();
        let u = hi(n, lw) as int;
        let c = p - u;
        let e = q - u - 1;
        let s = self.upper_vec@;
        let t = n + self.universe_zero;
        self.lemma_zero(v, u, p);
        self.lemma_zero(v, u + 1, q);
        lemma_rank_bounds(s, p);
        lemma_rank_bounds(s, q);
        if q <= p { lemma_rank_mono(s, q, p); lemma_rank_mono(s, q + 1, p); }
        lemma_rank_mono(s, p, q);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] >= self.universe_zero by { assert(v[0] <= v[i]); }
        assert forall|i: int| 0 <= i < c implies #[trigger] v[i] < t by {
            assert(self.up(v, i) < u);
            lemma_order(self.x(v, i), n, lw);
            assert(v[i] >= self.universe_zero);
        }
        assert forall|i: int| e <= i < v.len() implies #[trigger] v[i] > t by {
            assert(!(self.up(v, i) < u + 1));
            lemma_order(n, self.x(v, i), lw);
            assert(v[i] >= self.universe_zero);
        }
        assert forall|i: int| c <= i < e implies self.up(v, i) == u by {
            assert(!(self.up(v, i) < u));
            assert(self.up(v, i) < u + 1);
        }
        assert forall|j: int| u + c < j <= u + e implies #[trigger] s[j] by {
            let i = j - u - 1;
            assert(self.up(v, i) == u);
            assert(s[self.pos(v, i)]);
        }
        assert forall|i: int| c <= i < e implies {
            &&& v[i] < t <==> #[trigger] self.low(v, i) < lo(n, self.lw())
            &&& v[i] == t <==> self.low(v, i) == lo(n, self.lw())
            &&& ((hi(n, self.lw()) << (self.lw() as u64)) | self.low(v, i)) + self.universe_zero == v[i]
            &&& ((hi(n, self.lw()) << (self.lw() as u64)) | self.low(v, i)) + 0 == v[i] - self.universe_zero
        } by {
            lemma_order(self.x(v, i), n, lw);
            lemma_split(self.x(v, i), lw);
            assert(self.up(v, i) == u);
            assert(v[i] >= self.universe_zero);
        }
        assert forall|i: int, j: int| c <= i <= j < e implies #[trigger] self.low(v, i) <= #[trigger] self.low(v, j) by {
            lemma_order(self.x(v, i), self.x(v, j), lw);
            lemma_order(self.x(v, j), self.x(v, i), lw);
            assert(self.up(v, i) == u && self.up(v, j) == u);
            assert(v[i] <= v[j]);
            assert(v[i] >= self.universe_zero);
        }
    }
//@@ fn src/elias_fano/mod.rs EliasFanoVec::from_slice
//@ props C09 C10
//@ spec
    requires sorted(data@), data@.len() <= 0x4_0000_0000_0000,
    ensures r.wf(), r@ == data@,
//@ start
    let ghost v = data@;
//@ before universe_bound
    proof { assert(v[0] <= v[v.len() - 1]); }
//@ after lower_vec
    proof { assert(Seq::new(v.len(), |k: int| gx(v, universe_zero, k)).take(0).len() * (lower_width as int) == 0) by (nonlinear_arith) requires Seq::new(v.len(), |k: int| gx(v, universe_zero, k)).take(0).len() == 0; }
//@ after upper_vec
    proof { assert(upper_vec@.len() == upper_vec.len); }
//@ ret 0
    proof { lemma_empty(v); }
//@ before log_n
    proof {
        let len = data.len() as int;
        let b = flog(if universe_bound < 2 { 2 } else { universe_bound as int });
        let l = flog(len + 2);
        lemma_sizes(len, universe_bound, (if b <= l { l } else { b }) - flog(if len < 2 { 2 } else { len }));
    }
//@ loop 0
    invariant data@ == v, sorted(v), v.len() > 0, universe_zero == v[0], lower_width < 64, universe_bound == v[v.len() - 1] - v[0],
        0 <= v.len() * lower_width <= 0x100_0000_0000_0000,
        upper_vec.wf(), lower_vec.wf(), lower_vec.clean(),
        upper_vec.len == 2 + v.len() + (universe_bound >> lower_width), 2 + v.len() + (universe_bound >> lower_width) <= 0x20_0000_0000_0000,
        ones(upper_vec@, v, universe_zero, lower_width as int, i as int),
        packed(lower_vec@, Seq::new(v.len(), |k: int| gx(v, universe_zero, k)).take(i as int), lower_width as int, 64),
//@ body 0
    let ghost u0 = upper_vec@;
    let ghost l0 = lower_vec@;
    let ghost ii = i as int;
    let ghost lw = lower_width as int;
    let ghost offs = Seq::new(v.len(), |k: int| gx(v, universe_zero, k));
    proof {
        assert(v[0] <= v[ii] <= v[v.len() - 1]);
        lemma_gpos(v, universe_zero, lw, ii, v.len() - 1);
        lemma_split(gx(v, universe_zero, ii), lw);
        assert((ii + 1) * lw == ii * lw + lw && (ii + 1) * lw <= v.len() * lw) by (nonlinear_arith) requires 0 <= ii < v.len(), 0 <= lw;
        if u0[gpos(v, universe_zero, lw, ii)] {
            let j = choose|j: int| 0 <= j < ii && #[trigger] gpos(v, universe_zero, lw, j) == gpos(v, universe_zero, lw, ii);
            lemma_gpos(v, universe_zero, lw, j, ii);
        }
    }
//@ bodyend 0
    proof {
        let p = gpos(v, universe_zero, lw, ii);
        assert(upper_vec@ == u0.update(p, true));
        assert(ones(upper_vec@, v, universe_zero, lw, ii + 1)) by {
            assert forall|q: int| 0 <= q < upper_vec@.len() && upper_vec@[q] implies exists|k: int| 0 <= k < ii + 1 && #[trigger] gpos(v, universe_zero, lw, k) == q by {
                if q != p {
                    let k = choose|k: int| 0 <= k < ii && #[trigger] gpos(v, universe_zero, lw, k) == q;
                    assert(gpos(v, universe_zero, lw, k) == q);
                } else { assert(gpos(v, universe_zero, lw, ii) == q); }
            }
        }
        assert(lower_vec@ =~= l0 + Seq::new(lw as nat, |j: int| j < 64 && wbit(offs[ii], j)));
        lemma_packed_step(l0, lower_vec@, offs, ii, lw, 64);
    }
//@ tail
    proof {
        let offs = Seq::new(v.len(), |k: int| gx(v, universe_zero, k));
        assert(offs.take(v.len() as int) =~= offs);
        assert forall|i: int| 0 <= i <= v.len() implies #[trigger] rank_at(res__.upper_vec@, v, universe_zero, lower_width as int, i) by {
            lemma_ranks(res__.upper_vec@, v, universe_zero, lower_width as int, i);
        }
        assert(rank_at(res__.upper_vec@, v, universe_zero, lower_width as int, v.len() as int));
        assert(res__.offsets(v) =~= offs);
        assert forall|i: int| 0 <= i < v.len() implies 0 <= #[trigger] res__.pos(v, i) < res__.upper_vec.len && res__.upper_vec@[res__.pos(v, i)] && rank1(res__.upper_vec@, res__.pos(v, i)) == i by {
            assert(gpos(v, universe_zero, lower_width as int, i) == res__.pos(v, i));
            assert(rank_at(res__.upper_vec@, v, universe_zero, lower_width as int, i));
        }
        assert(res__.repr(v));
        res__.lemma_unique(v, res__@);
    }
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::len
//@ props C09
//@ spec
    requires self.wf(),
    ensures r == self@.len(), r == self.len,
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::is_empty
//@ props C09
//@ spec
    requires self.wf(),
    ensures r == (self@.len() == 0),
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::get
//@ props C09
//@ spec
    requires self.wf(),
    ensures r == if index < self@.len() { Some(self@[index as int]) } else { None },
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::select
//@ props C09
//@ spec
    requires self.wf(),
    ensures r == if rank < self@.len() { Some(self@[rank as int]) } else { None },
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::get_unchecked
//@ props C09 C10
//@ spec
    requires self.wf(), index < self@.len(),
    ensures r == self@[index as int],
//@ start
    let ghost v = self@;
    proof {
        let i = index as int;
        self.lemma_lowers(v);
        assert(0 <= i * self.lw());
        assert(0 <= self.pos(v, i));
        assert forall|p: int| #[trigger] is_select1(self.upper_vec@, i, p) implies p == self.pos(v, i) by { lemma_select1_unique(self.upper_vec@, p, self.pos(v, i)); }
        lemma_split(self.x(v, i), self.lw());
        assert(v[0] <= v[i]);
    }
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::delta
//@ props C09
//@ spec
    requires self.wf(),
    ensures index >= self@.len() ==> r is None,
        index < self@.len() && index > 0 ==> r == Some((self@[index as int] - self@[index - 1]) as u64),
        index < self@.len() && index == 0 ==> r == Some(self@[0]),
//@ start
    let ghost v = self@;
    proof {
        let i = index as int;
        let s = self.upper_vec@;
        let lw = self.lw();
        if i < v.len() {
            self.lemma_lowers(v);
            assert(0 <= i * lw);
            assert(0 <= self.pos(v, i));
            assert forall|p: int| #[trigger] is_select1(s, i, p) implies p == self.pos(v, i) by { lemma_select1_unique(s, p, self.pos(v, i)); }
            lemma_split(self.x(v, i), lw);
            assert(v[0] <= v[i]);
            if i > 0 {
                assert(0 <= (i - 1) * lw);
                assert(0 <= self.pos(v, i - 1));
                assert forall|p: int| #[trigger] is_select1(s, i - 1, p) implies p == self.pos(v, i - 1) by { lemma_select1_unique(s, p, self.pos(v, i - 1)); }
                lemma_split(self.x(v, i - 1), lw);
                assert(v[0] <= v[i - 1] <= v[i]);
                lemma_order(self.x(v, i), self.x(v, i - 1), lw);
                lemma_order(self.x(v, i - 1), self.x(v, i), lw);
            }
            assert(self.pos(v, 0) == 1) by { let w = lw as u64; assert(0u64 >> w == 0) by (bit_vector); }
            let p = self.pos(v, i);
            if s[p - 1] {
                lemma_rank_bounds(s, p - 1);
                if i > 0 { lemma_select1_unique(s, p - 1, self.pos(v, i - 1)); }
            }
        }
    }
//@@ end
    /// the query `n` (offset from the first element) is inside the universe
    pub open spec fn in_range(&self, v: Seq<u64>, n: u64) -> bool {
        v.len() > 0 && n <= v[v.len() - 1] - v[0]
    }
    /// both zeros that enclose the block of `n` exist
    pub proof fn lemma_query(&self, v: Seq<u64>, n: u64)
        requires self.repr(v), self.in_range(v, n),
        ensures hi(n, self.lw()) + 1 < rank0(self.upper_vec@, self.upper_vec.len as int),
            hi(n, self.lw()) <= hi(self.x(v, v.len() - 1), self.lw()),
            (1u64 << (self.lw() as u64)) >= 1,
            forall|p: int| #[trigger] is_select0(self.upper_vec@, hi(n, self.lw()) as int, p) ==> 0 <= p - hi(n, self.lw()) <= v.len(),
            forall|q: int| #[trigger] is_select0(self.upper_vec@, hi(n, self.lw()) + 1, q) ==> 1 <= q - hi(n, self.lw()) - 1 <= v.len(),
            forall|p: int, q: int| #![trigger is_select0(self.upper_vec@, hi(n, self.lw()) as int, p), is_select0(self.upper_vec@, hi(n, self.lw()) + 1, q)]
                is_select0(self.upper_vec@, hi(n, self.lw()) as int, p) && is_select0(self.upper_vec@, hi(n, self.lw()) + 1, q) ==> self.block(v, n, p - hi(n, self.lw()), q - hi(n, self.lw()) - 1),
    {
        lemma_shl_pos(self.lw() as u64);
        self.lemma_zeros(v);
        lemma_order(n, self.x(v, v.len() - 1), self.lw());
        let u = hi(n, self.lw());
        assert forall|p: int| #[trigger] is_select0(self.upper_vec@, u as int, p) implies 0 <= p - u <= v.len() by { self.lemma_zero(v, u as int, p); }
        assert forall|q: int| #[trigger] is_select0(self.upper_vec@, u + 1, q) implies 1 <= q - u - 1 <= v.len() by {
            self.lemma_zero(v, u + 1, q);
            lemma_order(self.x(v, 0), n, self.lw());
            assert(self.up(v, 0) < u + 1);
        }
        assert forall|p: int, q: int| #![trigger is_select0(self.upper_vec@, u as int, p), is_select0(self.upper_vec@, u + 1, q)]
                is_select0(self.upper_vec@, u as int, p) && is_select0(self.upper_vec@, u + 1, q) implies self.block(v, n, p - u, q - u - 1) by {
            self.lemma_block(v, n, p, q);
        }
    }
    /// where the answers are, in terms of the lower parts of the block
    pub proof fn lemma_answers(&self, v: Seq<u64>, n: u64, c: int, e: int)
        requires self.repr(v), self.in_range(v, n), self.block(v, n, c, e),
        ensures ({
            let t = n + self.universe_zero;
            let ql = lo(n, self.lw());
            &&& forall|k: int| c <= k <= e && (k > c ==> self.low(v, k - 1) < ql) && (k < e ==> self.low(v, k) >= ql) ==> #[trigger] is_count(v, t, k)
            &&& forall|k: int| c <= k < e && #[trigger] self.low(v, k) <= ql && (self.low(v, k) == ql || k + 1 == e) ==> is_pred(v, t, v[k])
            &&& forall|k: int, j: int| c <= k && j == k + 1 && j < e && #[trigger] self.low(v, k) <= ql && #[trigger] self.low(v, j) > ql ==> is_pred(v, t, v[k])
            &&& (c == e || self.low(v, c) > ql) ==> c > 0 && is_pred(v, t, v[c - 1])
            &&& forall|k: int| c <= k < e && #[trigger] self.low(v, k) >= ql && (self.low(v, k) == ql || k == c) ==> is_succ(v, t, v[k])
            &&& forall|k: int, j: int| c <= k && j == k + 1 && j < e && #[trigger] self.low(v, k) < ql && #[trigger] self.low(v, j) >= ql ==> is_succ(v, t, v[j])
            &&& (c == e || self.low(v, e - 1) < ql) ==> e < v.len() && is_succ(v, t, v[e])
            &&& forall|k: int| c <= k < e && #[trigger] self.low(v, k) > ql ==> k > 0
            &&& e > 0
        }),
    {
        let t = n + self.universe_zero;
        let ql = lo(n, self.lw());
        assert forall|k: int| c <= k < e implies v[k] < t <==> #[trigger] self.low(v, k) < ql by { }
        assert forall|i: int, k: int| c <= i < e && c <= k < e && i <= k implies #[trigger] v[i] <= #[trigger] v[k] by { }
        assert(e > 0) by { if e == 0 { assert(v[0] > t); } }
        assert forall|k: int| c <= k <= e && (k > c ==> self.low(v, k - 1) < ql) && (k < e ==> self.low(v, k) >= ql) implies #[trigger] is_count(v, t, k) by {
            assert forall|i: int| 0 <= i < k implies #[trigger] v[i] < t by { if i >= c { assert(v[i] <= v[k - 1]); assert(v[k - 1] < t); } }
            assert forall|i: int| k <= i < v.len() implies #[trigger] v[i] >= t by { if i < e { assert(v[k] <= v[i]); assert(!(v[k] < t)); } }
        }
        assert forall|k: int| c <= k < e && #[trigger] self.low(v, k) <= ql && (self.low(v, k) == ql || k + 1 == e) implies is_pred(v, t, v[k]) by {
            assert(v.contains(v[k]));
            assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] <= t implies v[i] <= v[k] by { if i < k { assert(v[i] <= v[k]); } }
        }
        assert forall|k: int, j: int| c <= k && j == k + 1 && j < e && #[trigger] self.low(v, k) <= ql && #[trigger] self.low(v, j) > ql implies is_pred(v, t, v[k]) by {
            assert(v.contains(v[k]));
            assert(v[j] > t);
            assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] <= t implies v[i] <= v[k] by { if i >= j { assert(v[j] <= v[i]); } else { assert(v[i] <= v[k]); } }
        }
        if c == e || self.low(v, c) > ql {
            if c == 0 { assert(v[0] > t); }
            assert(v.contains(v[c - 1]));
            assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] <= t implies v[i] <= v[c - 1] by {
                if i >= c { assert(v[c] <= v[i]); assert(v[c] > t); } else { assert(v[i] <= v[c - 1]); }
            }
        }
        assert forall|k: int| c <= k < e && #[trigger] self.low(v, k) >= ql && (self.low(v, k) == ql || k == c) implies is_succ(v, t, v[k]) by {
            assert(v.contains(v[k]));
            assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] >= t implies v[i] >= v[k] by { if i > k { assert(v[k] <= v[i]); } }
        }
        assert forall|k: int, j: int| c <= k && j == k + 1 && j < e && #[trigger] self.low(v, k) < ql && #[trigger] self.low(v, j) >= ql implies is_succ(v, t, v[j]) by {
            assert(v.contains(v[j]));
            assert(v[k] < t);
            assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] >= t implies v[i] >= v[j] by { if i <= k { assert(v[i] <= v[k]); } else { assert(v[j] <= v[i]); } }
        }
        if c == e || self.low(v, e - 1) < ql {
            if e == v.len() { assert(v[e - 1] < t); assert(v[v.len() - 1] >= t); }
            assert(v.contains(v[e]));
            assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] >= t implies v[i] >= v[e] by {
                if i < e { assert(v[i] <= v[e - 1]); assert(v[e - 1] < t); } else { assert(v[e] <= v[i]); }
            }
        }
        assert forall|k: int| c <= k < e && #[trigger] self.low(v, k) > ql implies k > 0 by { assert(v[k] > t); }
    }
    pub proof fn lemma_search(&self, n: u64) -> (r: (int, int))
        requires self.wf(), self.in_range(self@, n),
        ensures ({
            let (c, e) = r;
            let v = self@;
            let lw = self.lw();
            let s = self.upper_vec@;
            let u = hi(n, lw) as int;
            let ql = lo(n, lw);
            let t = n + self.universe_zero;
            &&& self.repr(v) && self.upper_vec.wf() && self.lower_vec.wf() && self.upper_vec.len <= 0x20_0000_0000_0000 && lw < 64 && v.len() <= 0x4_0000_0000_0000 && self.len == v.len()
            &&& 0 <= c <= e <= v.len() && e > 0
            &&& u + e + 1 < s.len() && !s[u + c] && !s[u + e + 1]
            &&& forall|p: int| #[trigger] is_select0(s, u, p) ==> p == u + c
            &&& forall|p: int| #[trigger] is_select0(s, u + 1, p) ==> p == u + e + 1
            &&& u + 1 < rank0(s, s.len() as int)
            &&& forall|j: int| u + c < j <= u + e ==> #[trigger] s[j]
            &&& forall|i: int| c <= i < e ==> ((hi(n, lw) << (lw as u64)) | #[trigger] self.low(v, i)) + self.universe_zero == v[i]
            &&& forall|i: int| c <= i < e ==> ((((hi(n, lw) << (lw as u64)) | #[trigger] self.low(v, i)) < n) <==> self.low(v, i) < ql) && ((((hi(n, lw) << (lw as u64)) | self.low(v, i)) == n) <==> self.low(v, i) == ql)
            &&& forall|i: int, j: int| c <= i <= j < e ==> #[trigger] self.low(v, i) <= #[trigger] self.low(v, j)
            &&& forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] (i * lw) && i * lw + lw <= self.lower_vec.len
            &&& forall|i: int, w: u64| 0 <= i < v.len() && #[trigger] is_bits(w, self.lower_vec@, i * lw, lw) ==> w == self.low(v, i)
            &&& forall|k: int| c <= k <= e && (k > c ==> self.low(v, k - 1) < ql) && (k < e ==> self.low(v, k) >= ql) ==> #[trigger] is_count(v, t, k)
            &&& forall|k: int| c <= k < e && #[trigger] self.low(v, k) <= ql && (self.low(v, k) == ql || k + 1 == e) ==> is_pred(v, t, v[k])
            &&& forall|k: int, j: int| c <= k && j == k + 1 && j < e && #[trigger] self.low(v, k) <= ql && #[trigger] self.low(v, j) > ql ==> is_pred(v, t, v[k])
            &&& (c == e || self.low(v, c) > ql) ==> c > 0 && is_pred(v, t, v[c - 1])
            &&& forall|k: int| c <= k < e && #[trigger] self.low(v, k) >= ql && (self.low(v, k) == ql || k == c) ==> is_succ(v, t, v[k])
            &&& forall|k: int, j: int| c <= k && j == k + 1 && j < e && #[trigger] self.low(v, k) < ql && #[trigger] self.low(v, j) >= ql ==> is_succ(v, t, v[j])
            &&& (c == e || self.low(v, e - 1) < ql) ==> e < v.len() && is_succ(v, t, v[e])
            &&& forall|k: int| c <= k < e && #[trigger] self.low(v, k) > ql ==> k > 0
        }),
    {
        let v = self@;
        let s = self.upper_vec@;
        let lw = self.lw();
        let u = hi(n, lw) as int;
        self.lemma_query(v, n); self.lemma_lowers(v);
        let p = lemma_sel0_exists(s, u, s.len() as int);
        let q = lemma_sel0_exists(s, u + 1, s.len() as int);
        assert forall|x: int| #[trigger] is_select0(s, u, x) implies x == p by { lemma_select0_unique(s, x, p); }
        assert forall|x: int| #[trigger] is_select0(s, u + 1, x) implies x == q by { lemma_select0_unique(s, x, q); }
        let c = p - u;
        let e = q - u - 1;
        assert(self.block(v, n, c, e));
        self.lemma_answers(v, n, c, e);
        (c, e)
    }
//@@ fn src/elias_fano/mod.rs EliasFanoVec::search_element_in_block
//@ props C10
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(100)]
//@ start
    hide(EliasFanoVec::repr);
    hide(EliasFanoVec::low);
    hide(EliasFanoVec::block);
    hide(is_pred);
    hide(is_succ);
    hide(is_count);
    hide(is_select0);
    hide(is_bits);
    hide(hi);
    hide(lo);
    hide(rank0);
    hide(RsVec::wf);
    let ghost v = self@;
    let ghost u = query_upper as int;
    let ghost t = query + self.universe_zero;
    let ghost s = self.upper_vec@;
    let ghost (c, e) = self.lemma_search(query);
    proof { assert forall|x: usize| #[trigger] (x >> 1) == x / 2 by { assert(x >> 1 == x / 2) by (bit_vector); } }
//@ loop 0
    invariant_except_break
        UPWARD ==> 1 <= cursor < 4 && c + cursor <= e && lower_candidate == self.low(v, c + cursor - 1) && (if INDEX { lower_candidate < query_lower } else { lower_candidate <= query_lower }),
        !UPWARD ==> -4 < cursor <= -1 && e - 1 + cursor >= c - 1 && lower_candidate == self.low(v, e - 1 + cursor + 1) && lower_candidate >= query_lower,
    ensures
        INDEX ==> 0 <= start_index_lower + cursor <= v.len() && cursor >= 0 && is_count(v, t, start_index_lower + cursor),
        (query_masked_upper | lower_candidate) + self.universe_zero <= u64::MAX,
        !INDEX && UPWARD ==> is_pred(v, t, ((query_masked_upper | lower_candidate) + self.universe_zero) as u64),
        !INDEX && !UPWARD ==> is_succ(v, t, ((query_masked_upper | lower_candidate) + self.universe_zero) as u64),
    decreases (if UPWARD { 4 - cursor } else { 4 + cursor }),
//@ loop 1
    invariant
        c <= lower_bound <= upper_bound < e, upper_bound >= 1,
        UPWARD ==> block_end == e - 1 && lower_candidate == self.low(v, lower_bound as int) && (if INDEX { lower_candidate < query_lower } else { lower_candidate <= query_lower }) && (upper_bound == e - 1 || self.low(v, upper_bound as int) > query_lower),
        !UPWARD ==> block_end == c && lower_candidate == self.low(v, upper_bound as int) && lower_candidate > query_lower && (lower_bound == c || self.low(v, lower_bound as int) < query_lower),
    decreases upper_bound - lower_bound,
//@ loop 2
    invariant lower_bound < cursor <= middle, self.low(v, cursor as int) == query_lower,
    decreases cursor,
//@ spec
    requires self.wf(), self.in_range(self@, query), INDEX ==> UPWARD,
        query_upper == hi(query, self.lw()), query_lower == lo(query, self.lw()), query_masked_upper == query_upper << (self.lw() as u64),
        UPWARD ==> is_select0(self.upper_vec@, query_upper as int, start_index_upper as int) && start_index_lower == start_index_upper - query_upper,
        !UPWARD ==> is_select0(self.upper_vec@, query_upper + 1, start_index_upper as int) && start_index_lower == start_index_upper - query_upper - 2,
    ensures
        INDEX ==> is_count(self@, query + self.universe_zero, r as int),
        !INDEX && UPWARD ==> is_pred(self@, query + self.universe_zero, r),
        !INDEX && !UPWARD ==> is_succ(self@, query + self.universe_zero, r),
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::predecessor_unchecked
//@ props C10
//@ spec
    requires self.wf(), self@.len() > 0, n >= self.universe_zero,
    ensures is_pred(self@, n as int, r),
//@ start
    let ghost v = self@;
    proof {
        assert forall|i: int, j: int| 0 <= i <= j < v.len() implies #[trigger] v[i] <= #[trigger] v[j] by { }
        if n <= self.universe_max { self.lemma_query(v, (n - self.universe_zero) as u64); }
    }
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::successor_unchecked
//@ props C10
//@ spec
    requires self.wf(), self@.len() > 0, n <= self.universe_max,
    ensures is_succ(self@, n as int, r),
//@ start
    let ghost v = self@;
    proof {
        assert forall|i: int, j: int| 0 <= i <= j < v.len() implies #[trigger] v[i] <= #[trigger] v[j] by { }
        if n >= self.universe_zero { self.lemma_query(v, (n - self.universe_zero) as u64); }
    }
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::predecessor
//@ props C10
//@ spec
    requires self.wf(),
    ensures match r { None => forall|i: int| 0 <= i < self@.len() ==> self@[i] > n, Some(x) => is_pred(self@, n as int, x) },
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::successor
//@ props C10
//@ spec
    requires self.wf(),
    ensures match r { None => forall|i: int| 0 <= i < self@.len() ==> self@[i] < n, Some(x) => is_succ(self@, n as int, x) },
//@@ end
//@@ fn src/elias_fano/mod.rs EliasFanoVec::rank
//@ props C10
//@ spec
    requires self.wf(),
    ensures is_count(self@, value as int, r as int),
//@ start
    let ghost v = self@;
    proof {
        assert forall|i: int, j: int| 0 <= i <= j < v.len() implies #[trigger] v[i] <= #[trigger] v[j] by { }
        if v.len() > 0 && self.universe_zero <= value <= self.universe_max { self.lemma_query(v, (value - self.universe_zero) as u64); }
    }
//@@ end
}
} // verus!
