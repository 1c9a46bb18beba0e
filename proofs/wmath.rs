use vstd::prelude::*;
use crate::base::*;
use crate::pow2::*;
verus! {
// The levels `d` of a wavelet matrix, as plain bit sequences of equal length `n`, determine the stored sequence.
pub open spec fn bint(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn levels(d: Seq<Seq<bool>>, n: int) -> bool {
    n >= 0 && forall|l: int| 0 <= l < d.len() ==> (#[trigger] d[l]).len() == n
}
/// where position `p` of a level goes on the next level
pub open spec fn step(s: Seq<bool>, p: int) -> int { if s[p] { rank0(s, s.len() as int) + rank1(s, p) } else { rank0(s, p) } }
/// position of element `i` on level `l`
pub open spec fn pos(d: Seq<Seq<bool>>, l: int, i: int) -> int
    decreases l,
{
    if l <= 0 { i } else { step(d[l - 1], pos(d, l - 1, i)) }
}
/// value of the first `l` bits (most significant first) of element `i`
pub open spec fn pv(d: Seq<Seq<bool>>, l: int, i: int) -> int
    decreases l,
{
    if l <= 0 { 0 } else { 2 * pv(d, l - 1, i) + bint(d[l - 1][pos(d, l - 1, i)]) }
}
/// boundary `x` mapped into the node of the `l` bit prefix `q`
pub open spec fn down(d: Seq<Seq<bool>>, l: int, q: int, x: int) -> int
    decreases l,
{
    if l <= 0 { x } else {
        let y = down(d, l - 1, q / 2, x);
        let s = d[l - 1];
        if q % 2 == 0 { rank0(s, y) } else { rank0(s, s.len() as int) + rank1(s, y) }
    }
}
/// number of elements in [a, b) that are `t`
pub open spec fn occ(s: Seq<int>, t: int, a: int, b: int) -> int
    decreases b - a,
{
    if b <= a { 0 } else { occ(s, t, a, b - 1) + bint(s[b - 1] == t) }
}
/// number of elements in [a, b) that are below `t`
pub open spec fn below(s: Seq<int>, t: int, a: int, b: int) -> int
    decreases b - a,
{
    if b <= a { 0 } else { below(s, t, a, b - 1) + bint(s[b - 1] < t) }
}
/// the prefix values of all elements
pub open spec fn pvs(d: Seq<Seq<bool>>, n: int, l: int) -> Seq<int> { Seq::new(n as nat, |i: int| pv(d, l, i)) }
/// the stored sequence
pub open spec fn vals(d: Seq<Seq<bool>>, n: int) -> Seq<int> { pvs(d, n, d.len() as int) }
/// `v` is the index of the occurrence number `k` of `t` at or after `a`
pub open spec fn is_wsel(s: Seq<int>, t: int, a: int, k: int, v: int) -> bool {
    a <= v < s.len() && s[v] == t && occ(s, t, a, v) == k
}
/// `v` is the element number `k` of the sorted elements in [a, b)
pub open spec fn is_kth(s: Seq<int>, a: int, b: int, k: int, v: int) -> bool {
    below(s, v, a, b) <= k < below(s, v + 1, a, b)
}
pub open spec fn is_wmin(s: Seq<int>, a: int, b: int, v: int) -> bool {
    (exists|i: int| a <= i < b && #[trigger] s[i] == v) && forall|i: int| a <= i < b ==> v <= #[trigger] s[i]
}
pub open spec fn is_wmax(s: Seq<int>, a: int, b: int, v: int) -> bool {
    (exists|i: int| a <= i < b && #[trigger] s[i] == v) && forall|i: int| a <= i < b ==> #[trigger] s[i] <= v
}
/// the largest element in [a, b) that is at most `t`
pub open spec fn is_wpred(s: Seq<int>, a: int, b: int, t: int, v: int) -> bool {
    &&& v <= t
    &&& exists|i: int| a <= i < b && #[trigger] s[i] == v
    &&& forall|i: int| a <= i < b && #[trigger] s[i] <= t ==> s[i] <= v
}
/// the smallest element in [a, b) that is at least `t`
pub open spec fn is_wsucc(s: Seq<int>, a: int, b: int, t: int, v: int) -> bool {
    &&& v >= t
    &&& exists|i: int| a <= i < b && #[trigger] s[i] == v
    &&& forall|i: int| a <= i < b && #[trigger] s[i] >= t ==> s[i] >= v
}
/// the value of the first `l` bits, most significant first, of a bit sequence
pub open spec fn spref(s: Seq<bool>, l: int) -> int
    decreases l,
{
    if l <= 0 { 0 } else { 2 * spref(s, l - 1) + bint(s[s.len() - l]) }
}
pub open spec fn bval(s: Seq<bool>) -> int { spref(s, s.len() as int) }
/// the low `k` bits of a word
pub open spec fn ubits(w: u64, k: int) -> Seq<bool> { Seq::new(k as nat, |j: int| wbit(w, j)) }
pub open spec fn uval(w: u64, k: int) -> int { bval(ubits(w, k)) }

pub proof fn lemma_step(s: Seq<bool>, p: int)
    requires 0 <= p < s.len(),
    ensures 0 <= step(s, p) < s.len(), 0 <= rank0(s, p) <= s.len(), s[p] ==> rank0(s, s.len() as int) <= step(s, p),
        !s[p] ==> step(s, p) < rank0(s, s.len() as int),
{
    let n = s.len() as int;
    lemma_rank_bounds(s, p);
    lemma_rank_bounds(s, n);
    lemma_rank_mono(s, p + 1, n);
}
pub proof fn lemma_pos(d: Seq<Seq<bool>>, n: int, l: int, i: int)
    requires levels(d, n), 0 <= i < n, 0 <= l <= d.len(),
    ensures 0 <= pos(d, l, i) < n, 0 <= pv(d, l, i) < p2(l),
    decreases l,
{
    if l > 0 {
        lemma_pos(d, n, l - 1, i);
        lemma_step(d[l - 1], pos(d, l - 1, i));
    }
}
pub proof fn lemma_down(d: Seq<Seq<bool>>, n: int, l: int, q: int, x: int, y: int)
    requires levels(d, n), 0 <= x <= y <= n, 0 <= l <= d.len(),
    ensures 0 <= down(d, l, q, x) <= down(d, l, q, y) <= n,
    decreases l,
{
    if l > 0 {
        lemma_down(d, n, l - 1, q / 2, x, y);
        let s = d[l - 1];
        let (a, b) = (down(d, l - 1, q / 2, x), down(d, l - 1, q / 2, y));
        lemma_rank_bounds(s, a);
        lemma_rank_mono(s, a, b);
        lemma_rank_mono(s, b, n);
    }
}
/// crossing element `x` moves the boundary iff `x` is in the node
pub proof fn lemma_cross(d: Seq<Seq<bool>>, n: int, l: int, q: int, x: int)
    requires levels(d, n), 0 <= x < n, 0 <= l <= d.len(), 0 <= q < p2(l),
    ensures
        pv(d, l, x) == q ==> down(d, l, q, x + 1) == down(d, l, q, x) + 1 && pos(d, l, x) == down(d, l, q, x),
        pv(d, l, x) != q ==> down(d, l, q, x + 1) == down(d, l, q, x),
    decreases l,
{
    if l > 0 {
        lemma_cross(d, n, l - 1, q / 2, x);
        lemma_down(d, n, l - 1, q / 2, x, x + 1);
        lemma_pos(d, n, l - 1, x);
    }
}
pub proof fn lemma_down_occ(d: Seq<Seq<bool>>, n: int, l: int, q: int, a: int, b: int)
    requires levels(d, n), 0 <= a <= b <= n, 0 <= l <= d.len(), 0 <= q < p2(l),
    ensures down(d, l, q, b) - down(d, l, q, a) == occ(pvs(d, n, l), q, a, b), 0 <= down(d, l, q, a) <= down(d, l, q, b) <= n,
    decreases b - a,
{
    lemma_down(d, n, l, q, a, b);
    if a < b {
        lemma_down_occ(d, n, l, q, a, b - 1);
        lemma_cross(d, n, l, q, b - 1);
    }
}
pub proof fn lemma_occ(s: Seq<int>, t: int, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures below(s, t + 1, a, b) == below(s, t, a, b) + occ(s, t, a, b), 0 <= occ(s, t, a, b) <= b - a, 0 <= below(s, t, a, b) <= b - a,
    decreases b - a,
{
    if a < b { lemma_occ(s, t, a, b - 1); }
}
pub proof fn lemma_below_mono(s: Seq<int>, t: int, u: int, a: int, b: int)
    requires 0 <= a <= b <= s.len(), t <= u,
    ensures below(s, t, a, b) <= below(s, u, a, b),
    decreases b - a,
{
    if a < b { lemma_below_mono(s, t, u, a, b - 1); }
}
pub proof fn lemma_occ_pos(s: Seq<int>, t: int, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures occ(s, t, a, b) > 0 <==> exists|i: int| a <= i < b && #[trigger] s[i] == t,
    decreases b - a,
{
    if a < b {
        lemma_occ_pos(s, t, a, b - 1);
        lemma_occ(s, t, a, b - 1);
        if s[b - 1] == t { assert(a <= b - 1 < b); }
    }
}
pub proof fn lemma_below_pos(s: Seq<int>, t: int, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures below(s, t, a, b) > 0 <==> exists|i: int| a <= i < b && #[trigger] s[i] < t,
        below(s, t, a, b) < b - a <==> exists|i: int| a <= i < b && #[trigger] s[i] >= t,
    decreases b - a,
{
    if a < b {
        lemma_below_pos(s, t, a, b - 1);
        lemma_occ(s, t, a, b - 1);
        if s[b - 1] < t { assert(a <= b - 1 < b); }
        if s[b - 1] >= t { assert(a <= b - 1 < b); }
    }
}
pub proof fn lemma_occ_split(s: Seq<int>, t: int, a: int, m: int, b: int)
    requires 0 <= a <= m <= b <= s.len(),
    ensures occ(s, t, a, b) == occ(s, t, a, m) + occ(s, t, m, b),
    decreases b - m,
{
    if m < b { lemma_occ_split(s, t, a, m, b - 1); }
}
/// one more bit of prefix
pub proof fn lemma_half(d: Seq<Seq<bool>>, n: int, l: int, t: int, a: int, b: int)
    requires levels(d, n), 0 <= a <= b <= n, 0 <= l < d.len(),
    ensures
        below(pvs(d, n, l + 1), 2 * t, a, b) == below(pvs(d, n, l), t, a, b),
        occ(pvs(d, n, l + 1), 2 * t, a, b) + occ(pvs(d, n, l + 1), 2 * t + 1, a, b) == occ(pvs(d, n, l), t, a, b),
        below(pvs(d, n, l + 1), 2 * t + 1, a, b) == below(pvs(d, n, l), t, a, b) + occ(pvs(d, n, l + 1), 2 * t, a, b),
    decreases b - a,
{
    if a < b { lemma_half(d, n, l, t, a, b - 1); }
}
pub proof fn lemma_spref(y: Seq<bool>, l: int)
    requires 0 <= l <= y.len(),
    ensures 0 <= spref(y, l) < p2(l),
    decreases l,
{
    if l > 0 { lemma_spref(y, l - 1); }
}
/// the first `l` levels of a node below the prefix
pub proof fn lemma_spref_cong(y: Seq<bool>, z: Seq<bool>, l: int)
    requires 0 <= l <= y.len(), y.len() == z.len(), forall|j: int| y.len() - l <= j < y.len() ==> y[j] == z[j],
    ensures spref(y, l) == spref(z, l),
    decreases l,
{
    if l > 0 { lemma_spref_cong(y, z, l - 1); }
}
/// two bit sequences of one length and one value are the same
pub proof fn lemma_spref_inj(y: Seq<bool>, z: Seq<bool>, l: int)
    requires 0 <= l <= y.len(), y.len() == z.len(), spref(y, l) == spref(z, l),
    ensures forall|j: int| y.len() - l <= j < y.len() ==> y[j] == z[j],
    decreases l,
{
    if l > 0 { lemma_spref_inj(y, z, l - 1); }
}
/// no element of the range has the prefix: nothing below changes from there on
pub proof fn lemma_none(d: Seq<Seq<bool>>, n: int, y: Seq<bool>, l: int, m: int, a: int, b: int)
    requires levels(d, n), 0 <= a <= b <= n, 0 <= l <= m <= d.len(), y.len() == d.len(), occ(pvs(d, n, l), spref(y, l), a, b) == 0,
    ensures
        occ(pvs(d, n, m), spref(y, m), a, b) == 0,
        below(pvs(d, n, m), spref(y, m), a, b) == below(pvs(d, n, l), spref(y, l), a, b),
        below(pvs(d, n, m), spref(y, m) + 1, a, b) == below(pvs(d, n, l), spref(y, l), a, b),
    decreases m - l,
{
    if l < m {
        lemma_none(d, n, y, l, m - 1, a, b);
        lemma_half(d, n, m - 1, spref(y, m - 1), a, b);
        lemma_occ(pvs(d, n, m), 2 * spref(y, m - 1), a, b);
        lemma_occ(pvs(d, n, m), 2 * spref(y, m - 1) + 1, a, b);
    }
    lemma_occ(pvs(d, n, m), spref(y, m), a, b);
}
pub proof fn lemma_kth_unique(s: Seq<int>, a: int, b: int, k: int, v: int, w: int)
    requires 0 <= a <= b <= s.len(), is_kth(s, a, b, k, v), is_kth(s, a, b, k, w),
    ensures v == w,
{
    if v < w { lemma_below_mono(s, v + 1, w, a, b); }
    if w < v { lemma_below_mono(s, w + 1, v, a, b); }
}
pub proof fn lemma_kth_min(s: Seq<int>, a: int, b: int, v: int)
    requires 0 <= a <= b <= s.len(), is_kth(s, a, b, 0, v),
    ensures is_wmin(s, a, b, v),
{
    lemma_occ(s, v, a, b);
    lemma_occ_pos(s, v, a, b);
    lemma_below_pos(s, v, a, b);
}
pub proof fn lemma_kth_max(s: Seq<int>, a: int, b: int, v: int)
    requires 0 <= a <= b <= s.len(), is_kth(s, a, b, b - a - 1, v),
    ensures is_wmax(s, a, b, v),
{
    lemma_occ(s, v, a, b);
    lemma_occ_pos(s, v, a, b);
    lemma_occ(s, v + 1, a, b);
    lemma_below_pos(s, v + 1, a, b);
}
pub proof fn lemma_kth_pred(s: Seq<int>, a: int, b: int, t: int, v: int)
    requires 0 <= a <= b <= s.len(), is_kth(s, a, b, below(s, t + 1, a, b) - 1, v),
    ensures is_wpred(s, a, b, t, v),
{
    lemma_occ(s, v, a, b);
    lemma_occ_pos(s, v, a, b);
    if v > t { lemma_below_mono(s, t + 1, v, a, b); }
    assert forall|i: int| a <= i < b && #[trigger] s[i] <= t implies s[i] <= v by {
        if s[i] > v {
            lemma_occ_pos(s, s[i], a, b);
            lemma_occ(s, s[i], a, b);
            lemma_below_mono(s, v + 1, s[i], a, b);
            lemma_below_mono(s, s[i] + 1, t + 1, a, b);
        }
    }
}
pub proof fn lemma_kth_succ(s: Seq<int>, a: int, b: int, t: int, v: int)
    requires 0 <= a <= b <= s.len(), is_kth(s, a, b, below(s, t, a, b), v),
    ensures is_wsucc(s, a, b, t, v),
{
    lemma_occ(s, v, a, b);
    lemma_occ_pos(s, v, a, b);
    if v < t { lemma_below_mono(s, v + 1, t, a, b); }
    assert forall|i: int| a <= i < b && #[trigger] s[i] >= t implies s[i] >= v by {
        if s[i] < v {
            lemma_occ_pos(s, s[i], a, b);
            lemma_occ(s, s[i], a, b);
            lemma_below_mono(s, s[i] + 1, v, a, b);
            lemma_below_mono(s, t, s[i], a, b);
        }
    }
}
pub proof fn lemma_no_pred(s: Seq<int>, a: int, b: int, t: int)
    requires 0 <= a <= b <= s.len(), below(s, t + 1, a, b) == 0,
    ensures forall|i: int| a <= i < b ==> #[trigger] s[i] > t,
{
    lemma_below_pos(s, t + 1, a, b);
}
pub proof fn lemma_no_succ(s: Seq<int>, a: int, b: int, t: int)
    requires 0 <= a <= b <= s.len(), below(s, t, a, b) == b - a,
    ensures forall|i: int| a <= i < b ==> #[trigger] s[i] < t,
{
    lemma_below_pos(s, t, a, b);
}
/// descending by one bit, as the code does
pub proof fn lemma_descend(d: Seq<Seq<bool>>, n: int, y: Seq<bool>, l: int, x: int)
    requires levels(d, n), 0 <= x <= n, 0 <= l < d.len(), y.len() == d.len(),
    ensures
        0 <= down(d, l, spref(y, l), x) <= n,
        0 <= down(d, l + 1, spref(y, l + 1), x) <= n,
        down(d, l + 1, spref(y, l + 1), x) == if y[y.len() - 1 - l] { rank0(d[l], n) + rank1(d[l], down(d, l, spref(y, l), x)) }
            else { rank0(d[l], down(d, l, spref(y, l), x)) },
{
    lemma_down(d, n, l, spref(y, l), x, x);
    lemma_down(d, n, l + 1, spref(y, l + 1), x, x);
    lemma_spref(y, l);
    assert(spref(y, l + 1) / 2 == spref(y, l));
}
/// the same along an arbitrary prefix
pub proof fn lemma_down2(d: Seq<Seq<bool>>, n: int, l: int, q: int, x: int)
    requires levels(d, n), 0 <= x <= n, 0 <= l < d.len(), 0 <= q < p2(l),
    ensures
        0 <= down(d, l, q, x) <= n,
        down(d, l + 1, 2 * q, x) == rank0(d[l], down(d, l, q, x)),
        down(d, l + 1, 2 * q + 1, x) == rank0(d[l], n) + rank1(d[l], down(d, l, q, x)),
        rank1(d[l], down(d, l, q, x)) == down(d, l, q, x) - rank0(d[l], down(d, l, q, x)),
{
    lemma_down(d, n, l, q, x, x);
    lemma_rank_bounds(d[l], down(d, l, q, x));
    assert((2 * q) / 2 == q && (2 * q + 1) / 2 == q);
}
/// the element with occurrence number `k`, if there are that many
pub proof fn lemma_sel_exists(s: Seq<int>, t: int, a: int, b: int, k: int) -> (i: int)
    requires 0 <= a <= b <= s.len(), 0 <= k < occ(s, t, a, b),
    ensures is_wsel(s, t, a, k, i),
    decreases b - a,
{
    if occ(s, t, a, b - 1) > k { lemma_sel_exists(s, t, a, b - 1, k) } else { b - 1 }
}
pub proof fn lemma_sel_unique(s: Seq<int>, t: int, a: int, k: int, i: int, j: int)
    requires 0 <= a, is_wsel(s, t, a, k, i), is_wsel(s, t, a, k, j),
    ensures i == j,
{
    if i < j { lemma_occ_split(s, t, a, i + 1, j); lemma_occ(s, t, i + 1, j); }
    if j < i { lemma_occ_split(s, t, a, j + 1, i); lemma_occ(s, t, j + 1, i); }
}
pub proof fn lemma_sel_none(s: Seq<int>, t: int, a: int, k: int, i: int)
    requires 0 <= a <= s.len(), k >= occ(s, t, a, s.len() as int), is_wsel(s, t, a, k, i),
    ensures false,
{
    lemma_occ_split(s, t, a, i + 1, s.len() as int);
    lemma_occ(s, t, i + 1, s.len() as int);
}
/// the prefix of a stored value
pub proof fn lemma_prefix(d: Seq<Seq<bool>>, n: int, y: Seq<bool>, i: int, l: int, m: int)
    requires levels(d, n), 0 <= i < n, y.len() == d.len(), 0 <= l <= m <= d.len(), pv(d, m, i) == spref(y, m),
    ensures pv(d, l, i) == spref(y, l), l < m ==> d[l][pos(d, l, i)] == y[y.len() - 1 - l],
    decreases m - l,
{
    if l < m {
        lemma_prefix(d, n, y, i, l + 1, m);
    }
}
/// appending a bit to a number of `l` bits
pub proof fn lemma_push_bit(v: u64, l: int, b: bool)
    requires 0 <= l < 64, 0 <= v < p2(l),
    ensures (v << 1u64) | b2u(b) == 2 * v + bint(b), (v << 1u64) == 2 * v, (v << 1usize) == 2 * v, (v << 1i32) == 2 * v, 2 * v + 1 < p2(l + 1),
{
    lemma_p2_shl(63);
    lemma_p2_mono(l, 63);
    let c = b2u(b);
    assert((v << 1u64) | c == 2 * v + c && (v << 1u64) == 2 * v) by (bit_vector) requires v < 0x8000_0000_0000_0000u64, c <= 1;
    assert((v << 1usize) == 2 * v && (v << 1i32) == 2 * v) by (bit_vector) requires v < 0x8000_0000_0000_0000u64;
}
pub proof fn lemma_ubits(w: u64, k: int)
    requires 0 <= k,
    ensures ubits(w, k).len() == k,
{
}
/// reading a bit of a word, as the code does
pub proof fn lemma_ubit(w: u64, k: int, j: int)
    requires 0 <= j < k <= 64,
    ensures (w >> (j as usize)) & 1 == b2u(ubits(w, k)[j]), (w >> (j as u64)) & 1 == b2u(ubits(w, k)[j]),
{
    lemma_bit_read(w, j as u64);
    let (a, b) = (j as u64, j as usize);
    assert(w >> a == w >> b) by (bit_vector) requires a as usize == b, b < 64;
}
/// element `i` of a packed bit sequence
pub open spec fn elem(s: Seq<bool>, k: int, i: int) -> Seq<bool> { Seq::new(k as nat, |j: int| s[i * k + j]) }
/// the levels up to `m` store the elements `src` (bits least significant first)
#[verifier::opaque]
pub open spec fn built(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, m: int) -> bool {
    forall|l: int, i: int| #![trigger pos(d, l, i)] 0 <= l < m && 0 <= i < src.len() ==> d[l][pos(d, l, i)] == src[i][d.len() - 1 - l]
}
/// `perm` lists the elements in the order of level `l`
#[verifier::opaque]
pub open spec fn perm_ok(d: Seq<Seq<bool>>, n: int, l: int, perm: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < n ==> perm[#[trigger] pos(d, l, i)] == i
}
/// `next` is `perm`, stably sorted by the bits `t`
#[verifier::opaque]
pub open spec fn sorted_by(t: Seq<bool>, perm: Seq<usize>, next: Seq<usize>, m: int) -> bool {
    forall|p: int| 0 <= p < m ==> next[step(t, p)] == #[trigger] perm[p]
}
pub proof fn lemma_init(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, n: int, perm: Seq<usize>)
    requires perm.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] perm[i] == i,
    ensures built(d, src, 0), perm_ok(d, n, 0, perm),
{
    reveal(built);
    reveal(perm_ok);
}
pub proof fn lemma_sorted_by(t: Seq<bool>, n: int, perm: Seq<usize>, next: Seq<usize>, m: int)
    requires t.len() == n, next.len() == n, perm.len() == n, 0 <= m < n, sorted_by(t, perm, next, m),
    ensures 0 <= step(t, m) < n, sorted_by(t, perm, next.update(step(t, m), perm[m]), m + 1),
        step(t, m) == if t[m] { rank0(t, n) + rank1(t, m) } else { rank0(t, m) },
{
    reveal(sorted_by);
    lemma_step(t, m);
    let x = next.update(step(t, m), perm[m]);
    assert forall|p: int| 0 <= p < m + 1 implies x[step(t, p)] == #[trigger] perm[p] by {
        lemma_step(t, p);
        if p < m { lemma_step_inj(t, p, m); }
    }
}
pub open spec fn src_ok(src: Seq<Seq<bool>>, n: int, k: int) -> bool {
    src.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] src[i]).len() == k
}
pub open spec fn srcvals(src: Seq<Seq<bool>>) -> Seq<int> { Seq::new(src.len(), |i: int| bval(src[i])) }
pub proof fn lemma_pos_cong(d: Seq<Seq<bool>>, e: Seq<Seq<bool>>, l: int, i: int)
    requires 0 <= l <= d.len(), l <= e.len(), forall|j: int| 0 <= j < l ==> d[j] == e[j],
    ensures pos(d, l, i) == pos(e, l, i), pv(d, l, i) == pv(e, l, i),
    decreases l,
{
    if l > 0 { lemma_pos_cong(d, e, l - 1, i); }
}
pub proof fn lemma_built(d: Seq<Seq<bool>>, n: int, src: Seq<Seq<bool>>, l: int, i: int)
    requires levels(d, n), src_ok(src, n, d.len() as int), built(d, src, l), 0 <= i < n, 0 <= l <= d.len(),
    ensures pv(d, l, i) == spref(src[i], l),
    decreases l,
{
    reveal(built);
    if l > 0 {
        lemma_built(d, n, src, l - 1, i);
        assert(d[l - 1][pos(d, l - 1, i)] == src[i][d.len() - 1 - (l - 1)]);
    }
}
pub proof fn lemma_built_all(d: Seq<Seq<bool>>, n: int, src: Seq<Seq<bool>>)
    requires levels(d, n), src_ok(src, n, d.len() as int), built(d, src, d.len() as int),
    ensures vals(d, n) == srcvals(src),
{
    assert forall|i: int| 0 <= i < n implies vals(d, n)[i] == srcvals(src)[i] by { lemma_built(d, n, src, d.len() as int, i); }
    assert(vals(d, n) =~= srcvals(src));
}
pub proof fn lemma_step_inj(s: Seq<bool>, p: int, q: int)
    requires 0 <= p < q < s.len(),
    ensures step(s, p) != step(s, q),
{
    lemma_step(s, p);
    lemma_step(s, q);
    lemma_rank_mono(s, p + 1, q);
}
/// the next level is finished
pub proof fn lemma_level(d: Seq<Seq<bool>>, e: Seq<Seq<bool>>, n: int, src: Seq<Seq<bool>>, l: int, perm: Seq<usize>)
    requires levels(d, n), levels(e, n), d.len() == e.len(), src_ok(src, n, d.len() as int), 0 <= l < d.len(), built(d, src, l),
        forall|j: int| 0 <= j < l ==> d[j] == e[j], perm.len() == n,
        perm_ok(d, n, l, perm),
        forall|p: int| 0 <= p < n ==> #[trigger] e[l][p] == src[perm[p] as int][d.len() - 1 - l],
    ensures built(e, src, l + 1),
        forall|next: Seq<usize>| #[trigger] sorted_by(e[l], perm, next, n) ==> perm_ok(e, n, l + 1, next),
{
    reveal(built);
    reveal(perm_ok);
    assert forall|j: int, i: int| #![trigger pos(e, j, i)] 0 <= j < l + 1 && 0 <= i < src.len() implies e[j][pos(e, j, i)] == src[i][e.len() - 1 - j] by {
        lemma_pos_cong(d, e, j, i);
        lemma_pos(d, n, j, i);
        if j < l { assert(d[j][pos(d, j, i)] == src[i][d.len() - 1 - j]); }
        else { assert(e[l][pos(d, l, i)] == src[perm[pos(d, l, i)] as int][d.len() - 1 - l]); }
    }
    assert forall|next: Seq<usize>| #[trigger] sorted_by(e[l], perm, next, n) implies perm_ok(e, n, l + 1, next) by {
        reveal(sorted_by);
        assert forall|i: int| 0 <= i < n implies next[#[trigger] pos(e, l + 1, i)] == i by {
            lemma_pos_cong(d, e, l, i);
            lemma_pos(d, n, l, i);
            let p = pos(d, l, i);
            assert(next[step(e[l], p)] == perm[p]);
        }
    }
}
/// where bit `j` of element `e` lies in a packed sequence
pub proof fn lemma_packed(len: int, k: int, n: int, e: int, j: int)
    requires k > 0, len >= 0, len % k == 0, n == len / k, 0 <= e < n, 0 <= j < k,
    ensures 0 <= e * k <= e * k + j < len, e * k + k <= len,
{
    assert(len == n * k) by (nonlinear_arith) requires len % k == 0, n == len / k, k > 0;
    assert(e * k + k <= n * k && e * k >= 0) by (nonlinear_arith) requires 0 <= e < n, k > 0;
}
pub proof fn lemma_or_zero(v: u64)
    ensures v | 0 == v,
{
    assert(v | 0 == v) by (bit_vector);
}
} // verus!
