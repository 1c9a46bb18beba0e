use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::pow2::*;
use crate::wmath::*;
verus! {
// lemmas for the construction by prefix counting

/// one level of the target: the bits of the first `m` elements, where their prefixes put them
pub open spec fn part(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, k: int, l: int, m: int) -> Seq<bool> {
    Seq::new(src.len(), |p: int| exists|j: int| 0 <= j < m && #[trigger] pos(d, l, j) == p && src[j][k - 1 - l])
}
/// the first `m` levels
pub open spec fn tgt(src: Seq<Seq<bool>>, k: int, m: int) -> Seq<Seq<bool>>
    decreases m,
{
    if m <= 0 { Seq::empty() } else { tgt(src, k, m - 1).push(part(tgt(src, k, m - 1), src, k, m - 1, src.len() as int)) }
}
pub proof fn lemma_tgt(src: Seq<Seq<bool>>, k: int, m: int, l: int)
    requires 0 <= l <= m,
    ensures tgt(src, k, m).len() == m, levels(tgt(src, k, m), src.len() as int), forall|j: int| 0 <= j < l ==> tgt(src, k, m)[j] == tgt(src, k, l)[j],
        l < m ==> tgt(src, k, m)[l] == part(tgt(src, k, l), src, k, l, src.len() as int),
    decreases m,
{
    if m > 0 {
        lemma_tgt(src, k, m - 1, if l < m { l } else { m - 1 });
        if l == m - 1 { } else if l < m { }
    }
}
pub proof fn lemma_pos_inj(d: Seq<Seq<bool>>, n: int, l: int, i: int, j: int)
    requires levels(d, n), 0 <= l <= d.len(), 0 <= i < n, 0 <= j < n, i != j,
    ensures pos(d, l, i) != pos(d, l, j),
    decreases l,
{
    if l > 0 {
        lemma_pos_inj(d, n, l - 1, i, j);
        lemma_pos(d, n, l - 1, i);
        lemma_pos(d, n, l - 1, j);
        let (p, q) = (pos(d, l - 1, i), pos(d, l - 1, j));
        if p < q { lemma_step_inj(d[l - 1], p, q); } else { lemma_step_inj(d[l - 1], q, p); }
    }
}
/// the levels that the construction is to produce
pub proof fn lemma_target(src: Seq<Seq<bool>>, k: int)
    requires 0 <= k, src_ok(src, src.len() as int, k),
    ensures ({
        let d = tgt(src, k, k);
        let n = src.len() as int;
        &&& levels(d, n)
        &&& d.len() == k
        &&& built(d, src, k)
        &&& forall|l: int| 0 <= l < k ==> #[trigger] d[l] == part(d, src, k, l, n)
    }),
{
    let d = tgt(src, k, k);
    let n = src.len() as int;
    lemma_tgt(src, k, k, 0);
    assert forall|l: int| 0 <= l < k implies #[trigger] d[l] == part(d, src, k, l, n) by {
        let e = tgt(src, k, l);
        lemma_tgt(src, k, k, l);
        lemma_tgt(src, k, l, l);
        assert forall|j: int| pos(d, l, j) == #[trigger] pos(e, l, j) by { lemma_pos_cong(d, e, l, j); }
        assert(part(d, src, k, l, n) =~= part(e, src, k, l, n)) by {
            assert forall|p: int| 0 <= p < n implies part(d, src, k, l, n)[p] == part(e, src, k, l, n)[p] by {
                if part(d, src, k, l, n)[p] {
                    let j = choose|j: int| 0 <= j < n && #[trigger] pos(d, l, j) == p && src[j][k - 1 - l];
                    assert(pos(e, l, j) == p);
                }
                if part(e, src, k, l, n)[p] {
                    let j = choose|j: int| 0 <= j < n && #[trigger] pos(e, l, j) == p && src[j][k - 1 - l];
                    assert(pos(d, l, j) == p);
                }
            }
        }
    }
    reveal(built);
    assert forall|l: int, i: int| #![trigger pos(d, l, i)] 0 <= l < k && 0 <= i < src.len() implies d[l][pos(d, l, i)] == src[i][d.len() - 1 - l] by {
        lemma_pos(d, n, l, i);
        let p = pos(d, l, i);
        assert(d[l] == part(d, src, k, l, n));
        if d[l][p] {
            let j = choose|j: int| 0 <= j < n && #[trigger] pos(d, l, j) == p && src[j][k - 1 - l];
            if i != j { lemma_pos_inj(d, n, l, i, j); }
        }
    }
}
pub proof fn lemma_part_step(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, k: int, l: int, m: int)
    requires levels(d, src.len() as int), d.len() == k, 0 <= l < k, 0 <= m < src.len(),
    ensures part(d, src, k, l, m + 1) == part(d, src, k, l, m).update(pos(d, l, m), src[m][k - 1 - l]), 0 <= pos(d, l, m) < src.len(),
{
    let n = src.len() as int;
    lemma_pos(d, n, l, m);
    let (a, b) = (part(d, src, k, l, m + 1), part(d, src, k, l, m).update(pos(d, l, m), src[m][k - 1 - l]));
    assert forall|p: int| 0 <= p < n implies a[p] == b[p] by {
        if a[p] {
            let j = choose|j: int| 0 <= j < m + 1 && #[trigger] pos(d, l, j) == p && src[j][k - 1 - l];
            if j < m { lemma_pos_inj(d, n, l, j, m); }
        }
        if b[p] {
            if p == pos(d, l, m) { assert(pos(d, l, m) == p); }
            else {
                let j = choose|j: int| 0 <= j < m && #[trigger] pos(d, l, j) == p && src[j][k - 1 - l];
                assert(pos(d, l, j) == p);
            }
        }
    }
    assert(a =~= b);
}
pub proof fn lemma_part_zero(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, k: int, l: int)
    ensures part(d, src, k, l, 0) == Seq::new(src.len(), |p: int| false),
{
    assert(part(d, src, k, l, 0) =~= Seq::new(src.len(), |p: int| false));
}
/// the prefixes of a word of `k` bits
pub proof fn lemma_uprefix(w: u64, k: int, l: int)
    requires 0 <= l <= k < 64, w < p2(k),
    ensures (w >> ((k - l) as u64)) == spref(ubits(w, k), l), ((w as usize) >> ((k - l) as usize)) == spref(ubits(w, k), l),
    decreases l,
{
    let s = (k - l) as u64;
    let z = (k - l) as usize;
    let wu = w as usize;
    assert(w >> s == (wu >> z) as u64) by (bit_vector) requires s < 64, z as u64 == s, wu == w as usize;
    if l == 0 {
        lemma_shr(w, k);
        let q = w >> s;
        assert(q * p2(k) <= w);
        if q > 0 { assert(q * p2(k) >= p2(k)) by (nonlinear_arith) requires q >= 1, p2(k) >= 1, q as int == q; }
        assert(q == 0) by { lemma_p2_mono(0, k); }
    } else {
        lemma_uprefix(w, k, l - 1);
        let s1 = (k - l + 1) as u64;
        lemma_bit_read(w, s);
        assert(w >> s == add(mul(2, w >> s1), (w >> s) & 1) && (w >> s1) < 0x8000_0000_0000_0000u64) by (bit_vector) requires s < 63, s1 == add(s, 1);
        assert(ubits(w, k)[k - l] == wbit(w, k - l));
    }
}
/// a word read as `k` bits
pub proof fn lemma_word_of(w: u64, k: int, y: Seq<bool>)
    requires 0 <= k < 64, y.len() == k, forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(w, j) == (j < k && y[j]),
    ensures w < p2(k), ubits(w, k) == y, w == bval(y),
{
    assert(ubits(w, k) =~= y);
    let s = k as u64;
    let q = w >> s;
    broadcast use group_wbit;
    assert forall|j: int| 0 <= j < 64 implies wbit(q, j) == wbit(0u64, j) by { }
    wbit_ext(q, 0);
    lemma_shr(w, k);
    assert((q + 1) * p2(k) == p2(k)) by (nonlinear_arith) requires q == 0;
    lemma_uprefix(w, k, k);
    assert(w >> 0u64 == w) by (bit_vector);
}
pub uninterp spec fn rb(w: u64) -> u64;
pub assume_specification [usize::reverse_bits] (x: usize) -> (r: usize)
    ensures r == rb(x as u64) as usize;
/// assumed: `reverse_bits` reverses the bits
#[verifier::external_body]
pub proof fn axiom_rb(w: u64)
    ensures forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(rb(w), j) == wbit(w, 63 - j),
{}
/// the low `l` bits of a word, reversed
pub open spec fn rv(l: int, h: u64) -> u64 { if l <= 0 { 0 } else { rb(h) >> ((64 - l) as u64) } }
pub proof fn lemma_rv(l: int, h: u64)
    requires 1 <= l < 64,
    ensures rv(l, h) < p2(l), rv(l, h) / 2 == rv(l - 1, h), rv(l, h) % 2 == b2u(wbit(h, l - 1)),
        forall|j: int| 0 <= j < 64 ==> #[trigger] wbit(rv(l, h), j) == (j < l && wbit(h, l - 1 - j)),
        (rb(h) as usize) >> ((64 - l) as usize) == rv(l, h),
{
    axiom_rb(h);
    broadcast use group_wbit;
    let x = rb(h);
    let s = (64 - l) as u64;
    let z = (64 - l) as usize;
    let xu = x as usize;
    assert(x >> s == (xu >> z) as u64) by (bit_vector) requires s < 64, z as u64 == s, xu == x as usize;
    let r = rv(l, h);
    assert forall|j: int| 0 <= j < 64 implies #[trigger] wbit(r, j) == (j < l && wbit(h, l - 1 - j)) by {
        if j < l { assert(wbit(r, j) == wbit(x, j + 64 - l)); }
    }
    lemma_word_of(r, l, Seq::new(l as nat, |j: int| wbit(h, l - 1 - j)));
    if l > 1 {
        let s1 = (64 - l + 1) as u64;
        assert(x >> s1 == (x >> s) / 2) by (bit_vector) requires s < 63, s1 == add(s, 1);
    } else {
        assert((x >> 63) / 2 == 0) by (bit_vector);
    }
    lemma_bit_read(r, 0);
    assert((r >> 0u64) & 1 == r % 2) by (bit_vector);
}
pub proof fn lemma_rv_inv(l: int, h: u64)
    requires 1 <= l < 64, h < p2(l),
    ensures rv(l, rv(l, h)) == h, rv(l, h) < p2(l),
{
    lemma_rv(l, h);
    lemma_rv(l, rv(l, h));
    lemma_uprefix(h, l, 0);
    let s = l as u64;
    assert forall|j: int| 0 <= j < 64 implies wbit(rv(l, rv(l, h)), j) == wbit(h, j) by {
        if j >= l {
            let t = j as u64;
            assert((h >> t) & 1 == 0) by (bit_vector) requires h >> s == 0, s <= t, t < 64;
            lemma_bit_read(h, t);
        }
    }
    wbit_ext(rv(l, rv(l, h)), h);
}
pub open spec fn lowmask(l: int) -> u64 { if l <= 0 { 0 } else { ((1u64 << (l as u64)) - 1) as u64 } }
pub proof fn lemma_ends(d: Seq<Seq<bool>>, n: int, l: int, h: u64)
    requires levels(d, n), 0 <= l <= d.len(), l < 64, h < 0x8000_0000_0000_0000,
    ensures
        h & lowmask(l) == lowmask(l) ==> down(d, l, rv(l, h) as int, n) == n,
        h & lowmask(l) == 0 ==> down(d, l, rv(l, h) as int, 0) == 0,
        h & lowmask(l) != lowmask(l) ==> down(d, l, rv(l, h) as int, n) == down(d, l, rv(l, (h + 1) as u64) as int, 0),
    decreases l,
{
    if l == 0 {
        assert(h & 0 == 0) by (bit_vector);
    } else {
        let g = (h + 1) as u64;
        lemma_ends(d, n, l - 1, h);
        if g < 0x8000_0000_0000_0000 { lemma_ends(d, n, l - 1, g); }
        lemma_rv(l, h);
        lemma_rv(l, g);
        let s = (l - 1) as u64;
        let s1 = l as u64;
        lemma_bit_read(h, s);
        lemma_bit_read(g, s);
        lemma_p2_shl(l);
        lemma_p2_mono(0, l - 1);
        lemma_p2_shl(l - 1);
        let (m, m1) = (lowmask(l), lowmask(l - 1));
        if l == 1 { assert(1u64 << 0u64 == 1) by (bit_vector); }
        assert(m1 == sub(1u64 << s, 1));
        assert(m == sub(1u64 << s1, 1));
        assert(h & m == m ==> h & m1 == m1 && (h >> s) & 1 == 1) by (bit_vector) requires s < 63, s1 == add(s, 1), m1 == sub(1u64 << s, 1), m == sub(1u64 << s1, 1);
        assert(h & m == 0 ==> h & m1 == 0 && (h >> s) & 1 == 0) by (bit_vector) requires s < 63, s1 == add(s, 1), m1 == sub(1u64 << s, 1), m == sub(1u64 << s1, 1);
        assert(h & m != m && h & m1 == m1 ==> (h >> s) & 1 == 0 && (g >> s) & 1 == 1 && g & m1 == 0) by (bit_vector)
            requires s < 63, s1 == add(s, 1), m1 == sub(1u64 << s, 1), m == sub(1u64 << s1, 1), g == add(h, 1), h < 0x8000_0000_0000_0000u64;
        assert(h & m1 != m1 ==> (h >> s) & 1 == (g >> s) & 1) by (bit_vector) requires s < 63, m1 == sub(1u64 << s, 1), g == add(h, 1), h < 0x8000_0000_0000_0000u64;
        assert(h & m != m && g == 0x8000_0000_0000_0000u64 ==> false) by (bit_vector)
            requires s < 63, s1 == add(s, 1), m == sub(1u64 << s1, 1), g == add(h, 1), h < 0x8000_0000_0000_0000u64;
        lemma_rank_bounds(d[l - 1], n);
    }
}
/// the order of the nodes of a level
pub proof fn lemma_next_node(d: Seq<Seq<bool>>, n: int, l: int, h: int)
    requires levels(d, n), 1 <= l <= d.len(), l < 64, 0 <= h, h + 1 < p2(l),
    ensures down(d, l, rv(l, h as u64) as int, 0) + occ(pvs(d, n, l), rv(l, h as u64) as int, 0, n) == down(d, l, rv(l, (h + 1) as u64) as int, 0),
        rv(l, h as u64) < p2(l),
        0 <= down(d, l, rv(l, h as u64) as int, 0) <= n, 0 <= down(d, l, rv(l, (h + 1) as u64) as int, 0) <= n,
{
    lemma_p2_shl(63);
    lemma_p2_mono(l, 63);
    let w = h as u64;
    lemma_ends(d, n, l, w);
    lemma_rv(l, w);
    lemma_p2_shl(l);
    let m = lowmask(l);
    assert(m == p2(l) - 1) by { lemma_p2_mono(0, l); }
    assert(w & m <= w) by (bit_vector);
    lemma_down_occ(d, n, l, rv(l, w) as int, 0, n);
    lemma_down(d, n, l, rv(l, w) as int, 0, n);
    lemma_down(d, n, l, rv(l, (h + 1) as u64) as int, 0, n);
}
pub proof fn lemma_first_node(d: Seq<Seq<bool>>, n: int, l: int)
    requires levels(d, n), 1 <= l <= d.len(), l < 64,
    ensures down(d, l, 0, 0) == 0, rv(l, 0) == 0,
{
    lemma_ends(d, n, l, 0);
    let m = lowmask(l);
    assert(0u64 & m == 0) by (bit_vector);
    lemma_rv(l, 0);
    broadcast use group_wbit;
    assert forall|j: int| 0 <= j < 64 implies wbit(rv(l, 0), j) == wbit(0u64, j) by { if j < l { assert(!wbit(0u64, l - 1 - j)); } }
    wbit_ext(rv(l, 0), 0);
}
/// counts of all prefixes of `l` bits
#[verifier::opaque]
pub open spec fn hist_ok(d: Seq<Seq<bool>>, n: int, l: int, m: int, h: Seq<usize>) -> bool {
    forall|q: int| 0 <= q < p2(l) ==> #[trigger] h[q] == occ(pvs(d, n, l), q, 0, m)
}
/// boundaries of all nodes of the level at `m`
#[verifier::opaque]
pub open spec fn bord_ok(d: Seq<Seq<bool>>, l: int, m: int, h: Seq<usize>) -> bool {
    forall|q: int| 0 <= q < p2(l) ==> #[trigger] h[q] == down(d, l, q, m)
}
/// the prefixes of element `i`, as the code computes them
pub proof fn lemma_elem(d: Seq<Seq<bool>>, n: int, src: Seq<Seq<bool>>, w: u64, i: int, l: int)
    requires levels(d, n), src_ok(src, n, d.len() as int), built(d, src, d.len() as int), 0 <= i < n, 0 <= l <= d.len() < 64,
        w < p2(d.len() as int), ubits(w, d.len() as int) == src[i],
    ensures ((w as usize) >> ((d.len() - l) as usize)) == pv(d, l, i), w as usize == pv(d, d.len() as int, i), 0 <= pv(d, l, i) < p2(l),
{
    let k = d.len() as int;
    lemma_built(d, n, src, k, i);
    lemma_built_mono(d, src, k, l);
    lemma_built(d, n, src, l, i);
    lemma_uprefix(w, k, l);
    lemma_uprefix(w, k, k);
    assert(w >> 0u64 == w) by (bit_vector);
    lemma_pos(d, n, l, i);
}
pub proof fn lemma_built_mono(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, m: int, l: int)
    requires built(d, src, m), l <= m,
    ensures built(d, src, l),
{
    reveal(built);
}
pub proof fn lemma_hist_zero(d: Seq<Seq<bool>>, n: int, l: int, h: Seq<usize>)
    requires h.len() == p2(l), forall|q: int| 0 <= q < h.len() ==> #[trigger] h[q] == 0,
    ensures hist_ok(d, n, l, 0, h),
{
    reveal(hist_ok);
}
pub proof fn lemma_hist_step(d: Seq<Seq<bool>>, n: int, l: int, m: int, h: Seq<usize>, v: int)
    requires levels(d, n), 0 <= l <= d.len(), hist_ok(d, n, l, m, h), h.len() >= p2(l), 0 <= m < n, v == pv(d, l, m),
    ensures 0 <= v < p2(l), h[v] < n, n <= usize::MAX ==> hist_ok(d, n, l, m + 1, h.update(v, (h[v] + 1) as usize)),
{
    reveal(hist_ok);
    lemma_pos(d, n, l, m);
    lemma_occ(pvs(d, n, l), v, 0, m);
}
#[verifier::opaque]
pub open spec fn comb(d: Seq<Seq<bool>>, n: int, l: int, m: int, h: Seq<usize>) -> bool {
    &&& forall|q: int| 0 <= q < m ==> #[trigger] h[q] == occ(pvs(d, n, l), q, 0, n)
    &&& forall|q: int| m <= q < p2(l + 1) ==> #[trigger] h[q] == occ(pvs(d, n, l + 1), q, 0, n)
}
pub proof fn lemma_comb_start(d: Seq<Seq<bool>>, n: int, l: int, h: Seq<usize>)
    requires hist_ok(d, n, l + 1, n, h),
    ensures comb(d, n, l, 0, h),
{
    reveal(hist_ok);
    reveal(comb);
}
pub proof fn lemma_comb_step(d: Seq<Seq<bool>>, n: int, l: int, m: int, h: Seq<usize>)
    requires levels(d, n), 0 <= l < d.len(), n <= usize::MAX, comb(d, n, l, m, h), h.len() >= p2(l + 1), 0 <= m < p2(l),
    ensures h[2 * m] + h[2 * m + 1] <= n, comb(d, n, l, m + 1, h.update(m, (h[2 * m] + h[2 * m + 1]) as usize)), 2 * m + 1 < h.len(),
{
    reveal(comb);
    lemma_half(d, n, l, m, 0, n);
    lemma_occ(pvs(d, n, l), m, 0, n);
}
pub proof fn lemma_comb_end(d: Seq<Seq<bool>>, n: int, l: int, h: Seq<usize>)
    requires comb(d, n, l, p2(l), h),
    ensures hist_ok(d, n, l, n, h),
{
    reveal(hist_ok);
    reveal(comb);
}
#[verifier::opaque]
pub open spec fn bpart(d: Seq<Seq<bool>>, l: int, m: int, b: Seq<usize>) -> bool {
    forall|g: u64| g < m ==> b[#[trigger] rv(l, g) as int] == down(d, l, rv(l, g) as int, 0)
}
pub proof fn lemma_bpart_start(d: Seq<Seq<bool>>, n: int, l: int, b: Seq<usize>)
    requires levels(d, n), 1 <= l <= d.len(), l < 64, b.len() > 0, b[0] == 0,
    ensures bpart(d, l, 1, b),
{
    reveal(bpart);
    lemma_first_node(d, n, l);
}
pub proof fn lemma_bpart_step(d: Seq<Seq<bool>>, n: int, l: int, m: int, b: Seq<usize>, h: Seq<usize>)
    requires levels(d, n), 1 <= l <= d.len(), l < 64, b.len() >= p2(l), h.len() >= p2(l), bpart(d, l, m, b), hist_ok(d, n, l, n, h), n <= usize::MAX, 1 <= m < p2(l),
    ensures ({
        let (x, y) = (rv(l, (m - 1) as u64) as int, rv(l, m as u64) as int);
        &&& 0 <= x < p2(l) && 0 <= y < p2(l)
        &&& b[x] + h[x] <= n
        &&& bpart(d, l, m + 1, b.update(y, (b[x] + h[x]) as usize))
        &&& (rb((m - 1) as u64) as usize) >> ((64 - l) as usize) == x
        &&& (rb(m as u64) as usize) >> ((64 - l) as usize) == y
    }),
{
    reveal(bpart);
    reveal(hist_ok);
    lemma_p2_shl(63);
    lemma_p2_mono(l, 63);
    lemma_rv(l, (m - 1) as u64);
    lemma_rv(l, m as u64);
    lemma_next_node(d, n, l, m - 1);
    let (x, y) = (rv(l, (m - 1) as u64) as int, rv(l, m as u64) as int);
    let c = b.update(y, (b[x] + h[x]) as usize);
    assert(b[x] == down(d, l, x, 0));
    assert forall|g: u64| g < m + 1 implies c[#[trigger] rv(l, g) as int] == down(d, l, rv(l, g) as int, 0) by {
        lemma_rv(l, g);
        if g < m {
            lemma_rv_inv(l, g);
            lemma_rv_inv(l, m as u64);
        }
    }
}
pub proof fn lemma_bpart_end(d: Seq<Seq<bool>>, l: int, b: Seq<usize>)
    requires bpart(d, l, p2(l), b), 1 <= l < 64,
    ensures bord_ok(d, l, 0, b),
{
    reveal(bpart);
    reveal(bord_ok);
    lemma_p2_shl(63);
    lemma_p2_mono(l, 63);
    assert forall|q: int| 0 <= q < p2(l) implies #[trigger] b[q] == down(d, l, q, 0) by {
        lemma_rv_inv(l, q as u64);
        assert(rv(l, rv(l, q as u64)) == q as u64);
    }
}
pub proof fn lemma_bord_step(d: Seq<Seq<bool>>, n: int, l: int, m: int, b: Seq<usize>)
    requires levels(d, n), 0 <= l <= d.len(), bord_ok(d, l, m, b), b.len() >= p2(l), 0 <= m < n, n <= usize::MAX,
    ensures ({
        let q = pv(d, l, m);
        &&& 0 <= q < p2(l)
        &&& b[q] == pos(d, l, m)
        &&& b[q] < n
        &&& bord_ok(d, l, m + 1, b.update(q, (b[q] + 1) as usize))
    }),
{
    reveal(bord_ok);
    lemma_pos(d, n, l, m);
    let q = pv(d, l, m);
    lemma_cross(d, n, l, q, m);
    let c = b.update(q, (b[q] + 1) as usize);
    assert forall|t: int| 0 <= t < p2(l) implies #[trigger] c[t] == down(d, l, t, m + 1) by {
        lemma_cross(d, n, l, t, m);
        assert(b[t] == down(d, l, t, m));
    }
}
pub proof fn lemma_built_bit(d: Seq<Seq<bool>>, src: Seq<Seq<bool>>, k: int, l: int, i: int)
    requires built(d, src, k), k == d.len(), 0 <= l < k, 0 <= i < src.len(),
    ensures d[l][pos(d, l, i)] == src[i][k - 1 - l],
{
    reveal(built);
}
pub proof fn lemma_shl16(k: u16)
    requires k < 64,
    ensures 1usize << k == p2(k as int),
{
    lemma_p2_shl(k as int);
    let z = k as usize;
    assert(1usize << k == 1usize << z) by (bit_vector) requires z == k as usize, k < 64;
}
} // verus!
