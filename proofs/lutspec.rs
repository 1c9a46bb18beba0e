use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
verus! {
/// the low `n` bits of a word as parentheses
pub open spec fn bl(w: u64, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| wbit(w, i)) }
/// first position below `i` after which the excess is `r`
pub open spec fn qf(b: Seq<bool>, i: int, r: int) -> int
    decreases i,
{
    if i <= 0 { -1 } else if qf(b, i - 1, r) != -1 { qf(b, i - 1, r) } else if ex(b, i) == r { i - 1 } else { -1 }
}
/// last position in [i, n) before which the excess is `r` relative to position `n`
pub open spec fn qb(b: Seq<bool>, n: int, i: int, r: int) -> int
    decreases n - i,
{
    if i >= n { -1 } else if qb(b, n, i + 1, r) != -1 { qb(b, n, i + 1, r) } else if ex(b, i) - ex(b, n) == r { i } else { -1 }
}
pub proof fn lemma_qf(b: Seq<bool>, i: int, r: int)
    requires 0 <= i,
    ensures -1 <= qf(b, i, r) < i || i == 0 && qf(b, i, r) == -1,
        qf(b, i, r) != -1 ==> ex(b, qf(b, i, r) + 1) == r && forall|j: int| 0 < j < qf(b, i, r) + 1 ==> #[trigger] ex(b, j) != r,
        qf(b, i, r) == -1 ==> forall|j: int| 0 < j < i + 1 ==> #[trigger] ex(b, j) != r,
    decreases i,
{
    if i > 0 { lemma_qf(b, i - 1, r); }
}
pub proof fn lemma_qb(b: Seq<bool>, n: int, i: int, r: int)
    requires 0 <= i <= n,
    ensures qb(b, n, i, r) == -1 || i <= qb(b, n, i, r) < n,
        qb(b, n, i, r) != -1 ==> ex(b, qb(b, n, i, r)) - ex(b, n) == r && forall|j: int| qb(b, n, i, r) < j < n ==> #[trigger] ex(b, j) - ex(b, n) != r,
        qb(b, n, i, r) == -1 ==> forall|j: int| i <= j < n ==> #[trigger] ex(b, j) - ex(b, n) != r,
    decreases n - i,
{
    if i < n { lemma_qb(b, n, i + 1, r); }
}
/// the answer to a search for `rel` in a block of `n` parentheses, forward
pub open spec fn fwd_ans(b: Seq<bool>, n: int, rel: int, r: Result<u64, ()>, rel2: int) -> bool {
    match r {
        Ok(i) => i < n && ex(b, i + 1) == rel && forall|j: int| 0 < j < i + 1 ==> #[trigger] ex(b, j) != rel,
        Err(_) => (forall|j: int| 0 < j <= n ==> #[trigger] ex(b, j) != rel) && rel2 == rel - ex(b, n),
    }
}
/// and backward
pub open spec fn bwd_ans(b: Seq<bool>, n: int, rel: int, r: Result<u64, ()>, rel2: int) -> bool {
    match r {
        Ok(i) => i < n && ex(b, i as int) - ex(b, n) == rel && forall|j: int| i < j < n ==> #[trigger] ex(b, j) - ex(b, n) != rel,
        Err(_) => (forall|j: int| 0 <= j < n ==> #[trigger] ex(b, j) - ex(b, n) != rel) && rel2 == rel + ex(b, n),
    }
}
/// what min and max of a block say about a search
pub proof fn lemma_minmax(b: Seq<bool>, n: int, mi: int, ma: int, r: int)
    requires 0 < n, is_min(b, 0, n, mi), is_max(b, 0, n, ma),
    ensures (mi <= r <= ma) == (qf(b, n, r) != -1), -n <= mi <= ex(b, n) <= ma <= n, -n <= ex(b, n) <= n,
        r != 0 ==> (r + ex(b, n) == 0 || mi <= r + ex(b, n) <= ma) == (qb(b, n, 0, r) != -1),
        -n <= r <= n || qf(b, n, r) == -1 && qb(b, n, 0, r) == -1,
{
    assert(ex(b, 0) == 0);
    assert(rng(b, 0, n, ex(b, n), mi, ma));
    lemma_rng(b, 0, n, ex(b, n), mi, ma);
    lemma_inrange(b, 0, n, ex(b, n), mi, ma, r);
    if r != 0 { lemma_inrange_b(b, 0, n, ex(b, n), mi, ma, r); }
    lemma_qf(b, n, r);
    lemma_qb(b, n, 0, r);
    if qb(b, n, 0, r) != -1 { lemma_ex_bound(b, qb(b, n, 0, r), n); }
}
pub open spec fn qfs(m: Seq<i8>, b: Seq<bool>, n: int, i: int) -> bool { m.len() == 2 * n + 1 && forall|k: int| 0 <= k <= 2 * n ==> #[trigger] m[k] == qf(b, i, k - n) }
pub open spec fn qbs(m: Seq<i8>, b: Seq<bool>, n: int, i: int) -> bool { m.len() == 2 * n + 1 && forall|k: int| 0 <= k <= 2 * n ==> #[trigger] m[k] == qb(b, n, i, k - n) }
/// running minimum and maximum
pub open spec fn mms(b: Seq<bool>, i: int, mi: int, ma: int, n: int) -> bool {
    if i == 0 { mi == n + 1 && ma == -n - 1 } else { is_min(b, 0, i, mi) && is_max(b, 0, i, ma) }
}
pub proof fn lemma_mms(b: Seq<bool>, i: int, mi: int, ma: int, n: int)
    requires 0 <= i < n, mms(b, i, mi, ma, n),
    ensures mms(b, i + 1, imin(mi, ex(b, i + 1)), imax(ma, ex(b, i + 1)), n),
        -n <= ex(b, i + 1) <= n, -n - 1 <= mi <= n + 1, -n - 1 <= ma <= n + 1,
        ex(b, i + 1) == ex(b, i) + pm(b[i]),
{
    assert(ex(b, 0) == 0);
    lemma_ex_bound(b, 0, i + 1);
    lemma_ex_step(b, i);
    let t = ex(b, i + 1);
    assert(ex(b, i + 1) - ex(b, 0) == t);
    if i > 0 {
        lemma_rng(b, 0, i, ex(b, i), mi, ma);
        let p = choose|p: int| 0 < p <= i && #[trigger] ex(b, p) - ex(b, 0) == mi;
        let q = choose|p: int| 0 < p <= i && #[trigger] ex(b, p) - ex(b, 0) == ma;
        assert(ex(b, p) - ex(b, 0) == mi && ex(b, q) - ex(b, 0) == ma);
    }
}
/// a block inside a sequence
pub proof fn lemma_block(w: u64, n: int, b: Seq<bool>, o: int, i: int)
    requires is_bits(w, b, o, n), 0 <= i <= n <= 64, 0 <= o, o + n <= b.len(),
    ensures ex(bl(w, n), i) == ex(b, o + i) - ex(b, o),
    decreases i,
{
    if i > 0 {
        lemma_block(w, n, b, o, i - 1);
        lemma_ex_step(bl(w, n), i - 1);
        lemma_ex_step(b, o + i - 1);
        assert(bl(w, n)[i - 1] == wbit(w, i - 1));
    }
}
pub proof fn lemma_bl_pop(w: u64, n: int, i: int)
    requires 0 <= i <= n <= 64,
    ensures rank1(bl(w, n), i) == pop(w, i), ex(bl(w, n), i) == 2 * pop(w, i) - i,
    decreases i,
{
    if i > 0 { lemma_bl_pop(w, n, i - 1); }
}
/// a word of `n` bits
pub proof fn lemma_small(w: u64, n: u64, b: Seq<bool>, o: int)
    requires is_bits(w, b, o, n as int), n < 64,
    ensures w < 1u64 << n,
{
    if w >= 1u64 << n {
        assert(w >> n != 0) by (bit_vector) requires w >= 1u64 << n, n < 64;
        let h = w >> n;
        assert(exists|j: int| 0 <= j < 64 && wbit(h, j)) by {
            if forall|j: int| 0 <= j < 64 ==> !wbit(h, j) {
                broadcast use group_wbit;
                assert forall|j: int| 0 <= j < 64 implies wbit(h, j) == wbit(0u64, j) by { wbit_zero(j); }
                wbit_ext(h, 0u64);
            }
        }
        let j = choose|j: int| 0 <= j < 64 && wbit(h, j);
        wbit_shr(w, n, j);
        assert(wbit(w, j + n));
    }
}
} // verus!
