use vstd::prelude::*;
use crate::base::*;
verus! {
/// excess of opening over closing parentheses among the first `i` positions
pub open spec fn ex(b: Seq<bool>, i: int) -> int { 2 * rank1(b, i) - i }
pub open spec fn pm(b: bool) -> int { if b { 1 } else { -1 } }
pub proof fn lemma_ex_step(b: Seq<bool>, i: int)
    requires 0 <= i,
    ensures ex(b, i + 1) == ex(b, i) + pm(b[i]), ex(b, 0) == 0,
{ }
pub proof fn lemma_ex_bound(b: Seq<bool>, i: int, j: int)
    requires 0 <= i <= j,
    ensures -(j - i) <= ex(b, j) - ex(b, i) <= j - i,
{
    lemma_rank_mono(b, i, j);
}
/// every value between two excesses is taken in between
pub proof fn lemma_ivt(b: Seq<bool>, i: int, j: int, v: int) -> (p: int)
    requires 0 <= i <= j, ex(b, i) <= v <= ex(b, j) || ex(b, j) <= v <= ex(b, i),
    ensures i <= p <= j, ex(b, p) == v,
    decreases j - i,
{
    if ex(b, i) == v { i } else if ex(b, j) == v { j } else {
        lemma_ex_step(b, j - 1);
        lemma_ivt(b, i, j - 1, v)
    }
}
pub open spec fn is_min(b: Seq<bool>, x: int, y: int, m: int) -> bool {
    (exists|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == m) && forall|p: int| x < p <= y ==> m <= #[trigger] ex(b, p) - ex(b, x)
}
pub open spec fn is_max(b: Seq<bool>, x: int, y: int, m: int) -> bool {
    (exists|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == m) && forall|p: int| x < p <= y ==> #[trigger] ex(b, p) - ex(b, x) <= m
}
/// (total, min, max) describe the positions [x, y)
pub open spec fn rng(b: Seq<bool>, x: int, y: int, t: int, mi: int, ma: int) -> bool {
    &&& t == ex(b, y) - ex(b, x)
    &&& x < y ==> is_min(b, x, y, mi) && is_max(b, x, y, ma)
    &&& x >= y ==> mi == 0 && ma == 0
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }
pub proof fn lemma_rng(b: Seq<bool>, x: int, y: int, t: int, mi: int, ma: int)
    requires 0 <= x < y, rng(b, x, y, t, mi, ma),
    ensures mi <= t <= ma, mi <= 1, ma >= -1, -(y - x) <= mi, ma <= y - x, -(y - x) <= t <= y - x,
{
    assert(ex(b, y) - ex(b, x) == t);
    lemma_ex_step(b, x);
    assert(mi <= ex(b, x + 1) - ex(b, x) <= ma);
    assert forall|p: int| x < p <= y implies -(y - x) <= #[trigger] ex(b, p) - ex(b, x) <= y - x by { lemma_ex_bound(b, x, p); }
}
/// two neighbouring runs
pub proof fn lemma_comb(b: Seq<bool>, x: int, y: int, z: int, t: int, mi: int, ma: int, u: int, mj: int, mb: int)
    requires 0 <= x < y <= z, rng(b, x, y, t, mi, ma), rng(b, y, z, u, mj, mb),
    ensures rng(b, x, z, t + u, imin(mi, t + mj), imax(ma, t + mb)),
        mi <= t <= ma, -(z - x) <= t + mj <= z - x, -(z - x) <= t + mb <= z - x, -(z - x) <= t + u <= z - x,
{
    lemma_rng(b, x, y, t, mi, ma);
    if y < z { lemma_rng(b, y, z, u, mj, mb); }
    let m = imin(mi, t + mj);
    let n = imax(ma, t + mb);
    assert forall|p: int| x < p <= z implies m <= #[trigger] ex(b, p) - ex(b, x) <= n by {
        if p > y { assert(mj <= ex(b, p) - ex(b, y) <= mb); }
    }
    let p1 = choose|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == mi;
    let q1 = choose|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == ma;
    assert(ex(b, p1) - ex(b, x) == mi);
    assert(ex(b, q1) - ex(b, x) == ma);
    if y < z {
        let p2 = choose|p: int| y < p <= z && #[trigger] ex(b, p) - ex(b, y) == mj;
        let q2 = choose|p: int| y < p <= z && #[trigger] ex(b, p) - ex(b, y) == mb;
        assert(ex(b, p2) - ex(b, x) == t + mj);
        assert(ex(b, q2) - ex(b, x) == t + mb);
    }
}
/// values within [min, max] are taken, others are not
pub proof fn lemma_inrange(b: Seq<bool>, x: int, y: int, t: int, mi: int, ma: int, r: int)
    requires 0 <= x < y, rng(b, x, y, t, mi, ma),
    ensures (mi <= r <= ma) == (exists|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == r),
{
    if mi <= r <= ma {
        let p = choose|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == mi;
        let q = choose|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == ma;
        let z = if p <= q { lemma_ivt(b, p, q, ex(b, x) + r) } else { lemma_ivt(b, q, p, ex(b, x) + r) };
        assert(ex(b, z) - ex(b, x) == r);
    }
}
/// backwards: the start of the run counts, its end does not
pub proof fn lemma_inrange_b(b: Seq<bool>, x: int, y: int, t: int, mi: int, ma: int, r: int)
    requires 0 <= x < y, rng(b, x, y, t, mi, ma), r != 0,
    ensures (r + t == 0 || mi <= r + t <= ma) == (exists|p: int| x <= p < y && #[trigger] ex(b, p) - ex(b, y) == r),
{
    if r + t == 0 {
        assert(ex(b, x) - ex(b, y) == r);
    } else if mi <= r + t <= ma {
        lemma_inrange(b, x, y, t, mi, ma, r + t);
        let p = choose|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == r + t;
        assert(ex(b, p) - ex(b, y) == r);
    } else {
        assert forall|p: int| x <= p < y implies #[trigger] ex(b, p) - ex(b, y) != r by {
            if p > x { assert(mi <= ex(b, p) - ex(b, x) <= ma); }
        }
    }
}
} // verus!
