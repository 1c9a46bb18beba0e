use vstd::prelude::*;
use crate::base::*;
use crate::exc::*;
use crate::mmt::*;
use crate::lutspec::*;
verus! {
// ---------------------------------------------------------------- searching inside a block
/// positions up to `i` have been searched forward from `s`
#[verifier::opaque]
pub open spec fn fst(b: Seq<bool>, s: int, i: int, rel: int, cur: int) -> bool {
    0 <= s <= i <= b.len() && nohit(b, s, s + 1, i + 1, rel) && cur == rel - (ex(b, i) - ex(b, s))
}
/// positions down to `i` have been searched backward from `s`
#[verifier::opaque]
pub open spec fn bst_(b: Seq<bool>, s: int, i: int, rel: int, cur: int) -> bool {
    0 <= i <= s <= b.len() && nohit(b, s, i, s, rel) && cur == rel - (ex(b, i) - ex(b, s))
}
/// the first position in [s, e) after which the excess relative to `s` is `rel`
pub open spec fn fwd_at(b: Seq<bool>, s: int, e: int, rel: int, i: int) -> bool {
    s <= i < e && ex(b, i + 1) - ex(b, s) == rel && nohit(b, s, s + 1, i + 1, rel)
}
/// the last position in [x, s) before which the excess relative to `s` is `rel`
pub open spec fn bwd_at(b: Seq<bool>, s: int, x: int, rel: int, i: int) -> bool {
    x <= i < s && ex(b, i) - ex(b, s) == rel && nohit(b, s, i + 1, s, rel)
}
pub proof fn lemma_fst_init(b: Seq<bool>, s: int, rel: int)
    requires 0 <= s <= b.len(),
    ensures fst(b, s, s, rel, rel),
{ reveal(fst); }
pub proof fn lemma_bst_init_(b: Seq<bool>, s: int, rel: int)
    requires 0 <= s <= b.len(),
    ensures bst_(b, s, s, rel, rel),
{ reveal(bst_); }
pub proof fn lemma_fst(b: Seq<bool>, s: int, i: int, rel: int, cur: int)
    requires fst(b, s, i, rel, cur),
    ensures rel - b.len() <= cur <= rel + b.len(), i > s ==> cur != 0, 0 <= s <= i <= b.len(), nohit(b, s, s + 1, i + 1, rel), cur == rel - (ex(b, i) - ex(b, s)),
        i < b.len() ==> {
            let c = cur - pm(b[i]);
            &&& c == 0 ==> forall|e: int| e > i ==> #[trigger] fwd_at(b, s, e, rel, i)
            &&& c != 0 ==> fst(b, s, i + 1, rel, c)
        },
{
    reveal(fst);
    lemma_ex_bound(b, s, i);
    if i < b.len() { lemma_ex_step(b, i); }
}
pub proof fn lemma_bst_(b: Seq<bool>, s: int, i: int, rel: int, cur: int)
    requires bst_(b, s, i, rel, cur),
    ensures rel - b.len() <= cur <= rel + b.len(), i < s ==> cur != 0, 0 <= i <= s <= b.len(), nohit(b, s, i, s, rel), cur == rel - (ex(b, i) - ex(b, s)),
        i > 0 ==> {
            let c = cur + pm(b[i - 1]);
            &&& c == 0 ==> forall|x: int| x < i ==> #[trigger] bwd_at(b, s, x, rel, i - 1)
            &&& c != 0 ==> bst_(b, s, i - 1, rel, c)
        },
{
    reveal(bst_);
    lemma_ex_bound(b, i, s);
    if i > 0 { lemma_ex_step(b, i - 1); }
}
/// a block of `n` parentheses at `i`
pub proof fn lemma_fst_blk(b: Seq<bool>, s: int, i: int, rel: int, cur: int, n: int, w: u64, r: Result<u64, ()>, cur2: int)
    requires fst(b, s, i, rel, cur), 0 < n <= 64, i + n <= b.len(), is_bits(w, b, i, n), fwd_ans(bl(w, n), n, cur, r, cur2),
    ensures match r {
        Ok(k) => k < n && forall|e: int| e >= i + n ==> #[trigger] fwd_at(b, s, e, rel, i + k),
        Err(_) => fst(b, s, i + n, rel, cur2),
    },
{
    reveal(fst);
    let c = bl(w, n);
    let hi = match r { Ok(k) => i + k + 1, Err(_) => i + n + 1 };
    assert forall|p: int| s + 1 <= p < hi implies #[trigger] ex(b, p) - ex(b, s) != rel by {
        if p > i { lemma_block(w, n, b, i, p - i); assert(ex(c, p - i) != cur); }
    }
    lemma_block(w, n, b, i, n);
    match r { Ok(k) => { lemma_block(w, n, b, i, k + 1); }, Err(_) => {} }
}
pub proof fn lemma_bst_blk(b: Seq<bool>, s: int, i: int, rel: int, cur: int, n: int, w: u64, r: Result<u64, ()>, cur2: int)
    requires bst_(b, s, i + n, rel, cur), 0 < n <= 64, 0 <= i, is_bits(w, b, i, n), bwd_ans(bl(w, n), n, cur, r, cur2),
    ensures match r {
        Ok(k) => k < n && forall|x: int| x <= i ==> #[trigger] bwd_at(b, s, x, rel, i + k),
        Err(_) => bst_(b, s, i, rel, cur2),
    },
{
    reveal(bst_);
    let c = bl(w, n);
    lemma_block(w, n, b, i, n);
    let lo = match r { Ok(k) => i + k + 1, Err(_) => i };
    assert forall|p: int| lo <= p < s implies #[trigger] ex(b, p) - ex(b, s) != rel by {
        if p < i + n { lemma_block(w, n, b, i, p - i); assert(ex(c, p - i) - ex(c, n) != cur); }
    }
    match r { Ok(k) => { lemma_block(w, n, b, i, k as int); }, Err(_) => {} }
}
pub open spec fn small(x: i64) -> bool { -0x3000_0000_0000_0000 <= x <= 0x3000_0000_0000_0000 }
pub proof fn lemma_bsteps(lo: int, hi: int, n: int)
    requires 0 <= lo <= hi, lo == hi || lo % n == 0 && hi % n == 0, n == 8 || n == 16,
    ensures lo < hi ==> lo + (hi - lo + n - 1) / n * n == hi,
{ }
pub proof fn lemma_pbb(b: Seq<bool>, s: int, i: int, rel: int, cur: int, n: int)
    requires bst_(b, s, i + n, rel, cur), 0 < n <= 64, 0 <= i,
    ensures forall|w: u64, r: Result<u64, ()>, cur2: int| #[trigger] is_bits(w, b, i, n) && #[trigger] bwd_ans(bl(w, n), n, cur, r, cur2) ==> match r {
        Ok(k) => k < n && forall|x: int| x <= i ==> #[trigger] bwd_at(b, s, x, rel, i + k),
        Err(_) => bst_(b, s, i, rel, cur2),
    },
{
    assert forall|w: u64, r: Result<u64, ()>, cur2: int| #[trigger] is_bits(w, b, i, n) && #[trigger] bwd_ans(bl(w, n), n, cur, r, cur2) implies match r {
        Ok(k) => k < n && forall|x: int| x <= i ==> #[trigger] bwd_at(b, s, x, rel, i + k),
        Err(_) => bst_(b, s, i, rel, cur2),
    } by { lemma_bst_blk(b, s, i, rel, cur, n, w, r, cur2); }
}
pub proof fn lemma_blk_step(i: int, hi: int, n: int)
    requires 0 <= i < hi, i % n == 0, hi % n == 0, n == 8 || n == 16,
    ensures i + n <= hi, (i + n) % n == 0,
{ }
pub proof fn lemma_blk_bound(b: Seq<bool>, bs: int, k: int, s: int)
    requires 1 <= bs <= usize::MAX, 0 <= k, k * bs <= s < (k + 1) * bs, 0 <= s < b.len() <= 0x100_0000_0000_0000,
    ensures (k + 1) * bs <= usize::MAX, k * bs <= s, k + 1 <= usize::MAX, bpos(b, bs, k + 1) == if (k + 1) * bs <= b.len() { (k + 1) * bs } else { b.len() as int }, s < bpos(b, bs, k + 1),
{
    assert((k + 1) * bs == k * bs + bs) by (nonlinear_arith);
    assert(k <= k * bs) by (nonlinear_arith) requires k >= 0, bs >= 1;
    if k >= 1 { assert(bs <= k * bs) by (nonlinear_arith) requires k >= 1, bs >= 1; }
    else { assert((0 + 1) * bs == bs); }
}
/// the boundaries of the table lookups of a forward search
pub proof fn lemma_fbound(s: int, e: int, n: int)
    requires 0 <= s < e <= 0x100_0000_0000_0000, n == 8 || n == 16,
    ensures ({
        let l0 = (s + n - 1) / n * n;
        let l = if l0 <= e { l0 } else { e };
        let u0 = e / n * n;
        let u = if l >= u0 { l } else { u0 };
        &&& 0 <= u0 <= e && s <= l0 <= e + n
        &&& s <= l <= u <= e && (l == u || l % n == 0 && u % n == 0)
    }),
{
    let a = (s + n - 1) / n;
    let c = e / n;
    if n == 8 { assert((a * 8) % 8 == 0 && (c * 8) % 8 == 0); } else { assert((a * 16) % 16 == 0 && (c * 16) % 16 == 0); }
}
/// and of a backward search
pub proof fn lemma_bbound(x: int, s: int, n: int)
    requires 0 <= x < s <= 0x100_0000_0000_0000, n == 8 || n == 16,
    ensures ({
        let l0 = (s - 1) / n * n;
        let l = if l0 >= x { l0 } else { x };
        let u0 = (x + n - 1) / n * n;
        let u = if l <= u0 { l } else { u0 };
        &&& 0 <= l0 < s && x <= u0 <= x + n
        &&& x <= u <= l < s && (l == u || l % n == 0 && u % n == 0)
    }),
{
    let a = (s - 1) / n;
    let c = (x + n - 1) / n;
    if n == 8 { assert((a * 8) % 8 == 0 && (c * 8) % 8 == 0); } else { assert((a * 16) % 16 == 0 && (c * 16) % 16 == 0); }
}
pub proof fn lemma_word(b: Seq<bool>, i: int, n: int)
    requires 0 <= i, n == 8 || n == 16,
    ensures forall|w: u64| #[trigger] is_bits(w, b, i, n) ==> w < (if n == 8 { 0x100u64 } else { 0x10000u64 }),
{
    assert forall|w: u64| #[trigger] is_bits(w, b, i, n) implies w < (if n == 8 { 0x100u64 } else { 0x10000u64 }) by {
        lemma_small(w, n as u64, b, i);
        assert(1u64 << 8u64 == 0x100) by (bit_vector);
        assert(1u64 << 16u64 == 0x10000) by (bit_vector);
    }
}
pub proof fn lemma_pb(b: Seq<bool>, s: int, i: int, rel: int, cur: int, n: int)
    requires fst(b, s, i, rel, cur), 0 < n <= 64, i + n <= b.len(),
    ensures forall|w: u64, r: Result<u64, ()>, cur2: int| #[trigger] is_bits(w, b, i, n) && #[trigger] fwd_ans(bl(w, n), n, cur, r, cur2) ==> match r {
        Ok(k) => k < n && forall|e: int| e >= i + n ==> #[trigger] fwd_at(b, s, e, rel, i + k),
        Err(_) => fst(b, s, i + n, rel, cur2),
    },
{
    assert forall|w: u64, r: Result<u64, ()>, cur2: int| #[trigger] is_bits(w, b, i, n) && #[trigger] fwd_ans(bl(w, n), n, cur, r, cur2) implies match r {
        Ok(k) => k < n && forall|e: int| e >= i + n ==> #[trigger] fwd_at(b, s, e, rel, i + k),
        Err(_) => fst(b, s, i + n, rel, cur2),
    } by { lemma_fst_blk(b, s, i, rel, cur, n, w, r, cur2); }
}
} // verus!
