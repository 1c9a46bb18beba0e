use vstd::prelude::*;
use std::num::NonZeroUsize;
use crate::base::*;
use crate::bitvec::*;
use crate::pow2::*;
use crate::exc::*;
verus! {
//@@ item src/trees/mmt.rs struct ExcessNode
//@@ item src/trees/mmt.rs struct MinMaxTree
pub assume_specification [NonZeroUsize::checked_add] (x: NonZeroUsize, y: usize) -> (r: Option<NonZeroUsize>)
    ensures r is Some <==> x@ + y <= usize::MAX, r is Some ==> r->0@ == x@ + y;
// ---------------------------------------------------------------- the shape of the tree
/// level of a node
pub open spec fn dep(i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { dep((i - 1) / 2) + 1 }
}
pub proof fn lemma_dep(i: int)
    requires 0 <= i,
    ensures 0 <= dep(i), p2(dep(i)) - 1 <= i < 2 * p2(dep(i)) - 1, dep(2 * i + 1) == dep(i) + 1, dep(2 * i + 2) == dep(i) + 1, p2(dep(i)) >= 1,
    decreases i,
{
    assert((2 * i + 1 - 1) / 2 == i);
    assert((2 * i + 2 - 1) / 2 == i);
    if i > 0 {
        lemma_dep((i - 1) / 2);
        lemma_p2_mono(0, dep(i));
    }
}
/// a tree of `n` nodes has its leaves on level `h`
pub open spec fn shape(n: int, h: int) -> bool {
    1 <= h < 62 && p2(h) <= n <= 2 * p2(h) - 1 && (h == 1 || n - (p2(h) - 1) > p2(h - 1))
}
pub open spec fn hgt(n: int) -> int { choose|h: int| shape(n, h) }
pub proof fn lemma_hgt(n: int, h: int)
    requires shape(n, h),
    ensures hgt(n) == h,
{
    let g = hgt(n);
    assert(shape(n, g));
    if g < h { lemma_p2_mono(g, h); } else if h < g { lemma_p2_mono(h, g); }
}
/// the leaves below a node of level `d`
pub open spec fn nlo(h: int, i: int) -> int { (i + 1 - p2(dep(i))) * p2(h - dep(i)) }
pub open spec fn nhi(h: int, i: int) -> int { nlo(h, i) + p2(h - dep(i)) }
pub proof fn lemma_node(h: int, i: int)
    requires 0 <= i < 2 * p2(h) - 1, 0 <= h,
    ensures 0 <= dep(i) <= h, 0 <= nlo(h, i) < nhi(h, i) <= p2(h), (dep(i) == h) == (i >= p2(h) - 1),
        i >= p2(h) - 1 ==> nlo(h, i) == i - (p2(h) - 1) && nhi(h, i) == nlo(h, i) + 1,
        i == 0 ==> nlo(h, i) == 0 && nhi(h, i) == p2(h),
        i < p2(h) - 1 ==> 2 * i + 2 < 2 * p2(h) - 1,
{
    lemma_dep(i);
    let d = dep(i);
    if d > h { lemma_p2_mono(h, d); }
    if d < h { lemma_p2_mono(d, h); }
    lemma_p2_add(d, h - d);
    let q = p2(h - d);
    let j = i + 1 - p2(d);
    assert(j * q >= 0) by (nonlinear_arith) requires j >= 0, q >= 1;
    assert(j * q + q <= p2(d) * q) by (nonlinear_arith) requires j + 1 <= p2(d), q >= 1;
    if d == h { assert(q == 1); assert(j * 1 == j); }
    if i == 0 { assert(d == 0); assert(j == 0); assert(0 * q == 0) by (nonlinear_arith); }
}
pub proof fn lemma_kids(h: int, i: int)
    requires 0 <= i < p2(h) - 1, 0 <= h,
    ensures nlo(h, 2 * i + 1) == nlo(h, i), nhi(h, 2 * i + 1) == nlo(h, 2 * i + 2), nhi(h, 2 * i + 2) == nhi(h, i),
        dep(2 * i + 1) == dep(i) + 1, dep(2 * i + 2) == dep(i) + 1,
{
    lemma_dep(i);
    lemma_node(h, i);
    let d = dep(i);
    let q = p2(h - d - 1);
    assert(p2(h - d) == 2 * q);
    let j = i + 1 - p2(d);
    assert(p2(d + 1) == 2 * p2(d));
    assert(j * (2 * q) == (2 * j) * q) by (nonlinear_arith);
    assert((2 * j + 1) * q == (2 * j) * q + q) by (nonlinear_arith);
}
/// where the block of the leaf `k` begins
pub open spec fn bpos(b: Seq<bool>, bs: int, k: int) -> int { if k * bs <= b.len() { k * bs } else { b.len() as int } }
pub proof fn lemma_bpos(b: Seq<bool>, bs: int, j: int, k: int)
    requires 1 <= bs, 0 <= j <= k,
    ensures 0 <= bpos(b, bs, j) <= bpos(b, bs, k) <= b.len(), bpos(b, bs, 0) == 0,
        j < k && j * bs < b.len() ==> bpos(b, bs, j) == j * bs && bpos(b, bs, j) < bpos(b, bs, k),
        j * bs >= b.len() ==> bpos(b, bs, k) == b.len() && bpos(b, bs, j) == b.len(),
{
    assert(j * bs <= k * bs) by (nonlinear_arith) requires j <= k, bs >= 1;
    assert(0 <= j * bs) by (nonlinear_arith) requires j >= 0, bs >= 1;
    assert(0 * bs == 0);
    if j < k { assert((j + 1) * bs <= k * bs) by (nonlinear_arith) requires j + 1 <= k, bs >= 1; assert((j + 1) * bs == j * bs + bs) by (nonlinear_arith); }
}
pub open spec fn nblocks(n: int, bs: int) -> int { (n + bs - 1) / bs }
pub proof fn lemma_nblocks(n: int, bs: int)
    requires 1 <= bs, 1 <= n,
    ensures nblocks(n, bs) >= 1, nblocks(n, bs) * bs >= n, (nblocks(n, bs) - 1) * bs < n, nblocks(n, bs) <= n,
{
    let q = nblocks(n, bs);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + bs - 1, bs);
    vstd::arithmetic::div_mod::lemma_mod_bound(n + bs - 1, bs);
    assert(bs * q == q * bs) by (nonlinear_arith);
    assert((q - 1) * bs == q * bs - bs) by (nonlinear_arith);
    if q <= 0 { assert(q * bs <= 0) by (nonlinear_arith) requires q <= 0, bs >= 1; }
    assert(q <= n) by (nonlinear_arith) requires (q - 1) * bs < n, bs >= 1, q >= 1;
}
impl MinMaxTree {
    pub open spec fn nn(&self) -> int { self.nodes@.len() as int }
    pub open spec fn nrep(&self, b: Seq<bool>, bs: int, h: int, i: int) -> bool {
        rng(b, bpos(b, bs, nlo(h, i)), bpos(b, bs, nhi(h, i)), self.nodes@[i].total as int, self.nodes@[i].min as int, self.nodes@[i].max as int)
    }
    /// the tree describes the blocks of `bs` positions of `b`
    #[verifier::opaque]
    pub open spec fn rep(&self, b: Seq<bool>, bs: int) -> bool {
        let h = hgt(self.nn());
        &&& bs >= 1 && b.len() <= 0x100_0000_0000_0000
        &&& b.len() == 0 ==> self.nn() == 0
        &&& b.len() > 0 ==> shape(self.nn(), h) && self.nn() - (p2(h) - 1) == nblocks(b.len() as int, bs)
        &&& b.len() > 0 ==> forall|i: int| 0 <= i < self.nn() ==> #[trigger] self.nrep(b, bs, h, i)
    }
    pub open spec fn wf(&self) -> bool { exists|b: Seq<bool>, bs: int| self.rep(b, bs) }
    pub open spec fn h(&self) -> int { hgt(self.nn()) }
    pub open spec fn fl(&self) -> int { p2(self.h()) - 1 }
    pub proof fn lemma_rep(&self, b: Seq<bool>, bs: int)
        requires self.rep(b, bs),
        ensures bs >= 1, b.len() <= 0x100_0000_0000_0000, b.len() == 0 <==> self.nn() == 0,
            self.nn() > 0 ==> shape(self.nn(), self.h()) && self.fl() >= 1 && self.nn() - self.fl() == nblocks(b.len() as int, bs) && self.nn() <= 2 * p2(self.h()) - 1,
            self.nn() > 0 ==> nblocks(b.len() as int, bs) * bs >= b.len() && (nblocks(b.len() as int, bs) - 1) * bs < b.len(),
    {
        reveal(MinMaxTree::rep);
        if b.len() > 0 { lemma_nblocks(b.len() as int, bs); lemma_p2_mono(1, self.h()); }
    }
    /// the end of the tree
    pub proof fn lemma_end(&self, b: Seq<bool>, bs: int, k: int)
        requires self.rep(b, bs), self.nn() > 0, k >= self.nn() - self.fl(),
        ensures bpos(b, bs, k) == b.len(),
    {
        self.lemma_rep(b, bs);
        let l = nblocks(b.len() as int, bs);
        assert(l * bs <= k * bs) by (nonlinear_arith) requires l <= k, bs >= 1;
    }
    /// what a node knows
    pub proof fn lemma_nd(&self, b: Seq<bool>, bs: int, i: int)
        requires self.rep(b, bs), 0 <= i < self.nn(),
        ensures self.nrep(b, bs, self.h(), i), 0 <= dep(i) <= self.h(), 0 <= nlo(self.h(), i) < nhi(self.h(), i),
            0 <= bpos(b, bs, nlo(self.h(), i)) <= bpos(b, bs, nhi(self.h(), i)) <= b.len(),
            -0x100_0000_0000_0000 <= self.nodes@[i].total <= 0x100_0000_0000_0000, -0x100_0000_0000_0000 <= self.nodes@[i].min <= 0x100_0000_0000_0000, -0x100_0000_0000_0000 <= self.nodes@[i].max <= 0x100_0000_0000_0000,
            i >= self.fl() ==> nlo(self.h(), i) == i - self.fl() && nhi(self.h(), i) == nlo(self.h(), i) + 1 && bpos(b, bs, i - self.fl()) == (i - self.fl()) * bs && (i - self.fl()) * bs < b.len(),
            (dep(i) == self.h()) == (i >= self.fl()),
            i == 0 ==> nlo(self.h(), i) == 0 && bpos(b, bs, nhi(self.h(), i)) == b.len(),
    {
        self.lemma_rep(b, bs);
        reveal(MinMaxTree::rep);
        let h = self.h();
        lemma_node(h, i);
        lemma_bpos(b, bs, nlo(h, i), nhi(h, i));
        let x = bpos(b, bs, nlo(h, i));
        let y = bpos(b, bs, nhi(h, i));
        assert(self.nrep(b, bs, h, i));
        if x < y { lemma_rng(b, x, y, self.nodes@[i].total as int, self.nodes@[i].min as int, self.nodes@[i].max as int); }
        if i >= self.fl() {
            let k = i - self.fl();
            let l = nblocks(b.len() as int, bs);
            assert(k * bs <= (l - 1) * bs) by (nonlinear_arith) requires k <= l - 1, bs >= 1;
        }
        if i == 0 { self.lemma_end(b, bs, nhi(h, i)); }
    }
    /// a node and its children
    pub proof fn lemma_kid(&self, b: Seq<bool>, bs: int, i: int)
        requires self.rep(b, bs), 0 <= i < self.fl(), self.nn() > 0,
        ensures
            nlo(self.h(), 2 * i + 1) == nlo(self.h(), i), nhi(self.h(), 2 * i + 1) == nlo(self.h(), 2 * i + 2), nhi(self.h(), 2 * i + 2) == nhi(self.h(), i),
            2 * i + 2 >= self.nn() ==> bpos(b, bs, nlo(self.h(), 2 * i + 2)) == b.len() && bpos(b, bs, nhi(self.h(), 2 * i + 2)) == b.len(),
            2 * i + 1 >= self.nn() ==> bpos(b, bs, nlo(self.h(), i)) == b.len(),
            bpos(b, bs, nlo(self.h(), 2 * i + 1)) <= bpos(b, bs, nhi(self.h(), 2 * i + 1)) <= bpos(b, bs, nhi(self.h(), 2 * i + 2)),
            bpos(b, bs, nlo(self.h(), 2 * i + 2)) < b.len() ==> bpos(b, bs, nlo(self.h(), 2 * i + 1)) < bpos(b, bs, nhi(self.h(), 2 * i + 1)),
            bpos(b, bs, nlo(self.h(), i)) < b.len() ==> bpos(b, bs, nlo(self.h(), 2 * i + 1)) < bpos(b, bs, nhi(self.h(), 2 * i + 1)),
            dep(2 * i + 1) == dep(i) + 1, dep(2 * i + 2) == dep(i) + 1,
    {
        self.lemma_rep(b, bs);
        let h = self.h();
        lemma_node(h, i);
        lemma_kids(h, i);
        assert(2 * i + 2 < 2 * p2(h) - 1);
        lemma_node(h, 2 * i + 1);
        lemma_node(h, 2 * i + 2);
        assert(0 <= nlo(h, 2 * i + 2) <= nhi(h, 2 * i + 2));
        lemma_bpos(b, bs, nlo(h, 2 * i + 1), nhi(h, 2 * i + 1));
        lemma_bpos(b, bs, nlo(h, 2 * i + 2), nhi(h, 2 * i + 2));
        if 2 * i + 2 >= self.nn() {
            self.lemma_end(b, bs, nlo(h, 2 * i + 2));
            lemma_bpos(b, bs, nlo(h, 2 * i + 2), nhi(h, 2 * i + 2));
        }
        if 2 * i + 1 >= self.nn() { self.lemma_end(b, bs, nlo(h, 2 * i + 1)); }
    }
//@@ fn src/trees/mmt.rs MinMaxTree::total_excess
//@ props C17 C18 C19
//@ spec
    requires index < self.nn(),
    ensures r == self.nodes@[index as int].total,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::min_excess
//@ props C17 C18 C19
//@ spec
    requires index < self.nn(),
    ensures r == self.nodes@[index as int].min,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::max_excess
//@ props C17 C18 C19
//@ spec
    requires index < self.nn(),
    ensures r == self.nodes@[index as int].max,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::parent
//@ props C17 C18 C19
//@ spec
    ensures r == if index@ < self.nn() { Some(((index@ - 1) / 2) as usize) } else { None },
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::left_child
//@ props C17 C18 C19
//@ spec
    requires index < self.nn(), self.nn() <= 0x4000_0000_0000_0000,
    ensures r is Some <==> 2 * index + 1 < self.nn(), r is Some ==> r->0@ == 2 * index + 1,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::right_child
//@ props C17 C18 C19
//@ spec
    requires index < self.nn(), self.nn() <= 0x4000_0000_0000_0000,
    ensures r is Some <==> 2 * index + 2 < self.nn(), r is Some ==> r->0@ == 2 * index + 2,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::right_sibling
//@ props C17 C18 C19
//@ spec
    requires index@ < self.nn(), self.nn() <= 0x4000_0000_0000_0000,
    ensures r is Some <==> index@ % 2 == 1 && index@ + 1 < self.nn(), r is Some ==> r->0@ == index@ + 1,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::left_sibling
//@ props C17 C18 C19
//@ spec
    ensures r is Some <==> index@ % 2 == 0, r is Some ==> r->0@ == index@ - 1,
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::is_left_child
//@ props C17 C18 C19
//@ spec
    ensures r == (index@ % 2 == 1),
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::first_leaf
//@ props C17 C18 C19
//@ spec
    requires self.wf(), self.nn() > 0,
    ensures r == self.fl(),
//@ start
    proof { lemma_first_leaf(self); }
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::is_leaf
//@ props C17 C18 C19
//@ spec
    requires self.wf(), self.nn() > 0,
    ensures r == (index >= self.fl()),
//@@ end
}
// ---------------------------------------------------------------- searching for a block
pub open spec fn nohit(b: Seq<bool>, o: int, x: int, y: int, r: int) -> bool { forall|p: int| x <= p < y ==> #[trigger] ex(b, p) - ex(b, o) != r }
pub open spec fn hit(b: Seq<bool>, o: int, x: int, y: int, r: int) -> bool { exists|p: int| x <= p < y && #[trigger] ex(b, p) - ex(b, o) == r }
/// block `k` is the first one after position `y` with an excess `rel` relative to `y`; relative to the block it is `rel2`
#[verifier::opaque]
pub open spec fn fwd_blk(b: Seq<bool>, bs: int, y: int, rel: int, k: int, rel2: int) -> bool {
    &&& 0 <= k && y <= k * bs < b.len() && bpos(b, bs, k) == k * bs
    &&& nohit(b, y, y + 1, k * bs + 1, rel)
    &&& rel2 == rel - (ex(b, k * bs) - ex(b, y))
    &&& hit(b, k * bs, k * bs + 1, bpos(b, bs, k + 1) + 1, rel2)
}
/// block `k` is the last one before position `x` with an excess `rel` relative to `x`; relative to the end of the block it is `rel2`
#[verifier::opaque]
pub open spec fn bwd_blk(b: Seq<bool>, bs: int, x: int, rel: int, k: int, rel2: int) -> bool {
    let e = bpos(b, bs, k + 1);
    &&& 0 <= k && e <= x && k * bs < b.len() && e == (k + 1) * bs
    &&& nohit(b, x, e, x, rel)
    &&& rel2 == rel - (ex(b, e) - ex(b, x))
    &&& hit(b, e, k * bs, e, rel2)
}
impl MinMaxTree {
    pub open spec fn real(&self, i: int) -> bool { nlo(self.h(), i) < self.nn() - self.fl() }
    pub open spec fn full(&self, i: int) -> bool { nhi(self.h(), i) < self.nn() - self.fl() }
    pub open spec fn relb(&self, i: int, rel: int) -> bool {
        let m = 0x2000_0000_0000_0000 + (self.h() - dep(i)) * 0x100_0000_0000_0000;
        rel != 0 && -m <= rel <= m
    }
    pub open spec fn inr(&self, i: int, rel: int) -> bool { self.nodes@[i].min <= rel <= self.nodes@[i].max }
    pub open spec fn inb(&self, i: int, rel: int) -> bool { rel + self.nodes@[i].total == 0 || self.inr(i, rel + self.nodes@[i].total) }
    pub open spec fn fwd_res(&self, b: Seq<bool>, bs: int, y: int, rel: int, r: Option<(NonZeroUsize, i64)>) -> bool {
        match r {
            None => nohit(b, y, y + 1, b.len() as int + 1, rel),
            Some((k, e)) => self.fl() <= k@ < self.nn() && fwd_blk(b, bs, y, rel, k@ - self.fl(), e as int),
        }
    }
    pub open spec fn bwd_res(&self, b: Seq<bool>, bs: int, x: int, rel: int, r: Option<(NonZeroUsize, i64)>) -> bool {
        match r {
            None => nohit(b, x, 0, x, rel),
            Some((k, e)) => self.fl() <= k@ < self.nn() && bwd_blk(b, bs, x, rel, k@ - self.fl(), e as int),
        }
    }
    pub proof fn lemma_real(&self, b: Seq<bool>, bs: int, i: int)
        requires self.rep(b, bs), 0 <= i, self.nn() > 0, i < 2 * p2(self.h()) - 1,
        ensures self.real(i) <==> bpos(b, bs, nlo(self.h(), i)) < b.len(),
            self.real(i) ==> bpos(b, bs, nlo(self.h(), i)) < bpos(b, bs, nhi(self.h(), i)) && i < self.nn(),
            i >= self.fl() && i < self.nn() ==> self.real(i),
            self.full(i) ==> i < self.nn() && self.real(i) && bpos(b, bs, nhi(self.h(), i)) == nhi(self.h(), i) * bs,
    {
        self.lemma_rep(b, bs);
        lemma_node(self.h(), i);
        let k = nlo(self.h(), i);
        let l = nblocks(b.len() as int, bs);
        lemma_bpos(b, bs, k, nhi(self.h(), i));
        if k < l { assert(k * bs <= (l - 1) * bs) by (nonlinear_arith) requires k <= l - 1, bs >= 1; }
        else { assert(l * bs <= k * bs) by (nonlinear_arith) requires l <= k, bs >= 1; }
        let e = nhi(self.h(), i);
        if e < l { assert(e * bs <= (l - 1) * bs) by (nonlinear_arith) requires e <= l - 1, bs >= 1; }
    }
    /// a node whose range does not have the excess
    pub proof fn lemma_nhit(&self, b: Seq<bool>, bs: int, i: int, rel: int)
        requires self.rep(b, bs), 0 <= i < self.nn(), rel != 0,
        ensures ({
            let x = bpos(b, bs, nlo(self.h(), i));
            let y = bpos(b, bs, nhi(self.h(), i));
            &&& 0 <= x <= y <= b.len() && self.nodes@[i].total == ex(b, y) - ex(b, x)
            &&& !self.inr(i, rel) <==> nohit(b, x, x + 1, y + 1, rel)
            &&& self.inr(i, rel) <==> hit(b, x, x + 1, y + 1, rel)
            &&& self.inr(i, rel) ==> self.real(i)
            &&& self.real(i) ==> (!self.inb(i, rel) <==> nohit(b, y, x, y, rel))
            &&& self.real(i) ==> (self.inb(i, rel) <==> hit(b, y, x, y, rel))
            &&& self.real(i) ==> self.nodes@[i].min <= self.nodes@[i].total <= self.nodes@[i].max
        }),
    {
        self.lemma_nd(b, bs, i);
        self.lemma_rep(b, bs);
        self.lemma_real(b, bs, i);
        let x = bpos(b, bs, nlo(self.h(), i));
        let y = bpos(b, bs, nhi(self.h(), i));
        let n = self.nodes@[i];
        if x < y {
            lemma_inrange(b, x, y, n.total as int, n.min as int, n.max as int, rel);
            lemma_inrange_b(b, x, y, n.total as int, n.min as int, n.max as int, rel);
            lemma_rng(b, x, y, n.total as int, n.min as int, n.max as int);
            if self.inr(i, rel) {
                let p = choose|p: int| x < p <= y && #[trigger] ex(b, p) - ex(b, x) == rel;
                assert(x + 1 <= p < y + 1 && ex(b, p) - ex(b, x) == rel);
            }
        }
    }
    pub proof fn lemma_fwd_skip(&self, b: Seq<bool>, bs: int, y: int, rel: int, z: int, rel2: int, r: Option<(NonZeroUsize, i64)>)
        requires y <= z <= b.len(), nohit(b, y, y + 1, z + 1, rel), rel2 == rel - (ex(b, z) - ex(b, y)), self.fwd_res(b, bs, z, rel2, r),
        ensures self.fwd_res(b, bs, y, rel, r),
    {
        reveal(fwd_blk);
        let hi = match r { None => b.len() as int + 1, Some((k, e)) => (k@ - self.fl()) * bs + 1 };
        assert forall|p: int| y + 1 <= p < hi implies #[trigger] ex(b, p) - ex(b, y) != rel by {
            if p > z { assert(ex(b, p) - ex(b, z) != rel2); }
        }
    }
    pub proof fn lemma_bwd_skip(&self, b: Seq<bool>, bs: int, x: int, rel: int, z: int, rel2: int, r: Option<(NonZeroUsize, i64)>)
        requires 0 <= z <= x, nohit(b, x, z, x, rel), rel2 == rel - (ex(b, z) - ex(b, x)), self.bwd_res(b, bs, z, rel2, r),
        ensures self.bwd_res(b, bs, x, rel, r),
    {
        reveal(bwd_blk);
        let lo = match r { None => 0, Some((k, e)) => bpos(b, bs, k@ - self.fl() + 1) };
        assert forall|p: int| lo <= p < x implies #[trigger] ex(b, p) - ex(b, x) != rel by {
            if p < z { assert(ex(b, p) - ex(b, z) != rel2); }
        }
    }
    pub proof fn lemma_leaf(&self, b: Seq<bool>, bs: int, i: int, rel: int)
        requires self.rep(b, bs), self.fl() <= i < self.nn(), 0 <= i, rel != 0,
        ensures self.inr(i, rel) ==> fwd_blk(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, i - self.fl(), rel),
            self.inb(i, rel) && self.full(i) ==> bwd_blk(b, bs, bpos(b, bs, nhi(self.h(), i)), rel, i - self.fl(), rel),
    {
        reveal(fwd_blk);
        reveal(bwd_blk);
        self.lemma_rep(b, bs);
        self.lemma_nhit(b, bs, i, rel);
        self.lemma_nd(b, bs, i);
        self.lemma_real(b, bs, i);
    }
}
impl MinMaxTree {
//@@ fn src/trees/mmt.rs MinMaxTree::do_fwd_downwards_search optmap
//@ props C17 C18 C19
//@ spec
    requires self.wf(), node < self.nn(), rel_ok(relative_excess as int), self.real(node as int), self.inr(node as int, relative_excess as int),
    ensures r is Some, forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> self.fwd_res(b, bs, bpos(b, bs, nlo(self.h(), node as int)), relative_excess as int, r),
    decreases self.nn() - node,
//@ start
    proof { self.lemma_fwd_down(node as int, relative_excess as int); }
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::do_fwd_upwards_search
//@ props C17 C18 C19
//@ spec
    requires self.wf(), 0 < node@ < self.nn(), self.relb(node@ as int, relative_excess as int), self.real(node@ as int),
    ensures forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> self.fwd_res(b, bs, bpos(b, bs, nhi(self.h(), node@ as int)), relative_excess as int, r),
    decreases node@,
//@ start
    proof { self.lemma_fwd_up(node@ as int, relative_excess as int); }
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::do_bwd_downwards_search optmap
//@ props C17 C18 C19
//@ spec
    requires self.wf(), node < self.nn(), rel_ok(relative_excess as int), self.full(node as int), self.inb(node as int, relative_excess as int),
    ensures r is Some, forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> self.bwd_res(b, bs, bpos(b, bs, nhi(self.h(), node as int)), relative_excess as int, r),
    decreases self.nn() - node,
//@ start
    proof { self.lemma_bwd_down(node as int, relative_excess as int); }
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::do_bwd_upwards_search
//@ props C17 C18 C19
//@ spec
    requires self.wf(), 0 < node@ < self.nn(), self.relb(node@ as int, relative_excess as int), self.real(node@ as int),
    ensures forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> self.bwd_res(b, bs, bpos(b, bs, nlo(self.h(), node@ as int)), relative_excess as int, r),
    decreases node@,
//@ start
    proof { self.lemma_bwd_up(node@ as int, relative_excess as int); }
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::fwd_search optmap
//@ props C17 C18 C19
//@ spec
    requires self.wf(), self.nn() > 0, begin <= 0x100_0000_0000_0000, relative_excess != 0, -0x2000_0000_0000_0000 <= relative_excess <= 0x2000_0000_0000_0000,
    ensures forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> match r {
        None => nohit(b, bpos(b, bs, begin + 1), bpos(b, bs, begin + 1) + 1, b.len() as int + 1, relative_excess as int),
        Some((k, e)) => fwd_blk(b, bs, bpos(b, bs, begin + 1), relative_excess as int, k as int, e as int),
    },
//@ start
    proof { self.lemma_start(begin as int); }
//@@ end
//@@ fn src/trees/mmt.rs MinMaxTree::bwd_search optmap
//@ props C17 C18 C19
//@ spec
    requires self.wf(), self.nn() > 0, begin < self.nn() - self.fl(), relative_excess != 0, -0x2000_0000_0000_0000 <= relative_excess <= 0x2000_0000_0000_0000,
    ensures forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> match r {
        None => nohit(b, bpos(b, bs, begin as int), 0, bpos(b, bs, begin as int), relative_excess as int),
        Some((k, e)) => bwd_blk(b, bs, bpos(b, bs, begin as int), relative_excess as int, k as int, e as int),
    },
//@ start
    proof { self.lemma_start(begin as int); }
//@@ end
}
pub open spec fn rel_ok(r: int) -> bool { r != 0 && -0x7000_0000_0000_0000 <= r <= 0x7000_0000_0000_0000 }
impl MinMaxTree {
    /// bounds of the stored numbers
    pub proof fn lemma_bnd(&self)
        requires self.wf(), self.nn() > 0,
        ensures shape(self.nn(), self.h()), 1 <= self.fl() < self.nn() <= 0x4000_0000_0000_0000, self.fl() == p2(self.h()) - 1, self.nn() <= 2 * p2(self.h()) - 1,
            forall|i: int| 0 <= i < self.nn() ==> -0x100_0000_0000_0000 <= (#[trigger] self.nodes@[i]).total <= 0x100_0000_0000_0000 && -0x100_0000_0000_0000 <= self.nodes@[i].min <= 0x100_0000_0000_0000 && -0x100_0000_0000_0000 <= self.nodes@[i].max <= 0x100_0000_0000_0000,
    {
        let (b, bs) = choose|b: Seq<bool>, bs: int| self.rep(b, bs);
        self.lemma_rep(b, bs);
        lemma_p2_mono(self.h(), 61);
        assert(p2(61) == 0x2000_0000_0000_0000) by (compute);
        assert forall|i: int| 0 <= i < self.nn() implies -0x100_0000_0000_0000 <= (#[trigger] self.nodes@[i]).total <= 0x100_0000_0000_0000 && -0x100_0000_0000_0000 <= self.nodes@[i].min <= 0x100_0000_0000_0000 && -0x100_0000_0000_0000 <= self.nodes@[i].max <= 0x100_0000_0000_0000 by { self.lemma_nd(b, bs, i); }
    }
    pub proof fn lemma_start(&self, k: int)
        requires self.wf(), self.nn() > 0, 0 <= k,
        ensures 1 <= self.fl() < self.nn() <= 0x4000_0000_0000_0000,
            k + self.fl() < self.nn() ==> self.real(k + self.fl()) && nlo(self.h(), k + self.fl()) == k && nhi(self.h(), k + self.fl()) == k + 1 && dep(k + self.fl()) == self.h(),
            k + self.fl() >= self.nn() ==> forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> bpos(b, bs, k + 1) == b.len(),
    {
        self.lemma_bnd();
        if k + self.fl() < self.nn() { lemma_node(self.h(), k + self.fl()); }
        else {
            assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) implies bpos(b, bs, k + 1) == b.len() by { self.lemma_end(b, bs, k + 1); }
        }
    }
    pub proof fn lemma_fwd_down(&self, i: int, rel: int)
        requires self.wf(), 0 <= i < self.nn(), rel_ok(rel), self.real(i), self.inr(i, rel),
        ensures 1 <= self.fl() < self.nn() <= 0x4000_0000_0000_0000,
            i >= self.fl() ==> i > 0 && forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> fwd_blk(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, i - self.fl(), rel),
            i < self.fl() ==> {
                &&& 2 * i + 1 < self.nn() && self.real(2 * i + 1)
                &&& -0x100_0000_0000_0000 <= self.nodes@[2 * i + 1].total <= 0x100_0000_0000_0000
                &&& self.inr(2 * i + 1, rel) ==> nlo(self.h(), 2 * i + 1) == nlo(self.h(), i)
                &&& !self.inr(2 * i + 1, rel) ==> {
                    let rel2 = rel - self.nodes@[2 * i + 1].total;
                    &&& 2 * i + 2 < self.nn() && self.real(2 * i + 2) && self.inr(2 * i + 2, rel2) && rel_ok(rel2)
                    &&& forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| #![trigger self.rep(b, bs), self.fwd_res(b, bs, bpos(b, bs, nlo(self.h(), 2 * i + 2)), rel2, r)] self.rep(b, bs)
                        && self.fwd_res(b, bs, bpos(b, bs, nlo(self.h(), 2 * i + 2)), rel2, r) ==> self.fwd_res(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, r)
                }
            },
    {
        self.lemma_bnd();
        lemma_node(self.h(), i);
        if i >= self.fl() {
            assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) implies fwd_blk(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, i - self.fl(), rel) by { self.lemma_leaf(b, bs, i, rel); }
        } else {
            let (l, q) = (2 * i + 1, 2 * i + 2);
            lemma_node(self.h(), l);
            lemma_node(self.h(), q);
            lemma_kids(self.h(), i);
            let (b, bs) = choose|b: Seq<bool>, bs: int| self.rep(b, bs);
            self.lemma_kid(b, bs, i);
            self.lemma_real(b, bs, i);
            self.lemma_real(b, bs, l);
            self.lemma_real(b, bs, q);
            self.lemma_nhit(b, bs, i, rel);
            self.lemma_nhit(b, bs, l, rel);
            if !self.inr(l, rel) {
                let rel2 = rel - self.nodes@[l].total;
                let (x, y, z) = (bpos(b, bs, nlo(self.h(), i)), bpos(b, bs, nhi(self.h(), l)), bpos(b, bs, nhi(self.h(), i)));
                assert(hit(b, x, x + 1, z + 1, rel));
                let p = choose|p: int| x + 1 <= p < z + 1 && #[trigger] ex(b, p) - ex(b, x) == rel;
                assert(p > y);
                assert(ex(b, p) - ex(b, y) == rel2);
                assert(q < self.nn());
                assert(rel2 != 0) by { assert(self.nodes@[l].min <= self.nodes@[l].total <= self.nodes@[l].max); }
                self.lemma_nhit(b, bs, q, rel2);
                assert(hit(b, y, y + 1, z + 1, rel2));
                assert forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| self.rep(b, bs)
                        && #[trigger] self.fwd_res(b, bs, bpos(b, bs, nlo(self.h(), 2 * i + 2)), rel2, r) implies self.fwd_res(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, r) by {
                    self.lemma_nhit(b, bs, l, rel);
                    self.lemma_fwd_skip(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, bpos(b, bs, nhi(self.h(), l)), rel2, r);
                }
            }
        }
    }
    pub proof fn lemma_fwd_up(&self, i: int, rel: int)
        requires self.wf(), 0 < i < self.nn(), self.relb(i, rel), self.real(i),
        ensures 1 <= self.fl() < self.nn() <= 0x4000_0000_0000_0000, rel_ok(rel),
            ({
                let u = (i - 1) / 2;
                &&& 0 <= u < i && self.real(u)
                &&& i % 2 == 0 ==> {
                    &&& self.relb(u, rel) && nhi(self.h(), u) == nhi(self.h(), i)
                    &&& u == 0 ==> forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> bpos(b, bs, nhi(self.h(), i)) == b.len()
                }
                &&& i % 2 == 1 && i + 1 >= self.nn() ==> forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> bpos(b, bs, nhi(self.h(), i)) == b.len()
                &&& i % 2 == 1 && i + 1 < self.nn() && self.inr(i + 1, rel) ==> self.real(i + 1) && nlo(self.h(), i + 1) == nhi(self.h(), i)
                &&& i % 2 == 1 && i + 1 < self.nn() && !self.inr(i + 1, rel) ==> {
                    let rel2 = rel - self.nodes@[i + 1].total;
                    &&& -0x100_0000_0000_0000 <= self.nodes@[i + 1].total <= 0x100_0000_0000_0000
                    &&& self.relb(u, rel2)
                    &&& u == 0 ==> forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> nohit(b, bpos(b, bs, nhi(self.h(), i)), bpos(b, bs, nhi(self.h(), i)) + 1, b.len() as int + 1, rel)
                    &&& forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| #![trigger self.rep(b, bs), self.fwd_res(b, bs, bpos(b, bs, nhi(self.h(), u)), rel2, r)] self.rep(b, bs)
                        && self.fwd_res(b, bs, bpos(b, bs, nhi(self.h(), u)), rel2, r) ==> self.fwd_res(b, bs, bpos(b, bs, nhi(self.h(), i)), rel, r)
                }
            }),
    {
        self.lemma_bnd();
        let u = (i - 1) / 2;
        let h = self.h();
        lemma_node(h, i);
        if u >= self.fl() { assert(i >= 2 * p2(h) - 1); }
        lemma_node(h, u);
        lemma_kids(h, u);
        let j = i + 1;
        let (b, bs) = choose|b: Seq<bool>, bs: int| self.rep(b, bs);
        self.lemma_kid(b, bs, u);
        assert(i == 2 * u + 1 || i == 2 * u + 2);
        if u == 0 {
            assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) implies bpos(b, bs, nhi(h, u)) == b.len() by { self.lemma_nd(b, bs, u); }
        }
        if i % 2 == 1 {
            assert(i == 2 * u + 1);
            lemma_node(h, j);
            if j >= self.nn() {
                assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) implies bpos(b, bs, nhi(h, i)) == b.len() by { self.lemma_kid(b, bs, u); }
            } else {
                self.lemma_nhit(b, bs, j, rel);
                if !self.inr(j, rel) {
                    let rel2 = rel - self.nodes@[j].total;
                    assert(rel2 != 0) by {
                        if self.real(j) { assert(self.nodes@[j].min <= self.nodes@[j].total <= self.nodes@[j].max); }
                        else { self.lemma_real(b, bs, j); self.lemma_nd(b, bs, j); }
                    }
                    assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) && u == 0 implies nohit(b, bpos(b, bs, nhi(h, i)), bpos(b, bs, nhi(h, i)) + 1, b.len() as int + 1, rel) by {
                        self.lemma_nhit(b, bs, j, rel);
                    }
                    assert forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| self.rep(b, bs)
                        && #[trigger] self.fwd_res(b, bs, bpos(b, bs, nhi(h, u)), rel2, r) implies self.fwd_res(b, bs, bpos(b, bs, nhi(h, i)), rel, r) by {
                        self.lemma_nhit(b, bs, j, rel);
                        self.lemma_fwd_skip(b, bs, bpos(b, bs, nhi(h, i)), rel, bpos(b, bs, nhi(h, u)), rel2, r);
                    }
                }
            }
        }
    }
    pub proof fn lemma_bwd_down(&self, i: int, rel: int)
        requires self.wf(), 0 <= i < self.nn(), rel_ok(rel), self.full(i), self.inb(i, rel),
        ensures 1 <= self.fl() < self.nn() <= 0x4000_0000_0000_0000,
            i >= self.fl() ==> i > 0 && forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> bwd_blk(b, bs, bpos(b, bs, nhi(self.h(), i)), rel, i - self.fl(), rel),
            i < self.fl() ==> {
                &&& 2 * i + 2 < self.nn() && self.full(2 * i + 1) && self.full(2 * i + 2)
                &&& -0x100_0000_0000_0000 <= self.nodes@[2 * i + 1].total <= 0x100_0000_0000_0000 && -0x100_0000_0000_0000 <= self.nodes@[2 * i + 2].total <= 0x100_0000_0000_0000
                &&& self.inb(2 * i + 2, rel) ==> nhi(self.h(), 2 * i + 2) == nhi(self.h(), i)
                &&& !self.inb(2 * i + 2, rel) ==> {
                    let rel2 = rel + self.nodes@[2 * i + 2].total;
                    &&& self.inb(2 * i + 1, rel2) && rel_ok(rel2) && rel2 <= 0x300_0000_0000_0000 && rel2 >= -0x300_0000_0000_0000
                    &&& forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| #![trigger self.rep(b, bs), self.bwd_res(b, bs, bpos(b, bs, nhi(self.h(), 2 * i + 1)), rel2, r)] self.rep(b, bs)
                        && self.bwd_res(b, bs, bpos(b, bs, nhi(self.h(), 2 * i + 1)), rel2, r) ==> self.bwd_res(b, bs, bpos(b, bs, nhi(self.h(), i)), rel, r)
                }
            },
    {
        self.lemma_bnd();
        let h = self.h();
        lemma_node(h, i);
        if i >= self.fl() {
            assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) implies bwd_blk(b, bs, bpos(b, bs, nhi(self.h(), i)), rel, i - self.fl(), rel) by { self.lemma_leaf(b, bs, i, rel); }
        } else {
            let (l, q) = (2 * i + 1, 2 * i + 2);
            lemma_node(h, l);
            lemma_node(h, q);
            lemma_kids(h, i);
            let (b, bs) = choose|b: Seq<bool>, bs: int| self.rep(b, bs);
            self.lemma_kid(b, bs, i);
            self.lemma_real(b, bs, i);
            self.lemma_real(b, bs, l);
            self.lemma_real(b, bs, q);
            self.lemma_nhit(b, bs, i, rel);
            self.lemma_nhit(b, bs, q, rel);
            if !self.inb(q, rel) {
                let rel2 = rel + self.nodes@[q].total;
                let (x, y, z) = (bpos(b, bs, nlo(h, i)), bpos(b, bs, nhi(h, l)), bpos(b, bs, nhi(h, i)));
                assert(hit(b, z, x, z, rel));
                let p = choose|p: int| x <= p < z && #[trigger] ex(b, p) - ex(b, z) == rel;
                assert(p < y);
                assert(ex(b, p) - ex(b, y) == rel2);
                self.lemma_nhit(b, bs, l, rel2);
                assert(hit(b, y, x, y, rel2));
                assert forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| self.rep(b, bs)
                        && #[trigger] self.bwd_res(b, bs, bpos(b, bs, nhi(h, l)), rel2, r) implies self.bwd_res(b, bs, bpos(b, bs, nhi(h, i)), rel, r) by {
                    self.lemma_nhit(b, bs, q, rel);
                    self.lemma_bwd_skip(b, bs, bpos(b, bs, nhi(h, i)), rel, bpos(b, bs, nhi(h, l)), rel2, r);
                }
            }
        }
    }
    pub proof fn lemma_bwd_up(&self, i: int, rel: int)
        requires self.wf(), 0 < i < self.nn(), self.relb(i, rel), self.real(i),
        ensures 1 <= self.fl() < self.nn() <= 0x4000_0000_0000_0000, rel_ok(rel),
            ({
                let u = (i - 1) / 2;
                &&& 0 <= u < i && self.real(u)
                &&& i % 2 == 1 ==> {
                    &&& self.relb(u, rel) && nlo(self.h(), u) == nlo(self.h(), i)
                    &&& u == 0 ==> forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> bpos(b, bs, nlo(self.h(), i)) == 0
                }
                &&& i % 2 == 0 ==> self.full(i - 1) && nhi(self.h(), i - 1) == nlo(self.h(), i)
                    && -0x100_0000_0000_0000 <= self.nodes@[i - 1].total <= 0x100_0000_0000_0000
                &&& i % 2 == 0 && !self.inb(i - 1, rel) ==> {
                    let rel2 = rel + self.nodes@[i - 1].total;
                    &&& self.relb(u, rel2)
                    &&& u == 0 ==> forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) ==> nohit(b, bpos(b, bs, nlo(self.h(), i)), 0, bpos(b, bs, nlo(self.h(), i)), rel)
                    &&& forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| #![trigger self.rep(b, bs), self.bwd_res(b, bs, bpos(b, bs, nlo(self.h(), u)), rel2, r)] self.rep(b, bs)
                        && self.bwd_res(b, bs, bpos(b, bs, nlo(self.h(), u)), rel2, r) ==> self.bwd_res(b, bs, bpos(b, bs, nlo(self.h(), i)), rel, r)
                }
            }),
    {
        self.lemma_bnd();
        let u = (i - 1) / 2;
        let h = self.h();
        lemma_node(h, i);
        if u >= self.fl() { assert(i >= 2 * p2(h) - 1); }
        lemma_node(h, u);
        lemma_kids(h, u);
        let j = i - 1;
        let (b, bs) = choose|b: Seq<bool>, bs: int| self.rep(b, bs);
        self.lemma_kid(b, bs, u);
        assert(i == 2 * u + 1 || i == 2 * u + 2);
        if u == 0 {
            assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) implies bpos(b, bs, nlo(h, u)) == 0 by { self.lemma_rep(b, bs); lemma_bpos(b, bs, 0, 0); }
        }
        if i % 2 == 0 {
            assert(j == 2 * u + 1);
            lemma_node(h, j);
            self.lemma_real(b, bs, j);
            self.lemma_nhit(b, bs, j, rel);
            if !self.inb(j, rel) {
                let rel2 = rel + self.nodes@[j].total;
                assert forall|b: Seq<bool>, bs: int| #[trigger] self.rep(b, bs) && u == 0 implies nohit(b, bpos(b, bs, nlo(h, i)), 0, bpos(b, bs, nlo(h, i)), rel) by {
                    self.lemma_nhit(b, bs, j, rel);
                }
                assert forall|b: Seq<bool>, bs: int, r: Option<(NonZeroUsize, i64)>| self.rep(b, bs)
                    && #[trigger] self.bwd_res(b, bs, bpos(b, bs, nlo(h, u)), rel2, r) implies self.bwd_res(b, bs, bpos(b, bs, nlo(h, i)), rel, r) by {
                    self.lemma_nhit(b, bs, j, rel);
                    self.lemma_bwd_skip(b, bs, bpos(b, bs, nlo(h, i)), rel, bpos(b, bs, nlo(h, u)), rel2, r);
                }
            }
        }
    }
}
pub proof fn lemma_first_leaf(t: &MinMaxTree)
    requires t.wf(), t.nn() > 0,
    ensures shape(t.nn(), t.h()), t.nn() < 0x8000_0000_0000_0000, t.nn() == 2 ==> t.fl() == 1,
        t.nn() != 2 ==> forall|m: int, k: int| #[trigger] is_clog(m, k) && m == (t.nn() + 1) / 2 ==> k == t.h(),
{
    let (b, bs) = choose|b: Seq<bool>, bs: int| t.rep(b, bs);
    t.lemma_rep(b, bs);
    let h = t.h();
    lemma_p2_mono(h, 62);
    assert(p2(62) == 0x4000_0000_0000_0000) by (compute);
    assert(p2(0) == 1 && p2(1) == 2);
    if t.nn() == 2 && h > 1 { lemma_p2_mono(2, h); assert(p2(2) == 4) by (compute); }
    if t.nn() != 2 {
        assert forall|m: int, k: int| #[trigger] is_clog(m, k) && m == (t.nn() + 1) / 2 implies k == h by {
            if k < h { lemma_p2_mono(k, h - 1); assert(p2(h) == 2 * p2(h - 1)); }
            if k > h { lemma_p2_mono(h, k - 1); }
        }
    }
}
// ---------------------------------------------------------------- construction
impl Default for ExcessNode {
    // derive(Default), trusted: zeros
    fn default() -> (r: Self)
        ensures r.total == 0, r.min == 0, r.max == 0,
    { ExcessNode { total: 0, min: 0, max: 0 } }
}
impl Clone for ExcessNode {
    // derive(Clone), trusted: the same fields
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { ExcessNode { total: self.total, min: self.min, max: self.max } }
}
impl MinMaxTree {
    // derive(Default), trusted: an empty slice
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r.nodes@.len() == 0,
    { unimplemented!() }
}
pub open spec fn nrp(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, i: int) -> bool {
    rng(b, bpos(b, bs, nlo(h, i)), bpos(b, bs, nhi(h, i)), nodes[i].total as int, nodes[i].min as int, nodes[i].max as int)
}
pub open spec fn zero(n: ExcessNode) -> bool { n.total == 0 && n.min == 0 && n.max == 0 }
/// a tree for `b` has height `h` and `n` nodes
pub open spec fn dims(b: Seq<bool>, bs: int, h: int, n: int) -> bool {
    1 <= bs && 0 < b.len() <= 0x100_0000_0000_0000 && shape(n, h) && n - (p2(h) - 1) == nblocks(b.len() as int, bs) && p2(h) <= 0x200_0000_0000
}
pub proof fn lemma_dims(b: Seq<bool>, bs: int, l: int, k: int)
    requires 1 <= bs, 0 < b.len() <= 0x100_0000_0000_0000, l == nblocks(b.len() as int, bs), l <= 0x100_0000_0000, is_clog(l, k),
    ensures ({
        let h = imax(1, k);
        &&& dims(b, bs, h, p2(h) - 1 + l)
        &&& p2(h) - 1 == imax(1, p2(k) - 1)
        &&& 1 <= p2(k) <= 0x100_0000_0000
        &&& 0 <= k <= 40
        &&& imax(1, p2(k) / 2) == p2(h - 1)
        &&& p2(h) == 2 * p2(h - 1)
        &&& forall|c: int| #[trigger] is_clog(l, c) ==> c == k
    }),
{
    lemma_nblocks(b.len() as int, bs);
    assert(p2(40) == 0x100_0000_0000) by (compute);
    assert(p2(0) == 1 && p2(1) == 2) by (compute);
    assert forall|c: int| #[trigger] is_clog(l, c) implies c == k by {
        if c < k { lemma_p2_mono(c, k - 1); } else if k < c { lemma_p2_mono(k, c - 1); }
    }
    if k > 40 { lemma_p2_mono(40, k - 1); }
    lemma_p2_mono(0, k);
    lemma_p2_mono(k, 40);
    if k >= 1 { lemma_p2_mono(0, k - 1); assert(p2(k) == 2 * p2(k - 1)); }
}
pub proof fn lemma_rng1(b: Seq<bool>, i: int)
    requires 0 <= i,
    ensures rng(b, i, i + 1, pm(b[i]), pm(b[i]), pm(b[i])),
{
    lemma_ex_step(b, i);
    assert(ex(b, i + 1) - ex(b, i) == pm(b[i]));
}
/// the run of a block grows by one position
pub proof fn lemma_grow(b: Seq<bool>, x: int, i: int, t: int, mi: int, ma: int)
    requires 0 <= x <= i < b.len() <= 0x100_0000_0000_0000, x < i ==> rng(b, x, i, t, mi, ma), x == i ==> t == 0 && mi == i64::MAX && ma == i64::MIN,
    ensures ({
        let u = t + pm(b[i]);
        &&& -0x100_0000_0000_0000 <= u <= 0x100_0000_0000_0000
        &&& rng(b, x, i + 1, u, imin(mi, u), imax(ma, u))
    }),
{
    lemma_rng1(b, i);
    if x < i { lemma_comb(b, x, i, i + 1, t, mi, ma, pm(b[i]), pm(b[i]), pm(b[i])); }
}
/// a node from its children
pub proof fn lemma_inner(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, i: int)
    requires dims(b, bs, h, nodes.len() as int), 0 <= i < p2(h) - 1,
        2 * i + 1 < nodes.len() ==> nrp(nodes, b, bs, h, 2 * i + 1),
        2 * i + 2 < nodes.len() ==> nrp(nodes, b, bs, h, 2 * i + 2),
    ensures ({
        let (x, y) = (bpos(b, bs, nlo(h, i)), bpos(b, bs, nhi(h, i)));
        let (l, r) = (nodes[2 * i + 1], nodes[2 * i + 2]);
        &&& 2 * i + 1 >= nodes.len() ==> rng(b, x, y, 0, 0, 0)
        &&& 2 * i + 1 < nodes.len() && 2 * i + 2 >= nodes.len() ==> rng(b, x, y, l.total as int, l.min as int, l.max as int)
        &&& 2 * i + 2 < nodes.len() ==> rng(b, x, y, l.total + r.total, imin(l.min as int, l.total + r.min), imax(l.max as int, l.total + r.max))
        &&& 2 * i + 2 < nodes.len() ==> -0x100_0000_0000_0000 <= l.total + r.total <= 0x100_0000_0000_0000
        &&& 2 * i + 2 < nodes.len() ==> -0x100_0000_0000_0000 <= l.total + r.min <= 0x100_0000_0000_0000
        &&& 2 * i + 2 < nodes.len() ==> -0x100_0000_0000_0000 <= l.total + r.max <= 0x100_0000_0000_0000
    }),
{
    let n = nodes.len() as int;
    let t = MinMaxTree { nodes: arbitrary() };
    let l = nblocks(b.len() as int, bs);
    lemma_nblocks(b.len() as int, bs);
    lemma_node(h, i);
    lemma_kids(h, i);
    lemma_node(h, 2 * i + 1);
    lemma_node(h, 2 * i + 2);
    let (p, q, s) = (nlo(h, 2 * i + 1), nlo(h, 2 * i + 2), nhi(h, 2 * i + 2));
    lemma_bpos(b, bs, p, q);
    lemma_bpos(b, bs, q, s);
    if 2 * i + 2 >= n {
        assert(q >= l);
        assert(l * bs <= q * bs) by (nonlinear_arith) requires l <= q, bs >= 1;
    }
    if 2 * i + 1 >= n {
        assert(p >= l);
        assert(l * bs <= p * bs) by (nonlinear_arith) requires l <= p, bs >= 1;
    }
    let (x, y, z) = (bpos(b, bs, p), bpos(b, bs, q), bpos(b, bs, s));
    if 2 * i + 2 < n {
        let (l, r) = (nodes[2 * i + 1], nodes[2 * i + 2]);
        if x < y { lemma_comb(b, x, y, z, l.total as int, l.min as int, l.max as int, r.total as int, r.min as int, r.max as int); }
    }
}
/// the block that is being filled when `i` positions are done
pub open spec fn bkof(i: int, bs: int) -> int { if i <= 0 { 0 } else { (i - 1) / bs } }
pub open spec fn bkdims(i: int, bs: int, l: int) -> bool {
    0 <= bkof(i, bs) < l && bkof(i, bs) * bs <= i <= (bkof(i, bs) + 1) * bs
}
pub open spec fn leaf_rng(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, o: int, q: int) -> bool {
    rng(b, q * bs, (q + 1) * bs, nodes[o + q].total as int, nodes[o + q].min as int, nodes[o + q].max as int)
}
pub open spec fn leaves(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, o: int, k: int) -> bool {
    forall|q: int| 0 <= q < k ==> #[trigger] leaf_rng(nodes, b, bs, o, q)
}
pub proof fn lemma_bkof(i: int, bs: int, l: int, n: int)
    requires 0 <= i <= n, 1 <= bs, l * bs >= n, n >= 1,
    ensures bkdims(i, bs, l), i > 0 ==> bkof(i, bs) * bs < i,
        i < n ==> bkdims(i + 1, bs, l) && bkof(i + 1, bs) == i / bs && bkof(i + 1, bs) * bs <= i,
        i < n && i % bs == 0 ==> bkof(i + 1, bs) * bs == i && (i > 0 ==> bkof(i + 1, bs) == bkof(i, bs) + 1 && (bkof(i, bs) + 1) * bs == i),
        i < n && i % bs != 0 ==> bkof(i + 1, bs) == bkof(i, bs) && bkof(i, bs) * bs < i,
        0 * bs == 0,
{
    let k = bkof(i, bs);
    let m = i / bs;
    assert(0 * bs == 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, bs);
    vstd::arithmetic::div_mod::lemma_mod_bound(i, bs);
    assert(bs * m == m * bs) by (nonlinear_arith);
    assert((m + 1) * bs == m * bs + bs) by (nonlinear_arith);
    assert(m >= 0) by (nonlinear_arith) requires m * bs + bs > i, i >= 0, bs >= 1;
    if i < n { assert(m < l) by (nonlinear_arith) requires m * bs < l * bs, bs >= 1; }
    assert(l > 0) by (nonlinear_arith) requires l * bs >= 1, bs >= 1;
    if i > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i - 1, bs);
        vstd::arithmetic::div_mod::lemma_mod_bound(i - 1, bs);
        assert(bs * k == k * bs) by (nonlinear_arith);
        assert((k + 1) * bs == k * bs + bs) by (nonlinear_arith);
        assert(k >= 0) by (nonlinear_arith) requires k * bs + bs > i - 1, i >= 1, bs >= 1;
        assert(k < l) by (nonlinear_arith) requires k * bs < l * bs, bs >= 1;
        if i % bs == 0 {
            assert(m == k + 1) by (nonlinear_arith) requires m * bs == i, k * bs <= i - 1 < k * bs + bs, bs >= 1;
        } else {
            assert(m == k) by (nonlinear_arith) requires m * bs < i < m * bs + bs, k * bs <= i - 1 < k * bs + bs, bs >= 1;
        }
    }
}
pub proof fn lemma_leaf_nrp(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, i: int)
    requires dims(b, bs, h, nodes.len() as int), p2(h) - 1 <= i < nodes.len(),
        ({
            let l = nblocks(b.len() as int, bs);
            &&& leaves(nodes, b, bs, p2(h) - 1, l - 1)
            &&& i == nodes.len() - 1 ==> rng(b, (l - 1) * bs, b.len() as int, nodes[i].total as int, nodes[i].min as int, nodes[i].max as int)
        }),
    ensures nrp(nodes, b, bs, h, i),
{
    let l = nblocks(b.len() as int, bs);
    lemma_nblocks(b.len() as int, bs);
    lemma_node(h, i);
    let k = i - (p2(h) - 1);
    assert(k * bs <= (l - 1) * bs) by (nonlinear_arith) requires k <= l - 1, bs >= 1;
    if k < l - 1 {
        assert((k + 1) * bs <= (l - 1) * bs) by (nonlinear_arith) requires k + 1 <= l - 1, bs >= 1;
        assert(leaf_rng(nodes, b, bs, p2(h) - 1, k));
    } else {
        if (k + 1) * bs > b.len() {} else { assert((k + 1) * bs == b.len()); }
    }
}
pub open spec fn mknode(t: int, mi: int, ma: int) -> ExcessNode { ExcessNode { total: t as i64, min: mi as i64, max: ma as i64 } }
/// `i` positions have been read; the open block has the given total, minimum and maximum
#[verifier::opaque]
pub open spec fn bst(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, i: int, t: int, mi: int, ma: int) -> bool {
    &&& dims(b, bs, h, nodes.len() as int) && 0 <= i <= b.len()
    &&& i > 0 ==> rng(b, bkof(i, bs) * bs, i, t, mi, ma)
    &&& i == 0 ==> t == 0 && mi == i64::MAX && ma == i64::MIN
    &&& i64::MIN <= mi <= i64::MAX && i64::MIN <= ma <= i64::MAX && -0x100_0000_0000_0000 <= t <= 0x100_0000_0000_0000
    &&& leaves(nodes, b, bs, p2(h) - 1, bkof(i, bs))
    &&& forall|q: int| 0 <= q < p2(h) - 1 ==> zero(#[trigger] nodes[q])
}
pub proof fn lemma_bst_init(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int)
    requires dims(b, bs, h, nodes.len() as int), forall|q: int| 0 <= q < nodes.len() ==> zero(#[trigger] nodes[q]),
    ensures bst(nodes, b, bs, h, 0, 0, i64::MAX as int, i64::MIN as int),
{ reveal(bst); }
/// what the loop body may rely on
pub proof fn lemma_bst(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, i: int, t: int, mi: int, ma: int)
    requires bst(nodes, b, bs, h, i, t, mi, ma),
    ensures -0x100_0000_0000_0000 <= t <= 0x100_0000_0000_0000,
        0 < i < b.len() && i % bs == 0 ==> 1 <= i / bs && p2(h) - 1 + i / bs - 1 < nodes.len(),
{
    reveal(bst);
    lemma_nblocks(b.len() as int, bs);
    lemma_bkof(i, bs, nblocks(b.len() as int, bs), b.len() as int);
}
#[verifier::spinoff_prover]
pub proof fn lemma_bst_step(nodes: Seq<ExcessNode>, nodes2: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, i: int, t: int, mi: int, ma: int, t2: int, mi2: int, ma2: int)
    requires bst(nodes, b, bs, h, i, t, mi, ma), i < b.len(),
        ({
            let cut = i > 0 && i % bs == 0;
            &&& nodes2 == if cut { nodes.update(p2(h) - 1 + i / bs - 1, mknode(t, mi, ma)) } else { nodes }
            &&& t2 == (if cut { 0 } else { t }) + pm(b[i])
            &&& mi2 == imin(if cut { i64::MAX as int } else { mi }, t2)
            &&& ma2 == imax(if cut { i64::MIN as int } else { ma }, t2)
        }),
    ensures bst(nodes2, b, bs, h, i + 1, t2, mi2, ma2),
{
    reveal(bst);
    let l = nblocks(b.len() as int, bs);
    lemma_nblocks(b.len() as int, bs);
    lemma_bkof(i, bs, l, b.len() as int);
    let cut = i > 0 && i % bs == 0;
    let x = bkof(i + 1, bs) * bs;
    lemma_grow(b, x, i, if cut { 0 } else { t }, if cut { i64::MAX as int } else { mi }, if cut { i64::MIN as int } else { ma });
    assert forall|q: int| 0 <= q < bkof(i + 1, bs) implies #[trigger] leaf_rng(nodes2, b, bs, p2(h) - 1, q) by {
        if q < bkof(i, bs) { assert(leaf_rng(nodes, b, bs, p2(h) - 1, q)); }
    }
    assert forall|q: int| 0 <= q < p2(h) - 1 implies zero(#[trigger] nodes2[q]) by { assert(zero(nodes[q])); }
}
/// level `d` is done up to its node `i`
#[verifier::opaque]
pub open spec fn lst(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, d: int, i: int) -> bool {
    &&& dims(b, bs, h, nodes.len() as int) && 0 <= d < h && 0 <= i <= p2(d)
    &&& forall|q: int| p2(d) - 1 <= q < p2(d) - 1 + i || 2 * p2(d) - 1 <= q < nodes.len() ==> #[trigger] nrp(nodes, b, bs, h, q)
    &&& forall|q: int| 0 <= q < p2(d) - 1 || p2(d) - 1 + i <= q < 2 * p2(d) - 1 ==> zero(#[trigger] nodes[q])
}
pub proof fn lemma_lst_init(nodes: Seq<ExcessNode>, nodes2: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, t: int, mi: int, ma: int)
    requires bst(nodes, b, bs, h, b.len() as int, t, mi, ma), nodes2 == nodes.update(nodes.len() - 1, mknode(t, mi, ma)),
    ensures lst(nodes2, b, bs, h, h - 1, 0), p2(h) == 2 * p2(h - 1), nodes.len() > 0,
{
    reveal(bst);
    reveal(lst);
    let l = nblocks(b.len() as int, bs);
    lemma_nblocks(b.len() as int, bs);
    lemma_bkof(b.len() as int, bs, l, b.len() as int);
    lemma_p2_mono(0, h - 1);
    let k = bkof(b.len() as int, bs);
    assert(k == l - 1) by (nonlinear_arith) requires k * bs < b.len() <= (k + 1) * bs, (l - 1) * bs < b.len() <= l * bs, bs >= 1;
    assert forall|q: int| 0 <= q < l - 1 implies #[trigger] leaf_rng(nodes2, b, bs, p2(h) - 1, q) by { assert(leaf_rng(nodes, b, bs, p2(h) - 1, q)); }
    assert forall|i: int| p2(h) - 1 <= i < nodes2.len() implies #[trigger] nrp(nodes2, b, bs, h, i) by { lemma_leaf_nrp(nodes2, b, bs, h, i); }
    assert forall|q: int| 0 <= q < p2(h) - 1 implies zero(#[trigger] nodes2[q]) by { assert(zero(nodes[q])); }
}
pub open spec fn joined(l: ExcessNode, r: ExcessNode) -> ExcessNode {
    mknode(l.total + r.total, imin(l.min as int, l.total + r.min), imax(l.max as int, l.total + r.max))
}
/// what computing node `w` may rely on
pub proof fn lemma_lst(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, d: int, i: int)
    requires lst(nodes, b, bs, h, d, i), i < p2(d),
    ensures ({
        let w = p2(d) - 1 + i;
        let (l, r) = (nodes[2 * w + 1], nodes[2 * w + 2]);
        &&& 0 <= w < nodes.len() <= 0x400_0000_0000 && 0 <= p2(d) <= 0x200_0000_0000
        &&& 2 * w + 2 < nodes.len() ==> -0x100_0000_0000_0000 <= l.total + r.total <= 0x100_0000_0000_0000
        &&& 2 * w + 2 < nodes.len() ==> -0x100_0000_0000_0000 <= l.total + r.min <= 0x100_0000_0000_0000
        &&& 2 * w + 2 < nodes.len() ==> -0x100_0000_0000_0000 <= l.total + r.max <= 0x100_0000_0000_0000
    }),
{
    reveal(lst);
    lemma_p2_mono(d, h);
    lemma_p2_mono(0, d);
    let w = p2(d) - 1 + i;
    if 2 * w + 1 < nodes.len() { assert(nrp(nodes, b, bs, h, 2 * w + 1)); }
    if 2 * w + 2 < nodes.len() { assert(nrp(nodes, b, bs, h, 2 * w + 2)); }
    lemma_inner(nodes, b, bs, h, w);
}
pub proof fn lemma_lst_step(nodes: Seq<ExcessNode>, nodes2: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, d: int, i: int)
    requires lst(nodes, b, bs, h, d, i), i < p2(d),
        ({
            let w = p2(d) - 1 + i;
            nodes2 == if 2 * w + 2 < nodes.len() { nodes.update(w, joined(nodes[2 * w + 1], nodes[2 * w + 2])) }
                else if 2 * w + 1 < nodes.len() { nodes.update(w, nodes[2 * w + 1]) }
                else { nodes }
        }),
    ensures lst(nodes2, b, bs, h, d, i + 1),
{
    lemma_lst(nodes, b, bs, h, d, i);
    reveal(lst);
    lemma_p2_mono(d, h);
    lemma_p2_mono(0, d);
    let w = p2(d) - 1 + i;
    if 2 * w + 1 < nodes.len() { assert(nrp(nodes, b, bs, h, 2 * w + 1)); }
    if 2 * w + 2 < nodes.len() { assert(nrp(nodes, b, bs, h, 2 * w + 2)); }
    lemma_inner(nodes, b, bs, h, w);
    assert(zero(nodes[w]));
    assert(nrp(nodes2, b, bs, h, w));
    assert forall|q: int| p2(d) - 1 <= q < p2(d) - 1 + i + 1 || 2 * p2(d) - 1 <= q < nodes2.len() implies #[trigger] nrp(nodes2, b, bs, h, q) by {
        if q != w { assert(nrp(nodes, b, bs, h, q)); assert(nodes2[q] == nodes[q]); }
    }
    assert forall|q: int| 0 <= q < p2(d) - 1 || p2(d) - 1 + i + 1 <= q < 2 * p2(d) - 1 implies zero(#[trigger] nodes2[q]) by { assert(nodes2[q] == nodes[q]); }
}
pub proof fn lemma_lst_next(nodes: Seq<ExcessNode>, b: Seq<bool>, bs: int, h: int, d: int)
    requires lst(nodes, b, bs, h, d, p2(d)),
    ensures d > 0 ==> lst(nodes, b, bs, h, d - 1, 0) && p2(d) == 2 * p2(d - 1) && p2(d) > 1,
        p2(d - 1) >= 1, d == 0 ==> p2(d) == 1,
        d == 0 ==> forall|i: int| 0 <= i < nodes.len() ==> #[trigger] nrp(nodes, b, bs, h, i),
{
    reveal(lst);
    if d > 0 { lemma_p2_mono(0, d - 1); }
}
impl MinMaxTree {
//@@ fn src/trees/mmt.rs MinMaxTree::excess_tree
//@ props C17 C18 C19
//@ attr
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
//@ spec
    requires bit_vec.wf(), block_size >= 1, bit_vec@.len() <= 0x100_0000_0000_0000, nblocks(bit_vec@.len() as int, block_size as int) <= 0x100_0000_0000,
    ensures r.rep(bit_vec@, block_size as int),
//@ start
    hide(dims);
    hide(nrp);
    hide(rng);
    hide(p2);
    hide(is_clog);
    let ghost b = bit_vec@;
    let ghost bs = block_size as int;
    proof { if b.len() > 0 { lemma_nblocks(b.len() as int, bs); } else { reveal(MinMaxTree::rep); } }
//@ after num_leaves
    let ghost l = num_leaves as int;
    let ghost k = flog(l);
    proof {
        axiom_flog_exact(l);
        lemma_dims(b, bs, l, k);
        lemma_p2_shl(k);
    }
    let ghost h = imax(1, k);
//@ after nodes
    let ghost n = nodes@.len() as int;
    proof { lemma_bst_init(nodes@, b, bs, h); }
//@ loop 0
    invariant
        nodes@.len() == n, bst(nodes@, b, bs, h, i as int, total_excess as int, min_excess as int, max_excess as int),
//@ body 0
    proof { lemma_bst(nodes@, b, bs, h, i as int, total_excess as int, min_excess as int, max_excess as int); }
    let ghost (nodes0, t0, i0, a0) = (nodes@, total_excess, min_excess, max_excess);
//@ bodyend 0
    proof { lemma_bst_step(nodes0, nodes@, b, bs, h, i as int, t0 as int, i0 as int, a0 as int, total_excess as int, min_excess as int, max_excess as int); }
//@ afterloop 0
    let ghost nodes1 = nodes@;
//@ beforeloop 1
    proof { lemma_lst_init(nodes1, nodes@, b, bs, h, total_excess as int, min_excess as int, max_excess as int); }
    let ghost mut d = h - 1;
//@ loop 1
    invariant
        nodes@.len() == n, lst(nodes@, b, bs, h, d, 0), 0 <= d, current_level_size == p2(d), current_level_start == p2(d) - 1,
    ensures forall|i: int| 0 <= i < n ==> #[trigger] nrp(nodes@, b, bs, h, i), nodes@.len() == n,
    decreases d,
//@ loop 2
    invariant
        nodes@.len() == n, lst(nodes@, b, bs, h, d, i as int),
//@ body 2
    let ghost before = nodes@;
    proof { lemma_lst(before, b, bs, h, d, i as int); }
//@ bodyend 2
    proof { lemma_lst_step(before, nodes@, b, bs, h, d, i as int); }
//@ afterloop 2
    proof { lemma_lst_next(nodes@, b, bs, h, d); }
//@ bodyend 1
    proof { d = d - 1; }
//@ tail
    proof { lemma_done(&res__, b, bs, h); }
//@@ end
}
pub proof fn lemma_done(t: &MinMaxTree, b: Seq<bool>, bs: int, h: int)
    requires dims(b, bs, h, t.nn()), forall|i: int| 0 <= i < t.nn() ==> #[trigger] nrp(t.nodes@, b, bs, h, i),
    ensures t.rep(b, bs),
{
    reveal(MinMaxTree::rep);
    lemma_hgt(t.nn(), h);
    assert forall|i: int| 0 <= i < t.nn() implies #[trigger] t.nrep(b, bs, h, i) by { assert(nrp(t.nodes@, b, bs, h, i)); }
}
} // verus!
