// generated by tools/gen_bp16.py from bp.rs
use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
use crate::rsconv::*;
use crate::select::*;
use crate::exc::*;
use crate::mmt::*;
use crate::lutspec::*;
use crate::bpspec::*;
use crate::lut16::{process_block_fwd, process_block_bwd, LOOKUP_BLOCK_SIZE};
//@@ feature bp_u16_lookup
verus! {
//@@ item src/trees/bp/mod.rs const DEFAULT_BLOCK_SIZE
//@@ item src/trees/bp/mod.rs const OPEN_PAREN
//@@ item src/trees/bp/mod.rs const CLOSE_PAREN
//@@ item src/trees/bp/mod.rs struct BpTree
impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
    pub open spec fn view(&self) -> Seq<bool> { self.vec@ }
    pub open spec fn wf(&self) -> bool {
        self.vec.wf() && BLOCK_SIZE >= 1 && self.min_max_tree.rep(self.vec@, BLOCK_SIZE as int) && self.vec@.len() <= 0x100_0000_0000_0000
    }
//@@ fn src/trees/bp/mod.rs BpTree::from_bit_vector key=BpTree::from_bit_vector(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ subst
bv.into() => RsVec::from_bv(bv)
//@ spec
    requires bv.wf(), BLOCK_SIZE >= 1, bv@.len() <= 0x100_0000_0000_0000, nblocks(bv@.len() as int, BLOCK_SIZE as int) <= 0x100_0000_0000,
    ensures r.wf(), r@ == bv@,
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::fwd_search_block key=BpTree::fwd_search_block(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ attr
    #[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), small(*old(relative_excess)),
        block_index * BLOCK_SIZE <= start_index + 1 < (block_index + 1) * BLOCK_SIZE, start_index + 1 < self@.len(),
    ensures match r {
        Ok(i) => fwd_at(self@, start_index + 1, bpos(self@, BLOCK_SIZE as int, block_index + 1), *old(relative_excess) as int, i as int),
        Err(_) => fst(self@, start_index + 1, bpos(self@, BLOCK_SIZE as int, block_index + 1), *old(relative_excess) as int, *final(relative_excess) as int) && *final(relative_excess) != 0,
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    let ghost b = self@;
    let ghost s = start_index + 1;
    let ghost rel = *relative_excess as int;
    let ghost e = bpos(b, BLOCK_SIZE as int, block_index + 1);
    let ghost lbs = LOOKUP_BLOCK_SIZE as int;
    proof { lemma_fst_init(b, s, rel); lemma_blk_bound(b, BLOCK_SIZE as int, block_index as int, s); lemma_fbound(s, e, lbs); }
//@ loop 0
    invariant
        lookup_boundary <= e, s <= i <= lookup_boundary, fst(b, s, i as int, rel, *relative_excess as int),
//@ body 0
    proof { lemma_fst(b, s, i as int, rel, *relative_excess as int); }
//@ loop 1
    invariant
        upper_lookup_boundary <= e, lookup_boundary <= i__s <= upper_lookup_boundary, i__hi == upper_lookup_boundary,
        i__s == upper_lookup_boundary || i__s as int % lbs == 0 && upper_lookup_boundary as int % lbs == 0,
        fst(b, s, i__s as int, rel, *relative_excess as int),
    decreases i__hi - i__s,
//@ body 1
    let ghost cur = *relative_excess as int;
    proof {
        lemma_fst(b, s, i as int, rel, cur);
        lemma_blk_step(i as int, upper_lookup_boundary as int, lbs);
        lemma_word(b, i as int, lbs);
        lemma_pb(b, s, i as int, rel, cur, lbs);
    }
//@ loop 2
    invariant
        block_boundary == e, upper_lookup_boundary <= i <= block_boundary, fst(b, s, i as int, rel, *relative_excess as int),
//@ body 2
    proof { lemma_fst(b, s, i as int, rel, *relative_excess as int); }
//@ tail
    proof { lemma_fst(b, s, e, rel, *relative_excess as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::bwd_search_block key=BpTree::bwd_search_block(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ attr
    #[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), small(*old(relative_excess)),
        block_index * BLOCK_SIZE <= start_index - 1 < (block_index + 1) * BLOCK_SIZE, 1 <= start_index <= self@.len(),
    ensures match r {
        Ok(i) => bwd_at(self@, start_index as int, bpos(self@, BLOCK_SIZE as int, block_index as int), *old(relative_excess) as int, i as int),
        Err(_) => bst_(self@, start_index as int, bpos(self@, BLOCK_SIZE as int, block_index as int), *old(relative_excess) as int, *final(relative_excess) as int) && *final(relative_excess) != 0,
    },
//@ start
    hide(RsVec::wf); hide(RsVec::view);
    let ghost b = self@;
    let ghost s = start_index as int;
    let ghost rel = *relative_excess as int;
    let ghost x = bpos(b, BLOCK_SIZE as int, block_index as int);
    let ghost lbs = LOOKUP_BLOCK_SIZE as int;
    proof { lemma_bst_init_(b, s, rel); lemma_blk_bound(b, BLOCK_SIZE as int, block_index as int, s - 1); lemma_bbound(x, s, lbs); }
//@ loop 0
    invariant
        x <= lookup_boundary == i__lo, lookup_boundary < s, lookup_boundary <= i__s <= s, bst_(b, s, i__s as int, rel, *relative_excess as int),
    decreases i__s,
//@ body 0
    proof { lemma_bst_(b, s, i__s + 1, rel, *relative_excess as int); }
//@ beforeloop 1
    proof { lemma_bsteps(lower_lookup_boundary as int, lookup_boundary as int, lbs); }
//@ loop 1
    invariant
        x <= lower_lookup_boundary == i__lo <= lookup_boundary == i__hi, i__lo + i__n * lbs <= i__hi,
        bst_(b, s, i__lo + i__n * lbs, rel, *relative_excess as int),
    decreases i__n,
//@ body 1
    let ghost cur = *relative_excess as int;
    proof {
        lemma_bst_(b, s, i + lbs, rel, cur);
        lemma_word(b, i as int, lbs);
        lemma_pbb(b, s, i as int, rel, cur, lbs);
    }
//@ loop 2
    invariant
        block_boundary == x == i__lo, x <= i__s <= lower_lookup_boundary, bst_(b, s, i__s as int, rel, *relative_excess as int),
    decreases i__s,
//@ body 2
    proof { lemma_bst_(b, s, i__s + 1, rel, *relative_excess as int); }
//@ tail
    proof { lemma_bst_(b, s, x, rel, *relative_excess as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::fwd_search key=BpTree::fwd_search(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ spec
    requires self.wf(), -0x1000_0000_0000_0000 <= relative_excess <= 0x1000_0000_0000_0000,
    ensures match r {
        None => index < self@.len() ==> nohit(self@, index + 1, index + 2, self@.len() as int + 1, relative_excess as int),
        Some(i) => index < self@.len() && fwd_at(self@, index + 1, self@.len() as int, relative_excess as int, i as int),
    },
//@ start
    proof { self.lemma_fs(index as int, relative_excess as int); }
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::bwd_search key=BpTree::bwd_search(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ spec
    requires self.wf(), -0x1000_0000_0000_0000 <= relative_excess <= 0x1000_0000_0000_0000,
    ensures match r {
        None => index < self@.len() ==> nohit(self@, index as int, 0, index as int, relative_excess as int),
        Some(i) => index < self@.len() && bwd_at(self@, index as int, 0, relative_excess as int, i as int),
    },
//@ start
    proof { self.lemma_bs(index as int, relative_excess as int); }
//@@ end
    /// what the search in the first block and in the tree give together
    pub proof fn lemma_fs(&self, index: int, rel: int)
        requires self.wf(), 0 <= index, -0x1000_0000_0000_0000 <= rel <= 0x1000_0000_0000_0000,
        ensures index + 1 < self@.len() ==> {
            let b = self@;
            let bs = BLOCK_SIZE as int;
            let k = (index + 1) / bs;
            let s = index + 1;
            &&& self.min_max_tree.wf() && self.min_max_tree.nn() > 0
            &&& 0 <= k <= 0x100_0000_0000_0000 && k * bs <= s < (k + 1) * bs
            &&& forall|i: int| #[trigger] fwd_at(b, s, bpos(b, bs, k + 1), rel, i) ==> fwd_at(b, s, b.len() as int, rel, i)
            &&& forall|cur: int| #[trigger] fst(b, s, bpos(b, bs, k + 1), rel, cur) ==> {
                &&& -0x2000_0000_0000_0000 <= cur <= 0x2000_0000_0000_0000
                &&& nohit(b, bpos(b, bs, k + 1), bpos(b, bs, k + 1) + 1, b.len() as int + 1, cur) ==> nohit(b, s, s + 1, b.len() as int + 1, rel)
                &&& forall|k2: int, cur2: int| #[trigger] fwd_blk(b, bs, bpos(b, bs, k + 1), cur, k2, cur2) ==> {
                    &&& 1 <= k2 && 1 <= k2 * bs <= k2 * bs < (k2 + 1) * bs && k2 * bs < b.len() && -0x3000_0000_0000_0000 <= cur2 <= 0x3000_0000_0000_0000
                    &&& forall|i: int| #[trigger] fwd_at(b, k2 * bs, bpos(b, bs, k2 + 1), cur2, i) ==> fwd_at(b, s, b.len() as int, rel, i)
                    &&& forall|c: int| !#[trigger] fst(b, k2 * bs, bpos(b, bs, k2 + 1), cur2, c)
                }
            }
        },
    {
        reveal(fst);
        reveal(fwd_blk);
        let b = self@;
        let bs = BLOCK_SIZE as int;
        let k = (index + 1) / bs;
        let s = index + 1;
        if s < b.len() {
            self.min_max_tree.lemma_rep(b, bs);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, bs);
            vstd::arithmetic::div_mod::lemma_mod_bound(s, bs);
            assert((k + 1) * bs == k * bs + bs) by (nonlinear_arith);
            assert(k * bs == bs * k) by (nonlinear_arith);
            if k < 0 { assert(k * bs + bs <= 0) by (nonlinear_arith) requires k <= -1, bs >= 1; }
            lemma_blk_bound(b, bs, k, s);
            let e = bpos(b, bs, k + 1);
            assert forall|cur: int| #[trigger] fst(b, s, e, rel, cur) implies {
                &&& -0x2000_0000_0000_0000 <= cur <= 0x2000_0000_0000_0000
                &&& nohit(b, e, e + 1, b.len() as int + 1, cur) ==> nohit(b, s, s + 1, b.len() as int + 1, rel)
                &&& forall|k2: int, cur2: int| #[trigger] fwd_blk(b, bs, e, cur, k2, cur2) ==> {
                    &&& 1 <= k2 && 1 <= k2 * bs < (k2 + 1) * bs && k2 * bs < b.len() && -0x3000_0000_0000_0000 <= cur2 <= 0x3000_0000_0000_0000
                    &&& forall|i: int| #[trigger] fwd_at(b, k2 * bs, bpos(b, bs, k2 + 1), cur2, i) ==> fwd_at(b, s, b.len() as int, rel, i)
                    &&& forall|c: int| !#[trigger] fst(b, k2 * bs, bpos(b, bs, k2 + 1), cur2, c)
                }
            } by {
                lemma_ex_bound(b, s, e);
                if nohit(b, e, e + 1, b.len() as int + 1, cur) {
                    assert forall|p: int| s + 1 <= p < b.len() + 1 implies #[trigger] ex(b, p) - ex(b, s) != rel by {
                        if p > e { assert(ex(b, p) - ex(b, e) != cur); }
                    }
                }
                assert forall|k2: int, cur2: int| #[trigger] fwd_blk(b, bs, e, cur, k2, cur2) implies {
                    &&& 1 <= k2 && 1 <= k2 * bs < (k2 + 1) * bs && k2 * bs < b.len() && -0x3000_0000_0000_0000 <= cur2 <= 0x3000_0000_0000_0000
                    &&& forall|i: int| #[trigger] fwd_at(b, k2 * bs, bpos(b, bs, k2 + 1), cur2, i) ==> fwd_at(b, s, b.len() as int, rel, i)
                    &&& forall|c: int| !#[trigger] fst(b, k2 * bs, bpos(b, bs, k2 + 1), cur2, c)
                } by {
                    let s2 = k2 * bs;
                    let e2 = bpos(b, bs, k2 + 1);
                    assert((k2 + 1) * bs == s2 + bs) by (nonlinear_arith) requires s2 == k2 * bs;
                    if k2 < 1 { assert(s2 <= 0) by (nonlinear_arith) requires s2 == k2 * bs, bs >= 1, k2 < 1; }
                    lemma_ex_bound(b, e, s2);
                    lemma_blk_bound(b, bs, k2, s2);
                    assert forall|i: int| #[trigger] fwd_at(b, s2, e2, cur2, i) implies fwd_at(b, s, b.len() as int, rel, i) by {
                        assert forall|p: int| s + 1 <= p < i + 1 implies #[trigger] ex(b, p) - ex(b, s) != rel by {
                            if p > s2 { assert(ex(b, p) - ex(b, s2) != cur2); }
                            else if p > e { assert(ex(b, p) - ex(b, e) != cur); }
                        }
                    }
                    let p = choose|p: int| s2 + 1 <= p < e2 + 1 && #[trigger] ex(b, p) - ex(b, s2) == cur2;
                    assert forall|c: int| !#[trigger] fst(b, s2, e2, cur2, c) by {
                        if fst(b, s2, e2, cur2, c) { assert(ex(b, p) - ex(b, s2) != cur2); }
                    }
                }
            }
        } else if s == b.len() {
        }
    }
    pub proof fn lemma_bs(&self, index: int, rel: int)
        requires self.wf(), 0 <= index, -0x1000_0000_0000_0000 <= rel <= 0x1000_0000_0000_0000,
        ensures 0 < index < self@.len() ==> {
            let b = self@;
            let bs = BLOCK_SIZE as int;
            let k = (index - 1) / bs;
            let s = index;
            &&& self.min_max_tree.wf() && self.min_max_tree.nn() > 0
            &&& 0 <= k < self.min_max_tree.nn() - self.min_max_tree.fl() && k * bs <= s - 1 < (k + 1) * bs
            &&& forall|i: int| #[trigger] bwd_at(b, s, bpos(b, bs, k), rel, i) ==> bwd_at(b, s, 0, rel, i)
            &&& forall|cur: int| #[trigger] bst_(b, s, bpos(b, bs, k), rel, cur) ==> {
                &&& -0x2000_0000_0000_0000 <= cur <= 0x2000_0000_0000_0000
                &&& nohit(b, bpos(b, bs, k), 0, bpos(b, bs, k), cur) ==> nohit(b, s, 0, s, rel)
                &&& forall|k2: int, cur2: int| #[trigger] bwd_blk(b, bs, bpos(b, bs, k), cur, k2, cur2) ==> {
                    &&& 0 <= k2 <= 0x100_0000_0000_0000 && k2 * bs <= (k2 + 1) * bs - 1 < (k2 + 1) * bs <= b.len() && -0x3000_0000_0000_0000 <= cur2 <= 0x3000_0000_0000_0000 && 1 <= (k2 + 1) * bs
                    &&& forall|i: int| #[trigger] bwd_at(b, (k2 + 1) * bs, bpos(b, bs, k2), cur2, i) ==> bwd_at(b, s, 0, rel, i)
                    &&& forall|c: int| !#[trigger] bst_(b, (k2 + 1) * bs, bpos(b, bs, k2), cur2, c)
                }
            }
        },
    {
        reveal(bst_);
        reveal(bwd_blk);
        let b = self@;
        let bs = BLOCK_SIZE as int;
        let k = (index - 1) / bs;
        let s = index;
        if 0 < s < b.len() {
            self.min_max_tree.lemma_rep(b, bs);
            let mm = self.min_max_tree;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s - 1, bs);
            vstd::arithmetic::div_mod::lemma_mod_bound(s - 1, bs);
            assert((k + 1) * bs == k * bs + bs) by (nonlinear_arith);
            assert(k * bs == bs * k) by (nonlinear_arith);
            if k < 0 { assert(k * bs + bs <= 0) by (nonlinear_arith) requires k <= -1, bs >= 1; }
            lemma_blk_bound(b, bs, k, s - 1);
            let nb = nblocks(b.len() as int, bs);
            if k >= nb { assert(k * bs >= nb * bs) by (nonlinear_arith) requires k >= nb, bs >= 1; }
            let x = bpos(b, bs, k);
            assert forall|cur: int| #[trigger] bst_(b, s, x, rel, cur) implies {
                &&& -0x2000_0000_0000_0000 <= cur <= 0x2000_0000_0000_0000
                &&& nohit(b, x, 0, x, cur) ==> nohit(b, s, 0, s, rel)
                &&& forall|k2: int, cur2: int| #[trigger] bwd_blk(b, bs, x, cur, k2, cur2) ==> {
                    &&& 0 <= k2 <= 0x100_0000_0000_0000 && k2 * bs <= (k2 + 1) * bs - 1 < (k2 + 1) * bs <= b.len() && -0x3000_0000_0000_0000 <= cur2 <= 0x3000_0000_0000_0000 && 1 <= (k2 + 1) * bs
                    &&& forall|i: int| #[trigger] bwd_at(b, (k2 + 1) * bs, bpos(b, bs, k2), cur2, i) ==> bwd_at(b, s, 0, rel, i)
                    &&& forall|c: int| !#[trigger] bst_(b, (k2 + 1) * bs, bpos(b, bs, k2), cur2, c)
                }
            } by {
                lemma_ex_bound(b, x, s);
                if nohit(b, x, 0, x, cur) {
                    assert forall|p: int| 0 <= p < s implies #[trigger] ex(b, p) - ex(b, s) != rel by {
                        if p < x { assert(ex(b, p) - ex(b, x) != cur); }
                    }
                }
                assert forall|k2: int, cur2: int| #[trigger] bwd_blk(b, bs, x, cur, k2, cur2) implies {
                    &&& 0 <= k2 <= 0x100_0000_0000_0000 && k2 * bs <= (k2 + 1) * bs - 1 < (k2 + 1) * bs <= b.len() && -0x3000_0000_0000_0000 <= cur2 <= 0x3000_0000_0000_0000 && 1 <= (k2 + 1) * bs
                    &&& forall|i: int| #[trigger] bwd_at(b, (k2 + 1) * bs, bpos(b, bs, k2), cur2, i) ==> bwd_at(b, s, 0, rel, i)
                    &&& forall|c: int| !#[trigger] bst_(b, (k2 + 1) * bs, bpos(b, bs, k2), cur2, c)
                } by {
                    let x2 = k2 * bs;
                    let e2 = (k2 + 1) * bs;
                    assert(e2 == x2 + bs) by (nonlinear_arith) requires x2 == k2 * bs, e2 == (k2 + 1) * bs;
                    assert(x2 >= k2) by (nonlinear_arith) requires x2 == k2 * bs, bs >= 1, k2 >= 0;
                    lemma_ex_bound(b, e2, x);
                    assert forall|i: int| #[trigger] bwd_at(b, e2, x2, cur2, i) implies bwd_at(b, s, 0, rel, i) by {
                        assert forall|p: int| i + 1 <= p < s implies #[trigger] ex(b, p) - ex(b, s) != rel by {
                            if p < e2 { assert(ex(b, p) - ex(b, e2) != cur2); }
                            else if p < x { assert(ex(b, p) - ex(b, x) != cur); }
                        }
                    }
                    let p = choose|p: int| x2 <= p < e2 && #[trigger] ex(b, p) - ex(b, e2) == cur2;
                    assert forall|c: int| !#[trigger] bst_(b, e2, x2, cur2, c) by {
                        if bst_(b, e2, x2, cur2, c) { assert(ex(b, p) - ex(b, e2) != cur2); }
                    }
                }
            }
        }
    }
//@@ fn src/trees/bp/mod.rs BpTree::close key=BpTree::close(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ spec
    requires self.wf(),
    ensures match r {
        None => index < self@.len() ==> nohit(self@, index + 1, index + 2, self@.len() as int + 1, -1),
        Some(i) => index < self@.len() && fwd_at(self@, index + 1, self@.len() as int, -1, i as int),
    },
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::open key=BpTree::open(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ spec
    requires self.wf(),
    ensures match r {
        None => index < self@.len() ==> nohit(self@, index as int, 0, index as int, -1),
        Some(i) => index < self@.len() && bwd_at(self@, index as int, 0, -1, i as int),
    },
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::enclose key=BpTree::enclose(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ spec
    requires self.wf(),
    ensures index < self@.len() ==> ({
        let d = if self@[index as int] { -1int } else { -2int };
        match r {
            None => nohit(self@, index as int, 0, index as int, d),
            Some(i) => bwd_at(self@, index as int, 0, d, i as int),
        }
    }), index >= self@.len() ==> r is None,
//@@ end
//@@ fn src/trees/bp/mod.rs BpTree::excess key=BpTree::excess(bp_u16_lookup)
//@ props C17 C18 C19 C22
//@ spec
    requires self.wf(), index < self@.len(),
    ensures r == ex(self@, index + 1),
//@ start
    proof { lemma_ex_bound(self@, 0, index + 1); assert(rank1(self@, 0) == 0); }
//@@ end
}
} // verus!
